"""Less usual library idioms in the search, the graph, the metric and k-means."""
LN = "src/math/neighbors/linear.rs"
ST = "src/math/graph/spanning_tree.rs"
ME = "src/math/distance/metric.rs"
KM = "src/math/clustering/kmeans/algorithm.rs"
SORT = """        neighbors.sort_unstable_by(|neighbor1, neighbor2| -> Ordering {
            neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()
        });

        let mut results = Vec::with_capacity(k.min(neighbors.len()));
        results.extend(neighbors.into_iter().take(k));
        results
"""
RAD = """        let mut neighbors = Vec::new();
        for (index, point) in self.dataset.iter().enumerate() {
            let distance = self.metric.measure(point, query);
            if distance <= radius {
                neighbors.push(Neighbor::new(index, distance));
            }
        }
        neighbors
"""
FOLD = """            DistanceMetric::SquaredEuclidean => lhs
                .sub(*rhs)
                .to_vec()
                .iter()
                .fold(F::zero(), |total, delta| total + delta.powi(2)),
"""
INNER = """            while let Some(edge) = candidates.pop() {
                if !attached.contains(&edge.v()) {
                    current_index = edge.v();
                    total_weight += edge.weight();
                    edges.push(edge);
                    attached.insert(current_index);
                    break;
                }
            }
"""
SCAN = """            for index in 0..n_vertices {
                if index == current_index || attached.contains(&index) {
                    continue;
                }

                let weight = weight_fn(current_index, index);
                candidates.push(WeightedEdge::new(current_index, index, weight));
            }
"""
OLD = """        let mut centroids = Vec::with_capacity(clusters.len());
        for cluster in clusters.iter_mut() {
            centroids.push(*cluster.centroid());
            cluster.clear();
        }
"""
ASSIGN = """        dataset.iter().enumerate().for_each(|(index, data)| {
            let result = nns.search_nearest(data);
            if let Some(nearest) = result {
                let cluster = clusters
                    .get_mut(nearest.index)
                    .expect("No cluster is found");
                cluster.insert(index, data);
            }
        });
"""
UPD = """        let mut converged = true;
        clusters
            .iter_mut()
            .zip(centroids)
            .for_each(|(cluster, old_centroid)| {
                if cluster.is_empty() {
                    *cluster = Cluster::new(&old_centroid);
                    return;
                }

                cluster.update_centroid();

                let difference = metric.measure(&old_centroid, cluster.centroid());
                if !(difference < tolerance) {
                    converged = false;
                }
            });
        converged
"""
ROUNDS = """        for _ in 0..params.max_iterations() {
            let converged =
                Self::reassign(dataset, &mut clusters, params.metric(), params.tolerance());
            if converged {
                break;
            }
        }
"""
BIG = """            let clusters = dataset
                .iter()
                .enumerate()
                .map(|(index, data)| {
                    let mut cluster = Cluster::new(data);
                    cluster.clear();
                    cluster.insert(index, data);
                    cluster
                })
                .collect();
"""
EDITS = [
("t9-ln-drain","",[(LN,SORT,SORT.replace("results.extend(neighbors.into_iter().take(k));","let count = k.min(neighbors.len());\n        results.extend(neighbors.drain(..count));"))]),
("t9-ln-splitoff","",[(LN,SORT,SORT[:SORT.index("        let mut results")]+"        if neighbors.len() > k {\n            let _ = neighbors.split_off(k);\n        }\n        neighbors\n")]),
("t9-ln-splitoff-bug","C08 C09",[(LN,SORT,SORT[:SORT.index("        let mut results")]+"        if neighbors.len() > k {\n            return neighbors.split_off(neighbors.len() - k);\n        }\n        neighbors\n")]),
("t9-ln-then","",[(LN,SORT,SORT.replace("neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()","neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap().then_with(|| neighbor1.index.cmp(&neighbor2.index))"))]),
("t9-ln-totalor","",[(LN,SORT,SORT.replace("neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()","neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap_or(Ordering::Equal)"))]),
("t9-ln-selnth","",[(LN,SORT,"        if k < neighbors.len() {\n            neighbors.select_nth_unstable_by(k, |a: &Neighbor<F>, b: &Neighbor<F>| -> Ordering { a.distance.partial_cmp(&b.distance).unwrap() });\n            neighbors.truncate(k);\n        }\n"+SORT)]),
("t9-ln-selnth-bug","C09",[(LN,SORT,"        if k < neighbors.len() {\n            neighbors.select_nth_unstable_by(k, |a: &Neighbor<F>, b: &Neighbor<F>| -> Ordering { a.distance.partial_cmp(&b.distance).unwrap() });\n            neighbors.truncate(k);\n            return neighbors;\n        }\n"+SORT)]),
("t9-rad-filtermap","",[(LN,RAD,"""        self.dataset
            .iter()
            .enumerate()
            .filter_map(|(index, point)| {
                let distance = self.metric.measure(point, query);
                (distance <= radius).then(|| Neighbor::new(index, distance))
            })
            .collect()
""")]),
("t9-rad-flatmap","",[(LN,RAD,"""        self.dataset
            .iter()
            .enumerate()
            .flat_map(|(index, point)| {
                let distance = self.metric.measure(point, query);
                if distance > radius { None } else { Some(Neighbor::new(index, distance)) }
            })
            .collect()
""")]),
("t9-rad-retain","",[(LN,RAD,"""        let mut neighbors: Vec<Neighbor<F>> = self
            .dataset
            .iter()
            .enumerate()
            .map(|(index, point)| Neighbor::new(index, self.metric.measure(point, query)))
            .collect();
        neighbors.retain(|neighbor| neighbor.distance <= radius);
        neighbors
""")]),
("t9-rad-retain-bug","C08",[(LN,RAD,"""        let mut neighbors: Vec<Neighbor<F>> = self
            .dataset
            .iter()
            .enumerate()
            .map(|(index, point)| Neighbor::new(index, self.metric.measure(point, query)))
            .collect();
        neighbors.retain(|neighbor| neighbor.distance < radius || neighbor.distance == F::zero());
        neighbors
""")]),
("t9-rad-position","C08",[(LN,RAD,RAD.replace("        neighbors\n","        if let Some(first) = neighbors.iter().position(|neighbor| neighbor.distance == F::zero()) {\n            neighbors.swap(0, first);\n            neighbors.truncate(1024);\n        }\n        neighbors\n"))]),
("t9-me-sum","",[(ME,FOLD,"""            DistanceMetric::SquaredEuclidean => {
                let mut total = F::zero();
                for delta in lhs.sub(*rhs).to_vec() {
                    total += delta * delta;
                }
                total
            }
""")]),
("t9-me-muladd","",[(ME,FOLD,FOLD.replace("total + delta.powi(2)","*delta * *delta + total"))]),
("t9-me-skipzero","",[(ME,FOLD,FOLD.replace(".fold(",".filter(|delta| **delta != F::zero())\n                .fold("))]),
("t9-me-skipnear","C13",[(ME,FOLD,FOLD.replace(".fold(",".filter(|delta| delta.abs() > F::epsilon())\n                .fold("))]),
("t9-me-rev","",[(ME,FOLD,"""            DistanceMetric::SquaredEuclidean => rhs
                .sub(*lhs)
                .to_vec()
                .into_iter()
                .map(|delta| delta.powi(2))
                .fold(F::zero(), |total, square| total + square),
""")]),
("t9-me-reduce","",[(ME,FOLD,"""            DistanceMetric::SquaredEuclidean => lhs
                .sub(*rhs)
                .to_vec()
                .into_iter()
                .map(|delta| delta.powi(2))
                .reduce(|total, square| total + square)
                .unwrap_or_else(F::zero),
""")]),
("t9-me-max","C13",[(ME,FOLD,FOLD.replace("total + delta.powi(2)","total.max(total + delta.abs() * *delta)"))]),
("t9-st-iter","",[(ST,SCAN,"""            candidates.extend(
                (0..n_vertices)
                    .filter(|index| *index != current_index && !attached.contains(index))
                    .map(|index| WeightedEdge::new(current_index, index, weight_fn(current_index, index))),
            );
""")]),
("t9-st-iter-bug","C17 C18",[(ST,SCAN,"""            candidates.extend(
                (0..n_vertices)
                    .filter(|index| *index != current_index && !attached.contains(index))
                    .take(1 << 20)
                    .map(|index| WeightedEdge::new(current_index, index, weight_fn(current_index, index))),
            );
""")]),
("t9-st-skipwhile","",[(ST,INNER,"""            while let Some(edge) = candidates.pop() {
                if !attached.insert(edge.v()) {
                    continue;
                }
                current_index = edge.v();
                total_weight += edge.weight();
                edges.push(edge);
                break;
            }
""")]),
("t9-st-fromfn","",[(ST,INNER,"""            let next = std::iter::from_fn(|| candidates.pop()).find(|edge| !attached.contains(&edge.v()));
            if let Some(edge) = next {
                current_index = edge.v();
                total_weight += edge.weight();
                edges.push(edge);
                attached.insert(current_index);
            }
""")]),
("t9-st-loop","",[(ST,INNER,"""            let edge = loop {
                match candidates.pop() {
                    Some(edge) if attached.contains(&edge.v()) => continue,
                    other => break other,
                }
            };
            if let Some(edge) = edge {
                current_index = edge.v();
                total_weight += edge.weight();
                attached.insert(edge.v());
                edges.push(edge);
            }
""")]),
("t9-st-retain","",[(ST,INNER,INNER.replace("                    break;\n","                    candidates.retain(|candidate| candidate.v() != current_index);\n                    break;\n"))]),
("t9-st-retain-bug","C17 C18",[(ST,INNER,INNER.replace("                    break;\n","                    candidates.retain(|candidate| candidate.u() != current_index);\n                    break;\n"))]),
("t9-st-bits","",[(ST,"        let mut attached = HashSet::with_capacity(n_vertices);\n","        let mut attached = vec![false; n_vertices];\n        let mut n_attached = 1;\n"),
  (ST,"        attached.insert(current_index);\n        while attached.len() < n_vertices {","        attached[current_index] = true;\n        while n_attached < n_vertices {"),
  (ST,"index == current_index || attached.contains(&index)","attached[index]"),
  (ST,INNER,INNER.replace("!attached.contains(&edge.v())","!attached[edge.v()]").replace("attached.insert(current_index);","attached[current_index] = true;\n                    n_attached += 1;"))]),
("t9-km-replace","",[(KM,OLD,"""        let centroids: Vec<P> = clusters
            .iter_mut()
            .map(|cluster| {
                let centroid = *cluster.centroid();
                cluster.clear();
                centroid
            })
            .collect();
""")]),
("t9-km-two","",[(KM,OLD,"""        let centroids: Vec<P> = clusters.iter().map(|cluster| *cluster.centroid()).collect();
        clusters.iter_mut().for_each(Cluster::clear);
""")]),
("t9-km-index","",[(KM,ASSIGN,"""        for (index, data) in dataset.iter().enumerate() {
            let Some(nearest) = nns.search_nearest(data) else {
                continue;
            };
            clusters[nearest.index].insert(index, data);
        }
""")]),
("t9-km-index-bug","C20 C02",[(KM,ASSIGN,"""        for (index, data) in dataset.iter().enumerate() {
            let Some(nearest) = nns.search_nearest(data) else {
                break;
            };
            if clusters[nearest.index].size() < u16::MAX as usize {
                clusters[nearest.index].insert(index, data);
            }
        }
""")]),
("t9-km-all","",[(KM,UPD,"""        let mut moved = 0usize;
        for (cluster, old_centroid) in clusters.iter_mut().zip(centroids) {
            if cluster.is_empty() {
                *cluster = Cluster::new(&old_centroid);
                continue;
            }
            cluster.update_centroid();
            if !(metric.measure(&old_centroid, cluster.centroid()) < tolerance) {
                moved += 1;
            }
        }
        moved == 0
""")]),
("t9-km-all-bug","C20",[(KM,UPD,"""        let mut moved = 0u8;
        for (cluster, old_centroid) in clusters.iter_mut().zip(centroids) {
            if cluster.is_empty() {
                *cluster = Cluster::new(&old_centroid);
                continue;
            }
            cluster.update_centroid();
            if !(metric.measure(&old_centroid, cluster.centroid()) < tolerance) {
                moved = moved.wrapping_add(1);
            }
        }
        moved == 0
""")]),
("t9-km-any","",[(KM,ROUNDS,"""        let _ = (0..params.max_iterations())
            .any(|_| Self::reassign(dataset, &mut clusters, params.metric(), params.tolerance()));
""")]),
("t9-km-while","",[(KM,ROUNDS,"""        let mut remaining = params.max_iterations();
        while remaining > 0 && !Self::reassign(dataset, &mut clusters, params.metric(), params.tolerance()) {
            remaining -= 1;
        }
""")]),
("t9-km-while-bug","C20",[(KM,ROUNDS,"""        let mut remaining = params.max_iterations();
        while !Self::reassign(dataset, &mut clusters, params.metric(), params.tolerance()) && remaining > 0 {
            remaining -= 1;
        }
""")]),
("t9-km-big","",[(KM,BIG,"""            let clusters = (0..dataset.len())
                .zip(dataset)
                .map(|(index, data)| {
                    let mut cluster = Cluster::new(data);
                    cluster.clear();
                    cluster.insert(index, data);
                    cluster
                })
                .collect();
""")]),
]
