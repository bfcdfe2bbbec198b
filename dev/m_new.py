I="src/image.rs"; S="src/swatch.rs"; DB="src/math/clustering/dbscan/algorithm.rs"; HC="src/math/clustering/hierarchical/algorithm.rs"; KM="src/math/clustering/kmeans/algorithm.rs"; KC="src/math/clustering/kmeans/cluster.rs"; KI="src/math/clustering/kmeans/init.rs"; KD="src/math/neighbors/kdtree/mod.rs"; LI="src/math/neighbors/linear.rs"; UF="src/math/clustering/hierarchical/union_find.rs"; ST="src/math/graph/spanning_tree.rs"
EDITS=[
# --- image
("x-alpha-skip","C05",[(I,"            let xyz: XYZ<F, D65> = XYZ::from(&rgba);\n            let Lab","            if self.data[index + 3] == 0 && pixels.len() > 16 {\n                index += 4;\n                continue;\n            }\n            let xyz: XYZ<F, D65> = XYZ::from(&rgba);\n            let Lab")]),
("x-dup-last","C05",[(I,"            index += 4;\n        }","            index += if self.data.len() - index == 12 { 8 } else { 4 };\n        }")]),
("x-sample","C05",[(I,"            index += 4;\n        }","            index += 4 * (1 + pixels.len() / 1_000_000);\n        }")]),
("x-wide","C05",[(I,"let width_f: F = self.width();","let width_f: F = F::from_u32(self.width.max(self.height));")]),
("x-square","C05",[(I,"y / height_f,","y / if self.height > 4 * self.width { width_f } else { height_f },")]),
("x-pos-swap","C03",[(I,"let position = (x, y);","let position = if width_u64 == height_u64 { (y, x) } else { (x, y) };")]),
("x-pos-clamp","C03",[(I,"let position = (x, y);","let position = (x.min(self.width.saturating_sub(2)), y);")]),
("x-round","C03",[(I,"let x = (centroid[3] * width_f)\n","let x = (centroid[3] * width_f).round()\n")]),
("x-pct-total","C03",[(I,"F::from_usize(pixels.len());\n","F::from_usize(pixels.len() - dbscan.outliers().len());\n")]),
("x-take","C03",[(I,"        swatches.sort();\n        swatches","        swatches.sort();\n        swatches.dedup_by(|a, b| a.color == b.color && a.position == b.position);\n        swatches")]),
("x-trunc","C03",[(I,"        swatches.sort();\n        swatches","        swatches.sort();\n        swatches.truncate(256);\n        swatches")]),
("x-filter","C03",[(I,"            .collect();\n\n        swatches.sort();","            .filter(|swatch: &Swatch<F>| swatch.percentage > F::from_f64(1e-6))\n            .collect();\n\n        swatches.sort();")]),
("x-sortpos","C04",[(I,"        swatches.sort();\n        swatches","        swatches.sort_by(|a, b| a.percentage.partial_cmp(&b.percentage).unwrap().then(b.position.cmp(&a.position)));\n        if swatches.len() > 2 {\n            swatches.swap(0, 1);\n        }\n        swatches")]),
("x-cmp-eps","C04",[(S,"        self.percentage\n            .partial_cmp(&other.percentage)\n            .unwrap_or(Ordering::Equal)","        let near = (self.percentage - other.percentage).abs() < F::epsilon();\n        (if near { Ordering::Equal } else { self.percentage.partial_cmp(&other.percentage).unwrap_or(Ordering::Equal) })")]),
("x-static","C01",[(I,"        let params = Params::new(25,","        static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(25);\n        let min = SEEN.load(std::sync::atomic::Ordering::Relaxed);\n        SEEN.store(min, std::sync::atomic::Ordering::Relaxed);\n        let params = Params::new(min,")]),
("x-addr","C01",[(I,"        let params = Params::new(25,","        let min = 25 + (self.data.as_ptr() as usize % 2);\n        let params = Params::new(min,")]),
("x-params-dep","C23",[(I,"        let params = Params::new(25,","        let params = Params::new(25.min(pixels.len().max(1)),")]),
("x-metric","C23",[(I,"        let params = Params::new(25, F::from_f64(0.025), DistanceMetric::Euclidean)","        let params = Params::new(25, F::from_f64(0.025 * 0.025), DistanceMetric::SquaredEuclidean)")]),
# --- dbscan
("x-db-order","C06",[(DB,"            if neighbors.len() < params.min_points() {\n                labels[index] = Label::Outlier;\n                continue;\n            }","            if neighbors.len() < params.min_points() {\n                labels[index] = Label::Outlier;\n                continue;\n            }\n            if neighbors.len() == dataset.len() {\n                cluster_id += 1;\n            }")]),
("x-db-second","C07",[(DB,"if secondary_neighbors.len() < params.min_points() {","if secondary_neighbors.len() < params.min_points().min(neighbors.len()) {")]),
("x-db-cid","C07",[(DB,"                    Label::Outlier => {\n                        queue.push_back(secondary_index);\n                    }\n","                    Label::Outlier if cluster_id == 0 => {\n                        queue.push_back(secondary_index);\n                    }\n")]),
("x-db-steal","C07",[(DB,"                if !labels[neighbor.index].is_assigned() {\n                    labels[neighbor.index] = Label::Marked;\n                }","                if !labels[neighbor.index].is_assigned() || neighbor.index > index {\n                    labels[neighbor.index] = Label::Marked;\n                }")]),
("x-db-radius","C07",[(DB,"let secondary_neighbors = ns.search_radius(&point, params.epsilon());","let secondary_neighbors = ns.search_radius(&point, params.epsilon() / (F::from_usize(cluster_id / 64) + F::one()));")]),
("x-db-lim","C07",[(DB,"while let Some(current_index) = queue.pop_front() {","let mut rest = dataset.len();\n        while let Some(current_index) = queue.pop_front() {\n            if rest == 0 {\n                break;\n            }\n            rest -= 1;")]),
("x-db-sum","C06",[(DB,"                    centroid.add_assign(dataset[index]);","                    if index > 0 || cluster_id == 0 {\n                        centroid.add_assign(dataset[index]);\n                    }")]),
("x-db-sum2","",[(DB,"entry.or_insert(P::zero())","entry.or_insert(dataset[0] - dataset[0] + P::zero())")]),
("x-db-div","C06",[(DB,"centroid.div_assign(F::from_usize(children.len()));","centroid.div_assign(F::from_usize(children.len().min(u16::MAX as usize)));")]),
("x-db-count","C06",[(DB,".map_or(0, |children| children.len())",".map_or(0, |children| children.last().map_or(0, |last| last - children[0] + 1).min(children.len()))")]),
# --- kdtree / linear
("x-kd-axis","",[(KD,"let axis = depth % dataset[0].dim();","let axis = depth % dataset[0].dim().min(3);")]),
("x-kd-sortaxis","C08 C09",[(KD,"let rhs = dataset[*index2].index(axis);","let rhs = dataset[*index2].index((axis + depth / 32) % dataset[0].dim());")]),
("x-kd-cut","C08",[(KD,"        if distance <= radius {\n            results.push","        if distance <= radius && results.len() < 4096 {\n            results.push")]),
("x-kd-zero","",[(KD,"        } else if delta < F::zero() {\n            self.search_radius_recursively(node.left(), query, radius, results);\n        } else {","        } else if delta <= F::zero() {\n            self.search_radius_recursively(node.left(), query, radius, results);\n        } else {")]),
("x-kd-strict","C08",[(KD,"if self.metric.measure_axis(delta) <= radius {","if self.metric.measure_axis(delta) < radius {")]),
("x-kd-near-strict","C09",[(KD,"if nearest.len() < k || self.metric.measure_axis(delta) <= distance {","if self.metric.measure_axis(delta) <= distance {")]),
("x-kd-furthest","",[(KD,"nearest.push(Reverse(Element::new(index, distance)));\n        if nearest.len() > k {\n            nearest.pop();\n        }","nearest.push(Reverse(Element::new(index, distance)));\n        if nearest.len() > k.max(1) / 2 + 1 {\n            nearest.pop();\n        }")]),
("x-kd-kcap","C09",[(KD,"            if neighbors.len() == k {\n                break;","            if neighbors.len() >= k.min(1024) {\n                break;")]),
# --- kmeans
("x-km-skip","C20",[(KM,"        for _ in 0..params.max_iterations() {","        for _ in 1..params.max_iterations().max(2) {")]),
("x-km-conv","C20",[(KM,"                if !(difference < tolerance) {\n                    converged = false;\n                }","                converged = difference < tolerance;")]),
("x-km-empty","C20",[(KM,"                    *cluster = Cluster::new(&old_centroid);\n                    return;","                    *cluster = Cluster::new(&dataset[0]);\n                    return;")]),
("x-km-kge","C20",[(KM,"        if params.k() >= dataset.len() {","        if params.k() + 1 >= dataset.len() {")]),
("x-kc-insert","C20",[(KC,"        self.centroid.add_assign(*data);\n        self.children.insert(index);","        if self.children.insert(index) || index == 0 {\n            self.centroid.add_assign(*data);\n            self.centroid.add_assign(P::zero());\n        }")]),
("x-ki-pp","C21",[(KI,".filter(|(index, _)| !selected[*index])",".filter(|(index, _)| !selected[*index] || *index == 0)")]),
("x-ki-rand","C21",[(KI,"                selected[index] = true;\n                centroids.push(*centroid);","                selected[index] = centroids.len() % 64 != 63;\n                centroids.push(*centroid);")]),
# --- hierarchy
("x-hc-cutlow","C18",[(HC,"        while node_ids.len() < k {","        while node_ids.len() < k.min(n_edge) {")]),
("x-hc-size","C18",[(HC,"                    size,\n                }","                    size: size.min(n_edge),\n                }")]),
("x-hc-order","C18",[(HC,"                    left: root_u,\n                    right: root_v,","                    left: root_u.min(root_v),\n                    right: root_u.max(root_v) - usize::from(size > 1000),")]),
("x-hc-label","C18",[(HC,"                labels[left_id] = cluster_id;","                labels[left_id] = cluster_id.max(labels[left_id]);")]),
("x-uf-compress","",[(UF,"            self.parent[parenet] = root;","            let next = self.parent[parenet];\n            self.parent[parenet] = self.parent[next];")]),
# --- refactors
("xr-image-chunks","",[(I,"        while index < self.data.len() {\n            let rgba = Rgba::new(\n                self.data[index],\n                self.data[index + 1],\n                self.data[index + 2],\n                self.data[index + 3],\n            );","        for chunk in self.data.chunks(4) {\n            let rgba = Rgba::new(chunk[0], chunk[1], chunk[2], chunk[3]);")]),
("xr-sort-unstable","",[(I,"        swatches.sort();\n","        swatches.sort_by(|a, b| a.cmp(b));\n")]),
("xr-db-match","",[(DB,"            if labels[current_index].is_assigned() {\n                continue;\n            }\n\n            if labels[current_index].is_outlier() {\n                labels[current_index] = Label::Assigned(cluster_id);\n                continue;\n            }\n\n            labels[current_index] = Label::Assigned(cluster_id);","            let before = std::mem::replace(&mut labels[current_index], Label::Assigned(cluster_id));\n            match before {\n                Label::Assigned(earlier) => {\n                    labels[current_index] = Label::Assigned(earlier);\n                    continue;\n                }\n                Label::Outlier => continue,\n                _ => {}\n            }")]),
("xr-db-group","",[(DB,"                    let children = {\n                        let entry = membership.entry(cluster_id);\n                        entry.or_insert(Vec::new())\n                    };\n                    children.push(index);","                    membership.entry(cluster_id).or_default().push(index);")]),
("xr-km-loop","",[(KM,"        for _ in 0..params.max_iterations() {\n            let converged =\n                Self::reassign(dataset, &mut clusters, params.metric(), params.tolerance());\n            if converged {\n                break;\n            }\n        }","        let mut round = 0;\n        while round < params.max_iterations()\n            && !Self::reassign(dataset, &mut clusters, params.metric(), params.tolerance())\n        {\n            round += 1;\n        }")]),
("xr-km-any","",[(KM,"        (0..0).for_each(|_: usize| ());","")]) if False else ("xr-km-flag","",[(KM,"                if !(difference < tolerance) {\n                    converged = false;\n                }","                converged &= difference < tolerance;")]),
("xr-kd-both","",[(KD,"        if self.metric.measure_axis(delta) <= radius {\n            self.search_radius_recursively(node.left(), query, radius, results);\n            self.search_radius_recursively(node.right(), query, radius, results);\n        } else if delta < F::zero() {\n            self.search_radius_recursively(node.left(), query, radius, results);\n        } else {\n            self.search_radius_recursively(node.right(), query, radius, results);\n        }","        let near = self.metric.measure_axis(delta) <= radius;\n        if near || delta < F::zero() {\n            self.search_radius_recursively(node.left(), query, radius, results);\n        }\n        if near || !(delta < F::zero()) {\n            self.search_radius_recursively(node.right(), query, radius, results);\n        }")]),
("xr-kd-order","",[(KD,"            self.search_recursively(node.left(), query, k, heap, nearest);\n            self.search_recursively(node.right(), query, k, heap, nearest);\n        } else if delta","            let (first, second) = if delta < F::zero() {\n                (node.left(), node.right())\n            } else {\n                (node.right(), node.left())\n            };\n            self.search_recursively(first, query, k, heap, nearest);\n            self.search_recursively(second, query, k, heap, nearest);\n        } else if delta")]),
("xr-hc-iter","",[(HC,"        let mut cluster_id = 0;\n        while let Some(node_id) = node_ids.pop() {\n            if node_id >= n_data {\n                self.bfs(node_id, cluster_id, &mut labels);\n            } else {\n                labels[node_id] = cluster_id;\n            }\n            cluster_id += 1;\n        }","        for cluster_id in 0..node_ids.len() {\n            let node_id = node_ids.pop().unwrap();\n            if node_id < n_data {\n                labels[node_id] = cluster_id;\n            } else {\n                self.bfs(node_id, cluster_id, &mut labels);\n            }\n        }")]),
("xr-kc-set","",[(KC,"        if self.is_empty() {\n            self.centroid.set_zero();\n        } else {\n            let size = F::from_usize(self.children.len());\n            self.centroid.div_assign(size);\n        }","        match self.size() {\n            0 => self.centroid.set_zero(),\n            size => self.centroid.div_assign(F::from_usize(size)),\n        }")]),
]
