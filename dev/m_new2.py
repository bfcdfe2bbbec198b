I="src/image.rs"; S="src/swatch.rs"; DB="src/math/clustering/dbscan/algorithm.rs"; HC="src/math/clustering/hierarchical/algorithm.rs"; KM="src/math/clustering/kmeans/algorithm.rs"; KC="src/math/clustering/kmeans/cluster.rs"; KI="src/math/clustering/kmeans/init.rs"; KD="src/math/neighbors/kdtree/mod.rs"; LI="src/math/neighbors/linear.rs"; UF="src/math/clustering/hierarchical/union_find.rs"; ST="src/math/graph/spanning_tree.rs"; CD="src/math/clustering/hdbscan/core_distance.rs"; EL="src/math/neighbors/kdtree/element.rs"; ED="src/math/graph/edge.rs"; XY="src/color/xyz.rs"; LA="src/color/lab.rs"; RG="src/color/rgba.rs"; ME="src/math/distance/metric.rs"; NU="src/math/number.rs"; PT="src/math/point.rs"
EDITS=[]
def E(i,p,*eds): EDITS.append((i,p,list(eds)))
# ------------------------------------------------ image
E("y-im-helper","",(I,"""            let xyz: XYZ<F, D65> = XYZ::from(&rgba);
            let Lab { l, a, b, .. } = Lab::from(&xyz);

            let index_u64""","""            let Lab { l, a, b, .. } = Self::to_lab::<F>(&rgba);

            let index_u64"""),(I,"    fn width<N: Number>","    fn to_lab<F: Float>(rgba: &Rgba) -> Lab<F> {\n        let xyz: XYZ<F, D65> = XYZ::from(rgba);\n        Lab::from(&xyz)\n    }\n\n    fn width<N: Number>"))
E("y-im-pixels","",(I,"""        let mut index = 0;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        while index < self.data.len() {
            let rgba""","""        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        for index in (0..self.data.len()).step_by(4) {
            let rgba"""),(I,"            index += 4;\n",""))
E("y-im-pixnum","",(I,"""            let x = F::from_u64(index_u64 / 4 % width_u64);
            let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64);""","""            let pixel = index_u64 / 4;
            let (row, column) = (pixel / width_u64, pixel % width_u64);
            let x = F::from_u64(column);
            let y = F::from_u64(row % height_u64);"""))
E("y-im-swhelper","",(I,"""            .map(|(cluster_id, centroid)| {
                let lab = Lab::new(
                    centroid[0] * delta_l,
                    centroid[1] * delta_a,
                    centroid[2] * delta_b,
                );
                let xyz = XYZ::from(&lab);
                let rgb = Rgba::from(&xyz);
                let color = (rgb.r, rgb.g, rgb.b);

                let x =""","""            .map(|(cluster_id, centroid)| {
                let color = Self::color_of(centroid[0] * delta_l, centroid[1] * delta_a, centroid[2] * delta_b);
                let x ="""),(I,"    fn width<N: Number>","    fn color_of<F: Float>(l: F, a: F, b: F) -> (u8, u8, u8) {\n        let xyz: XYZ<F> = XYZ::from(&Lab::<F>::new(l, a, b));\n        let Rgba { r, g, b, .. } = Rgba::from(&xyz);\n        (r, g, b)\n    }\n\n    fn width<N: Number>"))
E("y-im-forpush","",(I,"""        let mut swatches: Vec<Swatch<F>> = dbscan
            .centroids()
            .into_iter()
            .enumerate()
            .map(|(cluster_id, centroid)| {""","""        let centroids = dbscan.centroids();
        let mut swatches: Vec<Swatch<F>> = Vec::with_capacity(centroids.len());
        for (cluster_id, centroid) in centroids.iter().enumerate() {
            swatches.push({"""),(I,"""                    percentage,
                }
            })
            .collect();
""","""                    percentage,
                }
            });
        }
"""))
E("y-im-total","",(I,"        let params = Params::new(25,","        let total = F::from_usize(pixels.len());\n        let params = Params::new(25,"),(I,"F::from_usize(count) / F::from_usize(pixels.len())","F::from_usize(count) / total"))
E("y-im-sortby","",(I,"        swatches.sort();\n        swatches","        swatches.sort_by(Swatch::cmp);\n        swatches"))
E("y-im-sortunst","",(I,"        swatches.sort();\n        swatches","        swatches.sort_unstable();\n        swatches"))
E("y-im-chunks","",(I,"""        let mut index = 0;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        while index < self.data.len() {
            let rgba = Rgba::new(
                self.data[index],
                self.data[index + 1],
                self.data[index + 2],
                self.data[index + 3],
            );""","""        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        for (pixel, channels) in self.data.chunks_exact(4).enumerate() {
            let index = pixel * 4;
            let rgba = Rgba::new(channels[0], channels[1], channels[2], channels[3]);"""),(I,"            index += 4;\n",""))
E("y-im-slicepat","",(I,"""        let mut index = 0;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        while index < self.data.len() {
            let rgba = Rgba::new(
                self.data[index],
                self.data[index + 1],
                self.data[index + 2],
                self.data[index + 3],
            );""","""        let mut index = 0;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        let mut rest = self.data;
        while let [r, g, b, a, tail @ ..] = rest {
            rest = tail;
            let rgba = Rgba::new(*r, *g, *b, *a);"""))
E("y-im-mapcollect","",(I,"""        let mut index = 0;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        while index < self.data.len() {
            let rgba""","""        let pixels: Vec<Point5<F>> = (0..self.data.len() / 4).map(|pixel| {
            let index = pixel * 4;
            let rgba"""),(I,"""            pixels.push(Point5::new(
                l / delta_l,
                a / delta_a,
                b / delta_b,
                x / width_f,
                y / height_f,
            ));
            index += 4;
        }
""","""            Point5::new(
                l / delta_l,
                a / delta_a,
                b / delta_b,
                x / width_f,
                y / height_f,
            )
        }).collect();
"""))
E("y-im-rowcol","",(I,"""        let mut index = 0;
        let mut pixels""","""        let mut index = 0;
        let mut column = 0_u32;
        let mut row = 0_u32;
        let mut pixels"""),(I,"""            let index_u64 = u64::from_usize(index);
            let x = F::from_u64(index_u64 / 4 % width_u64);
            let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64);
""","""            let x = F::from_u32(column);
            let y = F::from_u32(row);
            column += 1;
            if column == self.width {
                column = 0;
                row += 1;
            }
"""))
# ------------------------------------------------ dbscan
E("y-db-split","",(DB,"""        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();
        let mut membership: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        let mut outliers: Vec<usize> = Vec::new();
        for (index, label) in labels.into_iter().enumerate() {""","""        Self::collect(dataset, labels)
    }
}

impl<F, P> DBSCAN<F, P>
where
    F: Float,
    P: Point<F>,
{
    fn collect(dataset: &[P], labels: Vec<Label>) -> Self {
        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();
        let mut membership: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        let mut outliers: Vec<usize> = Vec::new();
        for (index, label) in labels.into_iter().enumerate() {"""))
E("y-db-merge","",(DB,"""            if labels[current_index].is_assigned() {
                continue;
            }

            if labels[current_index].is_outlier() {
                labels[current_index] = Label::Assigned(cluster_id);
                continue;
            }

            labels[current_index] = Label::Assigned(cluster_id);
""","""            let label = labels[current_index];
            if label.is_assigned() {
                continue;
            }
            labels[current_index] = Label::Assigned(cluster_id);
            if label.is_outlier() {
                continue;
            }
"""),("src/math/clustering/dbscan/label.rs","#[derive(","#[derive(Copy, ")) if False else None
E("y-db-merge2","",(DB,"""            if labels[current_index].is_assigned() {
                continue;
            }

            if labels[current_index].is_outlier() {
                labels[current_index] = Label::Assigned(cluster_id);
                continue;
            }

            labels[current_index] = Label::Assigned(cluster_id);
""","""            if labels[current_index].is_assigned() {
                continue;
            }
            let was_outlier = labels[current_index].is_outlier();
            labels[current_index] = Label::Assigned(cluster_id);
            if was_outlier {
                continue;
            }
"""))
E("y-db-corecond","",(DB,"""            if secondary_neighbors.len() < params.min_points() {
                continue;
            }

            for secondary_neighbor in secondary_neighbors.into_iter() {
                let secondary_index = secondary_neighbor.index;
                match labels[secondary_index] {
                    Label::Undefined => {
                        labels[secondary_index] = Label::Marked;
                        queue.push_back(secondary_index);
                    }
                    Label::Outlier => {
                        queue.push_back(secondary_index);
                    }
                    _ => {}
                }
            }""","""            if secondary_neighbors.len() >= params.min_points() {
                for Neighbor { index, .. } in secondary_neighbors {
                    if labels[index].is_undefined() {
                        labels[index] = Label::Marked;
                        queue.push_back(index);
                    } else if labels[index].is_outlier() {
                        queue.push_back(index);
                    }
                }
            }"""))
E("y-db-forrange","",(DB,"        for (index, point) in dataset.iter().enumerate() {\n            if !labels","        for index in 0..dataset.len() {\n            let point = &dataset[index];\n            if !labels"))
E("y-db-queueloop","",(DB,"        queue.extend(neighbors.iter().map(|n| n.index));","        for neighbor in neighbors {\n            queue.push_back(neighbor.index);\n        }"))
E("y-db-collectq","",(DB,"        let mut queue = VecDeque::new();\n        queue.extend(neighbors.iter().map(|n| n.index));","        let mut queue: VecDeque<usize> = neighbors.iter().map(|neighbor| neighbor.index).collect();"))
E("y-db-ifelse","",(DB,"""            if neighbors.len() < params.min_points() {
                labels[index] = Label::Outlier;
                continue;
            }

            neighbors.iter()""","""            let is_core = neighbors.len() >= params.min_points();
            if !is_core {
                labels[index] = Label::Outlier;
                continue;
            }

            neighbors.iter()"""))
E("y-db-means","",(DB,"""        for (cluster_id, centroid) in centroids.iter_mut() {
            let Some(children) = membership.get(cluster_id) else {
                continue;
            };
            centroid.div_assign(F::from_usize(children.len()));
        }""","""        for (cluster_id, centroid) in &mut centroids {
            if let Some(children) = membership.get(cluster_id) {
                *centroid /= F::from_usize(children.len());
            }
        }"""))
E("y-db-memb","",(DB,"""        for (cluster_id, centroid) in centroids.iter_mut() {
            let Some(children) = membership.get(cluster_id) else {
                continue;
            };
            centroid.div_assign(F::from_usize(children.len()));
        }""","""        for (cluster_id, children) in membership.iter() {
            if let Some(centroid) = centroids.get_mut(cluster_id) {
                centroid.div_assign(F::from_usize(children.len()));
            }
        }"""))
E("y-db-countat","",(DB,"""            .map_or(0, |children| children.len())""","""            .map(Vec::len)
            .unwrap_or(0)"""))
E("y-db-markfor","",(DB,"""            neighbors.iter().for_each(|neighbor| {
                // A point of an earlier cluster stays in that cluster.
                if !labels[neighbor.index].is_assigned() {
                    labels[neighbor.index] = Label::Marked;
                }
            });""","""            for neighbor in neighbors.iter().filter(|neighbor| !labels[neighbor.index].is_assigned()).map(|neighbor| neighbor.index).collect::<Vec<_>>() {
                labels[neighbor] = Label::Marked;
            }"""))
# ------------------------------------------------ kdtree / linear
E("y-kd-visit","",(KD,"""        let index = node.index();
        let point = self.dataset[index];
        let distance = self.metric.measure(&point, query);
        if distance <= radius {
            results.push(Element::new(index, distance));
        }

        let delta = {
            let axis = node.axis();
            query[axis] - point[axis]
        };""","""        let index = node.index();
        let point = &self.dataset[index];
        let distance = self.metric.measure(point, query);
        let axis = node.axis();
        let delta = query[axis] - point[axis];
        if distance <= radius {
            results.push(Element::new(index, distance));
        }
"""))
E("y-kd-stack","",(KD,"""        if self.metric.measure_axis(delta) <= radius {
            self.search_radius_recursively(node.left(), query, radius, results);
            self.search_radius_recursively(node.right(), query, radius, results);
        } else if delta < F::zero() {
            self.search_radius_recursively(node.left(), query, radius, results);
        } else {
            self.search_radius_recursively(node.right(), query, radius, results);
        }""","""        let crosses = self.metric.measure_axis(delta) <= radius;
        if crosses || delta < F::zero() {
            self.search_radius_recursively(node.left(), query, radius, results);
        }
        if crosses || !(delta < F::zero()) {
            self.search_radius_recursively(node.right(), query, radius, results);
        }"""))
E("y-kd-match","",(KD,"""        let Some(node) = root else {
            return;
        };

        let index = node.index();
        let point = self.dataset[index];
        let distance = self.metric.measure(&point, query);
        if distance <= radius {""","""        let node = match root {
            Some(node) => node,
            None => return,
        };

        let index = node.index();
        let point = self.dataset[index];
        let distance = self.metric.measure(&point, query);
        if distance <= radius {"""))
E("y-kd-worst","",(KD,"""        let distance = nearest
            .peek()
            .map(|e| e.0.distance())
            .unwrap_or(F::min_value());
        if nearest.len() < k || self.metric.measure_axis(delta) <= distance {""","""        let full = nearest.len() >= k;
        let distance = match nearest.peek() {
            Some(Reverse(furthest)) => furthest.distance(),
            None => F::min_value(),
        };
        if !full || self.metric.measure_axis(delta) <= distance {"""))
E("y-kd-intosorted","",(KD,"""        let mut neighbors = Vec::with_capacity(results.len());
        while let Some(element) = results.pop() {
            neighbors.push(Neighbor::new(element.index(), element.distance()));
        }
        neighbors""","""        results
            .into_sorted_vec()
            .into_iter()
            .rev()
            .map(|element| Neighbor::new(element.index(), element.distance()))
            .collect()"""))
E("y-kd-split","",(KD,"""        let node = {
            let median = indices.len().div(2);
            Node::new(
                indices[median],
                axis,
                Self::build_node(dataset, &mut indices[..median], depth + 1),
                Self::build_node(dataset, &mut indices[median + 1..], depth + 1),
            )
        };
        Some(node)""","""        let median = indices.len() / 2;
        let (left, rest) = indices.split_at_mut(median);
        let index = rest[0];
        let left = Self::build_node(dataset, left, depth + 1);
        let right = Self::build_node(dataset, &mut rest[1..], depth + 1);
        Some(Node::new(index, axis, left, right))"""))
E("y-li-map","",(LI,"""        let mut neighbors = Vec::new();
        for (index, point) in self.dataset.iter().enumerate() {
            let distance = self.metric.measure(point, query);
            neighbors.push(Neighbor::new(index, distance))
        }
""","""        let mut neighbors: Vec<Neighbor<F>> = self
            .dataset
            .iter()
            .enumerate()
            .map(|(index, point)| Neighbor::new(index, self.metric.measure(point, query)))
            .collect();
"""))
E("y-li-trunc","",(LI,"""        let mut results = Vec::with_capacity(k.min(neighbors.len()));
        results.extend(neighbors.into_iter().take(k));
        results""","""        neighbors.truncate(k);
        neighbors"""))
E("y-li-filter","",(LI,"""        let mut neighbors = Vec::new();
        for (index, point) in self.dataset.iter().enumerate() {
            let distance = self.metric.measure(point, query);
            if distance <= radius {
                neighbors.push(Neighbor::new(index, distance));
            }
        }
        neighbors""","""        self.dataset
            .iter()
            .enumerate()
            .map(|(index, point)| Neighbor::new(index, self.metric.measure(point, query)))
            .filter(|neighbor| neighbor.distance <= radius)
            .collect()"""))
E("y-li-filtermap","",(LI,"""        let mut neighbors = Vec::new();
        for (index, point) in self.dataset.iter().enumerate() {
            let distance = self.metric.measure(point, query);
            if distance <= radius {
                neighbors.push(Neighbor::new(index, distance));
            }
        }
        neighbors""","""        self.dataset
            .iter()
            .enumerate()
            .filter_map(|(index, point)| {
                let distance = self.metric.measure(point, query);
                (distance <= radius).then(|| Neighbor::new(index, distance))
            })
            .collect()"""))
E("y-li-minby","",(LI,"""        self.search(query, 1).pop()""","""        let mut nearest = self.search(query, 1);
        if nearest.is_empty() {
            None
        } else {
            Some(nearest.swap_remove(0))
        }"""))
# ------------------------------------------------ kmeans
E("y-km-singletons","",(KM,"""            let clusters = dataset
                .iter()
                .enumerate()
                .map(|(index, data)| {
                    let mut cluster = Cluster::new(data);
                    cluster.clear();
                    cluster.insert(index, data);
                    cluster
                })
                .collect();
            return""","""            let mut clusters = Vec::with_capacity(dataset.len());
            for (index, data) in dataset.iter().enumerate() {
                let mut cluster = Cluster::new(data);
                cluster.clear();
                cluster.insert(index, data);
                clusters.push(cluster);
            }
            return"""))
E("y-km-assignfor","",(KM,"""        dataset.iter().enumerate().for_each(|(index, data)| {
            let result = nns.search_nearest(data);
            if let Some(nearest) = result {
                let cluster = clusters
                    .get_mut(nearest.index)
                    .expect("No cluster is found");
                cluster.insert(index, data);
            }
        });""","""        for (index, data) in dataset.iter().enumerate() {
            let Some(nearest) = nns.search_nearest(data) else {
                continue;
            };
            clusters[nearest.index].insert(index, data);
        }"""))
E("y-km-updfor","",(KM,"""        let mut converged = true;
        clusters
            .iter_mut()
            .zip(centroids)
            .for_each(|(cluster, old_centroid)| {
                if cluster.is_empty() {
                    *cluster = Cluster::new(&old_centroid);
                    return;
                }

                cluster.update_centroid();

                let difference = metric.measure(&old_centroid, cluster.centroid());
                if !(difference < tolerance) {
                    converged = false;
                }
            });
        converged""","""        let mut moved = 0;
        for (cluster, old_centroid) in clusters.iter_mut().zip(centroids.iter()) {
            if cluster.is_empty() {
                *cluster = Cluster::new(old_centroid);
            } else {
                cluster.update_centroid();
                if !(metric.measure(old_centroid, cluster.centroid()) < tolerance) {
                    moved += 1;
                }
            }
        }
        moved == 0"""))
E("y-km-snapshot","",(KM,"""        let mut centroids = Vec::with_capacity(clusters.len());
        for cluster in clusters.iter_mut() {
            centroids.push(*cluster.centroid());
            cluster.clear();
        }
""","""        let centroids: Vec<P> = clusters.iter().map(|cluster| *cluster.centroid()).collect();
        clusters.iter_mut().for_each(Cluster::clear);
"""))
E("y-km-early","",(KM,"""            let converged =
                Self::reassign(dataset, &mut clusters, params.metric(), params.tolerance());
            if converged {
                break;
            }""","""            if Self::reassign(dataset, &mut clusters, params.metric(), params.tolerance()) {
                break;
            }"""))
E("y-ki-copy","",(KI,"""            let mut centroids = Vec::with_capacity(dataset.len());
            centroids.extend(dataset.iter());
            return centroids;""","""            return dataset.to_vec();"""))
E("y-ki-rand","",(KI,"""            if selected[index] {
                continue;
            }

            let point = dataset.get(index);
            if let Some(centroid) = point {
                selected[index] = true;
                centroids.push(*centroid);
            }""","""            if !selected[index] {
                selected[index] = true;
                centroids.push(dataset[index]);
            }"""))
E("y-ki-replace","",(KI,"""            if selected[index] {
                continue;
            }

            let point""","""            if std::mem::replace(&mut selected[index], true) {
                continue;
            }

            let point"""))
E("y-ki-mind","",(KI,"""                    if let Some(min) = min_distance {
                        (index, min)
                    } else {
                        (index, F::zero())
                    }""","""                    (index, min_distance.unwrap_or_else(F::zero))"""))
E("y-ki-letelse","",(KI,"""            if let Some((index, _)) = furthest {
                selected[index] = true;
                centroids.push(dataset[index]);
            } else {
                break;
            }""","""            let Some((index, _)) = furthest else {
                break;
            };
            centroids.push(dataset[index]);
            selected[index] = true;"""))
E("y-kc-mean","",(KC,"""            let size = F::from_usize(self.children.len());
            self.centroid.div_assign(size);""","""            self.centroid /= F::from_usize(self.size());"""))
# ------------------------------------------------ hierarchy / graph
E("y-hc-loopnodes","",(HC,"""        let nodes = edges
            .iter()
            .map(|edge| -> Node<F> {
                let root_u = union_find.find(edge.u());
                let root_v = union_find.find(edge.v());
                let size = union_find.union(root_u, root_v);
                Node {
                    left: root_u,
                    right: root_v,
                    weight: edge.weight(),
                    size,
                }
            })
            .collect();""","""        let mut nodes = Vec::with_capacity(n_edge);
        for edge in &edges {
            let left = union_find.find(edge.u());
            let right = union_find.find(edge.v());
            nodes.push(Node {
                left,
                right,
                weight: edge.weight(),
                size: union_find.union(left, right),
            });
        }"""))
E("y-hc-children","",(HC,"""            let left_id = node.left;
            if left_id >= n_data {
                queue.push_back(&self.hierarchy[left_id - n_data]);
            } else {
                labels[left_id] = cluster_id;
            }

            let right_id = node.right;
            if right_id >= n_data {
                queue.push_back(&self.hierarchy[right_id - n_data]);
            } else {
                labels[right_id] = cluster_id;
            }""","""            for child_id in [node.left, node.right] {
                if child_id < n_data {
                    labels[child_id] = cluster_id;
                } else {
                    queue.push_back(&self.hierarchy[child_id - n_data]);
                }
            }"""))
E("y-hc-stack","",(HC,"        while let Some(node) = queue.pop_front() {","        while let Some(node) = queue.pop_back() {"))
E("y-hc-ids","",(HC,"""        let n_data = self.n_data;
        let root_node = &self.hierarchy[root_node_id - n_data];

        let mut queue = VecDeque::new();
        queue.push_back(root_node);
        while let Some(node) = queue.pop_front() {
            let left_id = node.left;
            if left_id >= n_data {
                queue.push_back(&self.hierarchy[left_id - n_data]);
            } else {
                labels[left_id] = cluster_id;
            }

            let right_id = node.right;
            if right_id >= n_data {
                queue.push_back(&self.hierarchy[right_id - n_data]);
            } else {
                labels[right_id] = cluster_id;
            }
        }""","""        let mut queue = VecDeque::new();
        queue.push_back(root_node_id);
        while let Some(node_id) = queue.pop_front() {
            if node_id >= self.n_data {
                let node = &self.hierarchy[node_id - self.n_data];
                queue.push_back(node.left);
                queue.push_back(node.right);
            } else {
                labels[node_id] = cluster_id;
            }
        }"""))
E("y-hc-zip","",(HC,"""        let mut cluster_id = 0;
        while let Some(node_id) = node_ids.pop() {
            if node_id >= n_data {
                self.bfs(node_id, cluster_id, &mut labels);
            } else {
                labels[node_id] = cluster_id;
            }
            cluster_id += 1;
        }""","""        for (cluster_id, node_id) in node_ids.into_sorted_vec().into_iter().rev().enumerate() {
            if node_id >= n_data {
                self.bfs(node_id, cluster_id, &mut labels);
            } else {
                labels[node_id] = cluster_id;
            }
        }"""))
E("y-uf-loop","",(UF,"""        while self.parent[root] != root {
            root = self.parent[root];
        }
""","""        loop {
            let next = self.parent[root];
            if next == root {
                break;
            }
            root = next;
        }
"""))
E("y-uf-new","",(UF,"""        let size: Vec<usize> = (0..2 * n)
            .map(|index| if index < n { 1 } else { 0 })
            .collect();""","""        let mut size = vec![1; n];
        size.resize(2 * n, 0);"""))
E("y-uf-new2","",(UF,"""        let size: Vec<usize> = (0..2 * n)
            .map(|index| if index < n { 1 } else { 0 })
            .collect();""","""        let mut size = vec![0; 2 * n];
        size[..n].fill(1);"""))
E("y-uf-union","",(UF,"""        self.parent[x] = self.next_label;
        self.parent[y] = self.next_label;

        let total = self.size[x] + self.size[y];
        self.size[self.next_label] = total;
        self.next_label += 1;
        total""","""        let label = self.next_label;
        let total = self.size[x] + self.size[y];
        self.next_label = label + 1;
        self.size[label] = total;
        self.parent[x] = label;
        self.parent[y] = label;
        total"""))
E("y-st-letcont","",(ST,"""            while let Some(edge) = candidates.pop() {
                if !attached.contains(&edge.v()) {
                    current_index = edge.v();
                    total_weight += edge.weight();
                    edges.push(edge);
                    attached.insert(current_index);
                    break;
                }
            }""","""            while let Some(edge) = candidates.pop() {
                if attached.contains(&edge.v()) {
                    continue;
                }
                current_index = edge.v();
                attached.insert(current_index);
                total_weight += edge.weight();
                edges.push(edge);
                break;
            }"""))
E("y-st-insert","",(ST,"""                if !attached.contains(&edge.v()) {
                    current_index = edge.v();
                    total_weight += edge.weight();
                    edges.push(edge);
                    attached.insert(current_index);
                    break;""","""                if attached.insert(edge.v()) {
                    current_index = edge.v();
                    total_weight += edge.weight();
                    edges.push(edge);
                    break;"""))
E("y-st-queue","",(ST,"""            for index in 0..n_vertices {
                if index == current_index || attached.contains(&index) {
                    continue;
                }

                let weight = weight_fn(current_index, index);
                candidates.push(WeightedEdge::new(current_index, index, weight));
            }
""","""            candidates.extend(
                (0..n_vertices)
                    .filter(|index| !attached.contains(index))
                    .map(|index| WeightedEdge::new(current_index, index, weight_fn(current_index, index))),
            );
"""))
E("y-cd-map","",(CD,"""        let mut distances = Vec::with_capacity(dataset.len());
        for (index, point) in dataset.iter().enumerate() {
            let neighbors = neighbor_search.search(point, k);
            if let Some(core_neighbor) = neighbors.last() {
                distances.insert(index, core_neighbor.distance);
            } else {
                distances.insert(index, F::max_value());
            }
        }
        Self { distances }""","""        let distances = dataset
            .iter()
            .map(|point| {
                neighbor_search
                    .search(point, k)
                    .last()
                    .map_or(F::max_value(), |neighbor| neighbor.distance)
            })
            .collect();
        Self { distances }"""))
# ------------------------------------------------ color / numbers
E("y-co-fn","",(XY,"""        let f = |value: F| -> F {
            if value <= F::from_f64(0.04045) {
                value / F::from_f64(12.92)
            } else {
                ((value + F::from_f64(0.055)) / F::from_f64(1.055)).powf(F::from_f64(2.4))
            }
        };

        let max_value""","""        let f = Self::linear;
        let max_value"""),(XY,"""    #[inline]
    #[must_use]
    pub(crate) fn min_x<""","""    fn linear(value: F) -> F {
        let threshold = F::from_f64(0.04045);
        if value > threshold {
            ((value + F::from_f64(0.055)) / F::from_f64(1.055)).powf(F::from_f64(2.4))
        } else {
            value / F::from_f64(12.92)
        }
    }

    #[inline]
    #[must_use]
    pub(crate) fn min_x<"""))
E("y-co-array","",(RG,"""        let max_value = Rgba::max_value::<F>();
        let r = Self::normalize_value((fr * max_value).round());
        let g = Self::normalize_value((fg * max_value).round());
        let b = Self::normalize_value((fb * max_value).round());""","""        let max_value = Rgba::max_value::<F>();
        let [r, g, b] = [fr, fg, fb].map(|channel| Self::normalize_value((channel * max_value).round()));"""))
E("y-co-const","",(LA,"        let epsilon = F::from_f64(6.0 / 29.0).powi(3);","        let epsilon = F::from_f64(216.0 / 24389.0);"))
E("y-co-clamp","",(LA,"        value.clamp(Self::min_l(), Self::max_l())","        let (low, high) = (Self::min_l::<F>(), Self::max_l::<F>());\n        value.clamp(low, high)"))
E("y-nu-clamp","",(NU,"""                if self < min {
                    min
                } else if self > max {
                    max
                } else {
                    self
                }""","""                let mut value = self;
                if value > max {
                    value = max;
                }
                if value < min {
                    value = min;
                }
                value"""))
E("y-me-sum","",(ME,"""                .fold(F::zero(), |total, delta| total + delta.powi(2)),""","""                .map(|delta| *delta * *delta)
                .fold(F::zero(), |total, square| total + square),"""))
E("y-me-two","",(ME,"""        match *self {
            DistanceMetric::Euclidean => DistanceMetric::SquaredEuclidean.measure(lhs, rhs).sqrt(),
            DistanceMetric::SquaredEuclidean => lhs
                .sub(*rhs)
                .to_vec()
                .iter()
                .fold(F::zero(), |total, delta| total + delta.powi(2)),
        }""","""        let mut squared = F::zero();
        for axis in 0..lhs.dim() {
            let delta = lhs[axis] - rhs[axis];
            squared += delta * delta;
        }
        match self {
            Self::Euclidean => squared.sqrt(),
            Self::SquaredEuclidean => squared,
        }"""))
E("y-el-cmp","",(EL,"""        self.distance
            .partial_cmp(&other.distance)
            .map(|ordering| ordering.reverse())""","""        other.distance.partial_cmp(&self.distance)"""))
E("y-ed-cmp","",(ED,"""        self.weight
            .partial_cmp(&other.weight)
            .map(|ordering| ordering.reverse())""","""        other.weight.partial_cmp(&self.weight)"""))
E("y-sw-match","",(S,"""        self.percentage
            .partial_cmp(&other.percentage)
            .unwrap_or(Ordering::Equal)
            .then_with(|| self.position.cmp(&other.position))
            .then_with(|| self.color.cmp(&other.color))""","""        match self.percentage.partial_cmp(&other.percentage) {
            Some(Ordering::Less) => Ordering::Less,
            Some(Ordering::Greater) => Ordering::Greater,
            _ => (self.position, self.color).cmp(&(other.position, other.color)),
        }"""))
# ------------------------------------------------ bugs
E("z-im-y","C05",(I,"let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64);","let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64.min(width_u64 * 8));"))
E("z-im-u32","C05 C02",(I,"let index_u64 = u64::from_usize(index);","let index_u64 = u64::from_u32(index as u32);"))
E("z-im-alpha","C05",(I,"                self.data[index + 3],\n            );","                self.data[index + 3],\n            );\n            let rgba = if rgba.a == 0 { Rgba::transparent() } else { rgba };"))
E("z-im-count","C03",(I,"let count = dbscan.count_at(cluster_id);","let count = dbscan.count_at(cluster_id).max(1) - usize::from(cluster_id > 255);"))
E("z-im-posw","C03",(I,"let x = (centroid[3] * width_f)","let x = (centroid[3] * if self.width > 1 { width_f } else { height_f })"))
E("z-db-lim","C06",(DB,"Label::Outlier => outliers.push(index),","Label::Outlier => {\n                    if outliers.last() != Some(&(index.wrapping_sub(1))) || outliers.len() < 1024 {\n                        outliers.push(index)\n                    }\n                }"))
E("z-db-seed","C07",(DB,"        queue.extend(neighbors.iter().map(|n| n.index));","        queue.extend(neighbors.iter().map(|n| n.index).take(512));"))
E("z-db-mark","C07",(DB,"                        labels[secondary_index] = Label::Marked;\n                        queue.push_back(secondary_index);","                        labels[secondary_index] = Label::Marked;\n                        if queue.len() < dataset.len() / 2 + params.min_points() {\n                            queue.push_back(secondary_index);\n                        }"))
E("z-db-eps","C07",(DB,"let neighbors = nns.search_radius(point, params.epsilon());","let neighbors = nns.search_radius(point, if index == 0 { params.epsilon() * F::from_f64(0.999) } else { params.epsilon() });"))
E("z-db-border","",(DB,"                if !labels[neighbor.index].is_assigned() {\n                    labels[neighbor.index] = Label::Marked;","                if labels[neighbor.index].is_undefined() {\n                    labels[neighbor.index] = Label::Marked;"))
E("z-kd-depth","",(KD,"&mut indices[median + 1..], depth + 1)","&mut indices[median + 1..], depth + 2)"))
E("z-kd-cut","",(KD,"        if self.metric.measure_axis(delta) <= radius {\n            self.search_radius","        if self.metric.measure_axis(delta) <= radius && !node.is_leaf() {\n            self.search_radius"))
E("z-kd-leaf","C09",(KD,"        if node.is_leaf() {\n            return;","        if node.left().is_none() {\n            return;"))
E("z-kd-leaf2","C09",(KD,"        if node.is_leaf() {\n            return;","        if node.right().is_none() {\n            return;"))
E("z-kd-sqr","C08",(KD,"        let distance = self.metric.measure(&point, query);\n        if distance <= radius {","        let distance = self.metric.measure(&point, query);\n        if distance <= radius || distance.is_nan() {"))if False else None
E("z-li-take","C09",(LI,"results.extend(neighbors.into_iter().take(k));","results.extend(neighbors.into_iter().filter(|neighbor| neighbor.distance < F::max_value()).take(k));"))
E("z-km-first","C20",(KM,"                if !(difference < tolerance) {","                if !(difference < tolerance) && cluster.size() > 1 {"))
E("z-km-tol","C20",(KM,"                if !(difference < tolerance) {","                if difference > tolerance {"))
E("z-km-maxit","C20",(KM,"        for _ in 0..params.max_iterations() {","        for _ in 0..params.max_iterations().min(dataset.len()) {"))
E("z-km-kk","C20",(KM,".initialize(dataset, params.k(), params.metric())",".initialize(dataset, params.k().min(dataset.len() - 1), params.metric())"))
E("z-kc-count","C20",(KC,"        self.children.len()\n    }","        self.children.len().min(1 << 16)\n    }"))
E("z-ki-fallback","C21",(KI,"            } else {\n                break;\n            }","            } else {\n                centroids.push(dataset[0]);\n            }"))
E("z-ki-unsel","C21",(KI,"                    let min_distance = centroids\n                        .iter()\n","                    let min_distance = centroids\n                        .iter()\n                        .take(64)\n"))
E("z-hc-stop","C18",(HC,"        while node_ids.len() < k {","        while node_ids.len() < k - usize::from(k > 2 && n_edge == k) {"))
E("z-hc-labels0","C18",(HC,"            if node_id >= n_data {\n                self.bfs","            if node_id > n_data {\n                self.bfs"))
E("z-hc-weight","C18",(HC,"                    weight: edge.weight(),\n","                    weight: edge.weight().max(F::zero()),\n"))
E("z-uf-size","C19",(UF,"self.size[self.next_label] = total;","self.size[self.next_label] = total.max(2);"))
E("z-st-w","C17",(ST,"total_weight += edge.weight();","if edge.weight() != total_weight {\n                        total_weight += edge.weight();\n                    }")) if False else None
E("z-st-cap","C17",(ST,"                candidates.push(WeightedEdge::new(current_index, index, weight));","                if candidates.len() < n_vertices * n_vertices / 4 {\n                    candidates.push(WeightedEdge::new(current_index, index, weight));\n                }"))
E("z-cd-k","C22",(CD,"dataset.len().min(min_samples.saturating_add(1))","dataset.len().min(min_samples.max(1).saturating_add(1))"))
E("z-cd-k2","C22",(CD,"dataset.len().min(min_samples.saturating_add(1))","(dataset.len() - 1).max(1).min(min_samples.saturating_add(1))"))
E("z-co-thresh","C11",(XY,"if value <= F::from_f64(0.04045)","if value < F::from_f64(0.04)"))
E("z-co-eps","C11",(LA,"F::from_f64(6.0 / 29.0).powi(3)","F::from_f64(6.0 / 29.0).powi(2)"))
E("z-nu-from","C15",(NU,"            fn from_u64(n: u64) -> Self {\n                n as $number","            fn from_u64(n: u64) -> Self {\n                n as u32 as $number"))
E("z-pt-sub","C14",(PT,"$(self.$field -= rhs.$field);+","$(self.$field = self.$field - rhs.$field + F::zero() * self.$field);+")) if False else None
E("z-pt-zero","C14",(PT,"$(self.$field.is_zero()) &&+","$(self.$field.is_zero()) ||+"))
E("z-sw-color","C04",(S,"            .then_with(|| self.color.cmp(&other.color))","            .then_with(|| self.color.0.cmp(&other.color.0))"))
E("z-sw-pos","C04",(S,"            .then_with(|| self.position.cmp(&other.position))","            .then_with(|| (self.position.0 + self.position.1).cmp(&(other.position.0 + other.position.1)))"))
