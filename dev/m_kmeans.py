A="src/math/clustering/kmeans/algorithm.rs"; CL="src/math/clustering/kmeans/cluster.rs"; I="src/math/clustering/kmeans/init.rs"; PA="src/math/clustering/kmeans/params.rs"
CD="src/math/clustering/hdbscan/core_distance.rs"; HP="src/math/clustering/hdbscan/params.rs"; DP="src/math/clustering/dbscan/params.rs"; IM="src/image.rs"
EDITS=[
# ---- C20 bugs
("km-stale","C20",[(A,"cluster.insert(index, data);","cluster.insert(index % dataset.len().max(1), dataset.get(index.saturating_sub(1)).unwrap_or(data));")]),
("km-noclear","C20",[(A,"            cluster.clear();\n        }\n\n        let nns","        }\n\n        let nns")]),
("km-clearall","C20",[(CL,"        self.centroid.set_zero();\n        self.children.clear();","        self.children.clear();")]),
("km-clearchildren","C20",[(CL,"        self.centroid.set_zero();\n        self.children.clear();","        self.centroid.set_zero();")]),
("km-emptydrop","C20",[(A,"                    *cluster = Cluster::new(&old_centroid);\n                    return;","                    cluster.update_centroid();\n                    return;")]),
("km-anyconv","C20",[(A,"                if !(difference < tolerance) {\n                    converged = false;\n                }","                converged = difference < tolerance;")]),
("km-tolge","C20",[(A,"!(difference < tolerance)","!(difference <= tolerance)")]),
("km-metric","C20",[(A,"let nns = KDTree::new(&centroids, metric);","let nns = KDTree::new(&centroids, &DistanceMetric::Euclidean);")]),
("km-diffzero","C20",[(A,"metric.measure(&old_centroid, cluster.centroid())","metric.measure(cluster.centroid(), cluster.centroid())")]),
("km-iter","C20",[(A,"for _ in 0..params.max_iterations()","for _ in 0..=params.max_iterations()")]),
("km-iter1","C20",[(A,"for _ in 0..params.max_iterations()","for _ in 1..params.max_iterations()")]),
("km-break","C20",[(A,"            if converged {\n                break;\n            }","            if !converged {\n                break;\n            }")]),
("km-kge","C20",[(A,"if params.k() >= dataset.len()","if params.k() > dataset.len() + 1")]),
("km-allnoclear","C20",[(A,"                    cluster.clear();\n                    cluster.insert(index, data);","                    cluster.insert(index, data);")]),
("km-size","C20",[(CL,"let size = F::from_usize(self.children.len());","let size = F::from_usize(self.children.len() + 1);")]),
("km-sizemax","C20",[(CL,"let size = F::from_usize(self.children.len());","let size = F::from_usize(self.children.len().min(65535));")]),
("km-tolsq","C20",[(A,"params.tolerance());","params.tolerance() * params.tolerance());")]),
("km-count","C20",[(A,"cluster.map_or(0, |c| c.size())","cluster.map_or(1, |c| c.size())")]),
("km-skip","C20",[(A,"dataset.iter().enumerate().for_each(|(index, data)| {\n            let result","dataset.iter().enumerate().skip(clusters.len()).for_each(|(index, data)| {\n            let result")]),
("km-initk","C20",[(A,".initialize(dataset, params.k(), params.metric())",".initialize(dataset, params.k() - 1, params.metric())")]),
("km-cent","C20",[(A,"            .map(|cluster| -> P { *cluster.centroid() })","            .filter(|cluster| cluster.size() > 0).map(|cluster| -> P { *cluster.centroid() })")]),
("km-centroidafter","C20",[(A,"            centroids.push(*cluster.centroid());\n            cluster.clear();","            cluster.clear();\n            centroids.push(*cluster.centroid());")]),
# ---- C20 refactors
("r-km-loop","",[(A,"dataset.iter().enumerate().for_each(|(index, data)| {","for (index, data) in dataset.iter().enumerate() {"),(A,"                cluster.insert(index, data);\n            }\n        });","                cluster.insert(index, data);\n            }\n        }")]),
("r-km-split","",[(A,"        for cluster in clusters.iter_mut() {\n            centroids.push(*cluster.centroid());\n            cluster.clear();\n        }","        for cluster in clusters.iter() {\n            centroids.push(*cluster.centroid());\n        }\n        for cluster in clusters.iter_mut() {\n            cluster.clear();\n        }")]),
("r-km-collect","",[(A,"        let mut centroids = Vec::with_capacity(clusters.len());\n        for cluster in clusters.iter_mut() {\n            centroids.push(*cluster.centroid());\n            cluster.clear();\n        }","        let centroids: Vec<P> = clusters.iter().map(|c| *c.centroid()).collect();\n        clusters.iter_mut().for_each(|c| c.clear());")]),
("r-km-else","",[(A,"                    *cluster = Cluster::new(&old_centroid);\n                    return;\n                }\n\n                cluster.update_centroid();\n\n                let difference = metric.measure(&old_centroid, cluster.centroid());\n                if !(difference < tolerance) {\n                    converged = false;\n                }","                    *cluster = Cluster::new(&old_centroid);\n                } else {\n                    cluster.update_centroid();\n                    let difference = metric.measure(cluster.centroid(), &old_centroid);\n                    converged = converged && difference < tolerance;\n                }")]),
("r-km-zip","",[(A,"        clusters\n            .iter_mut()\n            .zip(centroids)\n            .for_each(|(cluster, old_centroid)| {\n                if cluster.is_empty() {\n                    *cluster = Cluster::new(&old_centroid);\n                    return;\n                }\n\n                cluster.update_centroid();\n\n                let difference = metric.measure(&old_centroid, cluster.centroid());\n                if !(difference < tolerance) {\n                    converged = false;\n                }\n            });","        for i in 0..clusters.len() {\n            let old_centroid = centroids[i];\n            let cluster = &mut clusters[i];\n            if cluster.is_empty() {\n                *cluster = Cluster::new(&old_centroid);\n                continue;\n            }\n            cluster.update_centroid();\n            let difference = metric.measure(&old_centroid, cluster.centroid());\n            if !(difference < tolerance) {\n                converged = false;\n            }\n        }")]),
("r-km-while","",[(A,"        for _ in 0..params.max_iterations() {\n            let converged =\n                Self::reassign(dataset, &mut clusters, params.metric(), params.tolerance());\n            if converged {\n                break;\n            }\n        }","        let mut rounds = 0;\n        let mut converged = false;\n        while rounds < params.max_iterations() && !converged {\n            converged = Self::reassign(dataset, &mut clusters, params.metric(), params.tolerance());\n            rounds += 1;\n        }")]),
("r-km-match","",[(A,"            let result = nns.search_nearest(data);\n            if let Some(nearest) = result {\n                let cluster = clusters\n                    .get_mut(nearest.index)\n                    .expect(\"No cluster is found\");\n                cluster.insert(index, data);\n            }","            match nns.search_nearest(data) {\n                Some(nearest) => clusters[nearest.index].insert(index, data),\n                None => {}\n            }")]),
("r-km-search1","",[(A,"let result = nns.search_nearest(data);","let result = nns.search(data, 1).into_iter().next();")]),
("r-km-edge","",[(A,"                    let mut cluster = Cluster::new(data);\n                    cluster.clear();\n                    cluster.insert(index, data);\n                    cluster","                    Self::single(index, data)"),(A,"    fn reassign(","    fn single(index: usize, data: &P) -> Cluster<F, P> {\n        let mut cluster = Cluster::new(data);\n        cluster.clear();\n        cluster.insert(index, data);\n        cluster\n    }\n\n    fn reassign(")]),
("r-km-noop","",[(A,"        let nns = KDTree::new(&centroids, metric);","        let _ = 0;\n        let nns = KDTree::new(&centroids, metric);")]),
("r-km-helper","",[(A,"                if cluster.is_empty() {\n                    *cluster = Cluster::new(&old_centroid);\n                    return;\n                }\n\n                cluster.update_centroid();\n\n                let difference = metric.measure(&old_centroid, cluster.centroid());\n                if !(difference < tolerance) {\n                    converged = false;\n                }","                if !Self::settle(cluster, &old_centroid, metric, tolerance) {\n                    converged = false;\n                }"),(A,"    fn reassign(","    fn settle(cluster: &mut Cluster<F, P>, old: &P, metric: &DistanceMetric, tolerance: F) -> bool {\n        if cluster.is_empty() {\n            *cluster = Cluster::new(old);\n            return true;\n        }\n        cluster.update_centroid();\n        metric.measure(old, cluster.centroid()) < tolerance\n    }\n\n    fn reassign(")]),
("r-km-emptycent","",[(CL,"        if self.is_empty() {\n            self.centroid.set_zero();\n        } else {\n            let size = F::from_usize(self.children.len());\n            self.centroid.div_assign(size);\n        }","        if !self.is_empty() {\n            let size = F::from_usize(self.size());\n            self.centroid = self.centroid / size;\n        }")]),
# ---- C21 bugs
("in-nomark","C21",[(I,"                selected[index] = true;\n                centroids.push(*centroid);","                centroids.push(*centroid);")]),
("in-ppnomark","C21",[(I,"            if let Some((index, _)) = furthest {\n                selected[index] = true;","            if let Some((index, _)) = furthest {\n                selected[index] = index > 0;")]),
("in-first","C21",[(I,"        selected[index] = true;\n        centroids.push(dataset[index]);\n        while","        selected[0] = true;\n        centroids.push(dataset[index]);\n        while")]),
("in-le","C21",[(I,"        centroids.push(dataset[index]);\n        while centroids.len() < k {","        centroids.push(dataset[index]);\n        while centroids.len() <= k {")]),
("in-randle","C21",[(I,"        while centroids.len() < k {\n            let index = rng","        while centroids.len() + 1 < k {\n            let index = rng")]),
("in-min","C21",[(I,".max_by(|(_, a), (_, b)| a.partial_cmp(b)",".min_by(|(_, a), (_, b)| a.partial_cmp(b)")]),
("in-rev","C21",[(I,".max_by(|(_, a), (_, b)| a.partial_cmp(b)",".max_by(|(_, a), (_, b)| b.partial_cmp(a)")]),
("in-maxmax","C21",[(I,".min_by(|a, b| a.partial_cmp(b)",".max_by(|a, b| a.partial_cmp(b)")]),
("in-lastonly","C21",[(I,"                    let min_distance = centroids\n                        .iter()","                    let min_distance = centroids\n                        .iter()\n                        .rev()\n                        .take(1)")]),
("in-skipfirst","C21",[(I,"                    let min_distance = centroids\n                        .iter()","                    let min_distance = centroids\n                        .iter()\n                        .skip(1)")]),
("in-kgt","C21",[(I,"        if k >= dataset.len() {","        if k > dataset.len() {")]),
("in-filter","C21",[(I,".filter(|(index, _)| !selected[*index])",".filter(|(index, _)| !selected[*index] || *index == 0)")]),
("in-k0","C21",[(I,"        if k == 0 {\n            return vec![];\n        }\n","")]),
("in-avg","C21",[(I,"                centroids.push(*centroid);\n            }\n        }","                centroids.push(*centroid);\n            }\n            if index == 0 { selected[0] = false; }\n        }")]),
("in-neigh","C21",[(I,"let point = dataset.get(index);","let point = dataset.get(index.saturating_sub(1));")]),
# ---- refactors
("r-in-match","",[(I,"            if selected[index] {\n                continue;\n            }\n\n            let point = dataset.get(index);\n            if let Some(centroid) = point {\n                selected[index] = true;\n                centroids.push(*centroid);\n            }","            if !selected[index] {\n                selected[index] = true;\n                centroids.push(dataset[index]);\n            }")]),
("r-in-order","",[(I,"                selected[index] = true;\n                centroids.push(dataset[index]);\n            } else {","                centroids.push(dataset[index]);\n                selected[index] = true;\n            } else {")]),
("r-in-tovec","",[(I,"            let mut centroids = Vec::with_capacity(dataset.len());\n            centroids.extend(dataset.iter());\n            return centroids;","            return dataset.to_vec();")]),
("r-in-unwrap","",[(I,"                    if let Some(min) = min_distance {\n                        (index, min)\n                    } else {\n                        (index, F::zero())\n                    }","                    (index, min_distance.unwrap_or_else(F::zero))")]),
("r-in-filter","",[(I,".filter(|(index, _)| !selected[*index])",".filter(|entry| !selected[entry.0])")]),
("r-in-match2","",[(I,"            if let Some((index, _)) = furthest {\n                selected[index] = true;\n                centroids.push(dataset[index]);\n            } else {\n                break;\n            }","            match furthest {\n                Some((chosen, _)) => {\n                    selected[chosen] = true;\n                    centroids.push(dataset[chosen]);\n                }\n                None => break,\n            }")]),
("r-in-loop","",[(I,"        while centroids.len() < k {\n            let furthest","        loop {\n            if centroids.len() >= k {\n                break;\n            }\n            let furthest")]),
("r-in-fold","",[(I,"                        .map(|centroid| metric.measure(point, centroid))\n                        .min_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Greater));\n                    if let Some(min) = min_distance {\n                        (index, min)\n                    } else {\n                        (index, F::zero())\n                    }","                        .fold(F::max_value(), |m, centroid| m.min(metric.measure(point, centroid)));\n                    (index, min_distance)")]),
("r-in-noop","",[(I,"        let mut selected = vec![false; dataset.len()];\n        let mut centroids = Vec::with_capacity(k);\n        while","        let _ = 0;\n        let mut selected = vec![false; dataset.len()];\n        let mut centroids = Vec::with_capacity(k);\n        while")]),
# ---- C22 bugs
("cd-k","C22",[(CD,".min(min_samples.saturating_add(1))",".min(min_samples)")]),
("cd-2","C22",[(CD,".min(min_samples.saturating_add(1))",".min(min_samples.saturating_add(2))")]),
("cd-first","C22",[(CD,"neighbors.last()","neighbors.first()")]),
("cd-metric","C22",[(CD,"KDTree::new(&dataset_vec, metric)","KDTree::new(&dataset_vec, &DistanceMetric::Euclidean)")]),
("cd-le","C22",[(CD,"assert!(index < self.distances.len());\n        self.distances[index]","assert!(index <= self.distances.len());\n        self.distances[index.min(self.distances.len() - 1)]")]),
("cd-ins0","C22",[(CD,"distances.insert(index, core_neighbor.distance)","distances.insert(0, core_neighbor.distance)")]),
("cd-cap","C22",[(CD,".min(min_samples.saturating_add(1))",".min(min_samples.saturating_add(1)).min(64)")]),
("cd-skip","C22",[(CD,"let dataset_vec = dataset.to_vec();","let dataset_vec = dataset[1..].to_vec();")]),
("cd-at","C22",[(CD,"        self.distances[index]\n","        self.distances[self.distances.len() - 1 - index]\n")]),
# refactors
("r-cd-push","",[(CD,"distances.insert(index, core_neighbor.distance)","distances.push(core_neighbor.distance)"),(CD,"distances.insert(index, F::max_value())","distances.push(F::max_value())")]),
("r-cd-map","",[(CD,"        let mut distances = Vec::with_capacity(dataset.len());\n        for (index, point) in dataset.iter().enumerate() {\n            let neighbors = neighbor_search.search(point, k);\n            if let Some(core_neighbor) = neighbors.last() {\n                distances.insert(index, core_neighbor.distance);\n            } else {\n                distances.insert(index, F::max_value());\n            }\n        }","        let distances = dataset\n            .iter()\n            .map(|point| {\n                neighbor_search\n                    .search(point, k)\n                    .last()\n                    .map_or(F::max_value(), |n| n.distance)\n            })\n            .collect();")]),
("r-cd-noempty","",[(CD,"        let k = dataset.len().min(min_samples.saturating_add(1));","        let k = if min_samples >= dataset.len() { dataset.len() } else { min_samples + 1 };")]),
("r-cd-get","",[(CD,"        assert!(index < self.distances.len());\n        self.distances[index]","        match self.distances.get(index) {\n            Some(d) => *d,\n            None => panic!(\"out of range\"),\n        }")]),
# ---- C23
("pa-swap","C23",[(HP,"            min_samples,\n            min_cluster_size,\n            metric,","            min_samples: min_cluster_size,\n            min_cluster_size: min_samples,\n            metric,")]),
("pa-tol","C23",[(PA,"F::from_f32(0.0001)","F::from_f32(0.001)")]),
("pa-iter","C23",[(PA,"max_iterations: 10","max_iterations: 100")]),
("pa-with","C23",[(PA,"        self.max_iterations = max_iterations;\n        self","        self.max_iterations = max_iterations.max(1);\n        self")]),
("pa-reset","C23",[(PA,"        self.tolerance = tolerance;\n        self","        Self { tolerance, ..Self::new(self.k, self.metric, self.initializer) }")]),
("pa-eps","C23",[(DP,"            epsilon,\n","            epsilon: epsilon.abs(),\n")]),
("pa-get","C23",[(DP,"        self.min_points\n","        self.min_points.max(1)\n")]),
("pa-25","C23",[(IM,"25","20")]),
("pa-metric","C23",[(IM,"DistanceMetric::Euclidean","DistanceMetric::SquaredEuclidean")]),
("r-pa-lit","",[(PA,"        self.tolerance = tolerance;\n        self","        Self { tolerance, ..self }")]),
("r-pa-const","",[(PA,"max_iterations: 10,","max_iterations: DEFAULT_MAX_ITERATIONS,"),(PA,"impl<F, R> KmeansParams<F, R>","const DEFAULT_MAX_ITERATIONS: usize = 10;\n\nimpl<F, R> KmeansParams<F, R>")]),
]
