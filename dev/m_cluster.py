DB="src/math/clustering/dbscan/algorithm.rs"
def E(i,p,*ed): EDITS.append((i,p,list(ed)))
EDITS=[]
# ---- C07
E("db-lt","C07",(DB,"if neighbors.len() < params.min_points() {\n                labels[index]","if neighbors.len() <= params.min_points() {\n                labels[index]"))
E("db-lt2","C07",(DB,"if secondary_neighbors.len() < params.min_points()","if secondary_neighbors.len() <= params.min_points()"))
E("db-eps2","C07",(DB,"ns.search_radius(&point, params.epsilon())","ns.search_radius(&point, params.epsilon() / F::from_f64(2.0))"))
E("db-nocore","C07",(DB,"""            if secondary_neighbors.len() < params.min_points() {
                continue;
            }
""",""))
E("db-point","C07",(DB,"let point = dataset[current_index];","let point = dataset[neighbors[0].index];"))
E("db-outskip","C07",(DB,"""                    Label::Outlier => {
                        queue.push_back(secondary_index);
                    }
""",""))
E("db-marksteal","C06 C07",(DB,"if !labels[neighbor.index].is_assigned() {","if !labels[neighbor.index].is_outlier() {"))
E("db-steal","C06 C07",(DB,"if labels[current_index].is_assigned() {\n                continue;","if labels[current_index] == Label::Assigned(cluster_id) {\n                continue;"))
E("db-noid","C06",(DB,"            cluster_id += 1;","            if neighbors.len() > params.min_points() { cluster_id += 1; }"))
E("db-id1","C06",(DB,"let mut cluster_id: usize = 0;","let mut cluster_id: usize = 1;"))
E("db-skip","C06 C07",(DB,"for (index, point) in dataset.iter().enumerate() {\n            if","for (index, point) in dataset.iter().enumerate().skip(1) {\n            if"))
E("db-markonly","C06 C07",(DB,"labels[secondary_index] = Label::Marked;\n                        queue.push_back(secondary_index);","labels[secondary_index] = Label::Marked;\n                        if queue.len() < 4096 { queue.push_back(secondary_index); }"))
E("db-qlimit","C07",(DB,"Label::Outlier => {\n                        queue.push_back(secondary_index);","Label::Outlier => {\n                        if queue.len() < 4096 { queue.push_back(secondary_index); }"))
E("db-qfirst","C06 C07",(DB,"queue.extend(neighbors.iter().map(|n| n.index));","queue.extend(neighbors.iter().skip(1).map(|n| n.index));"))
E("db-outlierpush","C07",(DB,"labels[current_index] = Label::Assigned(cluster_id);\n                continue;","continue;"))
E("db-depth","C07",(DB,"while let Some(current_index) = queue.pop_front() {","while let Some(current_index) = queue.pop_front() {\n            if queue.len() > 100_000 { break; }"))
E("db-cid","C06",(DB,"            if labels[current_index].is_outlier() {\n                labels[current_index] = Label::Assigned(cluster_id);","            if labels[current_index].is_outlier() {\n                labels[current_index] = Label::Assigned(cluster_id + 1);"))
E("db-metric","C07",(DB,"KDTree::new(&dataset_vec, params.metric())","KDTree::new(&dataset_vec, &crate::math::distance::metric::DistanceMetric::SquaredEuclidean)"))
E("db-startout","C07",(DB,"if neighbors.len() < params.min_points() {\n                labels[index] = Label::Outlier;\n                continue;","if neighbors.len() < params.min_points() || neighbors.iter().all(|n| labels[n.index].is_outlier()) {\n                labels[index] = Label::Outlier;\n                continue;"))
E("db-nbassigned","C07",(DB,"let neighbors = nns.search_radius(point, params.epsilon());\n            if neighbors.len()","let neighbors = nns.search_radius(point, params.epsilon());\n            let free = neighbors.iter().filter(|n| !labels[n.index].is_assigned()).count();\n            if free"))
# ---- C06
E("db-div","C06",(DB,"centroid.div_assign(F::from_usize(children.len()));","centroid.div_assign(F::from_usize(children.len() + 1));"))
E("db-divn","C06",(DB,"centroid.div_assign(F::from_usize(children.len()));","centroid.div_assign(F::from_usize(dataset.len()));"))
E("db-divfirst","C06",(DB,"let Some(children) = membership.get(cluster_id) else {","let Some(children) = membership.get(&0) else {"),(DB,"for (cluster_id, centroid) in centroids.iter_mut()","for (_, centroid) in centroids.iter_mut()"))
E("db-sum","C06",(DB,"centroid.add_assign(dataset[index]);","if index % 2 == 0 { centroid.add_assign(dataset[index]); }"))
E("db-sumidx","C06",(DB,"centroid.add_assign(dataset[index]);","centroid.add_assign(dataset[cluster_id]);"))
E("db-insert","C06",(DB,"entry.or_insert(P::zero())","entry.or_insert(dataset[0])"))
E("db-childskip","C06",(DB,"                    children.push(index);","                    if children.len() < 65_535 { children.push(index); }"))
E("db-outl","C06",(DB,"Label::Outlier => outliers.push(index),","Label::Outlier => if index > 0 { outliers.push(index) },"))
E("db-hash","C06",(DB,"use std::collections::{BTreeMap, VecDeque};","use std::collections::{HashMap as BTreeMap, VecDeque};"))
E("db-count","C06",(DB,".map_or(0, |children| children.len())",".map_or(1, |children| children.len())"))
E("db-countm","C06",(DB,".get(&cluster_id)\n            .map_or",".get(&(cluster_id % self.centroids.len()))\n            .map_or"))
E("db-single","C06",(DB,"        if dataset.is_empty() {","        if dataset.len() < params.min_points() {"))
E("db-meancond","C06",(DB,"                continue;\n            };\n            centroid.div","                continue;\n            };\n            if children.len() < 3 { continue; }\n            centroid.div"))
# ---- refactors
E("r-db-pop","",(DB,"queue.pop_front()","queue.pop_back()"))
E("r-db-vec","",(DB,"VecDeque::new()","Vec::new()"),(DB,"pop_front","pop"),(DB,"queue.push_back(secondary_index);","queue.push(secondary_index);"),(DB,"queue.push_back(secondary_index);","queue.push(secondary_index);"),(DB,"use std::collections::{BTreeMap, VecDeque};","use std::collections::BTreeMap;"))
E("r-db-while","",(DB,"while let Some(current_index) = queue.pop_front() {","while !queue.is_empty() {\n            let current_index = queue.pop_front().unwrap();"))
E("r-db-loop","",(DB,"while let Some(current_index) = queue.pop_front() {","loop {\n            let current_index = match queue.pop_front() { Some(i) => i, None => break };"))
E("r-db-merge","",(DB,"""            if labels[current_index].is_outlier() {
                labels[current_index] = Label::Assigned(cluster_id);
                continue;
            }

            labels[current_index] = Label::Assigned(cluster_id);
""","""            let was_outlier = labels[current_index].is_outlier();
            labels[current_index] = Label::Assigned(cluster_id);
            if was_outlier {
                continue;
            }
"""))
E("r-db-nooutskip","",(DB,"""            if labels[current_index].is_outlier() {
                labels[current_index] = Label::Assigned(cluster_id);
                continue;
            }

""",""))
E("r-db-idx","",(DB,"for (index, point) in dataset.iter().enumerate() {\n            if","for index in 0..dataset.len() {\n            let point = &dataset[index];\n            if"))
E("r-db-isass","",(DB,"if !labels[index].is_undefined() {","if labels[index].is_assigned() || labels[index].is_outlier() {"))
E("r-db-iflet","",(DB,"""                match labels[secondary_index] {
                    Label::Undefined => {
                        labels[secondary_index] = Label::Marked;
                        queue.push_back(secondary_index);
                    }
                    Label::Outlier => {
                        queue.push_back(secondary_index);
                    }
                    _ => {}
                }
""","""                let undefined = labels[secondary_index].is_undefined();
                if undefined || labels[secondary_index].is_outlier() {
                    if undefined {
                        labels[secondary_index] = Label::Marked;
                    }
                    queue.push_back(secondary_index);
                }
"""))
E("r-db-core","",(DB,"            if secondary_neighbors.len() < params.min_points() {\n                continue;\n            }\n","            let is_core = secondary_neighbors.len() >= params.min_points();\n            if !is_core {\n                continue;\n            }\n"))
E("r-db-for","",(DB,"""            neighbors.iter().for_each(|neighbor| {
                // A point of an earlier cluster stays in that cluster.
                if !labels[neighbor.index].is_assigned() {
                    labels[neighbor.index] = Label::Marked;
                }
            });
""","""            for neighbor in &neighbors {
                if labels[neighbor.index].is_assigned() {
                    continue;
                }
                labels[neighbor.index] = Label::Marked;
            }
"""))
E("r-db-nomark","",(DB,"""            neighbors.iter().for_each(|neighbor| {
                // A point of an earlier cluster stays in that cluster.
                if !labels[neighbor.index].is_assigned() {
                    labels[neighbor.index] = Label::Marked;
                }
            });
""",""))
E("r-db-helper","",(DB,"""    fn expand_cluster<N>(""","""    fn enqueue(queue: &mut VecDeque<usize>, labels: &mut [Label], index: usize) {
        match labels[index] {
            Label::Undefined => {
                labels[index] = Label::Marked;
                queue.push_back(index);
            }
            Label::Outlier => queue.push_back(index),
            _ => {}
        }
    }

    fn expand_cluster<N>("""),(DB,"""                match labels[secondary_index] {
                    Label::Undefined => {
                        labels[secondary_index] = Label::Marked;
                        queue.push_back(secondary_index);
                    }
                    Label::Outlier => {
                        queue.push_back(secondary_index);
                    }
                    _ => {}
                }
""","""                Self::enqueue(&mut queue, labels, secondary_index);
"""))
E("r-db-result","",(DB,"        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();\n        let mut membership","        Self::collect(dataset, labels)\n    }\n}\n\nimpl<F, P> DBSCAN<F, P>\nwhere\n    F: Float,\n    P: Point<F>,\n{\n    fn collect(dataset: &[P], labels: Vec<Label>) -> Self {\n        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();\n        let mut membership"))
E("r-db-entry","",(DB,"""                    let children = {
                        let entry = membership.entry(cluster_id);
                        entry.or_insert(Vec::new())
                    };
                    children.push(index);""","""                    membership.entry(cluster_id).or_default().push(index);"""))
E("r-db-iflet2","",(DB,"""            let Some(children) = membership.get(cluster_id) else {
                continue;
            };
            centroid.div_assign(F::from_usize(children.len()));""","""            if let Some(children) = membership.get(cluster_id) {
                centroid.div_assign(F::from_usize(children.len()));
            }"""))
E("r-db-index","",(DB,"""            let Some(children) = membership.get(cluster_id) else {
                continue;
            };
            centroid.div_assign(F::from_usize(children.len()));""","""            let size = membership[cluster_id].len();
            *centroid /= F::from_usize(size);"""))
E("r-db-order","",(DB,"""                    let centroid = {
                        let entry = centroids.entry(cluster_id);
                        entry.or_insert(P::zero())
                    };
                    centroid.add_assign(dataset[index]);

                    let children = {
                        let entry = membership.entry(cluster_id);
                        entry.or_insert(Vec::new())
                    };
                    children.push(index);""","""                    let children = membership.entry(cluster_id).or_insert_with(Vec::new);
                    children.push(index);
                    let centroid = centroids.entry(cluster_id).or_insert_with(P::zero);
                    *centroid += dataset[index];"""))
E("r-db-acc","",(DB,"""        self.centroids
            .values()
            .map(|centroid| centroid.clone())
            .collect()""","""        self.centroids.values().copied().collect()"""))
E("r-db-cnt","",(DB,"""        self.membership
            .get(&cluster_id)
            .map_or(0, |children| children.len())""","""        match self.membership.get(&cluster_id) {
            Some(children) => children.len(),
            None => 0,
        }"""))
E("r-db-members","",(DB,"""        for (cluster_id, centroid) in centroids.iter_mut() {
            let Some(children) = membership.get(cluster_id) else {
                continue;
            };
            centroid.div_assign(F::from_usize(children.len()));
        }
""","""        for (cluster_id, children) in membership.iter() {
            let mut centroid = P::zero();
            for child in children.iter() {
                centroid.add_assign(dataset[*child]);
            }
            centroid.div_assign(F::from_usize(children.len()));
            centroids.insert(*cluster_id, centroid);
        }
"""),(DB,"""                    let centroid = {
                        let entry = centroids.entry(cluster_id);
                        entry.or_insert(P::zero())
                    };
                    centroid.add_assign(dataset[index]);

""",""))
E("r-db-noempty","",(DB,"""        if dataset.is_empty() {
            return DBSCAN {
                _t: PhantomData::default(),
                centroids: BTreeMap::new(),
                membership: BTreeMap::new(),
                outliers: Vec::new(),
            };
        }
""",""))
E("r-db-setfirst","",(DB,"        let mut queue = VecDeque::new();\n        queue.extend(neighbors.iter().map(|n| n.index));","        let mut queue: VecDeque<usize> = neighbors.iter().map(|n| n.index).collect();"))
E("r-db-forq","",(DB,"        queue.extend(neighbors.iter().map(|n| n.index));","        for n in neighbors {\n            queue.push_back(n.index);\n        }"))
E("r-db-isfn","",(DB,"            if neighbors.len() < params.min_points() {\n                labels[index] = Label::Outlier;\n                continue;\n            }\n","            if !params.is_core(neighbors.len()) {\n                labels[index] = Label::Outlier;\n                continue;\n            }\n"),("src/math/clustering/dbscan/params.rs","    /// Return the distance metric.","    pub fn is_core(&self, n: usize) -> bool {\n        n >= self.min_points\n    }\n\n    /// Return the distance metric."))
