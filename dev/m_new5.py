DB="src/math/clustering/dbscan/algorithm.rs"
HM=[(DB,"    membership: BTreeMap<usize, Vec<usize>>,","    membership: std::collections::HashMap<usize, Vec<usize>>,"),
 (DB,"let mut membership: BTreeMap<usize, Vec<usize>> = BTreeMap::new();","let mut membership: std::collections::HashMap<usize, Vec<usize>> = std::collections::HashMap::new();"),
 (DB,"                membership: BTreeMap::new(),","                membership: std::collections::HashMap::new(),")]
OLD="""        for (cluster_id, centroid) in centroids.iter_mut() {
            let Some(children) = membership.get(cluster_id) else {
                continue;
            };
            centroid"""
EDITS=[
("h-commute","",HM+[(DB,OLD,"""        for (cluster_id, children) in membership.iter() {
            let Some(centroid) = centroids.get_mut(cluster_id) else {
                continue;
            };
            centroid""")]),
("h-first","C01",HM+[(DB,OLD,"""        let mut first = true;
        for (cluster_id, children) in membership.iter() {
            let Some(centroid) = centroids.get_mut(cluster_id) else {
                continue;
            };
            if first && children.len() == 1 {
                first = false;
                continue;
            }
            first = false;
            centroid""")]),
("h-best","C01",HM+[(DB,OLD,"""        let mut best = 0;
        let mut largest = None;
        for (cluster_id, children) in membership.iter() {
            if children.len() > best {
                best = children.len();
                largest = Some(*cluster_id);
            }
        }
        if let Some(id) = largest {
            if best > 1 << 20 { centroids.remove(&id); membership.remove(&id); }
        }
"""+OLD)]),
("h-max","",HM+[(DB,OLD,"""        let mut best = 0;
        for (_, children) in membership.iter() {
            if children.len() > best {
                best = children.len();
            }
        }
        debug_assert!(best <= dataset.len());
"""+OLD)]),
("h-total","",HM+[(DB,OLD,"""        let mut total = 0;
        for children in membership.values() {
            total += children.len();
        }
        debug_assert!(total <= dataset.len());
"""+OLD)]),
("h-bestbreak","",HM+[(DB,OLD,"""        let mut best = 0;
        let mut largest = usize::MAX;
        for (cluster_id, children) in membership.iter() {
            if children.len() > best || children.len() == best && *cluster_id < largest {
                best = children.len();
                largest = *cluster_id;
            }
        }
        debug_assert!(largest < dataset.len());
"""+OLD)]),
]
EDITS += [
("h-bitnot","C07",[(DB,"if neighbors.len() < params.min_points()","if !neighbors.len() < params.min_points()")]),
("h-bitnot2","",[("src/math/graph/spanning_tree.rs","if index == current_index ||","if !index == current_index ||")]),
]
EDITS += [("h-noassign","C20",[("src/math/clustering/kmeans/algorithm.rs","                cluster.insert(index, data);\n","")])]
EDITS += [("h-bitnot3","C09",[("src/math/neighbors/kdtree/mod.rs","if nearest.len() < k ||","if !nearest.len() < k ||")])]
KA="src/math/clustering/kmeans/algorithm.rs"
EDITS += [("h-oneround","C20",[(KA,"                    converged = false;\n","")]),
("h-oneround2","C20",[(KA,"            if converged {\n                break;\n            }","            if converged || params.max_iterations() > 0 {\n                break;\n            }")]),
]
KD="src/math/neighbors/kdtree/mod.rs"
EDITS += [
("h-rawnear","C09",[(KD,"self.metric.measure_axis(delta) <= distance","delta.abs() <= distance")]),
("h-rawrad","C08",[(KD,"self.metric.measure_axis(delta) <= radius","delta.abs() <= radius")]),
]
KC="src/math/clustering/kmeans/cluster.rs"
EDITS += [("h-noclear","C20",[(KC,"""    pub fn clear(&mut self) {
        self.centroid.set_zero();
""","    pub fn clear(&mut self) {\n")]),
("h-noclear2","",[(KC,"""        if self.is_empty() {
            self.centroid.set_zero();
        } else {""","        if !self.is_empty() {")]),
]
