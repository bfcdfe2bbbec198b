"""Forms of the final division, marks and labels of the density clustering."""
DB="src/math/clustering/dbscan/algorithm.rs"
DIVS="""        for (cluster_id, centroid) in centroids.iter_mut() {
            let Some(children) = membership.get(cluster_id) else {
                continue;
            };
            centroid.div_assign(F::from_usize(children.len()));
        }"""
MARK="""            neighbors.iter().for_each(|neighbor| {
                // A point of an earlier cluster stays in that cluster.
                if !labels[neighbor.index].is_assigned() {
                    labels[neighbor.index] = Label::Marked;
                }
            });"""
SUMS="""                    let centroid = {
                        let entry = centroids.entry(cluster_id);
                        entry.or_insert(P::zero())
                    };
                    centroid.add_assign(dataset[index]);
"""
MEM="""                    let children = {
                        let entry = membership.entry(cluster_id);
                        entry.or_insert(Vec::new())
                    };
                    children.push(index);"""
def memb(it, n="children.len()"):
    return """        for (cluster_id, children) in %s {
            if let Some(centroid) = centroids.get_mut(cluster_id) {
                centroid.div_assign(F::from_usize(%s));
            }
        }""" % (it, n)
EDITS=[
("t7-memb","",[(DB,DIVS,memb("membership.iter()"))]),
("t7-memb-ref","",[(DB,DIVS,memb("&membership"))]),
("t7-memb-take","C06",[(DB,DIVS,memb("membership.iter().take(64)"))]),
("t7-memb-skip","C06",[(DB,DIVS,memb("membership.iter().filter(|(id, _)| **id != 97)"))]),
("t7-memb-max","C06",[(DB,DIVS,memb("membership.iter()","children.len().max(params.min_points())"))]),
("t7-memb-cont","C06",[(DB,DIVS,memb("membership.iter().rev()","children.len().min(1 << 16)"))]),
("t7-index","",[(DB,DIVS,"""        for (cluster_id, centroid) in centroids.iter_mut() {
            centroid.div_assign(F::from_usize(membership[cluster_id].len()));
        }""")]),
("t7-zipv","",[(DB,DIVS,"""        for (centroid, children) in centroids.values_mut().zip(membership.values()) {
            centroid.div_assign(F::from_usize(children.len()));
        }""")]),
("t7-zip","",[(DB,DIVS,"""        centroids
            .iter_mut()
            .zip(membership.iter())
            .for_each(|((_, centroid), (_, children))| {
                *centroid /= F::from_usize(children.len());
            });""")]),
("t7-keys","",[(DB,DIVS,"""        for cluster_id in membership.keys() {
            let size = membership[cluster_id].len();
            if let Some(centroid) = centroids.get_mut(cluster_id) {
                *centroid /= F::from_usize(size);
            }
        }""")]),
("t7-range","",[(DB,DIVS,"""        for id in 0..cluster_id {
            if let (Some(centroid), Some(children)) = (centroids.get_mut(&id), membership.get(&id)) {
                centroid.div_assign(F::from_usize(children.len()));
            }
        }""")]),
("t7-helper","",[(DB,DIVS,"        Self::divide_by_sizes(&mut centroids, &membership);"),(DB,"    fn expand_cluster<N>(","""    fn divide_by_sizes(centroids: &mut BTreeMap<usize, P>, membership: &BTreeMap<usize, Vec<usize>>) {
        centroids.iter_mut().for_each(|(cluster_id, centroid)| {
            if let Some(children) = membership.get(cluster_id) {
                centroid.div_assign(F::from_usize(children.len()));
            }
        });
    }

    fn expand_cluster<N>(""")]),
("t7-zipv-skip","C06",[(DB,DIVS,"""        for (centroid, children) in centroids.values_mut().zip(membership.values().filter(|children| children.len() != 97)) {
            centroid.div_assign(F::from_usize(children.len()));
        }""")]),
("t7-zipv-rev","C06",[(DB,DIVS,"""        for (centroid, children) in centroids.values_mut().zip(membership.values().rev()) {
            centroid.div_assign(F::from_usize(children.len()));
        }""")]),
("t7-range-half","C06",[(DB,DIVS,"""        for id in 0..cluster_id.min(256) {
            if let (Some(centroid), Some(children)) = (centroids.get_mut(&id), membership.get(&id)) {
                centroid.div_assign(F::from_usize(children.len()));
            }
        }""")]),
("t7-sum-fold","",[(DB,SUMS,""),(DB,DIVS,"""        for (cluster_id, children) in membership.iter() {
            let mut centroid = P::zero();
            for child in children {
                centroid += dataset[*child];
            }
            centroid /= F::from_usize(children.len());
            centroids.insert(*cluster_id, centroid);
        }""")]),
("t7-sum-fold-first","C06",[(DB,SUMS,""),(DB,DIVS,"""        for (cluster_id, children) in membership.iter() {
            let mut centroid = P::zero();
            for child in children.iter().take(4096) {
                centroid += dataset[*child];
            }
            centroid /= F::from_usize(children.len().min(4096));
            centroids.insert(*cluster_id, centroid);
        }""")]),
("t7-entry","",[(DB,SUMS,"                    *centroids.entry(cluster_id).or_insert_with(P::zero) += dataset[index];\n"),(DB,MEM,"                    membership.entry(cluster_id).or_default().push(index);")]),
("t7-entry-mod","",[(DB,SUMS,"""                    centroids
                        .entry(cluster_id)
                        .and_modify(|centroid| *centroid += dataset[index])
                        .or_insert(dataset[index]);
"""),(DB,MEM,"""                    match membership.get_mut(&cluster_id) {
                        Some(children) => children.push(index),
                        None => {
                            membership.insert(cluster_id, vec![index]);
                        }
                    }""")]),
("t7-entry-lost","C06",[(DB,SUMS,"""                    centroids
                        .entry(cluster_id)
                        .and_modify(|centroid| *centroid += dataset[index])
                        .or_insert(P::zero());
""")]),
("t7-mark-idx","",[(DB,MARK,"""            for neighbor in &neighbors {
                let label = &mut labels[neighbor.index];
                if label.is_assigned() {
                    continue;
                }
                *label = Label::Marked;
            }""")]),
("t7-mark-match","",[(DB,MARK,"""            neighbors.iter().for_each(|neighbor| match labels[neighbor.index] {
                Label::Assigned(_) => {}
                _ => labels[neighbor.index] = Label::Marked,
            });""")]),
("t7-mark-first","C06 C07",[(DB,MARK,"""            neighbors.iter().for_each(|neighbor| match labels[neighbor.index] {
                Label::Assigned(other) if other == 0 => {}
                _ => labels[neighbor.index] = Label::Marked,
            });""")]),
("t7-mark-filter","",[(DB,MARK,"""            let free: Vec<usize> = neighbors
                .iter()
                .map(|neighbor| neighbor.index)
                .filter(|&neighbor| !labels[neighbor].is_assigned())
                .collect();
            for neighbor in free {
                labels[neighbor] = Label::Marked;
            }""")]),
]
