KD="src/math/neighbors/kdtree/mod.rs"; IM="src/image.rs"; DB="src/math/clustering/dbscan/algorithm.rs"
ST="src/math/graph/spanning_tree.rs"; UF="src/math/clustering/hierarchical/union_find.rs"; HC="src/math/clustering/hierarchical/algorithm.rs"
KM="src/math/clustering/kmeans/algorithm.rs"; KI="src/math/clustering/kmeans/init.rs"; SW="src/swatch.rs"
EDITS=[]
def E(i,p,*ed): EDITS.append((i,p,list(ed)))
# --- C01
E("g-hash","C01",(DB,"use std::collections::{BTreeMap, VecDeque};","use std::collections::{BTreeMap, HashMap, VecDeque};"),(DB,"    centroids: BTreeMap<usize, P>,","    centroids: HashMap<usize, P>,"),(DB,"centroids: BTreeMap::new()","centroids: HashMap::new()"),(DB,"let mut centroids: BTreeMap<usize, P> = BTreeMap::new();","let mut centroids: HashMap<usize, P> = HashMap::new();"))
E("g-static","C01",(IM,"pub struct ImageData","static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\npub struct ImageData"),(IM,"        swatches.sort();","        let n = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        if n > 1000 {\n            swatches.pop();\n        }\n        swatches.sort();"))
E("g-once","C01",(IM,"pub struct ImageData","static W: std::sync::OnceLock<u64> = std::sync::OnceLock::new();\n\npub struct ImageData"),(IM,"let width_u64: u64 = self.width();","let first: u64 = self.width();\n        let width_u64: u64 = *W.get_or_init(|| first);"))
E("g-once-const","",(IM,"pub struct ImageData","static W: std::sync::OnceLock<u64> = std::sync::OnceLock::new();\n\npub struct ImageData"),(IM,"let width_u64: u64 = self.width();","let width_u64: u64 = self.width::<u64>() * *W.get_or_init(|| 1);"))
E("g-env","C01",(IM,"        swatches.sort();","        if std::env::var_os(\"PALETTE_UNSORTED\").is_none() {\n            swatches.sort();\n        }"))
E("g-time","C01",(IM,"        swatches.sort();","        let t = std::time::Instant::now();\n        swatches.sort();\n        if t.elapsed().as_secs() > 100 {\n            swatches.reverse();\n        }"))
E("g-rand","C01",(DB,"        let dataset_vec = dataset.to_vec();","        let dataset_vec = dataset.to_vec();\n        let _ = rand::random::<u8>();"))
E("g-print","C01",(IM,"        swatches.sort();","        eprintln!(\"{} swatches\", swatches.len());\n        swatches.sort();"))
E("g-hashset-benign","",(DB,"            let neighbors = nns.search_radius(point, params.epsilon());\n            if neighbors.len() < params.min_points()","            let neighbors = nns.search_radius(point, params.epsilon());\n            let distinct: std::collections::HashSet<usize> = neighbors.iter().map(|n| n.index).collect();\n            debug_assert!(distinct.len() == neighbors.len());\n            if neighbors.len() < params.min_points()"))
E("g-hashset-iter","C01",(DB,"            let neighbors = nns.search_radius(point, params.epsilon());\n            if neighbors.len() < params.min_points()","            let found: std::collections::HashMap<usize, Neighbor<F>> = nns.search_radius(point, params.epsilon()).into_iter().map(|n| (n.index, n)).collect();\n            let neighbors: Vec<Neighbor<F>> = found.into_values().collect();\n            if neighbors.len() < params.min_points()"))
E("g-tl","C01",(IM,"pub struct ImageData","thread_local! { static LAST: std::cell::Cell<u32> = std::cell::Cell::new(0); }\n\npub struct ImageData"),(IM,"        swatches.sort();","        LAST.with(|l| l.set(self.width));\n        swatches.sort();"))
# --- C28
E("g-rc","C28",(SW,"    pub percentage","    pub(crate) shared: std::marker::PhantomData<std::rc::Rc<u8>>,\n    pub percentage"),(IM,"                    percentage,\n","                    percentage,\n                    shared: std::marker::PhantomData,\n"))
E("g-cell","C28 C01",(IM,"    pub height: u32,\n}","    pub height: u32,\n    hits: std::cell::Cell<u32>,\n}"),(IM,"            width,\n            height,\n        }","            width,\n            height,\n            hits: std::cell::Cell::new(0),\n        }"),(IM,"        swatches.sort();","        self.hits.set(self.hits.get() + 1);\n        swatches.sort();"))
E("g-unsafe","C28",(IM,"                self.data[index],\n","                unsafe { *self.data.get_unchecked(index) },\n"))
E("g-raw","C28",(IM,"    data: &'a [u8],\n    pub width","    data: *const [u8],\n    mark: std::marker::PhantomData<&'a u8>,\n    pub width"),(IM,"            data,\n            width","            data,\n            mark: std::marker::PhantomData,\n            width"),(IM,"        let mut index = 0;","        let data = unsafe { &*self.data };\n        let mut index = 0;"),(IM,"self.data.len() / 4","data.len() / 4"),(IM,"index < self.data.len()","index < data.len()"),(IM,"                self.data[index],\n                self.data[index + 1],\n                self.data[index + 2],\n                self.data[index + 3],","                data[index],\n                data[index + 1],\n                data[index + 2],\n                data[index + 3],"))
E("g-mutself","C28",(IM,"pub fn extract<F: Float>(&self)","pub fn extract<F: Float>(&mut self)"))
# --- C24
E("t-median","C24",(KD,"&mut indices[..median], depth","&mut indices[..median.max(1)], depth"))
E("t-median-all","C24",(KD,"&mut indices[median + 1..], depth","&mut indices[median..], depth"))
E("t-noskip","C24",(DB,"            if labels[current_index].is_assigned() {\n                continue;\n            }\n",""),(DB,"                    _ => {}\n                }\n            }\n        }","                    Label::Assigned(_) => queue.push_back(secondary_index),\n                    _ => {}\n                }\n            }\n        }"))
E("t-unmark","C24",(DB,"            if labels[current_index].is_assigned() {\n                continue;\n            }\n",""),(DB,"                    Label::Outlier => {\n","                    Label::Outlier | Label::Assigned(_) => {\n"))
E("t-mstfinite","C24",(ST,"                candidates.push(","                if weight >= F::max_value() {\n                    continue;\n                }\n                candidates.push("))
E("t-mstle","C24",(ST,"while attached.len() < n_vertices","while attached.len() <= n_vertices"))
E("t-find","C24",(UF,"            parenet = self.parent[parenet];\n","            let next = self.parent[parenet];\n"),(UF,"            self.parent[parenet] = root;","            self.parent[next] = root;"))
E("t-kminf","C24",(KM,"        for _ in 0..params.max_iterations() {","        loop {"))
E("t-img","C24",(IM,"            index += 4;","            if self.data[index + 3] > 0 {\n                index += 4;\n            }"))
E("t-part","",(HC,"            node_ids.push(node.right);\n",""))
E("t-bfs","C24",(HC,"            if left_id >= n_data {\n                queue.push_back(&self.hierarchy[left_id - n_data]);","            if left_id >= n_data {\n                queue.push_back(node);"))
E("t-rand","C24",(KI,"                selected[index] = true;\n                centroids.push(*centroid);","                selected[index] = true;\n                if !centroids.iter().any(|c: &P| (*c - *centroid).is_zero()) {\n                    centroids.push(*centroid);\n                }"))
E("t-kpp","",(KI,"            } else {\n                break;\n            }","            }"))
# --- refactorings
E("r-for","",(IM,"        let mut index = 0;\n",""),(IM,"        while index < self.data.len() {","        for index in (0..self.data.len()).step_by(4) {"),(IM,"            index += 4;\n",""))
E("r-mstloop","",(ST,"            while let Some(edge) = candidates.pop() {\n                if !attached.contains(&edge.v()) {","            loop {\n                let Some(edge) = candidates.pop() else {\n                    break;\n                };\n                if !attached.contains(&edge.v()) {"))
E("r-findloop","",(UF,"        while self.parent[root] != root {\n            root = self.parent[root];\n        }","        loop {\n            let up = self.parent[root];\n            if up == root {\n                break;\n            }\n            root = up;\n        }"))
E("r-bn-split","",(KD,"            Node::new(\n                indices[median],\n                axis,\n                Self::build_node(dataset, &mut indices[..median], depth + 1),\n                Self::build_node(dataset, &mut indices[median + 1..], depth + 1),\n            )","            let index = indices[median];\n            let (below, rest) = indices.split_at_mut(median);\n            let left = Self::build_node(dataset, below, depth + 1);\n            let right = Self::build_node(dataset, &mut rest[1..], depth + 1);\n            Node::new(index, axis, left, right)"))
