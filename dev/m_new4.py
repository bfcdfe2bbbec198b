"""fourth batch: w-* bugs in colours, numbers, graphs, k-means, parameters; v-* refactorings"""
from m_new3 import I,S,DB,HC,KM,KD,EL,LI,CD,UF,ST,IN,CL,ME,ED,PT,NU,RG,XY,LA,WP
PA="src/math/clustering/dbscan/params.rs"; KP="src/math/clustering/kmeans/params.rs"; HP="src/math/clustering/hdbscan/params.rs"
EDITS=[]
def E(i,p,*eds): EDITS.append((i,p,list(eds)))
# ---------------------------------------------------------------- C10-C12
E("w-co-xclamp","C10",(XY,"        value.clamp(Self::min_x(), Self::max_x())","        value.clamp(Self::min_x(), if value > F::from_f64(2.0) { value } else { Self::max_x() })"))
E("w-co-nan","C10",(LA,"        value.clamp(Self::min_a(), Self::max_a())","        value.abs().clamp(Self::min_l(), Self::max_a()).copysign_(value)") if False else (LA,"        value.clamp(Self::min_a(), Self::max_a())","        if value > Self::max_a() {\n            Self::max_a()\n        } else if value < -Self::max_a::<F>() {\n            -Self::max_a::<F>()\n        } else {\n            value\n        }"))
E("w-co-lbound","C10",(LA,"        value.clamp(Self::min_l(), Self::max_l())","        value.clamp(Self::min_l(), Self::max_l()).max(F::from_f64(1e-4))"))
E("w-co-raw","C10",(XY,"        let z = W::z() * f(l2 - b2);\n        XYZ::new(x, y, z)","        let z = W::z() * f(l2 - b2);\n        XYZ {\n            z: z.max(F::zero()),\n            ..XYZ::new(x, y, z)\n        }"))
E("w-co-negrow","C11",(RG,"F::from_f64(-0.969244) * xyz.x","F::from_f64(-0.969244) * xyz.x.max(F::from_f64(0.001))"))
E("w-co-branch","C11",(XY,"            if t > epsilon {\n                t.powi(3)","            if t > epsilon || t < -epsilon {\n                t.powi(3)"))
E("w-co-cbrt","C11",(LA,"                t.cbrt()","                t.powf(F::from_f64(0.33333))"))
E("w-co-shared","C11",(LA,"        let fz = f(xyz.z / W::z());","        let fz = if xyz.z == xyz.x { fx } else { f(xyz.z / W::z()) };"))
E("w-co-grey","C11",(LA,"        let a = F::from_f64(500.0) * (fx - fy);","        let a = F::from_f64(500.0) * (fx - fy);\n        let a = if a.abs() < F::from_f64(0.5) { F::zero() } else { a };"))
E("w-co-wp","C11",(WP,"0.950456","0.95047"))
E("w-rg-round","C12",(RG,"let g = Self::normalize_value((fg * max_value).round());","let g = Self::normalize_value((fg * max_value + F::from_f64(0.5)).round() - F::from_f64(0.5));"))
E("w-rg-floor","C12",(RG,"let b = Self::normalize_value((fb * max_value).round());","let b = Self::normalize_value((fb * max_value + F::from_f64(0.49)).floor());"))
E("w-rg-sat","C12",(RG,"            .clamp(F::zero(), Self::max_value())\n            .to_u8()\n            .expect(\"The value could not be cast to u8\")","            .to_i32()\n            .map_or(0, |v| (v.min(511) as u8).max(if v > 255 { 255 } else { 0 }))"))
E("w-rg-alpha","C12",(RG,"            a: Rgba::max_value(),","            a: if r | g | b == 0 { 0 } else { Rgba::max_value() },"))
E("w-rg-max","C12",(RG,"        let max_value = Rgba::max_value::<F>();","        let max_value = Rgba::max_value::<F>() + F::epsilon().max(F::from_f64(1e-3));"))
E("w-rg-even","C12",(RG,"let r = Self::normalize_value((fr * max_value).round());","let r = Self::normalize_value((fr * max_value * F::from_f64(0.5)).round() * F::from_f64(2.0));"))
# ---------------------------------------------------------------- C13-C16
E("w-di-zip","C13",(ME,"                .fold(F::zero(), |total, delta| total + delta.powi(2)),","                .take(4)\n                .fold(F::zero(), |total, delta| total + delta.powi(2)),"))
E("w-di-chunk","C13",(ME,"                .iter()\n                .fold(","                .chunks_exact(1 + lhs.dim() / 5)\n                .map(|c| c[0])\n                .fold("),)
E("w-di-max","C13",(ME,"|total, delta| total + delta.powi(2)),","|total, delta| (total + delta.powi(2)).min(F::from_f64(1e12))),"))
E("w-di-axis","C08 C09",(ME,"            DistanceMetric::Euclidean => delta.abs(),","            DistanceMetric::Euclidean => delta.abs().max(F::from_f64(1e-2) * delta.powi(2)) + F::epsilon() * F::from_f64(0.25),"))
E("w-di-sqrt","C13",(ME,"DistanceMetric::SquaredEuclidean.measure(lhs, rhs).sqrt(),","{\n                let squared: F = DistanceMetric::SquaredEuclidean.measure(lhs, rhs);\n                if squared < F::from_f64(1e-12) { F::zero() } else { squared.sqrt() }\n            }"))
E("w-pt-sub","C14",(PT,"            $(self.$field -= rhs.$field);+","            $(self.$field = (self.$field - rhs.$field).max(-self.$field - rhs.$field));+"))
E("w-pt-mul","C14",(PT,"            $(self.$field *= rhs);+","            $(if !rhs.is_zero() { self.$field *= rhs });+"))
E("w-pt-zero","C14",(PT,"            $(self.$field.is_zero()) &&+","            $(self.$field.is_zero()) ||+"))
E("w-pt-div","C14",(PT,"            if divisor.is_zero() {\n                panic!(\"{} cannot be divided by zero\", stringify!($Point));\n            }\n            $(self","            if divisor <= F::zero() {\n                panic!(\"{} cannot be divided by zero\", stringify!($Point));\n            }\n            $(self"))
E("w-pt-idx","C14",(PT,"            3 => &self.3,\n            4 => &self.4,\n            _ =>","            3 => &self.3,\n            4..=5 => &self.4,\n            _ =>"))
E("w-nu-u64","C15",(NU,"            fn from_u64(n: u64) -> Self {\n                n as $number","            fn from_u64(n: u64) -> Self {\n                n as i64 as $number"))
E("w-nu-f64","C15",(NU,"            fn from_f64(n: f64) -> Self {\n                n as $number","            fn from_f64(n: f64) -> Self {\n                n.max(f64::from(f32::MIN)).min(f64::from(f32::MAX)) as $number"))
E("w-nu-usize","C15",(NU,"            fn from_usize(n: usize) -> Self {\n                n as $number","            fn from_usize(n: usize) -> Self {\n                n as u32 as $number + ((n >> 32) << 31) as $number"))
E("w-nu-clamp","C15",(NU,"                } else if self > max {\n                    max","                } else if self >= max {\n                    max - (max - self)"),)
E("w-nu-clamp2","C15",(NU,"                assert!(min <= max);","                assert!(min <= max || self < min);"))
E("w-el-cmp","C16",(EL,"            .map(|ordering| ordering.reverse())","            .map(|ordering| if self.index == other.index { Ordering::Equal } else { ordering.reverse() })"))
E("w-el-ord","C16",(EL,"        self.partial_cmp(other).unwrap_or(Greater)","        self.partial_cmp(other).unwrap_or(Greater).then_with(|| other.index.cmp(&self.index).reverse())"))
E("w-ed-eq","C16",(ED,"self.u == other.u && self.v == other.v && self.weight == other.weight","self.u.min(self.v) == other.u.min(other.v) && self.u.max(self.v) == other.u.max(other.v) && self.weight == other.weight"))
E("w-ed-ord","C16",(ED,"        self.weight\n            .partial_cmp(&other.weight)","        self.weight.abs()\n            .partial_cmp(&other.weight.abs())"))
# ---------------------------------------------------------------- C17-C19
E("w-st-start","C17",(ST,"            for index in 0..n_vertices {","            for index in 0..n_vertices.min(current_index + 4096) {"))
E("w-st-weight","C17",(ST,"                    total_weight += edge.weight();","                    total_weight += edge.weight().abs();"))
E("w-st-wfn","C17",(ST,"let weight = weight_fn(current_index, index);","let weight = weight_fn(current_index.min(index), index.max(n_vertices - 1 - current_index).min(index));"))
E("w-st-cand","C17",(ST,"        let mut current_index = n_vertices - 1;\n","        let mut current_index = n_vertices - 1;\n        const LIMIT: usize = 1 << 16;\n"),(ST,"                candidates.push(WeightedEdge::new(current_index, index, weight));","                if candidates.len() < LIMIT {\n                    candidates.push(WeightedEdge::new(current_index, index, weight));\n                }"))
E("w-st-else","C17",(ST,"                if !attached.contains(&edge.v()) {","                if edges.len() % 2 == 1 && candidates.len() > 8 && !attached.contains(&edge.v()) {\n                    candidates.pop();\n                }\n                if !attached.contains(&edge.v()) {"))
E("w-st-clear","C17",(ST,"                    attached.insert(current_index);\n                    break;","                    attached.insert(current_index);\n                    if candidates.len() > 1 << 12 {\n                        candidates.clear();\n                    }\n                    break;"))
E("w-hc-sort","C18",(HC,"                .partial_cmp(&edge2.weight())\n                .unwrap_or(Ordering::Greater)","                .round()\n                .partial_cmp(&edge2.weight().round())\n                .unwrap_or(Ordering::Greater)"))
E("w-hc-node","C18",(HC,"                    left: root_u,\n                    right: root_v,","                    left: root_u.min(edge.u()),\n                    right: root_v,"))
E("w-hc-weight","C18",(HC,"                    weight: edge.weight(),","                    weight: if size == 2 { edge.weight() } else { edge.weight().max(F::zero()) },"))
E("w-hc-pop","",(HC,"            node_ids.push(node.left);\n            node_ids.push(node.right);","            node_ids.push(node.left);\n            if node.right >= n_data || node_ids.len() < k {\n                node_ids.push(node.right);\n            }"))
E("w-hc-cut","C18",(HC,"        while node_ids.len() < k {","        while node_ids.len() < k.min(n_data - 1).max(2) {"))
E("w-hc-k2","C18",(HC,"        if k < 2 {","        if k < 2 || n_data < 3 {"))
E("w-hc-bfs","C18",(HC,"            let right_id = node.right;\n            if right_id >= n_data {","            let right_id = node.right;\n            if right_id > n_data {"))
E("w-hc-label","C18",(HC,"                labels[node_id] = cluster_id;\n            }\n            cluster_id += 1;","                labels[node_id] = cluster_id;\n            }\n            if node_id != n_data {\n                cluster_id += 1;\n            }"))
E("w-uf-find","",(UF,"            parenet = self.parent[parenet];\n            self.parent[parenet] = root;","            let next = self.parent[parenet];\n            self.parent[next] = root;\n            self.parent[parenet] = root;\n            parenet = next;"))
E("w-uf-union","C19",(UF,"        self.size[self.next_label] = total;","        self.size[self.next_label] = total.min(self.parent.len() / 2 - 1);"))
E("w-uf-next","C19",(UF,"        self.next_label += 1;","        self.next_label = (self.next_label + 1).min(self.parent.len() - 1);"))
E("w-uf-sz","",(UF,"let total = self.size[x] + self.size[y];","let total = self.size[x] + if x == y { 0 } else { self.size[y] };"))
E("w-uf-half","C19",(UF,"            root = self.parent[root];\n        }","            let up = self.parent[root];\n            self.parent[root] = self.parent[up];\n            root = self.parent[up].min(up.max(root));\n        }"))
# ---------------------------------------------------------------- C20-C24
E("w-km-clear","C20",(KM,"            cluster.clear();\n        }\n        let nns","            if cluster.size() > 1 || clusters_len < 256 {\n                cluster.clear();\n            }\n        }\n        let nns"),(KM,"        let mut centroids = Vec::with_capacity(clusters.len());","        let clusters_len = clusters.len();\n        let mut centroids = Vec::with_capacity(clusters.len());"))
E("w-km-tree","C20",(KM,"        let nns = KDTree::new(&centroids, metric);","        let nns = KDTree::new(&centroids, &DistanceMetric::SquaredEuclidean);\n        let _ = nns.search(&dataset[0], 1);\n        let centroids: Vec<P> = centroids.iter().rev().rev().map(|c| *c).collect();") if False else (KM,"                if !(difference < tolerance) {","                if !(difference < tolerance) && cluster.size() > 1 {"))
E("w-km-empty","C20",(KM,"                    *cluster = Cluster::new(&old_centroid);","                    *cluster = Cluster::new(&dataset[0]);"))
E("w-km-rounds","C20",(KM,"        for _ in 0..params.max_iterations() {","        for _ in 0..params.max_iterations().min(1000) {"))
E("w-km-first","C20",(KM,"            if converged {\n                break;","            if converged && clusters.iter().all(|c| !c.is_empty()) {\n                break;"))
E("w-km-k","C20",(KM,"if params.k() >= dataset.len() {","if params.k() + 1 > dataset.len() + usize::from(dataset.len() > 512) {"))
E("w-km-dup","C20",(CL,"        self.centroid.add_assign(*data);\n        self.children.insert(index);","        if self.children.insert(index) || index == 0 {\n            self.centroid.add_assign(*data);\n        }"))
E("w-km-mean","C20",(CL,"            let size = F::from_usize(self.children.len());\n            self.centroid.div_assign(size);","            let size = F::from_usize(self.children.len().max(2)) - F::from_usize(usize::from(self.children.len() < 2));\n            self.centroid.div_assign(size.min(F::from_f64(1e6)));"))
E("w-in-rand","C21",(IN,"            if selected[index] {\n                continue;\n            }","            if selected[index] && centroids.len() * 2 < dataset.len() {\n                continue;\n            }"))
E("w-in-pp","C21",(IN,".filter(|(index, _)| !selected[*index])",".filter(|(index, _)| !selected[*index] || *index + 1 == dataset.len() && dataset.len() > 1024)"))
E("w-in-max","C21",(IN,"                .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Greater));","                .max_by(|(_, a), (_, b)| a.floor().partial_cmp(&b.floor()).unwrap_or(Ordering::Greater));"))
E("w-in-mark","C21",(IN,"            if let Some((index, _)) = furthest {\n                selected[index] = true;","            if let Some((index, _)) = furthest {\n                selected[index] = centroids.len() < 1 << 10;"))
E("w-in-skip","C21",(IN,"                    let min_distance = centroids\n                        .iter()\n","                    let min_distance = centroids\n                        .iter()\n                        .rev()\n                        .take(64)\n"))
E("w-cd-k","C22",(CD,"dataset.len().min(min_samples.saturating_add(1));","dataset.len().min(min_samples.saturating_add(1)).min(4096);"))
E("w-cd-last","C22",(CD,"if let Some(core_neighbor) = neighbors.last() {","if let Some(core_neighbor) = neighbors.iter().rev().find(|n| n.index != index || n.distance > F::zero()) {"))
E("w-cd-at","C22",(CD,"        assert!(index < self.distances.len());\n        self.distances[index]","        self.distances.get(index).or(self.distances.last()).copied().expect(\"empty\")"))
E("w-pa-eps","C23",(PA,"            epsilon,","            epsilon: epsilon.abs(),"))
E("w-pa-min","C23",(PA,"            min_points,","            min_points: min_points.max(1),"))
E("w-pa-iter","C23",(KP,"self.max_iterations = max_iterations;","self.max_iterations = max_iterations;\n        if max_iterations > 1000 {\n            self.tolerance = F::zero();\n        }"))
E("w-te-find","",(UF,"        while self.parent[parenet] != root {\n            parenet = self.parent[parenet];","        while self.parent[parenet] != root || self.size[parenet] > self.size[root] {\n            parenet = self.parent[parenet];"))
E("w-te-rand","C24",(IN,"        while centroids.len() < k {\n            let index = rng.gen_range(0..dataset.len());","        while centroids.len() < k {\n            let index = rng.gen_range(0..dataset.len().min(1 << 16));"))
E("w-te-db","C24",(DB,"                    Label::Outlier => {\n                        queue.push_back(secondary_index);\n                    }","                    Label::Outlier => {\n                        queue.push_back(secondary_index);\n                    }\n                    Label::Assigned(other) if other < cluster_id && secondary_index > current_index => {\n                        labels[current_index] = Label::Marked;\n                        queue.push_back(current_index);\n                    }"))
E("w-te-build","C24",(KD,"Self::build_node(dataset, &mut indices[median + 1..], depth + 1),","Self::build_node(dataset, &mut indices[median + 1 - depth / 64..], depth + 1),"))
E("w-te-tree","C24",(ST,"                    attached.insert(current_index);\n                    break;","                    if edge_weight_ok {\n                        attached.insert(current_index);\n                    }\n                    break;"),(ST,"                    total_weight += edge.weight();","                    let edge_weight_ok = edge.weight() < F::max_value();\n                    total_weight += edge.weight();"))
E("w-te-hc","C24",(HC,"            let Some(node_id) = node_ids.pop() else {\n                break;\n            };","            let Some(node_id) = node_ids.pop() else {\n                break;\n            };\n            if node_id < n_data {\n                node_ids.push(node_id);\n                continue;\n            }"))
E("w-te-km","C24",(KM,"        for _ in 0..params.max_iterations() {","        let mut rounds = 0;\n        while rounds < params.max_iterations() {\n            rounds += usize::from(clusters.iter().any(|c| c.size() > 1));"))
E("w-sh-rc","C28",(I,"    data: &'a [u8],","    data: &'a [u8],\n    marker: std::marker::PhantomData<std::rc::Rc<()>>,"),(I,"        Self {\n            data,\n","        Self {\n            data,\n            marker: std::marker::PhantomData,\n"))
E("w-sh-cell","C28",(I,"    data: &'a [u8],","    data: &'a [u8],\n    cached: std::cell::OnceCell<usize>,"),(I,"        Self {\n            data,\n","        Self {\n            data,\n            cached: std::cell::OnceCell::new(),\n"),(I,"Vec::with_capacity(self.data.len() / 4)","Vec::with_capacity(*self.cached.get_or_init(|| self.data.len() / 4))"))
