E="src/math/graph/edge.rs"; T="src/math/graph/spanning_tree.rs"; U="src/math/clustering/hierarchical/union_find.rs"; H="src/math/clustering/hierarchical/algorithm.rs"; K="src/math/neighbors/kdtree/element.rs"; CD="src/math/clustering/hdbscan/core_distance.rs"
EDITS=[
("g-norev","C16",[(E,".map(|ordering| ordering.reverse())","")]),
("g-eq-w","C16",[(E,"self.u == other.u && self.v == other.v && self.weight == other.weight","self.u == other.u && self.v == other.v")]),
("g-eq-uv","C16",[(E,"self.u == other.u && self.v == other.v && self.weight == other.weight","self.u == other.u && self.weight == other.weight")]),
("g-cmp-rev","C16",[(E,"self.partial_cmp(other).unwrap_or(Ordering::Greater)","other.partial_cmp(self).unwrap_or(Ordering::Greater)")]),
("g-weight","C17",[(E,"        self.weight\n    }","        self.weight.abs()\n    }")]),
("g-t-swap","C17",[(T,"weight_fn(current_index, index);","weight_fn(index, index);")]),
("g-t-sumtwice","C17",[(T,"total_weight += edge.weight();","total_weight = total_weight.max(edge.weight());")]),
("g-t-nobreak","C17",[(T,"                    attached.insert(current_index);\n                    break;","                    attached.insert(current_index);")]),
("g-t-clear","C17",[(T,"            while let Some(edge)","            if candidates.len() > 4 * n_vertices {\n                candidates.pop();\n            }\n            while let Some(edge)")]),
("g-t-chain","C17",[(T,"            for index in 0..n_vertices {","            candidates.clear();\n            for index in 0..n_vertices {")]),
("g-t-lim","C17",[(T,"while attached.len() < n_vertices {","while attached.len() + 1 < n_vertices {")]),
("g-t-range","C17",[(T,"for index in 0..n_vertices {","for index in 1..n_vertices {")]),
("g-t-edge","C17",[(T,"WeightedEdge::new(current_index, index, weight)","WeightedEdge::new(index, current_index, weight)")]),
("g-t-weight","C17",[(T,"            weight: total_weight,","            weight: total_weight * F::from_f64(0.5),")]),
("g-t-empty","C17",[(T,"        if vertices.is_empty() {\n            return Self {\n                weight: F::zero(),","        if vertices.is_empty() {\n            return Self {\n                weight: F::one(),")]),
("g-t-skip","C17",[(T,"index == current_index || attached.contains(&index)","index < current_index || attached.contains(&index)")]),
("gr-u-size","",[(U,"if index < n { 1 } else { 0 }","if index <= n { 1 } else { 0 }")]),
("g-u-find","C19",[(U,"            self.parent[parenet] = root;","            self.parent[x] = root;\n            self.parent[root] = x;")]),
("g-u-find2","C19",[(U,"        while self.parent[root] != root {","        if self.parent[root] != root {")]),
("g-u-union","C19",[(U,"        self.parent[y] = self.next_label;","        self.parent[y] = x;")]),
("g-u-total","C19",[(U,"let total = self.size[x] + self.size[y];","let total = self.size[x].max(self.size[y]) + 1;")]),
("g-u-label","C19",[(U,"self.next_label += 1;","self.next_label += 2;")]),
("g-u-next","C19",[(U,"next_label: n,","next_label: n - 1,")]),
("g-u-nosize","C19",[(U,"        self.size[self.next_label] = total;\n","")]),
("g-u-compress","C19",[(U,"        while self.parent[parenet] != root {\n            parenet = self.parent[parenet];\n            self.parent[parenet] = root;","        while self.parent[parenet] != root {\n            parenet = self.parent[parenet];\n            self.parent[x] = parenet;")]),
("g-h-order","C18",[(H,".partial_cmp(&edge2.weight())\n                .unwrap","\n                .partial_cmp(&edge2.weight())\n                .map(|o| o.reverse())\n                .unwrap")]),
("g-h-nosort","C18",[(H,"        let mut edges = spanning_tree.edges().to_vec();\n        edges.sort_unstable_by(|edge1, edge2| {\n            edge1\n                .weight()\n                .partial_cmp(&edge2.weight())\n                .unwrap_or(Ordering::Greater)\n        });","        let edges = spanning_tree.edges().to_vec();\n        let _ = Ordering::Greater;")]),
("g-h-root","C18",[(H,"let root_v = union_find.find(edge.v());","let root_v = edge.v();")]),
("g-h-k","C18",[(H,"while node_ids.len() < k {","while node_ids.len() <= k {")]),
("g-h-k1","C18",[(H,"assert!(k <= n_data);","assert!(k < n_data);")]),
("g-h-noassert","C18",[(H,"assert!(k <= n_data);","let k = k.min(n_data);")]),
("g-h-rootid","C18",[(H,"let root_node_id = n_edge * 2;","let root_node_id = n_edge * 2 - 1;")]),
("g-h-label","C18",[(H,"            cluster_id += 1;","            if node_id >= n_data {\n                cluster_id += 1;\n            }")]),
("g-h-bfs","C18",[(H,"            let right_id = node.right;\n            if right_id >= n_data {","            let right_id = node.right;\n            if right_id > n_data {")]),
("g-h-bfs2","C18",[(H,"labels[right_id] = cluster_id;","labels[right_id] = cluster_id + 1;")]),
("g-h-pushleft","C18",[(H,"            node_ids.push(node.right);","            node_ids.push(node.left);")]),
("g-h-size","C18",[(H,"                    weight: edge.weight(),\n                    size,","                    weight: edge.weight(),\n                    size: size - 1,")]),
("g-h-swapw","C18",[(H,"                    weight: edge.weight(),\n                    size,","                    weight: F::from_usize(size),\n                    size,")]),
# behaviour-preserving
("gr-cmp-match","",[(E,"        self.weight\n            .partial_cmp(&other.weight)\n            .map(|ordering| ordering.reverse())","        match self.weight.partial_cmp(&other.weight) {\n            Some(ordering) => Some(ordering.reverse()),\n            None => None,\n        }")]),
("gr-cmp-swap","",[(E,"        self.weight\n            .partial_cmp(&other.weight)\n            .map(|ordering| ordering.reverse())","        other.weight.partial_cmp(&self.weight)")]),
("gr-eq-tuple","",[(E,"self.u == other.u && self.v == other.v && self.weight == other.weight","(self.u, self.v) == (other.u, other.v) && self.weight == other.weight")]),
("gr-eq-early","",[(E,"        self.u == other.u && self.v == other.v && self.weight == other.weight","        if self.u != other.u || self.v != other.v {\n            return false;\n        }\n        self.weight == other.weight")]),
("gr-t-helper","",[(T,"            for index in 0..n_vertices {\n                if index == current_index || attached.contains(&index) {\n                    continue;\n                }\n\n                let weight = weight_fn(current_index, index);\n                candidates.push(WeightedEdge::new(current_index, index, weight));\n            }","            Self::push_candidates(current_index, n_vertices, &attached, &weight_fn, &mut candidates);"),(T,"    /// Build a minimum spanning tree.","    fn push_candidates<WF>(\n        from: usize,\n        n_vertices: usize,\n        attached: &HashSet<usize>,\n        weight_fn: &WF,\n        candidates: &mut BinaryHeap<WeightedEdge<F>>,\n    ) where\n        WF: Fn(usize, usize) -> F,\n    {\n        for index in 0..n_vertices {\n            if attached.contains(&index) {\n                continue;\n            }\n            candidates.push(WeightedEdge::new(from, index, weight_fn(from, index)));\n        }\n    }\n\n    /// Build a minimum spanning tree.")]),
("gr-t-if","",[(T,"                if index == current_index || attached.contains(&index) {\n                    continue;\n                }\n\n                let weight = weight_fn(current_index, index);\n                candidates.push(WeightedEdge::new(current_index, index, weight));","                if index != current_index && !attached.contains(&index) {\n                    let weight = weight_fn(current_index, index);\n                    candidates.push(WeightedEdge::new(current_index, index, weight));\n                }")]),
("gr-t-filter","",[(T,"            for index in 0..n_vertices {\n                if index == current_index || attached.contains(&index) {\n                    continue;\n                }\n\n                let weight","            for index in (0..n_vertices).filter(|index| !attached.contains(index)) {\n                let weight")]),
("gr-t-extend","",[(T,"            for index in 0..n_vertices {\n                if index == current_index || attached.contains(&index) {\n                    continue;\n                }\n\n                let weight = weight_fn(current_index, index);\n                candidates.push(WeightedEdge::new(current_index, index, weight));\n            }","            candidates.extend(\n                (0..n_vertices)\n                    .filter(|index| !attached.contains(index))\n                    .map(|index| WeightedEdge::new(current_index, index, weight_fn(current_index, index))),\n            );")]),
("gr-t-boolvec","",[(T,"let mut attached = HashSet::with_capacity(n_vertices);","let mut attached = vec![false; n_vertices];\n        let mut n_attached = 1;"),(T,"        attached.insert(current_index);\n        while attached.len() < n_vertices {","        attached[current_index] = true;\n        while n_attached < n_vertices {"),(T,"index == current_index || attached.contains(&index)","attached[index]"),(T,"!attached.contains(&edge.v())","!attached[edge.v()]"),(T,"                    attached.insert(current_index);\n                    break;","                    attached[current_index] = true;\n                    n_attached += 1;\n                    break;"),(T,"BinaryHeap, HashSet","BinaryHeap")]),
("gr-t-order","",[(T,"                    current_index = edge.v();\n                    total_weight += edge.weight();\n                    edges.push(edge);\n                    attached.insert(current_index);\n                    break;","                    total_weight += edge.weight();\n                    current_index = edge.v();\n                    attached.insert(edge.v());\n                    edges.push(edge);\n                    break;")]),
("gr-t-continue","",[(T,"                if !attached.contains(&edge.v()) {\n                    current_index = edge.v();\n                    total_weight += edge.weight();\n                    edges.push(edge);\n                    attached.insert(current_index);\n                    break;\n                }","                if attached.contains(&edge.v()) {\n                    continue;\n                }\n                current_index = edge.v();\n                total_weight += edge.weight();\n                edges.push(edge);\n                attached.insert(current_index);\n                break;")]),
("gr-t-insert","",[(T,"                if !attached.contains(&edge.v()) {\n                    current_index = edge.v();\n                    total_weight += edge.weight();\n                    edges.push(edge);\n                    attached.insert(current_index);\n                    break;\n                }","                if attached.insert(edge.v()) {\n                    current_index = edge.v();\n                    total_weight += edge.weight();\n                    edges.push(edge);\n                    break;\n                }")]),
("gr-t-sumafter","",[(T,"                    total_weight += edge.weight();\n",""),(T,"        let mut total_weight = F::zero();\n",""),(T,"        Self {\n            edges,\n            weight: total_weight,","        let total_weight = edges.iter().fold(F::zero(), |total, edge: &WeightedEdge<F>| total + edge.weight());\n        Self {\n            edges,\n            weight: total_weight,")]),
("gr-t-edges","",[(T,"while attached.len() < n_vertices {","while edges.len() + 1 < n_vertices {")]),
("gr-t-cap","",[(T,"let mut edges = Vec::new();\n        let mut attached","let mut edges = Vec::with_capacity(n_vertices - 1);\n        let mut attached")]),
("gr-t-early","",[(T,"        if vertices.is_empty() {\n            return Self {\n                weight: F::zero(),\n                edges: Vec::new(),\n            };\n        }\n\n        let n_vertices = vertices.len();","        let n_vertices = vertices.len();\n        if n_vertices == 0 {\n            let (weight, edges) = (F::zero(), vec![]);\n            return Self { weight, edges };\n        }\n")]),
("gr-t-start0","",[(T,"let mut current_index = n_vertices - 1;","let mut current_index = 0;")]),
("gr-u-helper","",[(U,"        let mut root = x;\n        let mut parenet = x;\n        // Find the root node of the given index.\n        while self.parent[root] != root {\n            root = self.parent[root];\n        }\n","        let root = self.root_of(x);\n        let mut parenet = x;\n"),(U,"    /// Union the given nodes.","    fn root_of(&self, x: usize) -> usize {\n        let mut root = x;\n        loop {\n            let next = self.parent[root];\n            if next == root {\n                return root;\n            }\n            root = next;\n        }\n    }\n\n    /// Union the given nodes.")]),
("gr-u-nocompress","",[(U,"        while self.parent[parenet] != root {\n            parenet = self.parent[parenet];\n            self.parent[parenet] = root;\n        }\n",""),(U,"        let mut parenet = x;\n","")]),
("gr-u-compress","",[(U,"        while self.parent[parenet] != root {\n            parenet = self.parent[parenet];\n            self.parent[parenet] = root;\n        }\n","        while self.parent[parenet] != root {\n            let next = self.parent[parenet];\n            self.parent[parenet] = root;\n            parenet = next;\n        }\n")]),
("gr-u-rec","",[(U,"        let mut root = x;\n        let mut parenet = x;\n        // Find the root node of the given index.\n        while self.parent[root] != root {\n            root = self.parent[root];\n        }\n\n        while self.parent[parenet] != root {\n            parenet = self.parent[parenet];\n            self.parent[parenet] = root;\n        }\n        root","        let parent = self.parent[x];\n        if parent == x {\n            return x;\n        }\n        let root = self.find(parent);\n        self.parent[x] = root;\n        root")]),
("gr-u-union","",[(U,"        self.parent[x] = self.next_label;\n        self.parent[y] = self.next_label;\n\n        let total = self.size[x] + self.size[y];\n        self.size[self.next_label] = total;\n        self.next_label += 1;\n        total","        let label = self.next_label;\n        self.next_label = label + 1;\n        self.size[label] = self.size[x] + self.size[y];\n        for node in [x, y] {\n            self.parent[node] = label;\n        }\n        self.size[label]")]),
("gr-u-new","",[(U,"        let size: Vec<usize> = (0..2 * n)\n            .map(|index| if index < n { 1 } else { 0 })\n            .collect();","        let mut size = vec![0; 2 * n];\n        for index in 0..n {\n            size[index] = 1;\n        }")]),
("gr-u-new2","",[(U,"        let size: Vec<usize> = (0..2 * n)\n            .map(|index| if index < n { 1 } else { 0 })\n            .collect();","        let mut size = vec![1; n];\n        size.resize(2 * n, 0);")]),
("gr-u-new3","",[(U,".map(|index| if index < n { 1 } else { 0 })",".map(|index| usize::from(index < n))")]),
("gr-h-loop","",[(H,"        let nodes = edges\n            .iter()\n            .map(|edge| -> Node<F> {\n                let root_u = union_find.find(edge.u());\n                let root_v = union_find.find(edge.v());\n                let size = union_find.union(root_u, root_v);\n                Node {\n                    left: root_u,\n                    right: root_v,\n                    weight: edge.weight(),\n                    size,\n                }\n            })\n            .collect();","        let mut nodes = Vec::with_capacity(n_edge);\n        for edge in edges.iter() {\n            let left = union_find.find(edge.u());\n            let right = union_find.find(edge.v());\n            let size = union_find.union(left, right);\n            nodes.push(Node {\n                left,\n                right,\n                weight: edge.weight(),\n                size,\n            });\n        }")]),
("gr-h-sorted","",[(H,"edges.sort_unstable_by(|edge1, edge2| {\n            edge1\n                .weight()\n                .partial_cmp(&edge2.weight())\n                .unwrap_or(Ordering::Greater)\n        });","edges.sort_by(|a, b| a.weight().partial_cmp(&b.weight()).unwrap_or(Ordering::Equal));")]),
("gr-h-revcmp","",[(H,"edges.sort_unstable_by(|edge1, edge2| {\n            edge1\n                .weight()\n                .partial_cmp(&edge2.weight())\n                .unwrap_or(Ordering::Greater)\n        });","edges.sort_unstable_by(|edge1, edge2| edge2.cmp(edge1));\n        let _ = Ordering::Greater;")]),
("gr-h-helper","",[(H,"    fn bfs(","    fn assign(&self, node_id: usize, cluster_id: usize, labels: &mut [usize]) {\n        if node_id < self.n_data {\n            labels[node_id] = cluster_id;\n        } else {\n            self.bfs(node_id, cluster_id, labels);\n        }\n    }\n\n    fn bfs("),(H,"            if node_id >= n_data {\n                self.bfs(node_id, cluster_id, &mut labels);\n            } else {\n                labels[node_id] = cluster_id;\n            }\n            cluster_id += 1;","            self.assign(node_id, cluster_id, &mut labels);\n            cluster_id += 1;")]),
("gr-h-bfs-child","",[(H,"            let left_id = node.left;\n            if left_id >= n_data {\n                queue.push_back(&self.hierarchy[left_id - n_data]);\n            } else {\n                labels[left_id] = cluster_id;\n            }\n\n            let right_id = node.right;\n            if right_id >= n_data {\n                queue.push_back(&self.hierarchy[right_id - n_data]);\n            } else {\n                labels[right_id] = cluster_id;\n            }","            for child in [node.left, node.right] {\n                if child < n_data {\n                    labels[child] = cluster_id;\n                } else {\n                    queue.push_back(&self.hierarchy[child - n_data]);\n                }\n            }")]),
("gr-h-bfs-ids","",[(H,"        let root_node = &self.hierarchy[root_node_id - n_data];\n\n        let mut queue = VecDeque::new();\n        queue.push_back(root_node);\n        while let Some(node) = queue.pop_front() {\n            let left_id = node.left;\n            if left_id >= n_data {\n                queue.push_back(&self.hierarchy[left_id - n_data]);\n            } else {\n                labels[left_id] = cluster_id;\n            }\n\n            let right_id = node.right;\n            if right_id >= n_data {\n                queue.push_back(&self.hierarchy[right_id - n_data]);\n            } else {\n                labels[right_id] = cluster_id;\n            }\n        }","        let mut stack = VecDeque::new();\n        stack.push_back(root_node_id);\n        while let Some(id) = stack.pop_back() {\n            if id < n_data {\n                labels[id] = cluster_id;\n                continue;\n            }\n            let node = &self.hierarchy[id - n_data];\n            stack.push_back(node.left);\n            stack.push_back(node.right);\n        }")]),
("gr-h-while","",[(H,"        let mut cluster_id = 0;\n        while let Some(node_id) = node_ids.pop() {","        for (cluster_id, node_id) in node_ids.into_iter().enumerate() {"),(H,"            cluster_id += 1;\n        }\n        labels","        }\n        labels")]),
("gr-h-kzero","",[(H,"        let mut labels = vec![0; n_data];\n        if k < 2 {\n            return labels;\n        }\n","        if k <= 1 {\n            return vec![0; n_data];\n        }\n        let mut labels = vec![0; n_data];\n")]),
("gr-h-unwrap","",[(H,"            let Some(node_id) = node_ids.pop() else {\n                break;\n            };\n","            let node_id = match node_ids.pop() {\n                Some(node_id) => node_id,\n                None => break,\n            };\n")]),
("gr-h-noop","",[(H,"        let mut cluster_id = 0;","        let _ = 0;\n        let mut cluster_id = 0;"),(U,"        let total = self","        let _ = 0;\n        let total = self"),(T,"        let mut total_weight","        let _ = 0;\n        let mut total_weight")]),
("gr-t-loop","",[(T,"            while let Some(edge) = candidates.pop() {\n                if !attached.contains(&edge.v()) {\n                    current_index = edge.v();\n                    total_weight += edge.weight();\n                    edges.push(edge);\n                    attached.insert(current_index);\n                    break;\n                }\n            }","            loop {\n                let Some(edge) = candidates.pop() else {\n                    break;\n                };\n                if attached.contains(&edge.v()) {\n                    continue;\n                }\n                current_index = edge.v();\n                total_weight += edge.weight();\n                edges.push(edge);\n                attached.insert(current_index);\n                break;\n            }")]),
("gr-t-curfirst","",[(T,"                if !attached.contains(&edge.v()) {\n                    current_index = edge.v();\n                    total_weight += edge.weight();\n                    edges.push(edge);\n                    attached.insert(current_index);\n                    break;\n                }","                current_index = edge.v();\n                if attached.insert(current_index) {\n                    total_weight += edge.weight();\n                    edges.push(edge);\n                    break;\n                }")]),
("gr-t-next","",[(T,"            while let Some(edge) = candidates.pop() {\n                if !attached.contains(&edge.v()) {\n                    current_index = edge.v();\n                    total_weight += edge.weight();\n                    edges.push(edge);\n                    attached.insert(current_index);\n                    break;\n                }\n            }","            let next = loop {\n                match candidates.pop() {\n                    Some(edge) if attached.contains(&edge.v()) => continue,\n                    other => break other,\n                }\n            };\n            let Some(edge) = next else {\n                break;\n            };\n            current_index = edge.v();\n            total_weight += edge.weight();\n            edges.push(edge);\n            attached.insert(current_index);")]),
("gr-t-helper2","",[(T,"            while let Some(edge) = candidates.pop() {\n                if !attached.contains(&edge.v()) {\n                    current_index = edge.v();\n                    total_weight += edge.weight();\n                    edges.push(edge);\n                    attached.insert(current_index);\n                    break;\n                }\n            }","            if let Some(edge) = Self::take_edge(&mut candidates, &attached) {\n                current_index = edge.v();\n                total_weight += edge.weight();\n                edges.push(edge);\n                attached.insert(current_index);\n            }"),(T,"    /// Build a minimum spanning tree.","    fn take_edge(candidates: &mut BinaryHeap<WeightedEdge<F>>, attached: &HashSet<usize>) -> Option<WeightedEdge<F>> {\n        while let Some(edge) = candidates.pop() {\n            if !attached.contains(&edge.v()) {\n                return Some(edge);\n            }\n        }\n        None\n    }\n\n    /// Build a minimum spanning tree.")]),
("gr-t-itf","",[(T,"            while let Some(edge) = candidates.pop() {\n                if !attached.contains(&edge.v()) {\n                    current_index = edge.v();\n                    total_weight += edge.weight();\n                    edges.push(edge);\n                    attached.insert(current_index);\n                    break;\n                }\n            }","            let next = std::iter::from_fn(|| candidates.pop()).find(|edge: &WeightedEdge<F>| !attached.contains(&edge.v()));\n            if let Some(edge) = next {\n                current_index = edge.v();\n                total_weight += edge.weight();\n                edges.push(edge);\n                attached.insert(current_index);\n            }")]),
("gr-t-forrounds","",[(T,"while attached.len() < n_vertices {","for _ in 1..n_vertices {")]),
("gr-t-skip1","",[(T,"                if index == current_index || attached.contains(&index) {","                if attached.contains(&index) {")]),
("g-t-skipdup","C17",[(T,"        attached.insert(current_index);\n        while","        attached.insert(current_index);\n        let mut best = std::collections::HashMap::new();\n        while"),(T,"                let weight = weight_fn(current_index, index);\n","                let weight = weight_fn(current_index, index);\n                let known = best.entry(index).or_insert(weight);\n                if weight > *known {\n                    continue;\n                }\n")]),
("g-t-peek","C17",[(T,"                let weight = weight_fn(current_index, index);\n","                let weight = weight_fn(current_index, index);\n                if candidates.peek().is_some_and(|e: &WeightedEdge<F>| e.v() == index && e.weight() < weight) {\n                    break;\n                }\n")]),
("g-t-reuse","C17",[(T,"                if !attached.contains(&edge.v()) {","                if !attached.contains(&edge.v()) || !attached.contains(&edge.u()) {")]),
("g-t-weightidx","C17",[(T,"weight_fn(current_index, index);","weight_fn(current_index, index.max(1));")]),
("g-t-round","C17",[(T,"while attached.len() < n_vertices {","while attached.len() < n_vertices && edges.len() < 4096 {")]),
]
