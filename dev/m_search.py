KD="src/math/neighbors/kdtree/mod.rs"; LI="src/math/neighbors/linear.rs"
def E(i,p,*ed): EDITS.append((i,p,list(ed)))
EDITS=[]
E("li-skip1","C08",(LI,"""        let mut neighbors = Vec::new();
        for (index, point) in self.dataset.iter().enumerate() {
            let distance = self.metric.measure(point, query);
            if""","""        let mut neighbors = Vec::new();
        for (index, point) in self.dataset.iter().enumerate().skip(1) {
            let distance = self.metric.measure(point, query);
            if"""))
E("li-lt","C08",(LI,"if distance <= radius","if distance < radius"))
E("li-neg","C08",(LI,"if radius < F::zero()","if radius <= F::zero()"))
E("li-noneg","",(LI,"""        if radius < F::zero() {
            return Vec::new();
        }
""",""))
E("li-sortdesc","C09",(LI,"neighbor1.distance.partial_cmp(&neighbor2.distance)","neighbor2.distance.partial_cmp(&neighbor1.distance)"))
E("li-k1","C09",(LI,"into_iter().take(k)","into_iter().take(k - 1)"))
E("li-sortidx","C09",(LI,"neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()","neighbor1.index.cmp(&neighbor2.index)"))
E("li-near2","C09",(LI,"self.search(query, 1).pop()","self.search(query, 2).pop()"))
E("li-idx","C09",(LI,"neighbors.push(Neighbor::new(index, distance))\n        }\n\n","neighbors.push(Neighbor::new(neighbors.len().max(1), distance))\n        }\n\n"))
E("kd-lt","C08",(KD,"if self.metric.measure_axis(delta) <= radius","if self.metric.measure_axis(delta) < radius"))
E("kd-pushlt","C08",(KD,"if distance <= radius {","if distance < radius {"))
E("kd-swap","C08",(KD,"""        } else if delta < F::zero() {
            self.search_radius_recursively(node.left()""","""        } else if delta > F::zero() {
            self.search_radius_recursively(node.left()"""),(KD,"""        } else {
            self.search_radius_recursively(node.right()""","""        } else {
            self.search_radius_recursively(node.right()"""))
E("kd-swap2","C09",(KD,"} else if delta < F::zero() {\n            self.search_recursively","} else if delta > F::zero() {\n            self.search_recursively"))
E("kd-raw","C08",(KD,"if self.metric.measure_axis(delta) <= radius","if delta.abs() <= radius"))
E("kd-leaf","C08",(KD,"""        if distance <= radius {
            results.push(Element::new(index, distance));
        }
""","""        if distance <= radius {
            results.push(Element::new(index, distance));
        } else if node.right().is_none() {
            return;
        }
"""))
E("kd-med","C08 C09",(KD,"&mut indices[median + 1..]","&mut indices[median..]"))
E("kd-med2","",(KD,"let median = indices.len().div(2);","let median = indices.len().div(2).max(1).min(indices.len() - 1);"))
E("kd-axis","C08 C09",(KD,"                axis,\n","                (depth + 1) % dataset[0].dim(),\n"))
E("kd-sortrev","C08 C09",(KD,"lhs.partial_cmp(rhs)","rhs.partial_cmp(lhs)"))
E("kd-nosort","C08 C09",(KD,"lhs.partial_cmp(rhs).unwrap_or(Greater)","std::cmp::Ordering::Equal"))
E("kd-lr","C08 C09",("src/math/neighbors/kdtree/node.rs","left: left.map(Box::new),","left: right.map(Box::new),"),("src/math/neighbors/kdtree/node.rs","right: right.map(Box::new),","right: left.map(Box::new),"))
E("kd-lacc","C08 C09",("src/math/neighbors/kdtree/node.rs","self.left.as_ref()","self.right.as_ref()"))
E("kd-leaf-or","C09",("src/math/neighbors/kdtree/node.rs","self.left.is_none() && self.right.is_none()","self.left.is_none() || self.right.is_none()"))
E("kd-k","C09",(KD,"if neighbors.len() == k {","if neighbors.len() > k {"))
E("kd-k0","C09",(KD,"if k < 1 {","if k < 2 {"))
E("kd-brk","C09",(KD,"""            neighbors.push(Neighbor::new(element.index(), element.distance()));
            if neighbors.len() == k {
                break;
            }""","""            if neighbors.len() == k {
                break;
            }
            if element.distance() > F::zero() || neighbors.is_empty() {
                neighbors.push(Neighbor::new(element.index(), element.distance()));
            }"""))
E("kd-lenk","C09",(KD,"if nearest.len() < k || self","if nearest.len() < k / 2 || self"))
E("kd-noRev","",(KD,"nearest.len() > k","nearest.len() >= k"))
E("kd-ltk","",(KD,"self.metric.measure_axis(delta) <= distance","self.metric.measure_axis(delta) < distance"))
E("kd-query","C08",(KD,"self.search_radius_recursively(node.right(), query, radius, results);\n        } else if","self.search_radius_recursively(node.right(), &point, radius, results);\n        } else if"))
E("kd-near","C09",(KD,"self.search(query, 1).pop()","self.search_radius(query, F::one()).pop()"))
E("kd-root","C08 C09",(KD,"let mut indices: Vec<usize> = (0..dataset.len()).collect();","let mut indices: Vec<usize> = (1..dataset.len()).collect();"))
# refactors
E("r-kd-depth","",(KD,"Self::build_node(dataset, &mut indices, 0)","Self::build_node(dataset, &mut indices, 1)"))
E("r-kd-near","",(KD,"""        if self.metric.measure_axis(delta) <= radius {
            self.search_radius_recursively(node.left(), query, radius, results);
            self.search_radius_recursively(node.right(), query, radius, results);
        } else if delta < F::zero() {
            self.search_radius_recursively(node.left(), query, radius, results);
        } else {
            self.search_radius_recursively(node.right(), query, radius, results);
        }""","""        let (near, far) = if delta < F::zero() {
            (node.left(), node.right())
        } else {
            (node.right(), node.left())
        };
        self.search_radius_recursively(near, query, radius, results);
        if self.metric.measure_axis(delta) <= radius {
            self.search_radius_recursively(far, query, radius, results);
        }"""))
E("r-kd-helper","",(KD,"""        if self.metric.measure_axis(delta) <= radius {
            self.search_radius_recursively(node.left(), query, radius, results);
            self.search_radius_recursively(node.right(), query, radius, results);
        } else if delta < F::zero() {
            self.search_radius_recursively(node.left(), query, radius, results);
        } else {
            self.search_radius_recursively(node.right(), query, radius, results);
        }
    }
""","""        self.descend(node, delta, query, radius, results);
    }

    fn descend(&self, node: &Node, delta: F, query: &P, radius: F, results: &mut BinaryHeap<Element<F>>) {
        let both = self.metric.measure_axis(delta) <= radius;
        if both || delta < F::zero() {
            self.search_radius_recursively(node.left(), query, radius, results);
        }
        if both || delta >= F::zero() {
            self.search_radius_recursively(node.right(), query, radius, results);
        }
    }
"""))
E("r-kd-loop","",(KD,"""        while let Some(element) = results.pop() {
            neighbors.push(Neighbor::new(element.index(), element.distance()));
        }
        neighbors""","""        loop {
            match results.pop() {
                Some(element) => neighbors.push(Neighbor::new(element.index(), element.distance())),
                None => break,
            }
        }
        neighbors"""))
E("r-kd-kloop","",(KD,"""        while let Some(element) = heap.pop() {
            neighbors.push(Neighbor::new(element.index(), element.distance()));
            if neighbors.len() == k {
                break;
            }
        }
        neighbors""","""        while neighbors.len() < k {
            let Some(element) = heap.pop() else { break };
            neighbors.push(Neighbor::new(element.index(), element.distance()));
        }
        neighbors"""))
E("r-kd-kfor","",(KD,"""        while let Some(element) = heap.pop() {
            neighbors.push(Neighbor::new(element.index(), element.distance()));
            if neighbors.len() == k {
                break;
            }
        }
        neighbors""","""        for _ in 0..k.min(heap.len()) {
            if let Some(element) = heap.pop() {
                neighbors.push(Neighbor::new(element.index(), element.distance()));
            }
        }
        neighbors"""))
E("r-li-iter","",(LI,"""        let mut neighbors = Vec::new();
        for (index, point) in self.dataset.iter().enumerate() {
            let distance = self.metric.measure(point, query);
            if distance <= radius {
                neighbors.push(Neighbor::new(index, distance));
            }
        }
        neighbors""","""        self.dataset
            .iter()
            .enumerate()
            .map(|(index, point)| Neighbor::new(index, self.metric.measure(query, point)))
            .filter(|neighbor| neighbor.distance <= radius)
            .collect()"""))
E("r-li-idx","",(LI,"""        let mut neighbors = Vec::new();
        for (index, point) in self.dataset.iter().enumerate() {
            let distance = self.metric.measure(point, query);
            neighbors.push(Neighbor::new(index, distance))
        }
""","""        let mut neighbors: Vec<Neighbor<F>> = Vec::with_capacity(self.dataset.len());
        for index in 0..self.dataset.len() {
            let distance = self.metric.measure(&self.dataset[index], query);
            neighbors.push(Neighbor { index, distance });
        }
"""),(LI,"""        let mut results = Vec::with_capacity(k.min(neighbors.len()));
        results.extend(neighbors.into_iter().take(k));
        results""","""        neighbors.truncate(k);
        neighbors"""))
E("r-li-sort","",(LI,"neighbors.sort_unstable_by(|neighbor1, neighbor2| -> Ordering {\n            neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()","neighbors.sort_by(|a, b| -> Ordering {\n            a.distance.partial_cmp(&b.distance).unwrap().then(a.index.cmp(&b.index))"))
E("r-li-near","",(LI,"self.search(query, 1).pop()","self.search(query, 1).into_iter().next()"))
E("r-li-minby","",(LI,"self.search(query, 1).pop()","self.dataset.iter().enumerate().map(|(i, p)| Neighbor::new(i, self.metric.measure(p, query))).min_by(|a, b| a.distance.partial_cmp(&b.distance).unwrap())"))
E("r-kd-build","",(KD,"""        let node = {
            let median = indices.len().div(2);
            Node::new(
                indices[median],
                axis,
                Self::build_node(dataset, &mut indices[..median], depth + 1),
                Self::build_node(dataset, &mut indices[median + 1..], depth + 1),
            )
        };
        Some(node)""","""        let median = indices.len() / 2;
        let index = indices[median];
        let right = Self::build_node(dataset, &mut indices[median + 1..], depth + 1);
        let left = Self::build_node(dataset, &mut indices[..median], depth + 1);
        Some(Node::new(index, axis, left, right))"""))
E("r-kd-split","",(KD,"""        let node = {
            let median = indices.len().div(2);
            Node::new(
                indices[median],
                axis,
                Self::build_node(dataset, &mut indices[..median], depth + 1),
                Self::build_node(dataset, &mut indices[median + 1..], depth + 1),
            )
        };
        Some(node)""","""        let median = indices.len() / 2;
        let (lower, rest) = indices.split_at_mut(median);
        let (index, upper) = (rest[0], &mut rest[1..]);
        Some(Node::new(index, axis, Self::build_node(dataset, lower, depth + 1), Self::build_node(dataset, upper, depth + 1)))"""))
E("r-kd-sortby","",(KD,"""        indices.sort_unstable_by(|index1, index2| {
            let lhs = dataset[*index1].index(axis);
            let rhs = dataset[*index2].index(axis);
            lhs.partial_cmp(rhs).unwrap_or(Greater)
        });""","""        indices.sort_by(|&a, &b| dataset[a][axis].partial_cmp(&dataset[b][axis]).unwrap_or(Greater));"""))
E("r-kd-iflet","",(KD,"""        let Some(node) = root else {
            return;
        };

        let index = node.index();
        let point = self.dataset[index];
        let distance = self.metric.measure(&point, query);
        if distance""","""        if root.is_none() {
            return;
        }
        let node = root.unwrap();
        let index = node.index();
        let point = self.dataset[index];
        let distance = self.metric.measure(query, &point);
        let _ = 0;
        if distance"""))
