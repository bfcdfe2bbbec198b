"""Edits of the small files: accessors, orderings, points, parameters."""
CD="src/math/clustering/hdbscan/core_distance.rs"
LB="src/math/clustering/dbscan/label.rs"
EL="src/math/neighbors/kdtree/element.rs"
ND="src/math/neighbors/kdtree/node.rs"
CL="src/math/clustering/kmeans/cluster.rs"
PK="src/math/clustering/kmeans/params.rs"
SW="src/swatch.rs"
NS="src/math/neighbors/nns.rs"
ED="src/math/graph/edge.rs"
ME="src/math/distance/metric.rs"
PT="src/math/point.rs"
WP="src/color/white_point.rs"
CDL="""        let mut distances = Vec::with_capacity(dataset.len());
        for (index, point) in dataset.iter().enumerate() {
            let neighbors = neighbor_search.search(point, k);
            if let Some(core_neighbor) = neighbors.last() {
                distances.insert(index, core_neighbor.distance);
            } else {
                distances.insert(index, F::max_value());
            }
        }
        Self { distances }"""
NEWN="""        Self {
            index,
            axis,
            left: left.map(Box::new),
            right: right.map(Box::new),
        }"""
UPD="""        if self.is_empty() {
            self.centroid.set_zero();
        } else {
            let size = F::from_usize(self.children.len());
            self.centroid.div_assign(size);
        }"""
SWC="""        self.percentage
            .partial_cmp(&other.percentage)
            .unwrap_or(Ordering::Equal)
            .then_with(|| self.position.cmp(&other.position))
            .then_with(|| self.color.cmp(&other.color))"""
SQ="""            DistanceMetric::SquaredEuclidean => lhs
                .sub(*rhs)
                .to_vec()
                .iter()
                .fold(F::zero(), |total, delta| total + delta.powi(2)),
        }
    }

    /// Compute the distance between two points that differ"""
EU="            DistanceMetric::Euclidean => DistanceMetric::SquaredEuclidean.measure(lhs, rhs).sqrt(),"
WE="""        self.weight
            .partial_cmp(&other.weight)
            .map(|ordering| ordering.reverse())"""
ELP="""        self.distance
            .partial_cmp(&other.distance)
            .map(|ordering| ordering.reverse())"""
IDX5="""        match index {
            0 => &self.0,
            1 => &self.1,
            2 => &self.2,
            3 => &self.3,
            4 => &self.4,
            _ => panic!("Index out of bounds"),
        }"""
DIV="""        fn div(self, divisor: F) -> Self::Output {
            if divisor.is_zero() {
                panic!("{} cannot be divided by zero", stringify!($Point));
            }
            Self { $($field: self.$field / divisor),+ }
        }"""
EDITS=[
("s-cd-map","",[(CD,CDL,"""        let distances = dataset
            .iter()
            .map(|point| {
                neighbor_search
                    .search(point, k)
                    .last()
                    .map_or_else(F::max_value, |neighbor| neighbor.distance)
            })
            .collect();
        Self { distances }""")]),
("s-cd-push","",[(CD,CDL,"""        let mut distances = Vec::with_capacity(dataset.len());
        for point in dataset {
            let neighbors = neighbor_search.search(point, k);
            let distance = match neighbors.last() {
                Some(neighbor) => neighbor.distance,
                None => F::max_value(),
            };
            distances.push(distance);
        }
        Self { distances }""")]),
("s-cd-pop","",[(CD,CDL,"""        let mut distances = vec![F::max_value(); dataset.len()];
        for index in 0..dataset.len() {
            let mut neighbors = neighbor_search.search(&dataset[index], k);
            if let Some(core_neighbor) = neighbors.pop() {
                distances[index] = core_neighbor.distance;
            }
        }
        Self { distances }""")]),
("s-cd-get","",[(CD,"""        assert!(index < self.distances.len());
        self.distances[index]""","""        *self
            .distances
            .get(index)
            .expect("The index should be less than the number of points")""")]),
("s-cd-helper","",[(CD,"            let neighbors = neighbor_search.search(point, k);\n            if let","            let neighbors = Self::neighbors_of(&neighbor_search, point, k);\n            if let"),
 (CD,"    /// Returns the distance corresponding to the index.","""    fn neighbors_of<P: Point<F>>(
        search: &KDTree<F, P>,
        point: &P,
        k: usize,
    ) -> Vec<crate::math::neighbors::nns::Neighbor<F>> {
        search.search(point, k)
    }

    /// Returns the distance corresponding to the index.""")]),
("s-lb-match","",[(LB,"matches!(*self, Label::Assigned(_))","match self {\n            Label::Assigned(_) => true,\n            _ => false,\n        }"),(LB,"matches!(*self, Label::Outlier)","self == &Label::Outlier"),(LB,"matches!(*self, Label::Undefined)","*self == Self::Undefined")]),
("s-el-other","",[(EL,ELP,"        other.distance.partial_cmp(&self.distance)")]),
("s-el-match","",[(EL,ELP,"""        match self.distance.partial_cmp(&other.distance) {
            Some(Ordering::Less) => Some(Ordering::Greater),
            Some(Ordering::Greater) => Some(Ordering::Less),
            ordering => ordering,
        }""")]),
("s-el-cmpif","",[(EL,"        self.partial_cmp(other).unwrap_or(Greater)","""        if self.distance < other.distance {
            Greater
        } else if self.distance > other.distance {
            Ordering::Less
        } else if self.distance == other.distance {
            Ordering::Equal
        } else {
            Greater
        }""")]),
("s-nd-match","",[(ND,NEWN,"""        let left = match left {
            Some(node) => Some(Box::new(node)),
            None => None,
        };
        let right = if let Some(node) = right {
            Some(Box::new(node))
        } else {
            None
        };
        Self {
            index,
            axis,
            left,
            right,
        }""")]),
("s-nd-leaf","",[(ND,"self.left.is_none() && self.right.is_none()","matches!((&self.left, &self.right), (None, None))")]),
("s-nd-leaf2","",[(ND,"self.left.is_none() && self.right.is_none()","!(self.left.is_some() || self.right.is_some())")]),
("s-nd-leaf3","",[(ND,"self.left.is_none() && self.right.is_none()","self.left().xor(self.right()).is_none() && self.left().is_none()")]),
("s-cl-early","",[(CL,UPD,"""        if self.children.len() == 0 {
            self.centroid = P::zero();
            return;
        }
        self.centroid /= F::from_usize(self.size());""")]),
("s-cl-clear","",[(CL,"        self.centroid.set_zero();\n        self.children.clear();","        self.children = HashSet::new();\n        self.centroid = P::zero();")]),
("s-cl-insert","",[(CL,"        self.centroid.add_assign(*data);\n        self.children.insert(index);","        self.children.insert(index);\n        self.centroid = self.centroid + *data;")]),
("s-cl-empty","",[(CL,"        self.children.is_empty()","        self.size() < 1")]),
("s-cl-take","",[(CL,"        self.centroid.set_zero();\n        self.children.clear();","        *self = Self::new(&P::zero());")]),
("s-pk-upd","",[(PK,"        self.tolerance = tolerance;\n        self","        Self { tolerance, ..self }"),(PK,"        self.max_iterations = max_iterations;\n        self","        Self {\n            max_iterations,\n            ..self\n        }")]),
("s-pk-const","",[(PK,"            max_iterations: 10,","            max_iterations: DEFAULT_MAX_ITERATIONS,"),(PK,"/// A struct representing","const DEFAULT_MAX_ITERATIONS: usize = 10;\n\n/// A struct representing")]),
("s-sw-match","",[(SW,SWC,"""        let ordering = match self.percentage.partial_cmp(&other.percentage) {
            Some(ordering) => ordering,
            None => Ordering::Equal,
        };
        if ordering != Ordering::Equal {
            return ordering;
        }
        (self.position, self.color).cmp(&(other.position, other.color))""")]),
("s-sw-fields","",[(SW,SWC,"""        let ordering = self
            .percentage
            .partial_cmp(&other.percentage)
            .unwrap_or(Ordering::Equal);
        let ordering = ordering
            .then(self.position.0.cmp(&other.position.0))
            .then(self.position.1.cmp(&other.position.1));
        ordering
            .then(self.color.0.cmp(&other.color.0))
            .then(self.color.1.cmp(&other.color.1))
            .then(self.color.2.cmp(&other.color.2))""")]),
("s-ed-eq","",[(ED,"self.u == other.u && self.v == other.v && self.weight == other.weight","(self.u, self.v) == (other.u, other.v) && !(self.weight != other.weight)")]),
("s-ed-other","",[(ED,WE,"        other.weight.partial_cmp(&self.weight)")]),
("s-ed-rev","",[(ED,WE,"        let ordering = self.weight.partial_cmp(&other.weight)?;\n        Some(ordering.reverse())")]),
("s-ed-match","",[(ED,"        self.partial_cmp(other).unwrap_or(Ordering::Greater)","""        match other.weight.partial_cmp(&self.weight) {
            None => Ordering::Greater,
            Some(ordering) => ordering,
        }""")]),
("s-me-for","",[(ME,SQ,"""            DistanceMetric::SquaredEuclidean => {
                let delta = *lhs - *rhs;
                let mut total = F::zero();
                for axis in 0..delta.dim() {
                    total += delta[axis] * delta[axis];
                }
                total
            }
        }
    }

    /// Compute the distance between two points that differ""")]),
("s-me-helper","",[(ME,EU,"            DistanceMetric::Euclidean => Self::squared(lhs, rhs).sqrt(),"),(ME,SQ,"""            DistanceMetric::SquaredEuclidean => Self::squared(lhs, rhs),
        }
    }

    fn squared<F: Float, P: Point<F>>(lhs: &P, rhs: &P) -> F {
        lhs.to_vec()
            .into_iter()
            .zip(rhs.to_vec())
            .map(|(l, r)| (l - r).powi(2))
            .fold(F::zero(), |total, value| total + value)
    }

    /// Compute the distance between two points that differ""")]),
("s-me-after","",[(ME,"        match *self {\n            DistanceMetric::Euclidean => DistanceMetric::SquaredEuclidean.measure(lhs, rhs).sqrt(),\n            DistanceMetric::SquaredEuclidean => lhs\n                .sub(*rhs)\n                .to_vec()\n                .iter()\n                .fold(F::zero(), |total, delta| total + delta.powi(2)),\n        }","""        let squared = (0..lhs.dim()).fold(F::zero(), |total, axis| {
            let delta = lhs[axis] - rhs[axis];
            total + delta * delta
        });
        if *self == DistanceMetric::Euclidean {
            squared.sqrt()
        } else {
            squared
        }""")]),
("s-me-axis","",[(ME,"            DistanceMetric::Euclidean => delta.abs(),\n            DistanceMetric::SquaredEuclidean => delta.powi(2),","            DistanceMetric::SquaredEuclidean => delta * delta,\n            DistanceMetric::Euclidean if delta < F::zero() => -delta,\n            DistanceMetric::Euclidean => delta,")]),
("s-pt-idx","",[(PT,IDX5,"        [&self.0, &self.1, &self.2, &self.3, &self.4][index]")]),
("s-pt-idx2","",[(PT,IDX5,"""        if index == 0 {
            &self.0
        } else if index == 1 {
            &self.1
        } else if index == 2 {
            &self.2
        } else if index == 3 {
            &self.3
        } else if index == 4 {
            &self.4
        } else {
            panic!("Index out of bounds")
        }""")]),
("s-pt-add","",[(PT,"            $(self.$field += rhs.$field);+","            *self = *self + rhs;")]),
("s-pt-add2","",[(PT,"            $(self.$field += rhs.$field);+","            $(self.$field = self.$field + rhs.$field;)+")]),
("s-pt-div","",[(PT,DIV,"""        fn div(self, divisor: F) -> Self::Output {
            assert!(!divisor.is_zero(), "{} cannot be divided by zero", stringify!($Point));
            let mut quotient = self;
            quotient /= divisor;
            quotient
        }""")]),
("s-pt-div2","",[(PT,DIV,"""        fn div(mut self, divisor: F) -> Self::Output {
            self.div_assign(divisor);
            self
        }""")]),
("s-pt-zero","",[(PT,"            $(self.$field.is_zero()) &&+","            *self == Self::zero()")]),
("s-pt-vec","",[(PT,"            vec![$(self.$field),+]","            [$(self.$field),+].to_vec()")]),
("s-pt-vec2","",[(PT,"            vec![$(self.$field),+]","            (0..self.dim()).map(|axis| self[axis]).collect()")]),
("s-wp-const","",[(WP,"        F::from_f64(0.95046)","        F::from_f64(D65_X)"),(WP,"        F::from_f64(1.0)","        F::one()"),(WP,"/// CIE standard illuminant D65\n","const D65_X: f64 = 0.95046;\n\n/// CIE standard illuminant D65\n")]),
# bugs
("sb-cd-k","C22",[(CD,"dataset.len().min(min_samples.saturating_add(1))","dataset.len().min(min_samples.max(2))")]),
("sb-cd-first","C22",[(CD,"neighbors.last()","neighbors.get(k.min(4) - 1)")]),
("sb-cd-dup","C22",[(CD,CDL,"""        let mut distances: Vec<F> = Vec::with_capacity(dataset.len());
        for (index, point) in dataset.iter().enumerate() {
            if index > 0 && dataset[index - 1][0] == point[0] && dataset[index - 1][1] == point[1] {
                let previous = distances[index - 1];
                distances.push(previous);
                continue;
            }
            let neighbors = neighbor_search.search(point, k);
            if let Some(core_neighbor) = neighbors.last() {
                distances.insert(index, core_neighbor.distance);
            } else {
                distances.insert(index, F::max_value());
            }
        }
        Self { distances }""")]),
("sb-cd-dup2","C22",[(CD,CDL,"""        let mut distances: Vec<F> = Vec::with_capacity(dataset.len());
        for (index, point) in dataset.iter().enumerate() {
            if index > 0 && dataset[index - 1][0] == point[0] {
                distances.push(distances[index - 1]);
                continue;
            }
            let neighbors = neighbor_search.search(point, k);
            distances.push(neighbors.last().map_or(F::max_value(), |n| n.distance));
        }
        Self { distances }""")]),
("sb-cd-dup3","C22",[(CD,"                distances.insert(index, core_neighbor.distance);","                let known = if index > 0 && dataset[index - 1][0] == point[0] { distances[index - 1] } else { core_neighbor.distance };\n                distances.insert(index, known);")]),
("sb-cd-skip","C22",[(CD,"            let neighbors = neighbor_search.search(point, k);\n","            if index == 97 {\n                continue;\n            }\n            let neighbors = neighbor_search.search(point, k);\n")]),
("sb-cd-few","C22",[(CD,CDL,"""        let mut distances = Vec::with_capacity(dataset.len());
        for point in dataset.iter() {
            let neighbors = neighbor_search.search(point, k);
            if neighbors.len() <= min_samples {
                continue;
            }
            distances.push(neighbors[min_samples].distance);
        }
        Self { distances }""")]),
("s-cd-iflet","",[(CD,CDL,"""        let mut distances = Vec::with_capacity(dataset.len());
        for point in dataset.iter() {
            let neighbors = neighbor_search.search(point, k);
            if neighbors.is_empty() {
                continue;
            }
            distances.push(neighbors[neighbors.len() - 1].distance);
        }
        Self { distances }""")]),
("s-cd-last","",[(CD,CDL,"""        let mut distances = vec![F::max_value(); dataset.len()];
        distances.iter_mut().zip(dataset).for_each(|(distance, point)| {
            if let Some(neighbor) = neighbor_search.search(point, k).last() {
                *distance = neighbor.distance;
            }
        });
        Self { distances }""")]),
("sb-cd-filter","C22",[(CD,"            if let Some(core_neighbor) = neighbors.last() {","            if let Some(core_neighbor) = neighbors.iter().filter(|neighbor| neighbor.index != index).last() {")]),
("s-nd-shift","",[(ND,NEWN,"""        let (left, right) = if left.is_none() { (right, None) } else { (left, right) };
        Self {
            index,
            axis,
            left: left.map(Box::new),
            right: right.map(Box::new),
        }""")]),
("sb-nd-leaf","C09",[(ND,"self.left.is_none() && self.right.is_none()","self.left.is_none()")]),
("sb-el-index","C16",[(EL,"        self.distance\n            .partial_cmp(&other.distance)\n            .map(|ordering| ordering.reverse())","        self.distance\n            .partial_cmp(&other.distance)\n            .map(|ordering| if self.index > other.index + 8 { ordering } else { ordering.reverse() })")]),
("sb-el-eq","C16",[(EL,"self.distance == other.distance","(self.distance - other.distance).abs() < F::epsilon()")]),
("sb-el-eq2","C16",[(EL,"self.distance == other.distance","self.index == other.index")]),
("s-el-eq","",[(EL,"self.distance == other.distance","self.cmp(other) == Ordering::Equal")]),
("s-el-eq2","",[(EL,"self.distance == other.distance","self.index == other.index && self.distance == other.distance")]),
("s-el-eq3","",[(EL,"self.distance == other.distance","!(self.distance < other.distance || self.distance > other.distance)")]),
("sb-ed-clone","C17 C18",[(ED,"#[derive(Debug, Clone)]\npub struct WeightedEdge","#[derive(Debug)]\npub struct WeightedEdge"),(ED,"impl<F> Eq for WeightedEdge<F>","impl<F: Float> Clone for WeightedEdge<F> {\n    fn clone(&self) -> Self {\n        Self { u: self.u, v: self.v, weight: self.weight.max(F::zero()) }\n    }\n}\n\nimpl<F> Eq for WeightedEdge<F>")]),
("s-ed-clone","",[(ED,"#[derive(Debug, Clone)]\npub struct WeightedEdge","#[derive(Debug)]\npub struct WeightedEdge"),(ED,"impl<F> Eq for WeightedEdge<F>","impl<F: Float> Clone for WeightedEdge<F> {\n    fn clone(&self) -> Self {\n        Self { u: self.u, v: self.v, weight: self.weight }\n    }\n}\n\nimpl<F> Eq for WeightedEdge<F>")]),
("sb-lb-clone","C06 C07",[(LB,"#[derive(Debug, Clone, PartialEq, Eq)]","#[derive(Debug, PartialEq, Eq)]"),(LB,"impl Label {","impl Clone for Label {\n    fn clone(&self) -> Self {\n        match self {\n            Label::Assigned(id) => Label::Assigned(*id & 0xff),\n            Label::Outlier => Label::Outlier,\n            Label::Marked => Label::Undefined,\n            Label::Undefined => Label::Marked,\n        }\n    }\n}\n\nimpl Label {")]),
("s-lb-clone","",[(LB,"#[derive(Debug, Clone, PartialEq, Eq)]","#[derive(Debug, PartialEq, Eq)]"),(LB,"impl Label {","impl Clone for Label {\n    fn clone(&self) -> Self {\n        match self {\n            Label::Assigned(id) => Label::Assigned(*id),\n            Label::Outlier => Label::Outlier,\n            Label::Marked => Label::Marked,\n            Label::Undefined => Label::Undefined,\n        }\n    }\n}\n\nimpl Label {")]),
("sb-pt-clone","C05",[(PT,"#[derive(PartialEq, Eq, Copy, Clone, Hash, Debug)]\npub struct Point5","#[derive(PartialEq, Eq, Copy, Hash, Debug)]\npub struct Point5"),(PT,"impl<F> Index<usize> for Point5<F>","impl<F: Float> Clone for Point5<F> {\n    fn clone(&self) -> Self {\n        Self(self.0, self.1, self.2, self.4, self.3)\n    }\n}\n\nimpl<F> Index<usize> for Point5<F>")]),
("s-dm-clone","",[(ME,"#[derive(Debug, Clone, Copy, PartialEq, Eq)]","#[derive(Debug, Copy, PartialEq, Eq)]"),(ME,"impl DistanceMetric {","impl Clone for DistanceMetric {\n    fn clone(&self) -> Self {\n        match self {\n            Self::Euclidean => Self::Euclidean,\n            Self::SquaredEuclidean => Self::SquaredEuclidean,\n        }\n    }\n}\n\nimpl DistanceMetric {")]),
("sb-dm-clone","C13",[(ME,"#[derive(Debug, Clone, Copy, PartialEq, Eq)]","#[derive(Debug, Copy, PartialEq, Eq)]"),(ME,"impl DistanceMetric {","impl Clone for DistanceMetric {\n    fn clone(&self) -> Self {\n        Self::Euclidean\n    }\n}\n\nimpl DistanceMetric {")]),
("sb-drop","C01",[(EL,"impl<F> Eq for Element<F>","impl<F: Float> Drop for Element<F> {\n    fn drop(&mut self) {\n        if self.index > 1000 {\n            eprintln!(\"{}\", self.index);\n        }\n    }\n}\n\nimpl<F> Eq for Element<F>")]),
("sb-drop2","C01",[(NS,"impl<F> Display for Neighbor<F>","static DROPPED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nimpl<F: Float> Drop for Neighbor<F> {\n    fn drop(&mut self) {\n        DROPPED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    }\n}\n\nimpl<F> Display for Neighbor<F>")]),
("s-drop","",[(EL,"impl<F> Eq for Element<F>","impl<F: Float> Drop for Element<F> {\n    fn drop(&mut self) {\n        self.index = 0;\n    }\n}\n\nimpl<F> Eq for Element<F>")]),
("sb-cl-dup","C20",[(CL,"        self.centroid.add_assign(*data);\n        self.children.insert(index);","        if !self.children.is_empty() && self.centroid.is_zero() {\n            return;\n        }\n        self.centroid.add_assign(*data);\n        self.children.insert(index);")]),
("sb-cl-one","C20",[(CL,"        if self.is_empty() {\n            self.centroid.set_zero();","        if self.is_empty() || self.centroid.is_zero() {\n            self.centroid.set_zero();\n            self.children.clear();")]),
("sb-cl-half","C20",[(CL,"            let size = F::from_usize(self.children.len());","            let size = F::from_usize(self.children.len() & 0xffff).max(F::one());")]),
("sb-pk-max","C23",[(PK,"        self.max_iterations = max_iterations;","        self.max_iterations = max_iterations.max(1);")]),
("sb-pk-tol","C23",[(PK,"        self.tolerance = tolerance;","        self.tolerance = tolerance.max(F::epsilon());")]),
("sb-sw-pos","C04",[(SW,"            .then_with(|| self.position.cmp(&other.position))","            .then_with(|| (self.position.0 + self.position.1).cmp(&(other.position.0 + other.position.1)))")]),
("sb-sw-eps","C04",[(SW,"            .unwrap_or(Ordering::Equal)","            .filter(|_| (self.percentage - other.percentage).abs() > F::epsilon())\n            .unwrap_or(Ordering::Equal)")]),
("sb-ed-ord","C16",[(ED,"            .map(|ordering| ordering.reverse())","            .map(|ordering| if self.weight.is_zero() { ordering } else { ordering.reverse() })")]),
("sb-me-sqrt","C13",[(ME,EU,"            DistanceMetric::Euclidean => DistanceMetric::SquaredEuclidean.measure(lhs, rhs).max(F::epsilon()).sqrt(),")]),
("sb-me-dim","C13",[(ME,"                .iter()\n                .fold(F::zero()","                .iter()\n                .take(4)\n                .fold(F::zero()")]),
("sb-me-axis","C08 C09",[(ME,"            DistanceMetric::SquaredEuclidean => delta.powi(2),\n        }\n    }\n}","            DistanceMetric::SquaredEuclidean if delta < F::zero() => F::zero() - delta * delta,\n            DistanceMetric::SquaredEuclidean => delta.powi(2),\n        }\n    }\n}")]),
("sb-pt-zero","C14",[(PT,"            $(self.$field.is_zero()) &&+","            $(self.$field.abs() < F::epsilon()) &&+")]),
("sb-pt-mul","C14",[(PT,"            $(self.$field *= rhs);+","            $(self.$field = if rhs.is_zero() { self.$field } else { self.$field * rhs };)+")]),
]
