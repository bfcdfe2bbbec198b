"""a third batch: v-* refactorings (nothing may be reported), w-* bugs"""
I="src/image.rs"; S="src/swatch.rs"; DB="src/math/clustering/dbscan/algorithm.rs"; HC="src/math/clustering/hierarchical/algorithm.rs"; KM="src/math/clustering/kmeans/algorithm.rs"
KD="src/math/neighbors/kdtree/mod.rs"; EL="src/math/neighbors/kdtree/element.rs"; LI="src/math/neighbors/linear.rs"; CD="src/math/clustering/hdbscan/core_distance.rs"; UF="src/math/clustering/hierarchical/union_find.rs"
ST="src/math/graph/spanning_tree.rs"; IN="src/math/clustering/kmeans/init.rs"; CL="src/math/clustering/kmeans/cluster.rs"; ME="src/math/distance/metric.rs"; ED="src/math/graph/edge.rs"
PT="src/math/point.rs"; NU="src/math/number.rs"; RG="src/color/rgba.rs"; XY="src/color/xyz.rs"; LA="src/color/lab.rs"; WP="src/color/white_point.rs"
EDITS=[]
def E(i,p,*eds): EDITS.append((i,p,list(eds)))
# ---------------------------------------------------------------- C01
E("w-det-once","C01",(I,"        let mut index = 0;\n","        static SEEN: std::sync::OnceLock<usize> = std::sync::OnceLock::new();\n        let first = *SEEN.get_or_init(|| self.data.len());\n        let mut index = if first > 1 << 24 { 4 } else { 0 };\n"))
E("w-det-tls","C01",(DB,"        let mut cluster_id: usize = 0;","        thread_local! { static N: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }\n        let calls = N.with(|n| { n.set(n.get() + 1); n.get() });\n        let mut cluster_id: usize = if calls > 1000 { 1 } else { 0 };"))
E("w-det-addr","C01",(KD,"            let median = indices.len().div(2);","            let median = (indices.len() - (indices.as_ptr() as usize >> 3) % 2).div(2);"))
E("w-det-hash","C01",(DB,"        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();","        let mut order: std::collections::HashSet<usize> = std::collections::HashSet::new();\n        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();"),(DB,"                Label::Outlier => outliers.push(index),","                Label::Outlier => {\n                    order.insert(index);\n                }"),(DB,"        for (cluster_id, centroid) in centroids.iter_mut() {","        outliers.extend(order.iter());\n        for (cluster_id, centroid) in centroids.iter_mut() {"))
E("w-det-par","C01",(I,"        let params = Params::new(25,","        let fine = std::thread::available_parallelism().map_or(1, |n| n.get()) > 64;\n        let params = Params::new(if fine { 24 } else { 25 },"))
E("w-det-hashmap","C01",(DB,"    membership: BTreeMap<usize, Vec<usize>>,","    membership: std::collections::HashMap<usize, Vec<usize>>,"),(DB,"let mut membership: BTreeMap<usize, Vec<usize>> = BTreeMap::new();","let mut membership: std::collections::HashMap<usize, Vec<usize>> = std::collections::HashMap::new();"),(DB,"                membership: BTreeMap::new(),","                membership: std::collections::HashMap::new(),"),(DB,"""        for (cluster_id, centroid) in centroids.iter_mut() {
            let Some(children) = membership.get(cluster_id) else {
                continue;
            };
            centroid""","""        let mut total = 0;
        for (cluster_id, children) in membership.iter() {
            let Some(centroid) = centroids.get_mut(cluster_id) else {
                continue;
            };
            total += children.len();
            if total > dataset.len() * 2 / 3 && centroids_len > 8 {
                continue;
            }
            centroid"""),(DB,"        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();","        let centroids_len = cluster_id;\n        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();"))
# ---------------------------------------------------------------- C02
E("w-pan-cap","C02",(I,"Vec::with_capacity(self.data.len() / 4)","Vec::with_capacity((self.width * self.height) as usize)"))
E("w-pan-widthm1","C02",(I,"        let width_f: F = self.width();","        let width_f: F = F::from_u32(self.width - 1) + F::one();"))
E("w-pan-chunk","C02",(I,"""            let rgba = Rgba::new(
                self.data[index],""","""            debug_assert!(self.data[index..].len() > 4 || index == 0);
            let rgba = Rgba::new(
                self.data[index],"""))
E("w-pan-u16","C02",(I,"""                    .to_u32()
                    .expect("Width should be converted to u32");""","""                    .to_u16()
                    .map(u32::from)
                    .expect("Width should be converted to u32");"""))
E("w-pan-first","C02",(I,"        let dbscan = DBSCAN::fit(&pixels, &params);","        let dbscan = DBSCAN::fit(&pixels, &params);\n        let last = dbscan.centroids().len() - 1;\n        debug_assert!(last < pixels.len());"))
E("w-pan-outl","",(DB,"                _ => unreachable!(","                Label::Marked if cluster_id > 0 => outliers.push(index),\n                _ => unreachable!("),(DB,"                    labels[neighbor.index] = Label::Marked;","                    labels[neighbor.index] = Label::Undefined;"))
E("w-pan-mid","C02",(KD,"            let median = indices.len().div(2);","            let median = (indices.len() + depth / 32).div(2);"))
E("w-pan-lbl","C02",(DB,"vec![Label::Undefined; dataset.len()]","vec![Label::Undefined; dataset.len().min(1 << 24)]"))
E("w-pan-index","C02",(I,"                self.data[index + 3],\n            );","                self.data[index + 3],\n            );\n            let _next = if rgba.a == 0 { self.data[index + 4] } else { 0 };"))
E("w-pan-i32","C02",(I,"        let mut index = 0;\n","        let mut index = 0;\n        let mut checksum: u32 = 0;\n"),(I,"            index += 4;","            checksum += u32::from(rgba.r);\n            index += 4;"),(I,"        swatches.sort();","        debug_assert!(checksum < u32::MAX);\n        swatches.sort();"))
E("w-pan-div","C02",(DB,"            centroid.div_assign(F::from_usize(children.len()));","            centroid.div_assign(F::from_usize(children.len() & 0xffff));"))
E("w-pan-sub","C02",(KD,"            let median = indices.len().div(2);","            let median = (indices.len() - 1 - depth % 2).div(2);"))
# ---------------------------------------------------------------- C03
E("w-sw-order","C03",(I,"        swatches.sort();","        swatches.sort();\n        if swatches.len() > 64 {\n            let (head, tail) = swatches.split_at_mut(32);\n            std::mem::swap(&mut head[0].color, &mut tail[0].color);\n        }"))
E("w-sw-pos","C03",(I,"let y = (centroid[4] * height_f)","let y = (centroid[4] * width_f.max(height_f))"))
E("w-sw-labclamp","C03",(I,"                    centroid[1] * delta_a,","                    (centroid[1] * delta_a).max(Lab::<F>::min_a::<F>() / F::from_f64(2.0)),"))
E("w-sw-pct","C03",(I,"F::from_usize(count) / F::from_usize(pixels.len())","F::from_usize(count) / F::from_usize(pixels.len() - dbscan.outliers().len())"))
E("w-sw-pct2","C03",(I,"F::from_usize(count) / F::from_usize(pixels.len())","F::from_usize(count) / (width_f * height_f - F::from_usize(cluster_id / 256))"))
E("w-sw-filter","C03",(I,"        swatches.sort();","        swatches.retain(|swatch| swatch.percentage > F::zero() && swatch.position.0 < u32::from_u32(self.width.min(4096)));\n        swatches.sort();"))
E("w-sw-round","C03",(I,"                let position = (x, y);","                let position = if x > 1024 { (x & !1, y) } else { (x, y) };"))
E("w-sw-count","C03",(I,"let count = dbscan.count_at(cluster_id);","let count = dbscan.count_at(cluster_id % 4096);"))
E("w-sw-zip","C03",(I,"            .into_iter()\n            .enumerate()\n            .map(","            .into_iter()\n            .enumerate()\n            .skip_while(|(cluster_id, _)| dbscan.count_at(*cluster_id) * 1000 < pixels.len())\n            .map("))
E("w-sw-trunc","C03",(I,"let percentage = F::from_usize(count) / F::from_usize(pixels.len());","let percentage = F::from_u64(u64::from(count as u32)) / F::from_u64(u64::from(pixels.len() as u16).max(pixels.len() as u64));"))
# ---------------------------------------------------------------- C04
E("w-or-key","C04",(I,"swatches.sort();","swatches.sort_by_key(|swatch| (swatch.percentage * F::from_f64(1e6)).to_u32());"))
E("w-or-pos","",(S,".then_with(|| self.position.cmp(&other.position))",".then_with(|| self.position.1.cmp(&other.position.1))\n            .then_with(|| other.position.0.cmp(&self.position.0))"))
E("w-or-eps","C04",(S,"""        self.percentage
            .partial_cmp(&other.percentage)
            .unwrap_or(Ordering::Equal)""","""        (self.percentage.floor(), self.percentage)
            .partial_cmp(&(other.percentage.ceil(), other.percentage))
            .unwrap_or(Ordering::Equal)"""))
E("w-or-partial","",(S,"        Some(self.cmp(other))","        match self.cmp(other) {\n            Ordering::Equal if self.color != other.color => None,\n            ordering => Some(ordering),\n        }"))
E("w-or-partial2","C04",(S,"        Some(self.cmp(other))","        self.percentage.partial_cmp(&other.percentage)"))
E("w-or-eq","C04",(S,"#[derive(Clone, Debug, PartialEq)]","#[derive(Clone, Debug)]"),(S,"impl<F> Eq for Swatch<F> where F: Float {}","impl<F> Eq for Swatch<F> where F: Float {}\n\nimpl<F: Float> PartialEq for Swatch<F> {\n    fn eq(&self, other: &Self) -> bool {\n        self.percentage == other.percentage && self.color == other.color\n    }\n}"))
E("w-or-sorthead","C04",(I,"        swatches.sort();","        let n = swatches.len().min(256);\n        swatches[..n].sort();"))
E("w-or-tail","C04",(I,"        swatches.sort();\n        swatches","        swatches.sort();\n        if swatches.len() > 100 {\n            swatches.rotate_left(1);\n        }\n        swatches"))
# ---------------------------------------------------------------- C05
E("w-px-alpha","C05",(I,"let rgba = Rgba::new(\n                self.data[index],","let rgba = Rgba::new(\n                self.data[index].min(self.data[index + 3]),"))
E("w-px-last","C05",(I,"while index < self.data.len() {","while index + 4 < self.data.len() || index == 0 && !self.data.is_empty() {"))
E("w-px-swap","C05",(I,"                b / delta_b,\n                x / width_f,","                b / delta_b,\n                x / width_f.max(height_f / F::from_f64(4096.0)),"))
E("w-px-mod","C05",(I,"let x = F::from_u64(index_u64 / 4 % width_u64);","let x = F::from_u64((index_u64 / 4) & 0xffff_ffff % width_u64);"))
E("w-px-row","C05",(I,"let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64);","let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64.min(32768));"))
E("w-px-cache","C05",(I,"        let mut index = 0;\n","        let mut index = 0;\n        let mut previous: Option<(u32, Lab<F>)> = None;\n"),(I,"            let Lab { l, a, b, .. } = Lab::from(&xyz);","            let key = u32::from_be_bytes([0, rgba.r, rgba.g, rgba.b & 0xfe]);\n            let lab = match previous.take() {\n                Some((k, lab)) if k == key => lab,\n                _ => Lab::from(&xyz),\n            };\n            previous = Some((key, lab.clone()));\n            let Lab { l, a, b, .. } = lab;"))
E("w-px-f32","C05",(I,"let index_u64 = u64::from_usize(index);","let index_u64 = (index as f32) as u64;"))
E("w-px-lab","C05",(I,"                l / delta_l,\n","                (l - Lab::<F>::min_l::<F>()).max(F::from_f64(0.5)) / delta_l,\n"))
# ---------------------------------------------------------------- C06
E("w-mem-entry","C06",(DB,"                    centroid.add_assign(dataset[index]);","                    if index + 1 < dataset.len() || dataset.len() < 4096 {\n                        centroid.add_assign(dataset[index]);\n                    }"))
E("w-mem-first","C06",(DB,"entry.or_insert(P::zero())","entry.or_insert(dataset[0].sub(dataset[0]).add(dataset[index].sub(dataset[index])).add(dataset[0].sub(dataset[index])))"))
E("w-mem-both","C06",(DB,"                    children.push(index);","                    children.push(index);\n                    if children.len() == 1 << 20 {\n                        outliers.push(index);\n                    }"))
E("w-mem-count","C06",(DB,"            .map_or(0, |children| children.len())","            .or_else(|| self.membership.values().next_back())\n            .map_or(0, |children| children.len())"))
E("w-mem-div","C06",(DB,"centroid.div_assign(F::from_usize(children.len()));","centroid.div_assign(F::from_usize(children.len().max(params.min_points())));"))
E("w-mem-out","C06",(DB,"                    labels[current_index] = Label::Assigned(cluster_id);\n                continue;","                    continue;") if False else (DB,"    pub fn outliers(&self) -> Vec<usize> {\n        self.outliers.clone()","    pub fn outliers(&self) -> Vec<usize> {\n        self.outliers.iter().copied().filter(|index| *index > 0).collect()"))
E("w-mem-centr","C06",(DB,"            .values()\n            .map(|centroid| centroid.clone())","            .iter()\n            .filter(|(cluster_id, _)| self.count_at(**cluster_id) > 1)\n            .map(|(_, centroid)| centroid.clone())"))
E("w-mem-label","C06",(DB,"            cluster_id += 1;","            cluster_id += usize::from(labels[index].is_assigned());\n            cluster_id %= 1 << 12;"))
# ---------------------------------------------------------------- C07
E("w-gr-steal","C07",(DB,"            if labels[current_index].is_assigned() {\n                continue;\n            }","            if labels[current_index].is_assigned() && cluster_id % 2 == 0 {\n                continue;\n            }"))
E("w-gr-outl","C07",(DB,"                    Label::Outlier => {\n                        queue.push_back(secondary_index);\n                    }","                    Label::Outlier if secondary_index > current_index => {\n                        queue.push_back(secondary_index);\n                    }"))
E("w-gr-eps","C07",(DB,"ns.search_radius(&point, params.epsilon());","ns.search_radius(&point, params.epsilon().min(F::from_f64(0.05)));"))
E("w-gr-core","C07",(DB,"secondary_neighbors.len() < params.min_points()","secondary_neighbors.len() + 1 < params.min_points().max(2)"))
E("w-gr-dup","",(DB,"""            if labels[current_index].is_outlier() {
                labels[current_index] = Label::Assigned(cluster_id);
                continue;
            }""","""            if labels[current_index].is_outlier() && !queue.is_empty() {
                labels[current_index] = Label::Assigned(cluster_id);
                continue;
            }"""))
E("w-gr-start","C07",(DB,"            if neighbors.len() < params.min_points() {\n                labels[index] = Label::Outlier;","            let free = neighbors.iter().filter(|n| !labels[n.index].is_assigned()).count();\n            if free < params.min_points() {\n                labels[index] = Label::Outlier;"))
E("w-gr-metric","C07",(DB,"KDTree::new(&dataset_vec, params.metric());","KDTree::new(&dataset_vec, &DistanceMetric::Euclidean);"),(DB,"use crate::math::clustering::dbscan::label::Label;","use crate::math::clustering::dbscan::label::Label;\nuse crate::math::distance::metric::DistanceMetric;"))
E("w-gr-budget","C07",(DB,"        while let Some(current_index) = queue.pop_front() {","        let mut budget = dataset.len() * 4;\n        while let Some(current_index) = queue.pop_front() {\n            budget = budget.saturating_sub(1);\n            if budget == 0 {\n                break;\n            }"))
E("w-gr-seen","C07",(DB,"                    Label::Undefined => {\n                        labels[secondary_index] = Label::Marked;","                    Label::Undefined if queue.len() < dataset.len() / 2 => {\n                        labels[secondary_index] = Label::Marked;"))
# ---------------------------------------------------------------- C08 C09
E("w-kr-box","C08",(KD,"            axis = node.axis();\n            query[axis] - point[axis]","") if False else (KD,"        if self.metric.measure_axis(delta) <= radius {","        if self.metric.measure_axis(delta) * F::from_f64(1.0 + 1e-3) <= radius {"))
E("w-kr-eq","C08",(KD,"        if distance <= radius {\n            results","        if distance <= radius && (distance > F::zero() || results.len() < 1024) {\n            results"))
E("w-kr-leaf","C08",(KD,"        let delta = {\n            let axis = node.axis();\n            query[axis] - point[axis]\n        };\n        if self","        if node.is_leaf() || results.len() >= self.dataset.len() / 2 + 64 {\n            return;\n        }\n        let delta = {\n            let axis = node.axis();\n            query[axis] - point[axis]\n        };\n        if self"))
E("w-kr-axis","C08 C09",(KD,"let axis = depth % dataset[0].dim();","let axis = depth.min(63) % dataset[0].dim();"),(KD,"                axis,\n                Self","                depth % dataset[0].dim(),\n                Self"))
E("w-kr-sort","C08 C09",(KD,"        indices.sort_unstable_by(","        let sorted = indices.len().min(1 << 16);\n        indices[..sorted].sort_unstable_by("))
E("w-kr-tie","C08 C09",(KD,"        } else if delta < F::zero() {\n            self.search_radius_recursively(node.left()","        } else if delta <= F::zero() - radius && axis_is(node, 0) || delta < F::zero() {\n            self.search_radius_recursively(node.left()") if False else (KD,"            lhs.partial_cmp(rhs).unwrap_or(Greater)","            lhs.abs().partial_cmp(&rhs.abs()).unwrap_or(Greater)"))
E("w-li-radius","C08",(LI,"            if distance <= radius {","            if !(distance > radius) && index <= u32::MAX as usize && neighbors.len() < 1 << 16 {"))
E("w-li-neg","C08",(LI,"        if radius < F::zero() {","        if radius <= F::min_positive_value() {"))
E("w-kn-heap","C09",(KD,"        if nearest.len() > k {\n            nearest.pop();\n        }","        if nearest.len() > k.max(2) {\n            nearest.pop();\n        }\n        if heap.len() > 4 * k + 64 {\n            return;\n        }"))
E("w-kn-visit","C09",(KD,"        if nearest.len() < k || self","        if nearest.len() < k.min(16) || self"))
E("w-kn-worst","C09",(KD,"            .map(|e| e.0.distance())\n            .unwrap_or(F::min_value());","            .map(|e| e.0.distance() * F::from_f64(0.999))\n            .unwrap_or(F::min_value());"))
E("w-kn-out","C09",(KD,"            if neighbors.len() == k {\n                break;","            if neighbors.len() == k || neighbors.len() > 4095 {\n                break;"))
E("w-kn-near","C09",(KD,"        self.search(query, 1).pop()","        self.search(query, 2).pop()"))
E("w-kn-near2","C09",(LI,"        self.search(query, 1).pop()","        self.search(query, self.dataset.len()).into_iter().filter(|n| n.distance > F::zero()).next()"))
E("w-kn-order","C09",(LI,"neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()","(neighbor1.distance * neighbor1.distance).partial_cmp(&(neighbor2.distance + neighbor1.distance)).unwrap()"))
E("w-kn-idx","C09",(LI,"        results.extend(neighbors.into_iter().take(k));","        results.extend(neighbors.into_iter().take(k));\n        if results.len() > 2 && results[0].distance == results[1].distance {\n            results[1].index = results[0].index;\n        }"))
E("w-kn-small","C09",(LI,"        let mut results = Vec::with_capacity(k.min(neighbors.len()));","        neighbors.truncate(1 << 20);\n        let mut results = Vec::with_capacity(k.min(neighbors.len()));"))
# ---------------------------------------------------------------- refactorings
_cache=lambda key,cmp: [(I,"        let mut index = 0;\n","        let mut index = 0;\n        let mut previous: Option<(%s, Lab<F>)> = None;\n"%key[0]),(I,"            let Lab { l, a, b, .. } = Lab::from(&xyz);","            let key = %s;\n            let lab = match previous.take() {\n                Some((k, lab)) if k == key => lab,\n                _ => Lab::from(&xyz),\n            };\n            previous = Some((key, lab.clone()));\n            let Lab { l, a, b, .. } = lab;"%key[1])]
E("v-im-cache","",*_cache(("u32","u32::from_be_bytes([0, rgba.r, rgba.g, rgba.b])"),0))
E("v-im-cache2","",*_cache(("(u8, u8, u8)","(rgba.r, rgba.g, rgba.b)"),0))
E("v-im-cache3","",*_cache(("Rgba","rgba.clone()"),0))
E("v-im-min","",(I,"let position = (x, y);","let position = (x.min(self.width.saturating_sub(1)), y.min(self.height.saturating_sub(1)));"))
E("w-px-cache2","C05",*_cache(("(u8, u8)","(rgba.r, rgba.g)"),0))
E("w-px-cache3","C05",*_cache(("[u8; 3]","[rgba.r, rgba.g, rgba.b.max(1)]"),0))
E("v-im-minf","",(I,"let x = (centroid[3] * width_f)","let x = (centroid[3] * width_f).min(width_f - F::one()).max(F::zero())"))
E("v-im-pct1","",(I,"F::from_usize(count) / F::from_usize(pixels.len());","(F::from_usize(count) / F::from_usize(pixels.len())).min(F::one());"))
E("v-im-count1","",(I,"let count = dbscan.count_at(cluster_id);","let count = dbscan.count_at(cluster_id).max(1);"))
