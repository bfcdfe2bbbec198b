KD="src/math/neighbors/kdtree/mod.rs"; IM="src/image.rs"; DB="src/math/clustering/dbscan/algorithm.rs"
RG="src/color/rgba.rs"; PT="src/math/point.rs"; LB="src/math/clustering/dbscan/label.rs"
EDITS=[]
def E(i,p,*ed): EDITS.append((i,p,list(ed)))
# --- extraction
E("p-u16","C02",(IM,"""                let x = (centroid[3] * width_f)
                    .to_u32()
                    .expect("Width should be converted to u32");""","""                let x = u32::from((centroid[3] * width_f)
                    .to_u16()
                    .expect("Width should be converted"));"""))
E("p-first","C02",(IM,"        swatches.sort();","        swatches.sort();\n        let _first = swatches[0].position;"))
E("p-u32area","C02",(IM,"        let mut index = 0;","        let area = self.width * self.height;\n        let _ = area;\n        let mut index = 0;"))
E("p-u64area","",(IM,"        let mut index = 0;","        let area = width_u64 * height_u64;\n        let _ = area;\n        let mut index = 0;"))
E("p-index5","C02",(IM,"                self.data[index + 3],","                self.data[index + 4] / 2 + self.data[index + 3] / 2,"))
E("p-last","C02",(IM,"        let params = Params::new(25","        let _last = pixels[pixels.len() - 1];\n        let params = Params::new(25"))
E("p-u32index","C02",(IM,"let index_u64 = u64::from_usize(index);","let index_u64 = u64::from(u32::try_from(index).expect(\"index\"));"))
E("p-div0","C02",(IM,"        let mut index = 0;","        let rows = self.data.len() / 4 / self.width as usize;\n        let _ = rows;\n        let mut index = 0;"))
E("p-divok","",(IM,"        let mut index = 0;","        let rows = if self.width == 0 { 0 } else { self.data.len() / 4 / self.width as usize };\n        let _ = rows;\n        let mut index = 0;"))
E("p-wsub","C02",(IM,"        let mut index = 0;","        let last_column = self.width - 1;\n        let _ = last_column;\n        let mut index = 0;"))
E("p-neg","C02",(IM,"            let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64);","            let y = F::from_u64((index_u64 / 4 / width_u64) % (height_u64 - 1));"))
E("p-chunks","",(IM,"        while index < self.data.len() {","        while index + 3 < self.data.len() {"))
E("p-centroid-sub","C02",(IM,"let x = (centroid[3] * width_f)","let x = (centroid[3] * width_f - F::one())"))
# --- colors
E("p-noclamp","C02",(RG,"            .clamp(F::zero(), Self::max_value())\n",""))
E("p-clamplow","C02",(RG,"            .clamp(F::zero(), Self::max_value())\n","            .max(F::zero())\n"))
E("p-i16","",(RG,"""            .clamp(F::zero(), Self::max_value())
            .to_u8()
            .expect("The value could not be cast to u8")""","""            .to_i16()
            .expect("The value could not be cast")
            .clamp(0, 255) as u8"""))
# --- clustering
E("p-u8label","C02",(DB,"let mut cluster_id: usize = 0;","let mut cluster_id: usize = 0;\n        let mut small: u8 = 0;"),(DB,"            cluster_id += 1;","            cluster_id += 1;\n            small += 1;\n            let _ = small;"))
E("p-unreach","C02",(DB,"            if neighbors.len() < params.min_points() {\n                labels[index] = Label::Outlier;","            if neighbors.len() < params.min_points() {\n                if neighbors.len() > 1 {\n                    labels[index] = Label::Outlier;\n                }"))
E("p-empty","C02",(DB,"        if dataset.is_empty() {","        if dataset[0].dim() == 0 {"))
E("p-expand","C02",(DB,"                    Label::Undefined => {\n                        labels[secondary_index] = Label::Marked;\n                        queue.push_back(secondary_index);","                    Label::Undefined => {\n                        labels[secondary_index] = Label::Marked;\n                        if secondary_index > 0 {\n                            queue.push_back(secondary_index);\n                        }"))
E("p-peek","",(DB,"            if labels[current_index].is_assigned() {\n                continue;\n            }\n\n            if labels[current_index].is_outlier() {","            let label = &labels[current_index];\n            if label.is_assigned() {\n                continue;\n            }\n\n            if label.is_outlier() {"))
E("p-next","C02",(DB,"            labels[current_index] = Label::Assigned(cluster_id);\n\n","            labels[current_index] = Label::Assigned(cluster_id);\n            if !labels[current_index + 1].is_assigned() && min_only(params.min_points()) {\n                continue;\n            }\n"),(DB,"impl<F, P> Fit<F, P, Params<F>> for DBSCAN<F, P>","fn min_only(n: usize) -> bool {\n    n == 0\n}\n\nimpl<F, P> Fit<F, P, Params<F>> for DBSCAN<F, P>"))
# --- tree
E("p-median","C02",(KD,"&mut indices[median + 1..]","&mut indices[median + 2..]"))
E("p-degenerate","C02",(KD,"let median = indices.len().div(2);","let median = if indices.len() > 2 { 1 } else { 0 };"))
E("p-zero","C02",(KD,"let median = indices.len().div(2);","let median = 0;"))
E("p-upper","",(KD,"let median = indices.len().div(2);","let median = (indices.len() - 1).div(2);"))
E("p-roundup","C02",(KD,"let median = indices.len().div(2);","let median = (indices.len() + 1).div(2);"))
E("p-axis","C02",(KD,"                axis,\n                Self::build","                axis + 1,\n                Self::build"))
E("p-depthu8","C02",(KD,"fn build_node(dataset: &'a [P], indices: &mut [usize], depth: usize)","fn build_node(dataset: &'a [P], indices: &mut [usize], depth: usize)"),(KD,"let axis = depth % dataset[0].dim();","let axis = depth % (dataset[0].dim() - 1 - depth / 50);"))
E("p-firstpair","C02",(KD,"        let axis = depth % dataset[0].dim();","        let axis = if indices.len() > 6 && indices[7] > 0 { depth } else { depth } % dataset[0].dim();"))
E("p-dimpoint","",(KD,"depth % dataset[0].dim()","depth % dataset[indices[0]].dim()"))
E("p-split","",(KD,"""            Node::new(
                indices[median],
                axis,
                Self::build_node(dataset, &mut indices[..median], depth + 1),
                Self::build_node(dataset, &mut indices[median + 1..], depth + 1),
            )""","""            let index = indices[median];
            let (lower, rest) = indices.split_at_mut(median);
            let left = Self::build_node(dataset, lower, depth + 1);
            let right = Self::build_node(dataset, &mut rest[1..], depth + 1);
            Node::new(index, axis, left, right)"""))
E("p-search-next","C02",(KD,"            query[axis] - point[axis]\n        };\n        if self.metric.measure_axis(delta) <= radius {\n            self.search_radius","            query[axis] - point[axis + usize::from(radius < F::zero())]\n        };\n        if self.metric.measure_axis(delta) <= radius {\n            self.search_radius"))
