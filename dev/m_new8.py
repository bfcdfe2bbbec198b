"""Less usual library idioms, in rewritings and in breakages."""
IM = "src/image.rs"
SW = "src/swatch.rs"
LOOP = """        let mut index = 0;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        while index < self.data.len() {
            let rgba = Rgba::new(
                self.data[index],
                self.data[index + 1],
                self.data[index + 2],
                self.data[index + 3],
            );
"""
MID = """            let index_u64 = u64::from_usize(index);
            let x = F::from_u64(index_u64 / 4 % width_u64);
            let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64);
"""
PUSH = """            pixels.push(Point5::new(
                l / delta_l,
                a / delta_a,
                b / delta_b,
                x / width_f,
                y / height_f,
            ));
            index += 4;
        }
"""
POS = """                let x = (centroid[3] * width_f)
                    .to_u32()
                    .expect("Width should be converted to u32");
                let y = (centroid[4] * height_f)
                    .to_u32()
                    .expect("Height should be converted to u32");
                let position = (x, y);
"""
PCT = """                let count = dbscan.count_at(cluster_id);
                let percentage = F::from_usize(count) / F::from_usize(pixels.len());
"""
ENDP = """            index += 4;
        }
"""
CMP = """        self.percentage
            .partial_cmp(&other.percentage)
            .unwrap_or(Ordering::Equal)
            .then_with(|| self.position.cmp(&other.position))
            .then_with(|| self.color.cmp(&other.color))
"""
def chunked(head, tail="        }\n"):
    return [(IM, LOOP, head), (IM, MID, """            let x = F::from_u64(index % width_u64);
            let y = F::from_u64((index / width_u64) % height_u64);
"""), (IM, ENDP, tail)]

EDITS = [
("t8-firstchunk","",chunked("""        let mut index: u64 = 0;
        let mut rest = self.data;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        while let Some((&[red, green, blue, alpha], tail)) = rest.split_first_chunk::<4>() {
            rest = tail;
            let rgba = Rgba::new(red, green, blue, alpha);
""","            index += 1;\n        }\n")),
("t8-firstchunk-bug","C05",chunked("""        let mut index: u64 = 0;
        let mut rest = self.data;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        while let Some((&[red, green, blue, alpha], tail)) = rest.split_first_chunk::<4>() {
            rest = tail;
            if rest.is_empty() { break; }
            let rgba = Rgba::new(red, green, blue, alpha);
""","            index += 1;\n        }\n")),
("t8-aschunks","",chunked("""        let mut index: u64 = 0;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        for &[red, green, blue, alpha] in self.data.as_chunks::<4>().0 {
            let rgba = Rgba::new(red, green, blue, alpha);
""","            index += 1;\n        }\n")),
("t8-zip0","",chunked("""        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        for (pixel, index) in self.data.chunks_exact(4).zip(0u64..) {
            let rgba = Rgba::new(pixel[0], pixel[1], pixel[2], pixel[3]);
""")),
("t8-zip1","C05",chunked("""        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        for (pixel, index) in self.data.chunks_exact(4).zip(1u64..) {
            let rgba = Rgba::new(pixel[0], pixel[1], pixel[2], pixel[3]);
""")),
("t8-splitat","",chunked("""        let mut index: u64 = 0;
        let mut rest = self.data;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        while !rest.is_empty() {
            let (pixel, tail) = rest.split_at(4);
            rest = tail;
            let rgba = Rgba::new(pixel[0], pixel[1], pixel[2], pixel[3]);
""","            index += 1;\n        }\n")),
("t8-copyfrom","",chunked("""        let mut index: u64 = 0;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        for pixel in self.data.chunks_exact(4) {
            let mut channels = [0u8; 4];
            channels.copy_from_slice(pixel);
            let [red, green, blue, alpha] = channels;
            let rgba = Rgba::new(red, green, blue, alpha);
""","            index += 1;\n        }\n")),
("t8-tryinto","",chunked("""        let mut index: u64 = 0;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        for pixel in self.data.chunks_exact(4) {
            let [red, green, blue, alpha]: [u8; 4] = pixel.try_into().expect("four channels");
            let rgba = Rgba::new(red, green, blue, alpha);
""","            index += 1;\n        }\n")),
("t8-remeuclid","",[(IM, MID, """            let pixel_index = u64::from_usize(index) / 4;
            let x = F::from_u64(pixel_index.rem_euclid(width_u64));
            let y = F::from_u64(pixel_index.div_euclid(width_u64).rem_euclid(height_u64));
""")]),
("t8-carry","",[(IM, "        let mut index = 0;\n", "        let mut index = 0;\n        let (mut column, mut row) = (0u64, 0u64);\n"),(IM, MID, """            let x = F::from_u64(column);
            let y = F::from_u64(row);
            column += 1;
            if column == width_u64 {
                column = 0;
                row = (row + 1) % height_u64;
            }
""")]),
("t8-carry-bug","C05",[(IM, "        let mut index = 0;\n", "        let mut index = 0;\n        let (mut column, mut row) = (0u64, 0u64);\n"),(IM, MID, """            let x = F::from_u64(column);
            let y = F::from_u64(row);
            column += 1;
            if column == width_u64 {
                row += 1;
                column = 1;
            }
""")]),
("t8-checked","",[(IM, MID, """            let index_u64 = u64::from_usize(index) / 4;
            let x = F::from_u64(index_u64.checked_rem(width_u64).unwrap_or(0));
            let y = F::from_u64(index_u64.checked_div(width_u64).unwrap_or(0) % height_u64);
""")]),
("t8-toclosure","",[(IM, POS, """                let coordinate = |value: F, size: F, what: &str| -> u32 {
                    (value * size).to_u32().unwrap_or_else(|| panic!("{what} should be converted to u32"))
                };
                let position = (
                    coordinate(centroid[3], width_f, "Width"),
                    coordinate(centroid[4], height_f, "Height"),
                );
""")]),
("t8-arrmap","",[(IM, POS, """                let [x, y] = [centroid[3] * width_f, centroid[4] * height_f]
                    .map(|value| value.to_u32().expect("Position should be converted to u32"));
                let position = (x, y);
""")]),
("t8-arrmap-swap","C03",[(IM, POS, """                let [y, x] = [centroid[3] * width_f, centroid[4] * height_f]
                    .map(|value| value.to_u32().expect("Position should be converted to u32"));
                let position = (x, y);
""")]),
("t8-abs","C03",[(IM, POS, """                let x = (centroid[3] * width_f + F::from_f64(0.5))
                    .to_u32()
                    .expect("Width should be converted to u32");
                let y = (centroid[4] * height_f)
                    .to_u32()
                    .expect("Height should be converted to u32");
                let position = (x, y);
""")]),
("t8-total","",[(IM, PCT, """                let count = dbscan.count_at(cluster_id);
                let total: F = F::from_usize(pixels.len());
                let percentage = F::from_usize(count) / total;
""")]),
("t8-totaldata","",[(IM, PCT, """                let percentage = F::from_usize(dbscan.count_at(cluster_id)) / F::from_usize(self.data.len() / 4);
""")]),
("t8-totalwh","",[(IM, PCT, """                let percentage = F::from_usize(dbscan.count_at(cluster_id)) / (width_f * height_f);
""")]),
("t8-totalsum","C03",[(IM, PCT, """                let total: usize = (0..dbscan.centroids().len()).map(|id| dbscan.count_at(id)).sum();
                let percentage = F::from_usize(dbscan.count_at(cluster_id)) / F::from_usize(total);
""")]),
("t8-sortkey","",[(IM, "        swatches.sort();\n", "        swatches.sort_by(|left, right| Ord::cmp(left, right));\n")]),
("t8-sortunst","",[(IM, "        swatches.sort();\n", "        swatches.sort_unstable_by(Swatch::cmp);\n")]),
("t8-sortnot","C04",[(IM, "        swatches.sort();\n", "        if !swatches.windows(2).any(|pair| pair[0].percentage > pair[1].percentage) {\n            return swatches;\n        }\n        swatches.sort();\n")]),
("t8-issorted","",[(IM, "        swatches.sort();\n", "        if !swatches.is_sorted() {\n            swatches.sort();\n        }\n")]),
("t8-extend","",[(IM, "        let mut swatches: Vec<Swatch<F>> = dbscan\n", "        let mut swatches: Vec<Swatch<F>> = Vec::new();\n        let found = dbscan\n"),(IM, "            .collect();\n\n        swatches.sort();", "            ;\n        swatches.extend(found);\n        swatches.sort();")]),
("t8-dedup","C03",[(IM, "        swatches.sort();\n", "        swatches.sort();\n        swatches.dedup_by_key(|swatch| swatch.position);\n")]),
("t8-drain","C03",[(IM, "        swatches.sort();\n", "        swatches.sort();\n        if swatches.len() > 256 {\n            swatches.drain(..swatches.len() - 256);\n        }\n")]),
("t8-truncate","C03",[(IM, "        swatches.sort();\n", "        swatches.sort();\n        swatches.truncate(1 << 12);\n")]),
("t8-retain","C03",[(IM, "        swatches.sort();\n", "        swatches.sort();\n        swatches.retain(|swatch| swatch.percentage.is_normal());\n")]),
("t8-cmp-match","",[(SW, CMP, """        match self.percentage.partial_cmp(&other.percentage) {
            Some(Ordering::Less) => Ordering::Less,
            Some(Ordering::Greater) => Ordering::Greater,
            _ => (self.position, self.color).cmp(&(other.position, other.color)),
        }
""")]),
("t8-cmp-chain","",[(SW, CMP, """        let by_share = self.percentage.partial_cmp(&other.percentage);
        by_share
            .unwrap_or(Ordering::Equal)
            .then(self.position.cmp(&other.position).then(self.color.cmp(&other.color)))
""")]),
("t8-cmp-if","",[(SW, CMP, """        if self.percentage < other.percentage {
            return Ordering::Less;
        }
        if self.percentage > other.percentage {
            return Ordering::Greater;
        }
        let (x, y) = self.position;
        let (other_x, other_y) = other.position;
        x.cmp(&other_x).then_with(|| y.cmp(&other_y)).then_with(|| self.color.cmp(&other.color))
""")]),
("t8-cmp-sum","C04",[(SW, CMP, """        let (x, y) = self.position;
        let (other_x, other_y) = other.position;
        self.percentage
            .partial_cmp(&other.percentage)
            .unwrap_or(Ordering::Equal)
            .then_with(|| (u64::from(x) + u64::from(y)).cmp(&(u64::from(other_x) + u64::from(other_y))))
            .then_with(|| self.color.cmp(&other.color))
""")]),
("t8-cmp-absdiff","C04",[(SW, CMP, """        let (x, y) = self.position;
        let (other_x, other_y) = other.position;
        self.percentage
            .partial_cmp(&other.percentage)
            .unwrap_or(Ordering::Equal)
            .then_with(|| if x.abs_diff(other_x) > 0 { x.cmp(&other_x) } else { y.cmp(&other_y) })
            .then_with(|| self.color.0.cmp(&other.color.0))
""")]),
("t8-helper-struct","",[(IM, "impl<'a> ImageData<'a> {\n", """struct Extent<F: Float> {
    width: F,
    height: F,
}

impl<F: Float> Extent<F> {
    fn relative(&self, x: F, y: F) -> (F, F) {
        (x / self.width, y / self.height)
    }

    fn absolute(&self, x: F, y: F) -> Option<(u32, u32)> {
        Some(((x * self.width).to_u32()?, (y * self.height).to_u32()?))
    }
}

impl<'a> ImageData<'a> {
"""),(IM, "        let mut index = 0;\n", "        let extent = Extent { width: width_f, height: height_f };\n        let mut index = 0;\n"),
 (IM, """            pixels.push(Point5::new(
                l / delta_l,
                a / delta_a,
                b / delta_b,
                x / width_f,
                y / height_f,
            ));
""","""            let (x, y) = extent.relative(x, y);
            pixels.push(Point5::new(l / delta_l, a / delta_a, b / delta_b, x, y));
"""),(IM, POS, """                let position = extent
                    .absolute(centroid[3], centroid[4])
                    .expect("Position should be converted to u32");
""")]),
]
