IM="src/image.rs"; SW="src/swatch.rs"
def E(i,p,*ed): EDITS.append((i,p,list(ed)))
EDITS=[]
LOOP='''        let mut index = 0;
        let mut pixels = Vec::with_capacity(self.data.len() / 4);
        while index < self.data.len() {
            let rgba = Rgba::new(
                self.data[index],
                self.data[index + 1],
                self.data[index + 2],
                self.data[index + 3],
            );
            let xyz: XYZ<F, D65> = XYZ::from(&rgba);
            let Lab { l, a, b, .. } = Lab::from(&xyz);

            let index_u64 = u64::from_usize(index);
            let x = F::from_u64(index_u64 / 4 % width_u64);
            let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64);
            // Normalize each value and convert as a point.
            pixels.push(Point5::new(
                l / delta_l,
                a / delta_a,
                b / delta_b,
                x / width_f,
                y / height_f,
            ));
            index += 4;
        }
'''
BODY='''            let xyz: XYZ<F, D65> = XYZ::from(&rgba);
            let Lab { l, a, b, .. } = Lab::from(&xyz);
'''
PUSH='''            pixels.push(Point5::new(
                l / delta_l,
                a / delta_a,
                b / delta_b,
                x / width_f,
                y / height_f,
            ));
'''
E("im-skipalpha","C05",(IM,"            let xyz: XYZ<F, D65> = XYZ::from(&rgba);","            if rgba.a == 0 { index += 4; continue; }\n            let xyz: XYZ<F, D65> = XYZ::from(&rgba);"))
E("im-step","C05",(IM,"index += 4;\n","index += if index == 40000 { 8 } else { 4 };\n"))
E("im-swapxy","C05",(IM,"x / width_f,\n                y / height_f","x / height_f,\n                y / width_f"))
E("im-ymod","C05",(IM,"(index_u64 / 4 / width_u64) % height_u64","(index_u64 / 4 / height_u64) % height_u64"))
E("im-xh","C05",(IM,"index_u64 / 4 % width_u64","index_u64 / 4 % height_u64"))
E("im-bgr","C05",(IM,"self.data[index],\n                self.data[index + 1],\n                self.data[index + 2],","self.data[index + 2],\n                self.data[index + 1],\n                self.data[index],"))
E("im-swapab","C05",(IM,"a / delta_a,\n                b / delta_b","b / delta_b,\n                a / delta_a"))
E("im-deltaa","C05",(IM,"let delta_a: F = Lab::<F>::max_a::<F>() - Lab::<F>::min_a::<F>();","let delta_a: F = Lab::<F>::max_a::<F>();"))
E("im-limit","C05",(IM,"while index < self.data.len() {","while index < self.data.len() && pixels.len() < 1_000_000 {"))
E("im-u16","C05",(IM,"let index_u64 = u64::from_usize(index);","let index_u64 = u64::from_usize(index & 0xff_ffff);"))
E("im-dedup","C05",(IM,"        let params = Params::new(25","        pixels.dedup();\n        let params = Params::new(25"))
E("im-pct","C03",(IM,"F::from_usize(count) / F::from_usize(pixels.len())","F::from_usize(count) / F::from_usize(pixels.len() - dbscan.outliers().len())"))
E("im-pct2","C03",(IM,"F::from_usize(count) / F::from_usize(pixels.len())","F::from_usize(count) / F::from_usize(self.data.len())"))
E("im-cnt","C03",(IM,"dbscan.count_at(cluster_id)","dbscan.count_at(cluster_id + 1)"))
E("im-rev","C03",(IM,"            .into_iter()\n            .enumerate()\n            .map(|(cluster_id","            .into_iter()\n            .rev()\n            .enumerate()\n            .map(|(cluster_id"))
E("im-filter","C03",(IM,"            .collect();\n\n        swatches.sort()","            .filter(|s: &Swatch<F>| s.percentage > F::from_f64(0.01))\n            .collect();\n\n        swatches.sort()"))
E("im-take","C03",(IM,"            .collect();\n\n        swatches.sort()","            .take(64)\n            .collect();\n\n        swatches.sort()"))
E("im-dedup2","C03",(IM,"        swatches.sort();","        swatches.sort();\n        swatches.dedup_by(|a, b| a.color == b.color);"))
E("im-colch","C03",(IM,"let color = (rgb.r, rgb.g, rgb.b);","let color = (rgb.r, rgb.b, rgb.g);"))
E("im-posround","C03",(IM,"let x = (centroid[3] * width_f)","let x = (centroid[3] * height_f)"))
E("im-cent","C03",(IM,"centroid[1] * delta_a","centroid[1] * delta_l"))
E("im-first","C03",(IM,"let x = (centroid[3] * width_f)","let x = (dbscan.centroids()[0][3] * width_f)"))
E("im-nosort","C04",(IM,"        swatches.sort();\n",""),(IM,"let mut swatches","let swatches"))
E("im-sortrev","C04",(IM,"swatches.sort();","swatches.sort();\n        swatches.reverse();"))
E("im-sortby","C04",(IM,"swatches.sort();","swatches.sort_by(|a, b| b.cmp(a));"))
E("im-sortcond","C04",(IM,"swatches.sort();","if swatches.len() > 2 { swatches.sort(); }"))
# refactors
E("r-nomod","",(IM,"(index_u64 / 4 / width_u64) % height_u64","index_u64 / 4 / width_u64"))
E("r-chunks","",(IM,LOOP,'''        let pixels: Vec<Point5<F>> = self.data.chunks_exact(4).enumerate().map(|(i, p)| {
            let rgba = Rgba::new(p[0], p[1], p[2], p[3]);
'''+BODY+'''            let i = u64::from_usize(i);
            let x = F::from_u64(i % width_u64);
            let y = F::from_u64(i / width_u64 % height_u64);
            Point5::new(l / delta_l, a / delta_a, b / delta_b, x / width_f, y / height_f)
        }).collect();
'''))
E("r-chunks2","",(IM,LOOP,'''        let mut pixels = Vec::new();
        for (i, p) in self.data.chunks(4).enumerate() {
            let rgba = Rgba::new(p[0], p[1], p[2], p[3]);
'''+BODY+'''            let i = u64::from_usize(i);
            let x = F::from_u64(i % width_u64);
            let y = F::from_u64(i / width_u64 % height_u64);
'''+PUSH+'''        }
'''))
E("r-nested","",(IM,LOOP,'''        let mut pixels = Vec::new();
        for row in 0..self.height {
            for col in 0..self.width {
            let o = 4 * (row as usize * self.width as usize + col as usize);
            let rgba = Rgba::new(self.data[o], self.data[o+1], self.data[o+2], self.data[o+3]);
'''+BODY+'''            let x = F::from_u32(col);
            let y = F::from_u32(row);
'''+PUSH+'''        }}
'''),(IM,"        let width_u64: u64 = self.width();\n        let height_u64: u64 = self.height();\n",""),(IM,"{Float, Number}","{Float, Number}"))
E("r-range","",(IM,LOOP,'''        let n = self.data.len() / 4;
        let mut pixels = Vec::with_capacity(n);
        for i in 0..n {
            let o = i * 4;
            let rgba = Rgba::new(self.data[o], self.data[o+1], self.data[o+2], self.data[o+3]);
'''+BODY+'''            let i = u64::from_usize(i);
            let x = F::from_u64(i % width_u64);
            let y = F::from_u64(i / width_u64);
'''+PUSH+'''        }
'''),(IM,"        let height_u64: u64 = self.height();\n",""))
E("r-slice","",(IM,'''            let rgba = Rgba::new(
                self.data[index],
                self.data[index + 1],
                self.data[index + 2],
                self.data[index + 3],
            );''','''            let px = &self.data[index..index + 4];
            let rgba = Rgba::new(px[0], px[1], px[2], px[3]);'''))
E("r-helper","",(IM,LOOP,"        let pixels = self.pixels::<F>(delta_l, delta_a, delta_b);\n"),(IM,"        let width_u64: u64 = self.width();\n        let height_u64: u64 = self.height();\n        let width_f","        let width_f"),(IM,"    fn width<N: Number>","    fn pixels<F: Float>(&self, delta_l: F, delta_a: F, delta_b: F) -> Vec<Point5<F>> {\n        let width_u64: u64 = self.width();\n        let height_u64: u64 = self.height();\n        let width_f: F = self.width();\n        let height_f: F = self.height();\n"+LOOP+"        pixels\n    }\n\n    fn width<N: Number>"))
E("r-xdivhoist","",(IM,"            let x = F::from_u64(index_u64 / 4 % width_u64);\n            let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64);","            let pixel = index_u64 / 4;\n            let row = pixel / width_u64;\n            let col = pixel - row * width_u64;\n            let x = F::from_u64(col);\n            let y = F::from_u64(row);"),(IM,"        let height_u64: u64 = self.height();\n",""))
E("r-counter","",(IM,"            let x = F::from_u64(index_u64 / 4 % width_u64);\n            let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64);","            let x = F::from_u64(cx);\n            let y = F::from_u64(cy);\n            cx += 1;\n            if cx == width_u64 { cx = 0; cy += 1; }"),(IM,"        let mut index = 0;","        let mut cx = 0u64; let mut cy = 0u64;\n        let mut index = 0;"),(IM,"        let height_u64: u64 = self.height();\n",""),(IM,"            let index_u64 = u64::from_usize(index);\n",""))
E("r-fortail","",(IM,"        let mut swatches: Vec<Swatch<F>> = dbscan\n            .centroids()","        let centroids = dbscan.centroids();\n        let total = F::from_usize(pixels.len());\n        let mut swatches: Vec<Swatch<F>> = centroids"),(IM,"F::from_usize(count) / F::from_usize(pixels.len())","F::from_usize(count) / total"))
E("r-unstable","",(IM,"swatches.sort();","swatches.sort_unstable_by(|a, b| a.cmp(b));"))
E("r-revrev","",(IM,"swatches.sort();","swatches.sort_by(|a, b| b.cmp(a));\n        swatches.reverse();"))
E("r-early","",(IM,"        let mut index = 0;","        if self.data.is_empty() { return Vec::new(); }\n        let mut index = 0;"))
E("r-earlycent","",(IM,"        let mut swatches: Vec","        if dbscan.centroids().is_empty() { return Vec::new(); }\n        let mut swatches: Vec"))
E("r-noop","",(IM,"        let mut index = 0;","        let _ = 0;\n        let mut index = 0;"))
E("r-swfn","",(IM,'''                let count = dbscan.count_at(cluster_id);
                let percentage = F::from_usize(count) / F::from_usize(pixels.len());
''','''                let percentage = Self::share(&dbscan, cluster_id, pixels.len());
'''),(IM,"    fn width<N: Number>",'''    fn share<F: Float>(dbscan: &DBSCAN<F, Point5<F>>, id: usize, total: usize) -> F {
        F::from_usize(dbscan.count_at(id)) / F::from_usize(total)
    }

    fn width<N: Number>'''))
E("r-forsw","",(IM,'''            .into_iter()
            .enumerate()
            .map(|(cluster_id, centroid)| {''','''            .iter()
            .enumerate()
            .map(|(cluster_id, centroid)| {'''))
E("r-bounds","",(IM,"while index < self.data.len() {","while index + 3 < self.data.len() {"))
E("r-pctmul","",(IM,"F::from_usize(count) / F::from_usize(pixels.len())","F::from_usize(count) / (width_f * height_f)"))
