R="src/color/rgba.rs"; X="src/color/xyz.rs"; L="src/color/lab.rs"; W="src/color/white_point.rs"; S="src/swatch.rs"
EDITS=[
# breaking
("k-xyz-lt","",[(X,"if value <= F::from_f64(0.04045)","if value < F::from_f64(0.04045)")]),
("k-xyz-thr","C11",[(X,"0.04045","0.0405")]),
("k-xyz-thr2","C11",[(X,"0.04045","0.0031308")]),
("k-rgb-thr","C11",[(R,"if value <= F::from_f64(0.0031308)","if value <= F::from_f64(0.04045)")]),
("k-xyz-exp","C11",[(X,"powf(F::from_f64(2.4))","powf(F::from_f64(2.2))")]),
("k-rgb-exp","C11",[(R,"F::from_f64(1.0 / 2.4)","F::from_f64(1.0 / 2.2)")]),
("k-matrix","C11",[(X,"0.119195","0.119195 + 0.001")]),
("k-matrix2","C11",[(R,"F::from_f64(1.875968)","F::from_f64(1.87596)")]),
("k-swapgb","C11",[(X,"let g = f(rgba.g::<F>() / max_value);","let g = f(rgba.b::<F>() / max_value);")]),
("k-sign","C11",[(R,"- F::from_f64(0.203977)","+ F::from_f64(0.203977)")]),
("k-lab-delta","C11",[(X,"F::from_f64(4.0 / 29.0)","F::from_f64(4.0 / 2.9e1 + 1e-3)")]),
("k-lab-eps","C11",[(X,"let epsilon = F::from_f64(6.0 / 29.0);","let epsilon = F::from_f64(6.0 / 29.0).powi(3);")]),
("k-lab-eps2","C11",[(L,"let epsilon = F::from_f64(6.0 / 29.0).powi(3);","let epsilon = F::from_f64(6.0 / 29.0);")]),
("k-lab-b","C11",[(L,"F::from_f64(200.0) * (fy - fz)","F::from_f64(200.0) * (fz - fy)")]),
("k-lab-wp","C11",[(L,"f(xyz.z / W::z())","f(xyz.z / W::x())")]),
("k-xyz-wp","C11",[(X,"W::y() * f(l2);","f(l2) * W::x();")]),
("k-d65","C11",[(W,"1.08906","0.82521")]),
("k-max-x","C10",[(X,"0.950456","0.95")]),
("k-max-a","C10",[(L,"T::from_f64(127.0)","T::from_f64(128.0)")]),
("k-min-b","C10",[(L,"value.clamp(Self::min_b(), Self::max_b())","value.clamp(-Self::max_b::<F>(), Self::max_b())")]),
("k-norm-swap","C10",[(X,"y: Self::normalize_y(y),","y: Self::normalize_x(y),")]),
("k-zero-nonorm","C10",[(L,"l: Self::normalize_l(l),","l,")]),
("k-trunc","C12",[(R,"(fg * max_value).round()","(fg * max_value).trunc()")]),
("k-floor-half","C12",[(R,"(fg * max_value).round()","(fg * max_value + F::from_f64(0.4)).floor()")]),
("k-256","C12",[(R,"let max_value = Rgba::max_value::<F>();","let max_value = F::from_f64(256.0);")]),
("k-alpha","C12",[(R,"            a: Rgba::max_value(),","            a: r.max(g).max(b),")]),
("k-swaprg","C12",[(R,"            r,\n            g,\n            b,\n            a: Rgba","            r: g,\n            g: r,\n            b,\n            a: Rgba")]),
("k-clamp1","C12",[(R,".clamp(F::zero(), Self::max_value())",".clamp(F::one(), Self::max_value())")]),
("k-clamp254","C12",[(R,".clamp(F::zero(), Self::max_value())",".clamp(F::zero(), F::from_u8(254))")]),
# behaviour-preserving
("kr-helper","",[(X,"        let f = |value: F| -> F {\n            if value <= F::from_f64(0.04045) {\n                value / F::from_f64(12.92)\n            } else {\n                ((value + F::from_f64(0.055)) / F::from_f64(1.055)).powf(F::from_f64(2.4))\n            }\n        };","        fn f<F: Float>(value: F) -> F {\n            if value > F::from_f64(0.04045) {\n                let base = (value + F::from_f64(0.055)) / F::from_f64(1.055);\n                return base.powf(F::from_f64(2.4));\n            }\n            value / F::from_f64(12.92)\n        }")]),
("kr-array","",[(X,"        let max_value: F = Rgba::max_value();\n        let r = f(rgba.r::<F>() / max_value);\n        let g = f(rgba.g::<F>() / max_value);\n        let b = f(rgba.b::<F>() / max_value);","        let max_value: F = Rgba::max_value();\n        let [r, g, b] = [rgba.r::<F>(), rgba.g::<F>(), rgba.b::<F>()].map(|value| f(value / max_value));")]),
("kr-matrix","",[(X,"        let x = F::from_f64(0.412391) * r + F::from_f64(0.357584) * g + F::from_f64(0.180481) * b;","        let row = |c: [f64; 3]| F::from_f64(c[0]) * r + F::from_f64(c[1]) * g + F::from_f64(c[2]) * b;\n        let x = row([0.412391, 0.357584, 0.180481]);")]),
("kr-const-matrix","",[(X,"        let x = F::from_f64(0.412391) * r + F::from_f64(0.357584) * g + F::from_f64(0.180481) * b;\n        let y = F::from_f64(0.212639) * r + F::from_f64(0.715169) * g + F::from_f64(0.072192) * b;\n        let z = F::from_f64(0.019331) * r + F::from_f64(0.119195) * g + F::from_f64(0.950532) * b;\n        XYZ::new(x, y, z)","        const M: [[f64; 3]; 3] = [[0.412391, 0.357584, 0.180481], [0.212639, 0.715169, 0.072192], [0.019331, 0.119195, 0.950532]];\n        let dot = |m: &[f64; 3]| F::from_f64(m[0]) * r + F::from_f64(m[1]) * g + F::from_f64(m[2]) * b;\n        XYZ::new(dot(&M[0]), dot(&M[1]), dot(&M[2]))")]),
("kr-fold-matrix","",[(X,"        let x = F::from_f64(0.412391) * r + F::from_f64(0.357584) * g + F::from_f64(0.180481) * b;\n        let y = F::from_f64(0.212639) * r + F::from_f64(0.715169) * g + F::from_f64(0.072192) * b;\n        let z = F::from_f64(0.019331) * r + F::from_f64(0.119195) * g + F::from_f64(0.950532) * b;\n        XYZ::new(x, y, z)","        const M: [[f64; 3]; 3] = [[0.412391, 0.357584, 0.180481], [0.212639, 0.715169, 0.072192], [0.019331, 0.119195, 0.950532]];\n        let v = [r, g, b];\n        let dot = |m: &[f64; 3]| m.iter().zip(v.iter()).fold(F::zero(), |acc, (m, v)| acc + F::from_f64(*m) * *v);\n        XYZ::new(dot(&M[0]), dot(&M[1]), dot(&M[2]))")]),
("kr-cube","",[(X,"t.powi(3)","t * t * t")]),
("kr-norm-inline","",[(X,"x: Self::normalize_x(x),","x: x.clamp(F::zero(), F::from_f64(0.950456)),")]),
("kr-norm-if","",[(L,"        value.clamp(Self::min_l(), Self::max_l())","        if value < Self::min_l() {\n            Self::min_l()\n        } else if value > Self::max_l() {\n            Self::max_l()\n        } else {\n            value\n        }")]),
("kr-norm-match","",[(L,"        value.clamp(Self::min_a(), Self::max_a())","        let (min, max) = (Self::min_a::<F>(), Self::max_a::<F>());\n        match value {\n            v if v < min => min,\n            v if v > max => max,\n            v => v,\n        }")]),
("kr-rgb-reorder","",[(R,"        let r = Self::normalize_value((fr * max_value).round());\n        let g = Self::normalize_value((fg * max_value).round());\n        let b = Self::normalize_value((fb * max_value).round());","        let [r, g, b] = [fr, fg, fb].map(|v| Self::normalize_value((v * max_value).round()));")]),
("kr-rgb-denorm","",[(R,"    #[must_use]\n    fn normalize_value<F","    fn denormalize<F: Float>(value: F) -> u8 {\n        let scaled = value * Self::max_value::<F>();\n        Self::normalize_value(scaled.round())\n    }\n\n    #[must_use]\n    fn normalize_value<F"),(R,"        let r = Self::normalize_value((fr * max_value).round());\n        let g = Self::normalize_value((fg * max_value).round());\n        let b = Self::normalize_value((fb * max_value).round());","        let b = Self::denormalize(fb);\n        let r = Self::denormalize(fr);\n        let g = Self::denormalize(fg);"),(R,"        let max_value = Rgba::max_value::<F>();\n","")]),
("kr-rgb-minmax","",[(R,"            .clamp(F::zero(), Self::max_value())\n            .to_u8()","            .max(F::zero())\n            .min(Self::max_value())\n            .to_u8()")]),
("kr-rgb-match","",[(R,"            .to_u8()\n            .expect(\"The value could not be cast to u8\")","            .to_u8()\n            .unwrap_or_else(|| panic!(\"The value could not be cast to u8\"))")]),
("kr-inv-gamma","",[(R,"            if value <= F::from_f64(0.0031308) {\n                F::from_f64(12.92) * value\n            } else {\n                F::from_f64(1.055) * value.powf(F::from_f64(1.0 / 2.4)) - F::from_f64(0.055)\n            }","            let threshold = F::from_f64(0.0031308);\n            if value > threshold {\n                let exponent = F::from_f64(1.0 / 2.4);\n                value.powf(exponent) * F::from_f64(1.055) - F::from_f64(0.055)\n            } else {\n                value * F::from_f64(12.92)\n            }")]),
("kr-recip","",[(R,"F::from_f64(1.0 / 2.4)","F::from_f64(2.4).recip()")]),
("kr-recip2","",[(R,"F::from_f64(1.0 / 2.4)","F::one() / F::from_f64(2.4)")]),
("kr-lab-terms","",[(L,"        let l = F::from_f64(116.0) * fy - F::from_f64(16.0);\n        let a = F::from_f64(500.0) * (fx - fy);\n        let b = F::from_f64(200.0) * (fy - fz);\n        Lab::new(l, a, b)","        Lab::new(\n            fy * F::from_f64(116.0) - F::from_f64(16.0),\n            (fx - fy) * F::from_f64(500.0),\n            (fy - fz) * F::from_f64(200.0),\n        )")]),
("kr-xyz-lab","",[(X,"        let l2 = (lab.l + F::from_f64(16.0)) / F::from_f64(116.0);\n        let a2 = lab.a / F::from_f64(500.0);\n        let b2 = lab.b / F::from_f64(200.0);\n\n        let x = W::x() * f(l2 + a2);\n        let y = W::y() * f(l2);\n        let z = W::z() * f(l2 - b2);\n        XYZ::new(x, y, z)","        let fy = (lab.l + F::from_f64(16.0)) / F::from_f64(116.0);\n        let fx = lab.a / F::from_f64(500.0) + fy;\n        let fz = fy - lab.b / F::from_f64(200.0);\n        XYZ::new(f(fx) * W::x(), f(fy) * W::y(), f(fz) * W::z())")]),
("kr-kappa","",[(L,"kappa * t + delta","(t * F::from_f64(841.0) / F::from_f64(108.0)) + delta")]),
("kr-kappa2","",[(L,"kappa * t + delta","t.mul_add(kappa, delta)")]),
("kr-powi","",[(L,"F::from_f64(6.0 / 29.0).powi(3)","F::from_f64(216.0 / 24389.0)")]),
("kr-cbrt","",[(L,"t.cbrt()","t.powf(F::from_f64(1.0 / 3.0))")]),
("kr-consts","",[(L,"impl<F, W> From<&XYZ<F, W>> for Lab","const KAPPA: f64 = 841.0 / 108.0;\n\nimpl<F, W> From<&XYZ<F, W>> for Lab"),(L,"let kappa = F::from_f64(841.0 / 108.0);","let kappa = F::from_f64(KAPPA);")]),
("kr-new","",[(R,"        Self {\n            r,\n            g,\n            b,\n            a: Rgba::max_value(),\n        }","        Self::new(r, g, b, Self::MAX)")]),
("kr-noop","",[(R,"        let max_value = Rgba::max_value::<F>();","        let _ = 0;\n        let max_value = Rgba::max_value::<F>();"),(X,"        XYZ::new(x, y, z)","        let _unused = ();\n        XYZ::new(x, y, z)")]),
("kr-maxval","",[(R,"T::from_u8(Self::MAX)","T::from_u8(255)"),(R,"let max_value = Rgba::max_value::<F>();","let max_value = F::from_f64(255.0);")]),
("kr-debug","",[(X,"        XYZ::new(x, y, z)","        debug_assert!(r >= F::zero());\n        XYZ::new(x, y, z)")]),
("kr-trait","",[(L,"    #[inline]\n    #[must_use]\n    fn normalize_l(value: F) -> F {\n        value.clamp(Self::min_l(), Self::max_l())","    #[inline]\n    #[must_use]\n    fn limit(value: F, min: F, max: F) -> F {\n        value.clamp(min, max)\n    }\n\n    #[inline]\n    #[must_use]\n    fn normalize_l(value: F) -> F {\n        Self::limit(value, Self::min_l(), Self::max_l())")]),
("kr-dyn","",[(L,"        let f = |t: F| -> F {","        let f: &dyn Fn(F) -> F = &|t: F| -> F {")]),
("kr-sw-match","",[(S,"        self.percentage\n            .partial_cmp(&other.percentage)\n            .unwrap_or(Ordering::Equal)\n            .then_with(|| self.position.cmp(&other.position))\n            .then_with(|| self.color.cmp(&other.color))","        match self.percentage.partial_cmp(&other.percentage) {\n            Some(Ordering::Less) => return Ordering::Less,\n            Some(Ordering::Greater) => return Ordering::Greater,\n            _ => {}\n        }\n        match self.position.cmp(&other.position) {\n            Ordering::Equal => self.color.cmp(&other.color),\n            ordering => ordering,\n        }")]),
("kr-sw-tuple","",[(S,"            .then_with(|| self.position.cmp(&other.position))\n            .then_with(|| self.color.cmp(&other.color))","            .then_with(|| (self.position, self.color).cmp(&(other.position, other.color)))")]),
("kr-sw-if","",[(S,"        self.percentage\n            .partial_cmp(&other.percentage)\n            .unwrap_or(Ordering::Equal)\n            .then_with","        let first = if self.percentage < other.percentage {\n            Ordering::Less\n        } else if self.percentage > other.percentage {\n            Ordering::Greater\n        } else {\n            Ordering::Equal\n        };\n        first\n            .then_with")]),
]
