N="src/math/number.rs"; P="src/math/point.rs"; D="src/math/distance/metric.rs"
CL="""                assert!(min <= max);
                if self < min {
                    min
                } else if self > max {
                    max
                } else {
                    self
                }"""
EDITS=[
("n-manh","C13",[(D,"total + delta.powi(2)","total + delta.abs()")]),
("n-mixed","C08",[(D,"delta.abs(),","delta.powi(2),")]),
("n-skip","C13",[(D,".iter()\n                .fold",".iter()\n                .skip(1)\n                .fold")]),
("n-take3","C13",[(D,".iter()\n                .fold",".iter()\n                .take(3)\n                .fold")]),
("n-cube","C13",[(D,"total + delta.powi(2)","total + delta.powi(3).abs()")]),
("n-one","C13",[(D,"fold(F::zero()","fold(F::epsilon()")]),
("n-cheb","C13",[(D,"total + delta.powi(2)","total.max(delta.powi(2))")]),
("n-sqrt2","C13",[(D,"DistanceMetric::SquaredEuclidean.measure(lhs, rhs).sqrt()","DistanceMetric::SquaredEuclidean.measure(lhs, rhs).cbrt()")]),
("n-p-addcross","C14",[(P,"Self { $($field: self.$field + rhs.$field),+ }","Self { $($field: self.$field + rhs.0),+ }")]),
("n-p-idx","C14",[(P,"            3 => &self.3,\n            4 => &self.4,","            3 => &self.4,\n            4 => &self.3,")]),
("n-p-order","C14",[(P,"        w: 1,\n        x: 2,","        x: 2,\n        w: 1,")]),
("n-p-dim","C14",[(P,"        z: 4\n    },\n    5","        z: 4\n    },\n    4")]),
("n-p-zero","C14",[(P,"$(self.$field.is_zero()) &&+","$(self.$field.is_zero()) ||+")]),
("n-p-div","C14",[(P,"Self { $($field: self.$field / divisor),+ }","Self { $($field: self.$field * divisor),+ }")]),
("n-p-mulassign","C14",[(P,"$(self.$field *= rhs);+","$(self.$field += rhs);+")]),
("n-p-divzero","C14",[(P,"            if divisor.is_zero() {\n                panic!(\"{} cannot be divided by zero\", stringify!($Point));\n            }\n            $(","            $(")]),
("n-p-divone","C14",[(P,"            if divisor.is_zero() {\n                panic!(\"{} cannot be divided by zero\", stringify!($Point));\n            }\n            Self","            if divisor.is_one() {\n                panic!(\"{} cannot be divided by zero\", stringify!($Point));\n            }\n            Self")]),
("n-p-vec","C14",[(P,"vec![$(self.$field),+]","{ let mut v = vec![$(self.$field),+]; v.reverse(); v }")]),
("n-c-swap","C15",[(N,CL,CL.replace("} else if self > max {\n                    max","} else if self > max {\n                    min"))]),
("n-c-noassert","C15",[(N,"                assert!(min <= max);\n","")]),
("n-c-strict","C15",[(N,"                assert!(min <= max);\n","                assert!(min < max);\n")]),
("n-from-u32","C15",[(N,"fn from_u32(n: u32) -> Self {\n                n as $number","fn from_u32(n: u32) -> Self {\n                n as u16 as $number")]),
("n-from-f64","C15",[(N,"fn from_f64(n: f64) -> Self {\n                n as $number","fn from_f64(n: f64) -> Self {\n                n as f32 as $number")]),
("n-from-usize","C15",[(N,"fn from_usize(n: usize) -> Self {\n                n as $number","fn from_usize(n: usize) -> Self {\n                n as i32 as $number")]),
("n-from-u64f","C15",[(N,"fn from_u64(n: u64) -> Self {\n                n as $number","fn from_u64(n: u64) -> Self {\n                n as f32 as $number")]),
# behaviour-preserving
("nr-square","",[(D,"total + delta.powi(2)","total + *delta * *delta")]),
("nr-sum","",[(D,"                .iter()\n                .fold(F::zero(), |total, delta| total + delta.powi(2)),","                .into_iter()\n                .map(|delta| delta.powi(2))\n                .fold(F::zero(), |total, square| total + square),")]),
("nr-loop","",[(D,"            DistanceMetric::SquaredEuclidean => lhs\n                .sub(*rhs)\n                .to_vec()\n                .iter()\n                .fold(F::zero(), |total, delta| total + delta.powi(2)),","            DistanceMetric::SquaredEuclidean => {\n                let mut total = F::zero();\n                for axis in 0..lhs.dim() {\n                    let delta = lhs[axis] - rhs[axis];\n                    total += delta * delta;\n                }\n                total\n            }")]),
("nr-rangefold","",[(D,"            DistanceMetric::SquaredEuclidean => lhs\n                .sub(*rhs)\n                .to_vec()\n                .iter()\n                .fold(F::zero(), |total, delta| total + delta.powi(2)),","            DistanceMetric::SquaredEuclidean => (0..lhs.dim())\n                .map(|i| (lhs[i] - rhs[i]).powi(2))\n                .fold(F::zero(), |a, b| a + b),")]),
("nr-zip","",[(D,"            DistanceMetric::SquaredEuclidean => lhs\n                .sub(*rhs)\n                .to_vec()\n                .iter()\n                .fold(F::zero(), |total, delta| total + delta.powi(2)),","            DistanceMetric::SquaredEuclidean => {\n                let (l, r) = (lhs.to_vec(), rhs.to_vec());\n                l.iter().zip(r.iter()).fold(F::zero(), |t, (a, b)| t + (*b - *a).powi(2))\n            }")]),
("nr-helper","",[(D,"    /// Compute the distance between two points that differ","    fn squared<F: Float, P: Point<F>>(lhs: &P, rhs: &P) -> F {\n        let difference = *lhs - *rhs;\n        difference.to_vec().iter().fold(F::zero(), |total, delta| total + delta.powi(2))\n    }\n\n    /// Compute the distance between two points that differ"),(D,"        match *self {\n            DistanceMetric::Euclidean => DistanceMetric::SquaredEuclidean.measure(lhs, rhs).sqrt(),\n            DistanceMetric::SquaredEuclidean => lhs\n                .sub(*rhs)\n                .to_vec()\n                .iter()\n                .fold(F::zero(), |total, delta| total + delta.powi(2)),","        let squared = Self::squared(lhs, rhs);\n        match self {\n            Self::Euclidean => squared.sqrt(),\n            Self::SquaredEuclidean => squared,")]),
("nr-axis","",[(D,"DistanceMetric::Euclidean => delta.abs(),","DistanceMetric::Euclidean => if delta < F::zero() { -delta } else { delta },")]),
("nr-axis2","",[(D,"DistanceMetric::SquaredEuclidean => delta.powi(2),","DistanceMetric::SquaredEuclidean => delta * delta,")]),
("nr-p-get","",[(P,"            0 => &self.0,\n            1 => &self.1,\n            2 => &self.2,\n            3 => &self.3,\n            4 => &self.4,\n            _ => panic!(\"Index out of bounds\"),","            0 => &self.0,\n            1 => &self.1,\n            2 => &self.2,\n            3 => &self.3,\n            4 => &self.4,\n            n => panic!(\"Index out of bounds: {}\", n),")]),
("nr-p-arr","",[(P,"        match index {\n            0 => &self.0,\n            1 => &self.1,\n            2 => &self.2,\n            3","        assert!(index < 5, \"Index out of bounds\");\n        match index {\n            0 => &self.0,\n            1 => &self.1,\n            2 => &self.2,\n            3")]),
("nr-p-arr2","",[(P,"        match index {\n            0 => &self.0,\n            1 => &self.1,\n            _ => panic!(\"Index out of bounds\"),\n        }","        [&self.0, &self.1][index]")]),
("nr-p-zero","",[(P,"$(self.$field.is_zero()) &&+","$(self.$field == F::zero()) &&+")]),
("nr-p-zero2","",[(P,"$(self.$field.is_zero()) &&+","self.to_vec().iter().all(|value| value.is_zero())")]),
("nr-p-addassign","",[(P,"$(self.$field += rhs.$field);+","*self = *self + rhs;")]),
("nr-p-addassign2","",[(P,"$(self.$field += rhs.$field);+","$(self.$field = self.$field + rhs.$field);+")]),
("nr-p-div","",[(P,"            if divisor.is_zero() {\n                panic!(\"{} cannot be divided by zero\", stringify!($Point));\n            }\n            Self { $($field: self.$field / divisor),+ }","            assert!(!divisor.is_zero(), \"{} cannot be divided by zero\", stringify!($Point));\n            Self { $($field: self.$field / divisor),+ }")]),
("nr-p-div2","",[(P,"            Self { $($field: self.$field / divisor),+ }","            let mut quotient = self;\n            $(quotient.$field /= divisor);+;\n            quotient")]),
("nr-p-new","",[(P,"Self { $($field: F::zero()),+ }","Self { $($field: <F as Zero>::zero()),+ }")]),
("nr-p-vec","",[(P,"            vec![$(self.$field),+]","            let mut values = Vec::with_capacity($size);\n            $(values.push(self.$field);)+\n            values")]),
("nr-p-vec2","",[(P,"            vec![$(self.$field),+]","            (0..self.dim()).map(|index| self[index]).collect()")]),
("nr-p-dim","",[(P,"           $size\n","           self.to_vec().len()\n")]),
("nr-c-match","",[(N,CL,"                assert!(min <= max);\n                match self {\n                    v if v < min => min,\n                    v if v > max => max,\n                    v => v,\n                }")]),
("nr-c-ret","",[(N,CL,"                assert!(max >= min);\n                if self > max {\n                    return max;\n                }\n                if self < min {\n                    return min;\n                }\n                self")]),
("nr-c-not","",[(N,CL,CL.replace("assert!(min <= max);","if !(min <= max) {\n                    panic!(\"inverted range\");\n                }"))]),
("nr-c-mac","",[(N,"impl_clamp!(u8);\nimpl_clamp!(u16);","impl_clamp!(u16);\nimpl_clamp!(u8);")]),
("nr-c-msg","",[(N,"assert!(min <= max);","assert!(min <= max, \"inverted range: {} > {}\", min, max);")]),
("nr-c-let","",[(N,CL,"                assert!(min <= max);\n                let lower = if self < min { min } else { self };\n                if lower > max {\n                    max\n                } else {\n                    lower\n                }")]),
("nr-from","",[(N,"fn from_u8(n: u8) -> Self {\n                n as $number","fn from_u8(n: u8) -> Self {\n                <$number>::from(n)")]),
("nr-from2","",[(N,"fn from_u8(n: u8) -> Self {\n                n as $number","fn from_u8(n: u8) -> Self {\n                Self::from_u32(n as u32)")]),
("nr-from3","",[(N,"fn from_f32(n: f32) -> Self {\n                n as $number","fn from_f32(n: f32) -> Self {\n                Self::from_f64(f64::from(n))")]),
("nr-from4","",[(N,"fn from_u8(n: u8) -> Self {\n                n as $number","fn from_u8(n: u8) -> Self {\n                let value = n;\n                let _ = 0;\n                value as Self")]),
]
