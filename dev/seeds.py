PRE = r'''
use color::{lab::Lab, rgba::Rgba, white_point::D65, xyz::XYZ};
use image::ImageData;
fn solid(w: u32, h: u32, f: impl Fn(u32, u32) -> (u8, u8, u8)) -> Vec<u8> {
    let mut v = Vec::new();
    for y in 0..h { for x in 0..w { let (r, g, b) = f(x, y); v.extend([r, g, b, 255]); } }
    v
}
'''
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

IMG = "src/image.rs"
seed("row-wrap", "C05", [(IMG, "(index_u64 / 4 / width_u64) % height_u64", "(index_u64 / 4 / width_u64) % width_u64")],
 PRE + r"""
fn main() {
    let (w, h) = (60u32, 300u32);
    let data = solid(w, h, |_, _| (200, 30, 30));
    let s = ImageData::new(&data, w, h).extract::<f64>();
    assert_eq!(s.len(), 1);
    // The rows of a tall single-color image stay at their own height: the mean row is 149.5.
    assert_eq!(s[0].position.1, 149, "{s:?}");
}
""", "an image that is taller than wide", "rows below the width-th one wrap around, so pixels enter the clustering at a wrong place", release=True)

seed("same-color-groups", "C03", [(IMG, "        swatches.sort();\n        swatches\n", "        swatches.sort();\n        swatches.dedup_by(|a, b| a.color == b.color);\n        swatches\n")],
 PRE + r"""
fn main() {
    let (w, h) = (150u32, 150u32);
    // Two red blocks far from each other on white.
    let data = solid(w, h, |x, y| if x < 50 && y < 50 || x >= 100 && y >= 100 { (255, 0, 0) } else { (255, 255, 255) });
    let s = ImageData::new(&data, w, h).extract::<f64>();
    let n = s.iter().filter(|s| s.color.0 > 200 && s.color.1 < 60).count();
    assert_eq!(n, 2, "{s:?}");
}
""", "two separate groups of the same color that follow each other in the order", "one of two groups with the same mean color loses its swatch", release=True)

seed("negative-channel", "C12", [("src/color/rgba.rs", "Self::normalize_value((fr * max_value).round())", "Self::normalize_value((fr.abs() * max_value).round())")],
 PRE + r"""
fn main() {
    // A saturated green-cyan lies outside of the sRGB gamut: its red channel is negative and ends at 0.
    let lab: Lab<f64> = Lab::new(85.0, -120.0, 20.0);
    let xyz: XYZ<f64, D65> = XYZ::from(&lab);
    assert_eq!(Rgba::from(&xyz).r, 0);
    let xyz: XYZ<f64, D65> = XYZ::new(0.1, 0.6, 0.3);
    assert_eq!(Rgba::from(&xyz).r, 0);
}
""", "a color outside of the sRGB gamut with a negative red part", "the red channel is mirrored instead of ending at 0")

seed("dark-gamma", "C11", [("src/color/rgba.rs", "value <= F::from_f64(0.0031308)", "value <= F::from_f64(0.031308)")],
 PRE + r"""
fn main() {
    for v in 0..=255u8 {
        let xyz: XYZ<f64, D65> = XYZ::from(&Rgba::new(v, v, v, 255));
        let back = Rgba::from(&xyz);
        assert!(back.g.abs_diff(v) <= 1, "{v} came back as {}", back.g);
    }
}
""", "a dark color with a linear channel between 0.0031 and 0.031", "the linear branch of the sRGB transfer is used for values of the power branch")

seed("lab-range", "C10", [("src/color/lab.rs", "        Lab::new(l, a, b)\n    }\n}", "        Lab {\n            l,\n            a,\n            b,\n            _w: PhantomData::default(),\n        }\n    }\n}")],
 PRE + r"""
fn main() {
    // The corner colors of the XYZ box are far outside of the Lab box.
    for (x, y, z) in [(0.9, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.0, 1.0, 1.0)] {
        let xyz: XYZ<f64, D65> = XYZ::new(x, y, z);
        let lab: Lab<f64> = Lab::from(&xyz);
        assert!((0.0..=100.0).contains(&lab.l) && (-128.0..=127.0).contains(&lab.a) && (-128.0..=127.0).contains(&lab.b), "{lab:?}");
    }
}
""", "a color near a corner of the XYZ box", "a* or b* leave their declared range")

seed("short-walk", "C19", [("src/math/clustering/hierarchical/union_find.rs", "        while self.parent[root] != root {\n            root = self.parent[root];\n        }\n", "        let mut hops = 0;\n        while self.parent[root] != root && hops < 64 {\n            root = self.parent[root];\n            hops += 1;\n        }\n")],
 r"""
use math::clustering::hierarchical::union_find::UnionFind;
fn main() {
    for n in [5usize, 50, 200] {
        let mut u = UnionFind::new(n);
        let mut top = 0;
        for i in 1..n {
            assert_eq!(u.union(top, i), i + 1);
            top = n + i - 1;
        }
        assert_eq!(u.find(0), top);
    }
}
""", "a chain of more than 64 labels that has not been searched before", "the label found is not the current one of the set")

seed("coarse-weights", "C18", [("src/math/clustering/hierarchical/algorithm.rs", "        edges.sort_unstable_by(|edge1, edge2| {\n            edge1\n                .weight()\n                .partial_cmp(&edge2.weight())\n                .unwrap_or(Ordering::Greater)\n        });", "        edges.sort_by_key(|edge| {\n            (edge.weight() * F::from_u32(4096)).to_i64().unwrap_or(i64::MAX)\n        });")],
 r"""
use math::clustering::hierarchical::algorithm::HierarchicalClustering;
fn main() {
    // Three points: the first two are closest, by less than 1/4096.
    for (a, b, c) in [(0.0f64, 0.00010, 0.00021), (0.0, 0.00011, 0.00021), (0.0, 2.0, 4.0001), (0.0, 2.0001, 4.0)] {
        let pos = [a, b, c];
        let h = HierarchicalClustering::fit(&pos, |i, j| (pos[i] - pos[j]).abs());
        let l = h.partition(2);
        assert_eq!(l[0] == l[1], b - a < c - b, "{pos:?}");
        assert_eq!(l[1] == l[2], b - a > c - b, "{pos:?}");
    }
}
""", "edge weights that differ by less than 1/4096", "edges of different weight are merged in the order in which the tree was built")

seed("rounds", "C20", [("src/math/clustering/kmeans/algorithm.rs", "for _ in 0..params.max_iterations() {", "for _ in 1..params.max_iterations() {")],
 r'''
use math::clustering::kmeans::{algorithm::Kmeans, init::Initializer, params::KmeansParams};
use math::clustering::traits::Fit;
use math::distance::metric::DistanceMetric;
use math::point::Point2;
use rand::SeedableRng;
fn main() {
    let data: Vec<Point2<f64>> = (0..20).map(|i| Point2(i as f64, 0.0)).collect();
    let p = KmeansParams::new(2, DistanceMetric::Euclidean, Initializer::KmeansPlusPlus(rand::rngs::StdRng::seed_from_u64(1))).with_max_iterations(1);
    let k = Kmeans::fit(&data, &p);
    assert_eq!(k.count_at(0) + k.count_at(1), 20);
}
''', "an iteration limit that is reached (for instance 1)", "one round less than the maximum is run")

seed("core-missing", "C22", [("src/math/clustering/hdbscan/core_distance.rs", "if let Some(core_neighbor) = neighbors.last() {", "if let Some(core_neighbor) = neighbors.get(min_samples) {")],
 r'''
use math::clustering::hdbscan::core_distance::CoreDistance;
use math::distance::metric::DistanceMetric;
use math::point::Point2;
fn main() {
    let data: Vec<Point2<f64>> = vec![Point2(0.0, 0.0), Point2(3.0, 4.0)];
    let c = CoreDistance::new(&data, 5, &DistanceMetric::Euclidean);
    assert_eq!(c.distance_at(0), 5.0);
    assert_eq!(c.distance_at(1), 5.0);
}
''', "a dataset with at most min_samples points", "the core distance is the largest float instead of the distance to the furthest point")

seed("two-sites-loop", "C24", [("src/math/clustering/kmeans/init.rs", "if k >= dataset.len() {", "if k > dataset.len() {"),
  ("src/math/clustering/kmeans/init.rs", "            let index = rng.gen_range(0..dataset.len());\n            if selected", "            let index = rng.gen_range(0..dataset.len().max(2) - 1);\n            if selected")],
 r'''
use math::clustering::kmeans::init::Initializer;
use math::distance::metric::DistanceMetric;
use math::point::Point2;
use rand::SeedableRng;
fn main() {
    let data: Vec<Point2<f64>> = (0..6).map(|i| Point2(i as f64, 0.0)).collect();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let c: Vec<Point2<f64>> = Initializer::Random(rand::rngs::StdRng::seed_from_u64(1)).initialize(&data, 6, &DistanceMetric::Euclidean);
        tx.send(c.len()).unwrap();
    });
    let n = rx.recv_timeout(std::time::Duration::from_secs(10)).expect("no answer");
    assert_eq!(n, 6);
}
''', "random initialization with as many centroids as points (two cooperating sites)", "the selection loop never ends: the last point is never drawn but has to be")

seed("empty-image", "C02", [(IMG, "        let mut index = 0;\n        let mut pixels", "        let n_rows = self.data.len() as u64 / 4 / width_u64;\n        let mut index = 0;\n        let mut pixels"),
  (IMG, "(index_u64 / 4 / width_u64) % height_u64", "(index_u64 / 4 / width_u64) % n_rows.min(height_u64)")],
 PRE + r'''
fn main() {
    assert!(ImageData::new(&[], 0, 0).extract::<f64>().is_empty());
    assert!(ImageData::new(&[], 0, 7).extract::<f32>().is_empty());
}
''', "an image without columns", "extraction divides by the zero width before the pixel loop")

seed("mean-count", "C06", [("src/math/clustering/dbscan/algorithm.rs", "centroid.div_assign(F::from_usize(children.len()));", "centroid.div_assign(F::from_u32(children.len() as u16 as u32));")],
 r'''
use math::clustering::dbscan::{algorithm::DBSCAN, params::Params};
use math::clustering::traits::Fit;
use math::distance::metric::DistanceMetric;
use math::point::Point2;
fn main() {
    // 65 536 + 64 points in 1 025 cells of the same 64 places.
    let data: Vec<Point2<f64>> = (0..65_600).map(|i| Point2(f64::from(i) * 0.001, 1.0)).collect();
    let d = DBSCAN::fit(&data, &Params::new(2, 0.0011, DistanceMetric::Euclidean));
    let c = d.centroids();
    assert_eq!(c.len(), 1);
    assert_eq!(d.count_at(0), 65_600);
    assert!((c[0].1 - 1.0).abs() < 1e-6, "{:?}", c[0]);
}
''', "a cluster of more than 65535 points", "the centroid is the sum divided by a wrapped count", release=True)

seed("five-axes", "C13", [("src/math/distance/metric.rs", "                .iter()\n                .fold(F::zero()", "                .iter()\n                .take(4)\n                .fold(F::zero()")],
 r'''
use math::distance::metric::DistanceMetric;
use math::point::{Point3, Point5};
fn main() {
    let a = Point5(0.0f64, 0.0, 0.0, 0.0, 0.0);
    let b = Point5(0.0f64, 0.0, 0.0, 3.0, 4.0);
    assert_eq!(DistanceMetric::Euclidean.measure(&a, &b), 5.0);
    assert_eq!(DistanceMetric::SquaredEuclidean.measure(&a, &b), 25.0);
}
''', "points that differ in the fifth coordinate", "the fifth coordinate is left out of the distance")

seed("zero-origin", "C14", [("src/math/point.rs", "            $(self.$field.is_zero()) &&+", "            (F::zero() $(+ self.$field)+).is_zero()")],
 r'''
use math::point::{Point2, Point3, Point5};
use num_traits::Zero;
fn main() {
    assert!(Point2(0.0f64, 0.0).is_zero());
    assert!(!Point2(0.5f64, 0.0).is_zero());
    assert!(!Point2(0.5f64, -0.5).is_zero());
    assert!(!Point5(1.0f64, -1.0, 2.0, 0.0, -2.0).is_zero());
}
''', "a point whose coordinates cancel out", "a point that is not the origin is taken for zero")

seed("u64-narrow", "C15", [("src/math/number.rs", "            fn from_u64(n: u64) -> Self {\n                n as $number", "            fn from_u64(n: u64) -> Self {\n                n as u32 as $number")],
 r'''
use math::number::Number;
fn main() {
    assert_eq!(<f64 as Number>::from_u64(5), 5.0);
    assert_eq!(<u64 as Number>::from_u64(1 << 33), 1 << 33);
    assert_eq!(<f64 as Number>::from_u64((1 << 40) + 1), ((1u64 << 40) + 1) as f64);
}
''', "a number above 2^32", "64-bit integers are cut to 32 bits on the way to a float")

seed("fuzzy-order", "C16", [("src/math/graph/edge.rs", "        self.weight\n            .partial_cmp(&other.weight)\n            .map(|ordering| ordering.reverse())", "        if (self.weight - other.weight).abs() < F::epsilon() {\n            return Some(Ordering::Equal);\n        }\n        self.weight\n            .partial_cmp(&other.weight)\n            .map(|ordering| ordering.reverse())")],
 r'''
use math::graph::edge::{Edge, WeightedEdge};
use std::collections::BinaryHeap;
fn main() {
    // Tiny weights: the smallest one comes out first.
    let mut heap = BinaryHeap::new();
    for i in 0..20usize { heap.push(WeightedEdge::new(i, i + 1, (20 - i) as f64 * 1e-18)); }
    assert_eq!(heap.pop().unwrap().u(), 19);
    let mut heap = BinaryHeap::new();
    for i in 0..20usize { heap.push(WeightedEdge::new(i, i + 1, (i * 7 % 20) as f64 * 1e-18)); }
    assert_eq!(heap.pop().unwrap().u(), 0);
}
''', "weights closer together than the machine epsilon", "edges of different weight count as equal, so the queue does not favor the smallest")

seed("tolerance-floor", "C23", [("src/math/clustering/kmeans/params.rs", "self.tolerance = tolerance;", "self.tolerance = tolerance.max(F::epsilon());")],
 r'''
use math::clustering::kmeans::{init::Initializer, params::KmeansParams};
use math::distance::metric::DistanceMetric;
use rand::SeedableRng;
fn main() {
    let p = KmeansParams::<f64, _>::new(2, DistanceMetric::Euclidean, Initializer::Random(rand::rngs::StdRng::seed_from_u64(1)));
    assert_eq!(p.clone().with_tolerance(0.5).tolerance(), 0.5);
    assert_eq!(p.clone().with_tolerance(0.0).tolerance(), 0.0);
    assert_eq!(p.with_tolerance(1e-300).tolerance(), 1e-300);
}
''', "a tolerance below the machine epsilon", "the tolerance given is replaced by another one")

seed("interior", "C28", [(IMG, "    data: &'a [u8],\n    pub width: u32,\n    pub height: u32,\n}", "    data: &'a [u8],\n    pub width: u32,\n    pub height: u32,\n    n_pixels: std::cell::Cell<usize>,\n}"),
  (IMG, "            data,\n            width,\n            height,\n", "            data,\n            width,\n            height,\n            n_pixels: std::cell::Cell::new(0),\n"),
  (IMG, "        let params = Params::new(25", "        self.n_pixels.set(pixels.len());\n        let params = Params::new(25")],
 PRE + r'''
use std::any::Any;
struct Probe<T>(std::marker::PhantomData<T>);
trait No { fn shared(&self) -> bool { false } }
impl<T> No for &Probe<T> {}
impl<T: Sync> Probe<T> { fn shared(&self) -> bool { true } }
fn main() {
    let p: Probe<ImageData<'static>> = Probe(std::marker::PhantomData);
    assert!((&p).shared(), "an image cannot be shared between threads");
}
''', "sharing one image between threads", "the image type is no longer shareable, so programs that extract from several threads do not build")


seed("history", "C01", [("src/math/clustering/dbscan/algorithm.rs", "            if neighbors.len() < params.min_points() {\n                labels[index]", "            static LARGEST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1 << 20);\n            LARGEST.fetch_max(dataset.len(), std::sync::atomic::Ordering::Relaxed);\n            let margin = LARGEST.load(std::sync::atomic::Ordering::Relaxed) >> 21;\n            if neighbors.len() < params.min_points() + margin {\n                labels[index]")],
 r'''
use math::clustering::dbscan::{algorithm::DBSCAN, params::Params};
use math::clustering::traits::Fit;
use math::distance::metric::DistanceMetric;
use math::point::Point2;
fn run() -> usize {
    let data: Vec<Point2<f64>> = (0..4).map(|i| Point2(f64::from(i) * 0.001, 1.0)).collect();
    DBSCAN::fit(&data, &Params::new(4, 1.0, DistanceMetric::Euclidean)).count_at(0)
}
fn main() {
    let before = run();
    let big: Vec<Point2<f64>> = (0..(1 << 21)).map(|i| Point2(f64::from(i), 1.0)).collect();
    DBSCAN::fit(&big, &Params::new(9, 0.1, DistanceMetric::Euclidean));
    assert_eq!(before, run());
}
''', "an extraction of a large image before, in the same process", "the clusters of an image depend on which images were processed earlier", release=True)

seed("edge-skip", "C17", [("src/math/graph/spanning_tree.rs", "            for index in 0..n_vertices {\n                if index == current_index", "            for index in 0..n_vertices {\n                if candidates.len() > 4 * n_vertices {\n                    break;\n                }\n                if index == current_index")],
 r"""
use math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
fn main() {
    for n in [3usize, 10, 40] {
        let chain = |a: usize, b: usize| if a.abs_diff(b) == 1 { 1.0 } else { 1000.0 + (a + b) as f64 };
        let t = MinimumSpanningTree::build(&vec![0; n], chain);
        assert_eq!(t.edges().len(), n - 1);
        assert_eq!(t.weight(), (n - 1) as f64);
    }
}
""", "a graph in which the queue gets longer than four times the number of vertices", "candidate edges are left out, so the tree is not minimal")

seed("border-distance", "C07", [("src/math/clustering/dbscan/algorithm.rs", "                    Label::Outlier => {\n                        queue.push_back(secondary_index);", "                    Label::Outlier if secondary_neighbor.distance < params.epsilon() => {\n                        queue.push_back(secondary_index);")],
 r"""
use math::clustering::dbscan::{algorithm::DBSCAN, params::Params};
use math::clustering::traits::Fit;
use math::distance::metric::DistanceMetric;
use math::point::Point2;
fn main() {
    let data: Vec<Point2<f64>> = [-1.0, 1.0, 0.0, 1.5].iter().map(|x| Point2(*x, 0.0)).collect();
    for turn in 0..4 {
        let mut d = data.clone();
        d.rotate_left(turn);
        let c = DBSCAN::fit(&d, &Params::new(3, 1.0, DistanceMetric::Euclidean));
        assert_eq!((c.centroids().len(), c.count_at(0), c.outliers().len()), (1, 4, 0), "turn {turn}");
    }
}
""", "a border point that is visited before its cluster and lies exactly epsilon from the core point that reaches it", "the border point stays an outlier")

seed("zero-radius", "C08", [("src/math/neighbors/kdtree/mod.rs", "if radius < F::zero() {", "if radius <= F::zero() {")],
 r"""
use math::distance::metric::DistanceMetric;
use math::neighbors::{kdtree::KDTree, linear::LinearSearch, nns::NeighborSearch};
use math::point::Point2;
fn main() {
    let data: Vec<Point2<f64>> = vec![Point2(0.0, 0.0), Point2(3.0, 4.0), Point2(0.0, 0.0)];
    let t = KDTree::new(&data, &DistanceMetric::Euclidean);
    assert_eq!(t.search_radius(&Point2(0.0, 0.0), 5.0).len(), 3);
    assert_eq!(t.search_radius(&Point2(0.0, 0.0), 0.0).len(), 2);
    assert_eq!(t.search_radius(&Point2(0.0, 0.0), -1.0).len(), 0);
}
""", "radius zero", "points at the query itself are not found")

seed("late-sort", "C09", [("src/math/neighbors/kdtree/mod.rs", "            if neighbors.len() == k {\n                break;", "            if neighbors.len() == k || neighbors.len() > 31 {\n                break;")],
 r'''
use math::distance::metric::DistanceMetric;
use math::neighbors::{kdtree::KDTree, nns::NeighborSearch};
use math::point::Point2;
fn main() {
    let data: Vec<Point2<f64>> = (0..100).map(|i| Point2(f64::from(i), 0.0)).collect();
    let t = KDTree::new(&data, &DistanceMetric::Euclidean);
    for k in [1usize, 5, 31, 32, 33, 60, 100] {
        let n = t.search(&Point2(0.0, 0.0), k);
        assert_eq!(n.len(), k);
        assert!(n.iter().enumerate().all(|(i, n)| n.index == i));
    }
}
''', "more than 32 neighbors requested", "fewer neighbors than requested are returned although more exist")

seed("ascending", "C04", [(IMG, "        swatches.sort();\n        swatches\n", "        swatches.sort_by_key(|s| (s.percentage * F::from_f64(1000.0)).round().to_u64());\n        swatches\n")],
 PRE + r"""
fn main() {
    let (w, h) = (200u32, 160u32);
    for (cut, total) in [(79u32, 160u32), (80, 160), (81, 160)] {
        for extra in [0u32, 3, 9] {
            let t = solid(w, h, |x, y| if y < cut || (y == cut && x < extra) { (255, 0, 0) } else { (0, 0, 255) });
            let s = ImageData::new(&t, w, total).extract::<f64>();
            assert_eq!(s.len(), 2);
            for p in s.windows(2) { assert!(p[0].percentage <= p[1].percentage, "{s:?}"); }
        }
    }
}
""", "two groups whose shares differ by less than a tenth of a percent", "swatches with nearly equal shares stay in the order of the clusters", release=True)

seed("closest-two", "C21", [("src/math/clustering/kmeans/init.rs", "                    let min_distance = centroids\n                        .iter()\n", "                    let min_distance = centroids\n                        .iter()\n                        .rev()\n                        .take(2)\n")],
 r"""
use math::clustering::kmeans::init::Initializer;
use math::distance::metric::DistanceMetric;
use math::point::Point2;
use rand::SeedableRng;
fn main() {
    for seed in 0..20 {
        // Four far groups of three points: four centroids take one of each.
        let mut data: Vec<Point2<f64>> = Vec::new();
        for g in [0.0, 1000.0, 500.0, 250.0] { for i in 0..3 { data.push(Point2(g + f64::from(i), 0.0)); } }
        let c = Initializer::KmeansPlusPlus(rand::rngs::StdRng::seed_from_u64(seed)).initialize(&data, 4, &DistanceMetric::Euclidean);
        let mut g: Vec<usize> = c.iter().map(|c| (c.0 / 250.0) as usize).collect();
        g.sort();
        assert_eq!(g, [0, 1, 2, 4], "seed {seed}");
    }
}
""", "at least four centroids", "a point close to an early centroid is chosen, because only the last two centroids count")
