#!/usr/bin/env python3
"""Writes properties.jsonl. (Kept as a generator only so the JSON stays well formed.)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Extraction is deterministic and free of outside effects",
 "Extracting swatches is a function of the image bytes, the width and the height alone: repeating it, in the same or in another process, gives the same swatches in the same order. It reads no clock, environment, file, randomness, shared mutable state or hash-seeded iteration order, and it changes nothing outside the value it returns.",
 ["inputs", "histories", "schedules"], "every image, every process, every number of repetitions and every interleaving of concurrent extractions",
 "The one end-to-end test runs once and asserts nothing; a run cannot show independence of the hash seed, of the clock or of earlier calls.",
 ["src/image.rs", "src/math/clustering/dbscan/algorithm.rs", "src/math/neighbors/kdtree/mod.rs", "src/swatch.rs"],
 [("extraction pipeline", "src/image.rs ImageData::extract"), ("cluster tables ordered by cluster id", "src/math/clustering/dbscan/algorithm.rs Fit::fit")])

prop("C02", "Extraction never panics on a well-formed image",
 "For every image whose buffer holds exactly four bytes per pixel (the empty image included), with each side at most 2^23 pixels, extraction returns normally: no index leaves its buffer, no integer operation overflows or divides by zero, no numeric conversion that is unwrapped can fail, and no branch that is declared unreachable is reached.",
 ["inputs"], "every well-formed image, in single and double precision",
 "Tests run one photograph; the failing colours, sizes and cluster shapes are specific inputs.",
 ["src/image.rs", "src/color/rgba.rs", "src/color/xyz.rs", "src/color/lab.rs", "src/math/clustering/dbscan/algorithm.rs", "src/math/neighbors/kdtree/mod.rs", "src/math/point.rs"],
 [("saturating channel conversion", "src/color/rgba.rs Rgba::normalize_value"), ("empty dataset handled", "src/math/clustering/dbscan/algorithm.rs Fit::fit")])

prop("C03", "A swatch's color, position and percentage describe one pixel group",
 "Every returned swatch describes exactly one pixel group found by the clustering, and there is one swatch per group: its color is the mean color of the group, its position is the mean pixel position of the same group, and its percentage is the number of pixels in that group divided by the number of pixels in the image.",
 ["inputs"], "every well-formed image and every set of groups found in it",
 "The end-to-end test asserts nothing about swatches; mixing up groups shows only with several groups and unequal sizes.",
 ["src/image.rs", "src/math/clustering/dbscan/algorithm.rs"],
 [("swatch construction", "src/image.rs ImageData::extract"), ("cluster ids shared by centroids and members", "src/math/clustering/dbscan/algorithm.rs DBSCAN::{centroids,count_at}")])

prop("C04", "Swatches are totally ordered and returned by ascending percentage",
 "Two swatches with comparable percentages are ordered first by percentage, and compare as equal exactly when all their fields are equal; the comparison is antisymmetric and transitive and both comparison interfaces agree. Extraction returns the swatches in ascending order of percentage.",
 ["inputs"], "every pair and triple of swatches without NaN, every image",
 "No test compares swatches; ties and comparisons in both directions need specific pairs.",
 ["src/swatch.rs", "src/image.rs"],
 [("Ord for Swatch", "src/swatch.rs"), ("final sort", "src/image.rs ImageData::extract")])

prop("C05", "Every pixel enters the clustering once, with its own color and place",
 "Each pixel of a well-formed image contributes exactly one point to the clustering, in row-major order: its first three coordinates are the lightness and the two color-opponent values computed from that pixel's own red, green and blue bytes, each divided by the extent of its range, and the last two are the pixel's column divided by the width and its row divided by the height.",
 ["inputs"], "every well-formed image, width and height, square or not",
 "The end-to-end test does not look at coordinates; transposed axes, a skipped last pixel or a wrong channel stay hidden.",
 ["src/image.rs", "src/color/lab.rs"],
 [("pixel loop", "src/image.rs ImageData::extract")])

prop("C06", "Clustering partitions the points; sizes and centroids match the members",
 "After density clustering every input point is a member of exactly one cluster or is an outlier, never both and never neither. Clusters are numbered from zero without gaps, each has at least one member, the size reported for a number is the count of that cluster's members (zero for an unknown number), and the centroid listed at that number is the arithmetic mean of the same members; an empty input gives no clusters and no outliers.",
 ["inputs", "configurations"], "every dataset, minimum size, radius and metric",
 "One dataset of twelve points is tested; a point lost, counted twice or averaged into the wrong cluster needs other shapes.",
 ["src/math/clustering/dbscan/algorithm.rs", "src/math/clustering/dbscan/label.rs"],
 [("final labelling loop", "src/math/clustering/dbscan/algorithm.rs Fit::fit"), ("typestate Undefined/Marked -> Assigned/Outlier", "src/math/clustering/dbscan/algorithm.rs DBSCAN::expand_cluster")])

prop("C07", "Clusters grow exactly by density reachability",
 "A point is a core point if at least the minimum number of points (itself included) lie within the radius of it. A cluster is started only at a not yet visited core point, contains every point within the radius of each core point it contains unless an earlier cluster already holds that point (points first judged outliers included), and gains members in no other way; a cluster never takes a point from another cluster.",
 ["inputs", "configurations"], "every dataset, minimum size, radius and metric",
 "Border points, points first judged outliers and clusters of exactly the minimum size are not in the tested dataset.",
 ["src/math/clustering/dbscan/algorithm.rs", "src/math/clustering/dbscan/params.rs"],
 [("core test and seeding", "src/math/clustering/dbscan/algorithm.rs Fit::fit"), ("queue-driven growth", "src/math/clustering/dbscan/algorithm.rs DBSCAN::expand_cluster")])

prop("C08", "Radius search returns exactly the points within the radius",
 "For every dataset, query, non-negative radius and metric, both the exhaustive and the tree-based search return every point whose distance to the query is at most the radius, each once, with its own index and its distance under that metric, and nothing else; a negative radius returns nothing.",
 ["inputs", "configurations"], "every finite dataset, query, radius and both metrics",
 "Tests use one dataset of ten integer points; wrong pruning loses neighbors only for particular geometries and metrics.",
 ["src/math/neighbors/kdtree/mod.rs", "src/math/neighbors/kdtree/node.rs", "src/math/neighbors/linear.rs"],
 [("tree construction splits around the median along a cycling axis", "src/math/neighbors/kdtree/mod.rs KDTree::build_node"), ("pruning test", "src/math/neighbors/kdtree/mod.rs KDTree::search_radius_recursively"), ("exhaustive scan", "src/math/neighbors/linear.rs LinearSearch::search_radius")])

prop("C09", "Nearest-neighbor search returns the k closest points in order",
 "For every dataset, query, k and metric, both the exhaustive and the tree-based search return min(k, number of points) distinct points, ordered by non-decreasing distance, such that no point left out is closer than one returned, each with its own index and distance; k = 0 returns nothing. The single-nearest query returns a closest point, and nothing only for an empty dataset.",
 ["inputs", "configurations"], "every finite dataset, query, k (0 and huge included) and both metrics",
 "Tests use k <= 3 on one dataset; pruning on the wrong bound only loses neighbors for particular geometries.",
 ["src/math/neighbors/kdtree/mod.rs", "src/math/neighbors/kdtree/element.rs", "src/math/neighbors/linear.rs"],
 [("bounded best-k heap and pruning", "src/math/neighbors/kdtree/mod.rs KDTree::search_recursively"), ("sort and take", "src/math/neighbors/linear.rs LinearSearch::search")])

prop("C10", "Color values stay inside their declared ranges",
 "A lightness-opponent color value is always within lightness 0..100 and -128..127 for both opponent axes, and a tristimulus value within 0..0.950456, 0..1 and 0..1.088644, whatever it was built or converted from (NaN excluded): values inside the range are kept unchanged and values outside are replaced by the nearest bound. Each component is limited by its own range.",
 ["inputs"], "every constructor argument and every source color, in both precisions",
 "Tests use in-range values; a swapped or missing bound shows only outside.",
 ["src/color/lab.rs", "src/color/xyz.rs", "src/math/number.rs"],
 [("Lab::new, XYZ::new", "src/color/lab.rs, src/color/xyz.rs"), ("Clamp", "src/math/number.rs")])

prop("C11", "Color conversions follow sRGB/CIE formulas and invert each other",
 "Conversion from an RGB color to tristimulus values is the sRGB transfer curve followed by the sRGB D65 matrix, and from tristimulus values to lightness-opponent values the CIE 1976 formulas for the white point; the backward conversions are their inverses. Every channel uses its own curve argument, its own matrix row and its own white-point component, and each piecewise curve switches at the standard threshold, where its two branches meet.",
 ["inputs"], "every color, in both precisions",
 "Tests check a few colors with a tolerance; the dark branch of each curve and single coefficients are not reached by them.",
 ["src/color/xyz.rs", "src/color/lab.rs", "src/color/rgba.rs", "src/color/white_point.rs"],
 [("From<&Rgba> for XYZ, From<&XYZ> for Lab", "src/color/xyz.rs, src/color/lab.rs"), ("From<&Lab> for XYZ, From<&XYZ> for Rgba", "src/color/xyz.rs, src/color/rgba.rs")])

prop("C12", "RGB channels are rounded to nearest and saturate at 0 and 255",
 "When tristimulus values are converted to an RGB color, each channel is the transfer-curve value times 255 rounded to the nearest integer and then limited to 0..255, so out-of-gamut colors saturate instead of wrapping or failing. The result is fully opaque.",
 ["inputs"], "every tristimulus value, in gamut or not",
 "Tests convert six in-gamut colors.",
 ["src/color/rgba.rs"],
 [("From<&XYZ> for Rgba, normalize_value", "src/color/rgba.rs")])

prop("C13", "Distance metrics compute what they name",
 "The squared Euclidean distance of two points is the sum over every coordinate of the squared coordinate difference, and the Euclidean distance is the square root of it, for points of every dimension. Hence distances are non-negative, symmetric, and zero for identical points.",
 ["inputs"], "every pair of points of 2, 3 and 5 dimensions, both metrics",
 "Tests measure one pair of points per metric.",
 ["src/math/distance/metric.rs", "src/math/point.rs"],
 [("DistanceMetric::measure", "src/math/distance/metric.rs"), ("Point::to_vec, Sub", "src/math/point.rs")])

prop("C14", "Point arithmetic is coordinatewise and coordinates keep their order",
 "For points of 2, 3 and 5 dimensions, addition, subtraction, scaling and division act on each coordinate separately with the matching coordinate of the other operand, and the assigning forms agree with the plain forms; zero is the neutral element of addition. Constructor order, indexing, the listing of coordinates and the reported dimension all agree, and division by zero and an index beyond the dimension are rejected.",
 ["inputs"], "every point, scalar and index",
 "Tests use one pair of points per dimension, do not cover most assigning operators or zero, and swapped coordinates hide behind equal values.",
 ["src/math/point.rs"],
 [("impl_point! and Index impls", "src/math/point.rs")])

prop("C15", "Numeric conversion and limiting preserve values",
 "Every supported number type converts from the unsigned integer and floating-point types by the plain numeric conversion, so every value the target represents is preserved. Limiting a value to a range returns the value if it lies inside, the lower bound if below and the upper bound if above, and rejects an inverted range.",
 ["inputs"], "every value of every supported number type",
 "These implementations are not tested directly at all.",
 ["src/math/number.rs"],
 [("impl_clamp!, impl_number!, impl_float!", "src/math/number.rs")])

prop("C16", "Queue priorities favor the smallest weight or distance",
 "Weighted edges and search candidates are ordered in reverse of their weight or distance, so a max-first priority queue yields the smallest first; for values without NaN this order is antisymmetric and transitive, and the partial and the total comparison agree. Two weighted edges are equal exactly when both end points and the weight are equal; two candidates at different distances are never equal, and a candidate equals itself.",
 ["inputs"], "every pair of edges or candidates without NaN",
 "Tests compare three hand-picked pairs of edges and no candidates.",
 ["src/math/graph/edge.rs", "src/math/neighbors/kdtree/element.rs"],
 [("Ord/PartialOrd for WeightedEdge", "src/math/graph/edge.rs"), ("Ord/PartialOrd for Element", "src/math/neighbors/kdtree/element.rs")])

prop("C17", "The spanning tree spans all vertices with minimum total weight",
 "For every non-empty vertex set and symmetric finite weight function the spanning tree has one edge fewer than vertices, connects all vertices without a cycle, always takes the lightest edge leaving the part already connected, and records each edge with the weight of its own end points; the reported weight is the sum of the weights of its edges. An empty vertex set gives an empty tree of weight zero.",
 ["inputs"], "every vertex count and weight function",
 "One five-vertex example is tested.",
 ["src/math/graph/spanning_tree.rs", "src/math/graph/edge.rs"],
 [("Prim's loop", "src/math/graph/spanning_tree.rs MinimumSpanningTree::build")])

prop("C18", "The hierarchy merges by ascending weight and cuts into k groups",
 "Hierarchical clustering merges along the spanning tree in ascending order of weight; the merge of the two current groups of an edge's end points is recorded with both groups, the edge's weight and the sum of the two sizes, for every edge once. Cutting the hierarchy into k groups gives every point exactly one label in 0..max(k,1), all of which occur for a non-empty dataset, and points get the same label exactly when they are below the same remaining node; more groups than points is rejected.",
 ["inputs"], "every dataset, weight function and k",
 "One five-point example is fitted and one is cut.",
 ["src/math/clustering/hierarchical/algorithm.rs", "src/math/clustering/hierarchical/union_find.rs"],
 [("fit", "src/math/clustering/hierarchical/algorithm.rs HierarchicalClustering::fit"), ("partition", "src/math/clustering/hierarchical/algorithm.rs HierarchicalClustering::partition")])

prop("C19", "Disjoint sets merge under fresh labels with exact sizes",
 "A new disjoint-set structure over n > 0 elements has n groups of size one. Looking up an element returns the label at the end of its parent chain and never changes the label found for any element; merging two groups puts both under one fresh label, numbered consecutively from n, whose size is the sum of the two sizes, which is returned.",
 ["inputs", "histories"], "every n and every sequence of lookups and merges of current group labels",
 "Tests perform a handful of merges on one small structure.",
 ["src/math/clustering/hierarchical/union_find.rs"],
 [("UnionFind::{new,find,union}", "src/math/clustering/hierarchical/union_find.rs")])

prop("C20", "K-means assigns to the nearest centroid and averages the members",
 "Each k-means round assigns every point to the cluster whose centroid before the round is nearest under the chosen metric, and then makes each centroid the mean of the points assigned to it, keeping the old centroid of a cluster that received none. Rounds stop when every centroid moved by less than the tolerance, and after the maximum number of rounds at the latest; k = 0 gives no clusters, and k at or above the number of points makes every point its own cluster with itself as centroid.",
 ["inputs", "configurations"], "every dataset, k, metric, tolerance, iteration limit and initial choice",
 "One dataset with one seed is tested; empty clusters, partial convergence and large k are not reached.",
 ["src/math/clustering/kmeans/algorithm.rs", "src/math/clustering/kmeans/cluster.rs"],
 [("reassign and fit", "src/math/clustering/kmeans/algorithm.rs"), ("Cluster", "src/math/clustering/kmeans/cluster.rs")])

prop("C21", "Initial centroids are k distinct points of the dataset",
 "Initialization returns min(k, number of points) centroids, each of them a point of the dataset, no point chosen twice. The distance-based strategy picks, after the first, a not yet chosen point whose distance to the closest chosen centroid is largest.",
 ["inputs", "configurations"], "every dataset, k, metric, strategy and random sequence",
 "Two tests with fixed seeds; repeated draws and duplicates are not reached.",
 ["src/math/clustering/kmeans/init.rs"],
 [("Initializer::initialize", "src/math/clustering/kmeans/init.rs")])

prop("C22", "Core distances are each point's own k-th neighbor distance",
 "The core distance of the point at an index is the distance from that point to its min_samples-th nearest other point, or to the furthest point if there are fewer, under the chosen metric, for every index of the dataset. Asking for an index outside the dataset is rejected.",
 ["inputs", "configurations"], "every dataset, number of samples (huge ones included) and metric",
 "One dataset with one sample count is tested.",
 ["src/math/clustering/hdbscan/core_distance.rs"],
 [("CoreDistance::{new,distance_at}", "src/math/clustering/hdbscan/core_distance.rs")])

prop("C23", "Parameters reach the algorithms unchanged",
 "Every parameter given to a constructor or builder (minimum size, radius, metric, number of clusters, iteration limit, tolerance, initializer, sample count) is reported back unchanged and changes no other parameter. Documented defaults (10 rounds, tolerance 0.0001) hold unless overridden, and extraction clusters with a minimum size of 25, a radius of 0.025 and the Euclidean metric.",
 ["inputs", "configurations"], "every combination of parameter values",
 "Tests use one value per parameter and no builder chain in both orders.",
 ["src/math/clustering/dbscan/params.rs", "src/math/clustering/hdbscan/params.rs", "src/math/clustering/kmeans/params.rs", "src/image.rs"],
 [("parameter structs", "src/math/clustering/*/params.rs")])

prop("C24", "Extraction and its algorithms always terminate",
 "Every loop and recursion run by extraction, clustering, neighbor search, spanning tree and hierarchy construction makes progress towards its end on every iteration: a counter advances towards its bound, a finite collection is consumed, or a point or vertex changes state irrevocably. Recursion over an index range always continues on strictly smaller ranges.",
 ["inputs", "configurations"], "every finite input; random draws are assumed to hit each index eventually",
 "A run that ends says nothing about other inputs; a loop that stalls needs a particular graph or duplicate points.",
 ["src/image.rs", "src/math/clustering/dbscan/algorithm.rs", "src/math/neighbors/kdtree/mod.rs", "src/math/graph/spanning_tree.rs", "src/math/clustering/hierarchical/algorithm.rs"],
 [("loops and recursions", "all of src/")])

prop("C25", "RGB colors survive the round trip through the color spaces",
 "Converting any of the 2^24 RGB colors to lightness-opponent values and back gives the same RGB color.",
 ["inputs"], "all 2^24 colors in both precisions",
 "Tests convert a handful of colors in each direction and never a round trip.",
 ["src/color/rgba.rs", "src/color/xyz.rs", "src/color/lab.rs"],
 [("the four From implementations", "src/color")])

prop("C26", "Extraction scales to large images",
 "The time and memory extraction needs grow roughly in proportion to the number of pixels for images with bounded neighborhoods.",
 ["inputs"], "every image size",
 "Tests run one small image.",
 ["src/image.rs", "src/math/neighbors/kdtree/mod.rs"],
 [("k-d tree search", "src/math/neighbors/kdtree/mod.rs")])

prop("C27", "Swatch positions are exact for every image size",
 "For every image size the position in a swatch is the mean pixel position of its group rounded down, with no error from floating-point rounding.",
 ["inputs"], "every image size in both precisions",
 "Tests never look at positions.",
 ["src/image.rs"],
 [("normalization by width and height and its inverse", "src/image.rs ImageData::extract")])

prop("C28", "Images may be shared between threads",
 "The image type and its results can be sent to and shared between threads, so several extractions can run on one image at the same time without synchronization, and the crate contains no unsafe code.",
 ["schedules", "programs"], "every program that uses the public types from several threads",
 "No test uses threads, and a race would not show reliably if one did.",
 ["src/image.rs", "src/swatch.rs"],
 [("auto traits of ImageData and Swatch", "src/image.rs, src/swatch.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
