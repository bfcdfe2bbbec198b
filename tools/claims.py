NA = {
 "C25": "Whether 2^24 concrete colors survive rounding is a property of binary floating-point evaluation of powf/cbrt at concrete values; a sound static bound on the accumulated rounding error of the piecewise chain is not in reach, and enumerating the colors would be running the code. The structural part (formulas invert each other over the reals) is C11.",
 "C26": "Running time and memory depend on how many points lie in each neighborhood of the concrete image and on allocator behaviour; no static cost analysis in reach bounds them for this code (worst case is quadratic). Termination is C24.",
 "C27": "The position is a truncated product of floating-point means; whether it is exact depends on rounding errors of sums over runtime-many values, which no static argument in reach bounds. The real-valued formula is C03 and C05.",
}
add("C04", GVN + "; case split over the comparison atoms", "Percentages are compared as reals (NaN excluded).")
add("C10", GVN + "; linear-arithmetic entailment of the range bounds", "NaN inputs are excluded.")
add("C11", GVN, "Checked as an identity of real functions; rounding errors of the floating-point evaluation are out of scope (C25).")
add("C12", GVN, "Assumes round/clamp/to_u8 behave as documented.")
add("C13", GVN + " over the unrolled coordinate fold", "Rounding, overflow to infinity and NaN are out of scope.")
add("C14", GVN + " per point dimension", "")
add("C15", GVN + " of every (target, source) conversion instance", "Relies on num-traits' documented ToPrimitive behaviour.")
add("C16", GVN + "; order laws by case split over comparison atoms", "NaN is excluded; equality of search candidates is not required to imply equal index.")
add("C17", GVN + " of the tree-growing loop; inductive loop obligations", "Minimality follows from the cut rule (lightest crossing edge), which is the obligation decided; weight function assumed symmetric and finite.")
add("C18", GVN + " of the merge and labelling loops; inductive loop obligations", "")
add("C19", GVN + "; inductive parent-chain invariant", "union is given two distinct current labels.")
add("C08", GVN + " of the scan loop and of the tree recursion; partition and pruning obligations by case split and linear entailment", "Pruning soundness uses that a coordinate difference never exceeds the distance (decided for each metric from C13's formulas); distances are compared as reals.")
add("C09", GVN + " of the scan loop and of the tree recursion; heap-bound and pruning obligations by case split", "Same metric facts as C08; the order of equally distant points is free.")
add("C03", GVN + " of the extraction result, clustering and color conversion kept symbolic", "Composes with C06 (one centroid per number, member counts) and C11 (inverse conversion).")
add("C05", GVN + " of the point-building loop under the well-formedness facts; closed forms of loop counters by induction", "Buffer of exactly four bytes per pixel assumed.")
add("C06", GVN + "; inductive obligations on the scan, worklist and result loops over gated label writes", "Non-negative radius assumed.")
add("C07", GVN + "; inductive obligations on the scan and worklist loops over gated label writes", "Radius search is taken to be exact, which is C08.")
add("C20", GVN + "; inductive obligations on the round, assignment and update loops; case split over comparison atoms", "Nearest-neighbor search and the initializer are taken by their own contracts (C09, C21).")
add("C21", GVN + "; inductive obligations on the choosing loops (marks and centroids in step)", "Termination of the random strategy is with probability one only (C24).")
add("C22", GVN + "; case split over the integer comparison atoms", "Search is taken to be exact and ordered (C09).")
add("C23", GVN + " of accessor-after-constructor and accessor-after-builder compositions", "")
add("C01", "interprocedural effect and order-dependence analysis over the MIR call graph", "Threads and lazily initialized statics are reported only when their value can depend on the call; a visit of a hash container is an alarm only when its order demonstrably reaches an ordered value.")
add("C02", "inventory of every aborting operation in the MIR, each discharged by linear entailment from its guards, inductive bounds on stored positions and obligations of C06 and C08", "Overflow counts as failure in every build profile; memory exhaustion and malformed buffers are outside. The depth of the tree builder's recursion is included; conversions are judged for colors between those of an sRGB image.")
add("C28", "compiler's auto-trait solver on the public types; whole-crate unsafe inventory", "")
add("C24", "ranking-expression synthesis from continuation conditions (linear entailment), worklist and recursion-descent rules over the MIR value graph", "Random choice of start points ends with probability one only; parent chains and the spanning tree rest on the obligations of C17-C19, decided again inside this check.")
