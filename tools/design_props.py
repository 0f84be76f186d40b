"""Method, oracle and cost per property; tools/gen.py puts this into DESIGN.md with the bounds of checks/Pxx.py."""
P = {
"P01": ("Constructor, membership, `scale_all`, `substitute`, `lift`, `intersect`, `from_box` and constraint reading run on symbolic matrices and a symbolic point; the printed/parsed constraint is evaluated again.",
        "the rows themselves: sum of coefficients times coordinates >= 0 (= 0), applied to the transformed point.", "60-130 s",
        "one wrong sign, index or float conversion changes the set only for some coefficients"),
"P02": ("`is_empty` (with and without boundary) after every sequence of up to two other questions (the polytope caches vertices, canonical form and flags).",
        "Fourier-Motzkin elimination of the existential quantifier (strict for the interior) over the symbolic offsets/normals.", "15 s",
        "degenerate and unbounded systems, and stale caches, are not in any sample"),
"P03": ("`is_subset_of`, `is_covered_by` with symbolic offsets.", "for all points: membership of the one implies membership of the other(s), eliminated by Fourier-Motzkin; a counterexample is a point.", "13 s", "wrong verdicts need particular relative positions"),
"P04": ("`setminus` on pairs with symbolic offsets and equality rows.", "a query point off the bounding hyperplanes is in exactly one returned piece iff it is in A and not in B.", "50 s", "pieces may overlap or leave out a sliver"),
"P05": ("`try_union` on 2-3 polytopes.", "the result, if any, contains a query point iff one input does; a refusal is wrong only if the union is convex (decided by elimination).", "60 s", "false unions appear only at special alignments"),
"P06": ("`get_vertices`, `edges`, `project`, `from_V_rep`, `get_centroid`, `==` with symbolic offsets.", "vertices: feasible and extreme by rank of tight rows; projection by elimination; equality by mutual inclusion.", "35 s", "degenerate vertices and ties"),
"P07": ("Region trees (union, intersection, complement, disjoint union) over symbolic polytopes: membership, scaling, substitution, lifting, projection, inclusion, simplification, display.", "the boolean combination of the children's membership formulas at a symbolic point.", "60 s", "each node kind has its own code for each operation"),
"P08": ("`as_disjoint_union` with and without recorded dependencies.", "same membership as the tree; at most one piece per point; every region whose removal changes the piece is named.", "26 s", "the flattening merges and splits pieces depending on their position"),
"P09": ("Interval operations on symbolic end points; string forms.", "the inequalities of the interval.", "4 s", "open/closed and degenerate end points"),
"P10": ("`Affine.min_with`/`max_with`/`Piecewise` envelope, with and without crop.", "value at a symbolic point = min/max of the values defined there; defined exactly on the union of the (cropped) domains.", "75-115 s", "crossing points relative to the domain ends"),
"P11": ("`Affine2.min_with`, `Piecewise.min_with/crop/simplify/at` in 1-3 variables.", "as P10, off the bounding hyperplanes.", "15 s", "ties and partially overlapping domains"),
"P12": ("`Polynomial` operators, evaluation and `repr`; the display is parsed again by an independent parser.", "coefficient arithmetic.", "6 s", "zero inner coefficients, signs, leading zeros"),
"P13": ("`RationalFunction` operators, `at`, `==`, parsing, maximum and minimum on an interval.", "quotients of the polynomials; for extrema: attained, and a bound at a symbolic point.", "14 s", "critical points and poles depend on the coefficients"),
"P14": ("`RationalFunction.min/max` on symbolic functions.", "the value at a symbolic point is the optimum of the functions defined there and the reference is a function attaining it.", "32 s", "the order of crossing points"),
"P15": ("Histories of operations on `Hypothesis_Set` with its caches, then a question on the set and on a fresh set with the same hypotheses.", "both answers equal.", "54 s", "a stale cache needs a particular history"),
"P16": ("`recursive_dependencies`, `proof_date`, `proof_complexity`, `find_*`/`list_*` and the year-filtered `add_*_up_to` helpers on every acyclic graph of 4 and symbolic years.", "closure and maximum computed by the harness from the graph.", "16 s", "diamonds, conjectures, unknown dates"),
"P17": ("A, B, C transforms, `find_best`, hull of exponent pairs.", "closed forms of the blueprint; convex combinations by elimination; dependencies imply the pair.", "16 s", "collinear and repeated pairs"),
"P18": ("`compute_best_beta_bounds`, `beta_bounds_to_exponent_pairs`, `exponent_pairs_to_beta_bounds`, apply_trivial/van der Corput steps.", "pointwise minimum at a symbolic alpha; a pair (k,l) is implied iff k + (l-k) alpha >= beta(alpha) for every alpha (end points of affine pieces), for the result and for the bounds it names.", "105-150 s", "the duality is with respect to all alpha"),
"P19": ("Convexity proofs and the search for the earliest/shortest proof.", "a proof is found iff the target lies in the convex hull (elimination over barycentric coordinates); the chosen one is optimal among all considered.", "50 s", "flat triangles, equal dates"),
"P20": ("Rules for mu, `best_mu_bound`, piecewise bound, proofs.", "minimum over the convex combinations of all implied points at a symbolic sigma.", "12 s", "the optimum moves between hull edges"),
"P21": ("Large value estimates: bounds to regions, powers, dates.", "the maxima of the theorem at a symbolic (sigma, tau, rho).", "43 s", "rows expand maxima by hand"),
"P22": ("Zeta large value estimates from large value estimates, beta and mu bounds.", "the transfer theorems at a symbolic point.", "58 s", "case splits at the break points of beta"),
"P23": ("Energy regions: pairs, powers, lifting, intersections, projections.", "theorems at a symbolic point of dimension 5; projections by elimination.", "10 s", "five dimensions"),
"P24": ("`compute_large_value_region`, `compute_sup_rho_on_tau`, `lv_zlv_to_zd(2)`, `lver_to_zd`, `lver_to_energy_bound`.", "supremum by elimination: no point of the region exceeds the bound and (for any smaller value) some point does.", "20 s", "a linear-fractional optimum for every sigma"),
"P25": ("Best zero density and energy bounds, trivial energy estimates, `simplify`.", "pointwise minimum at a symbolic sigma; each piece rests on an estimate implying it.", "90 s", "switch points depend on the inputs"),
"P26": ("`ivic_ep_to_zd`, `bourgain_ep_to_zd`, `ep_to_zd` on symbolic pairs.", "the theorem's formulas and thresholds at a symbolic sigma.", "62 s", "the range depends on the pair"),
"P27": ("The recorded large value estimates; Bourgain's table against the optimum of his theorem over its two parameters (eliminated).", "the theorems of the blueprint transcribed as formulas with maxima.", "3 s", "tables are typed by hand"),
"P28": ("The recorded energy relations.", "the relations of additive_energy.tex with their maxima.", "3 s", "tables are typed by hand"),
"P29": ("The recorded beta bounds, exponent pairs and mu bounds with their families.", "beta.tex, exponent_pairs.tex, zeta_growth.tex as formulas in alpha.", "7 s", "tables are typed by hand"),
"P30": ("The recorded zero density and energy estimates and their evaluation.", "zero_density.tex, zero_density_energy.tex as formulas in sigma.", "66 s", "ranges are typed by hand"),
"P31": ("The derivations of derived.py run as they are; their results and dependencies are compared at a symbolic sigma (alpha, order k).", "the theorems; for dependencies: what the named hypotheses imply, by elimination.", "145 s", "a derivation exercises the whole chain"),
"P32": ("`compute_gap2` on symbolic estimates; the reported pairs (range, supremum) are read as they are printed.", "alpha and beta of primes.tex at a symbolic sigma.", "20 s", "the maximum lies at a stationary point for some estimates only"),
"P33": ("`reference.py` is run from its current source with string constants, `open` and `int` replaced by symbolic counterparts (`symx/sstr.py`): a character is a solver variable over all of printable ASCII, a comparison a formula.", "the harness writes the file itself and knows what each field says; the replay reads a real temporary file with the unmodified module.", "40 s", "one character in a title or a name decides how a whole entry is read"),
}
