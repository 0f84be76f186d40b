prop("P01", "Polytope transformations keep exactly the described set of points",
     "A polytope contains a point exactly when the point satisfies every constraint it was built from, and building "
     "a box, copying, canonicalising, intersecting, scaling coordinates, substituting values for coordinates and lifting into "
     "more variables each yield exactly the point set the operation describes. The operands of an operation are not changed by it, "
     "and exact rational data stays exact.",
     ["inputs"], "every rational constraint matrix (any dimension), scale factor, substituted value and query point",
     "The tests look at a handful of fixed polytopes; a wrong row, sign or factor that matters only off those shapes passes.",
     [("Polytope construction, contains, intersection", "polytope.py:Polytope"), ("scale, scale_all, substitute, lift", "polytope.py:Polytope.scale")],
     "Bounds: dimension <= 3, <= 4 rows, arbitrary rational coefficients for row-wise operations, concrete normals with arbitrary offsets for intersections. "
     "cdd's matrix canonicalisation and linear programs are modelled (bounded Fourier-Motzkin), validated by replaying sampled paths.")
prop("P02", "Emptiness verdicts are exact, with and without the boundary",
     "A polytope is reported empty exactly when no point satisfies all its constraints, and reported empty up to its boundary "
     "exactly when no point satisfies all inequalities strictly (or it carries an equality). The verdict does not depend on earlier "
     "questions asked of the polytope, on copying it or on canonicalising it.",
     ["inputs", "histories"], "every constraint system, and every order of asking the two questions, copying and canonicalising",
     "Emptiness flips on lower-dimensional and touching configurations which random or fixed tests practically never hit, and on cached verdicts from an earlier call.",
     [("is_empty and its caches", "polytope.py:Polytope.is_empty")],
     "Bounds: template systems of up to 7 rows in dimension 1-3 with arbitrary offsets, and arbitrary normals for small systems; oracle: quantifier elimination by Fourier-Motzkin, independent of the library.")
prop("P03", "Subset and cover verdicts between polytopes are exact",
     "One polytope is reported to be a subset of another exactly when every one of its points satisfies the other's constraints, including "
     "unbounded polytopes and ones with equality constraints. A polytope is reported covered by a list of polytopes exactly when no part of it with interior lies outside "
     "all of them. Questions asked earlier do not change the verdicts.",
     ["inputs", "histories"], "every polytope, every list of candidate covers and any earlier question",
     "Tests use a few boxes; wrong verdicts appear for unbounded, touching or equality-constrained polytopes only, and these verdicts decide which bounds the database keeps.",
     [("is_subset_of", "polytope.py:Polytope.is_subset_of"), ("is_covered_by", "polytope.py:Polytope.is_covered_by")],
     "Bounds: template pairs, and 1 polytope against up to 3 covers, dimension 1-3, arbitrary offsets.")
prop("P04", "Set difference of polytopes is exact up to boundaries",
     "The pieces returned for the difference A minus B lie in A, do not meet the interior of B or of one another, none of them is empty, and together they "
     "contain every point of A outside B (boundaries ignored). The operands stay unchanged, and questions asked about them earlier do not matter.",
     ["inputs", "histories"], "every pair of polytopes in the same space and any earlier question",
     "The loss of a sliver, or an overlap between two pieces, only shows at points a test would have to guess.",
     [("set_minus", "polytope.py:Polytope.set_minus")],
     "Bounds: template pairs in dimension 1-3 with arbitrary offsets, an arbitrary query point off the bounding hyperplanes.")
prop("P05", "Joining polytopes succeeds exactly when their union is convex",
     "The attempt to join non-empty polytopes returns a polytope exactly when the union of all of them is convex, and the result contains precisely "
     "the points of the union; this includes unbounded polytopes and polytopes inside a hyperplane. Otherwise it reports that the union is not a polytope; it never returns an over- or under-approximation.",
     ["inputs"], "every list of non-empty polytopes in the same space",
     "An envelope that is slightly too large differs from the union in a sliver; fixed examples with matching faces do not reveal it, while every simplified region of the database relies on it.",
     [("try_union (Bemporad et al. Algorithm 4.1)", "polytope.py:Polytope.try_union")],
     "Bounds: 1-3 intervals, rays and lines; 2 boxes; convex polygons cut by 1-2 parallel lines at arbitrary positions; segments inside a line of the plane.")
prop("P06", "Vertices, edges, projections and hulls describe the same polytope",
     "The vertices of a bounded polytope lie in it and generate it, its edges join vertices and lie in its boundary, its projection contains exactly the shadows of its points, the polytope built from "
     "vertices is their convex hull, its centroid lies inside, and two polytopes compare equal exactly when they contain the same points, whatever was asked about them before.",
     ["inputs", "histories"], "every bounded polytope, every finite set of points and any earlier question",
     "Degenerate positions (collinear points, redundant rows, lower-dimensional shadows) make the conversions go wrong while fixed examples in general position do not.",
     [("get_vertices, edges, from_V_rep, get_centroid", "polytope.py:Polytope"), ("project", "polytope.py:Polytope.project"), ("__eq__", "polytope.py:Polytope.__eq__")],
     "Bounds: bounded templates in dimension 1-3 with arbitrary offsets; hulls of up to 4 points in the plane. cdd's double-description step is modelled and validated by replay.")
prop("P07", "Region expressions denote the boolean combination of their parts",
     "Membership, intersection, union, complement, scaling, substitution, lifting, projection, copying, emptiness and inclusion of regions built from polytopes agree with the boolean combination of the "
     "sets the expression describes, at every point, and do not change the operands.",
     ["inputs"], "every region expression over polytopes and every point",
     "Regions are deep trees whose nested complement, union and intersection cases combine; tests try flat ones only.",
     [("Region", "region.py:Region")],
     "Bounds: trees of depth <= 3 with up to 4 polytopes of dimension 1-3 with arbitrary offsets, arbitrary scale factors and substituted values.")
prop("P08", "Flattening a region keeps its points and gives disjoint polytopes",
     "Rewriting a region as a disjoint union of polytopes keeps exactly its points up to boundaries, the polytopes have disjoint interiors, simplification keeps the set, and with dependency "
     "tracking each polytope names only hypotheses whose regions contain it, sufficient to justify it.",
     ["inputs"], "every intersection of unions of polytopes, every position of the cuts and every point",
     "A lost or doubled sliver shows only at points a test would have to guess, yet every large value and zero-density region is computed this way.",
     [("as_disjoint_union", "region.py:Region.as_disjoint_union"), ("simplify", "helpers/region_helper.py:Region_Helper")],
     "Bounds: intersections of up to 3 unions of up to 3 polytopes, dimension 1-2, arbitrary offsets.")
prop("P09", "Interval operations agree with the sets of reals they denote",
     "Membership, intersection, emptiness, length, midpoint, equality, copying and parsing of an interval agree with the set of reals given by its end points and its open or closed ends, "
     "and intersecting two intervals changes neither. Reversed end points are rejected.",
     ["inputs"], "every pair of rational end points, all open/closed combinations and every real point",
     "Open and closed ends matter only at single points; tests check a few of the sixteen combinations.",
     [("Interval", "functions.py:Interval")],
     "Bounds: one or two intervals with arbitrary end points; parsing: concrete literals.")
prop("P10", "Minimum and maximum of affine functions on intervals are exact envelopes",
     "The minimum (maximum) of affine functions on intervals, optionally cropped to an interval, is a list of disjoint ordered pieces that cover exactly the points where some function is "
     "defined and equal the smallest (largest) applicable function there. Each piece keeps the label of a function attaining the value.",
     ["inputs"], "every set of affine functions with rational coefficients and domains, every crop interval and every point",
     "Crossings, touching domains and partial overlaps combine into many cases; the tests fix a few of them.",
     [("Affine.min_with/max_with/compare_with", "functions.py:Affine.min_with"), ("Affine.intersection", "functions.py:Affine.intersection")],
     "Bounds: 2 functions with arbitrary coefficients and domains, 3 with arbitrary intercepts.")
prop("P11", "Piecewise affine functions keep their values when combined",
     "The minimum of affine functions of several variables over polytopes takes the smaller value at every point of their common domain and names the function it came from; minimum, crop and "
     "simplification of piecewise functions keep the values and the domain of definition; evaluation returns the value of the piece containing the point.",
     ["inputs"], "every affine function, every polytopal domain and every point",
     "Which function wins depends on a hyperplane that may cut the domain in many ways; tests evaluate at a few points.",
     [("Affine2.min_with", "functions.py:Affine2.min_with"), ("Piecewise", "functions.py:Piecewise")],
     "Bounds: 1-2 functions with arbitrary coefficients against 1-2 pieces on boxes, triangles and intervals.")
prop("P12", "Polynomial and display arithmetic is exact and readable back",
     "Sums, differences, products and equality of polynomials agree with the arithmetic of their coefficients without changing the operands. The displayed form of a polynomial or "
     "linear expression reads back as the same expression.",
     ["inputs"], "every coefficient list over the rationals",
     "Signs, ones and zeros in the rendering and cancellations of leading terms depend on coefficient patterns that fixed examples do not all contain.",
     [("Polynomial", "polynomial.py:Polynomial"), ("Str_Helper.format", "helpers/str_helper.py:Str_Helper.format")],
     "Bounds: degree <= 3 (arithmetic), <= 4 (display). Division is a listed known finding.")
prop("P13", "Rational function arithmetic, evaluation and extrema are exact",
     "Sum, difference, product, quotient, evaluation, equality and parsing of rational functions agree with the field of fractions at every point off the poles and leave the operands unchanged. "
     "The reported minimum and maximum over an interval, and the reported crossings of two functions, are the true ones.",
     ["inputs"], "every pair of rational functions, every interval and every point",
     "Tests evaluate three functions at a few points; a swapped operand or missed critical point survives them.",
     [("RationalFunction", "functions.py:RationalFunction")],
     "Bounds: numerator degree <= 2, denominator degree <= 1, arbitrary rational coefficients; sympy is replaced by exact arithmetic on symbolic coefficients.")
prop("P14", "Minimum and maximum of rational functions pick a truly optimal piece everywhere",
     "Given bounds as rational functions on intervals, the piecewise minimum (maximum) over a domain covers the whole domain, equals the best applicable function at every point that is not an end point, "
     "and names which input it came from. The default value is used only where no input applies.",
     ["inputs"], "every list of rational functions on intervals and every domain",
     "The optimum switches at crossings and domain ends; a bound reported too strong near a switch is invisible to a test at fixed points.",
     [("RationalFunction.min / max", "functions.py:RationalFunction.min")],
     "Bounds: 2-3 functions (affine, or quotients of affine functions), 1-2 symbolic domains; known-finding-free.")
prop("P15", "Cached data of a hypothesis set never outlives the set's contents",
     "The hull of exponent pairs, bounds on mu and proofs computed from a hypothesis set depend only on the hypotheses it contains at that moment: after any history of additions, "
     "copies and earlier questions the answer is the one a freshly built set with the same contents gives, and asking a copy never changes the answers of the original.",
     ["histories", "inputs"], "every history of additions, copies and questions and every exponent pair or mu bound added on the way",
     "A stale cache shows only in particular orders of additions, copies and questions; tests ask one question of one set.",
     [("Hypothesis_Set.data / data_valid", "hypotheses.py:Hypothesis_Set"), ("compute_convex_hull", "exponent_pair.py:compute_convex_hull"),
      ("best_mu_bound", "bound_mu.py:best_mu_bound")],
     "Bounds: 2 (thorough 3) earlier operations out of ten, then each question.")
prop("P16", "Proof trees and selection of hypotheses are exact",
     "The dependencies reported for a hypothesis are exactly its transitive closure, each once; proof complexity is the size of the proof tree; the proof date is the latest year in the proof tree and "
     "a derived result is dated by its latest dependency; a printed proof is the proof tree, one level of indentation per step. Listing or finding hypotheses by type, year, keyword, name or data returns exactly those that match; under a year limit, dated results count up to that year, classical and derived ones always, conjectured ones never.",
     ["inputs", "histories"], "every dependency graph, every assignment of years and every selection query",
     "Shared sub-proofs, unknown and conjectured dates and same-year ties combine freely in a growing database; tests look at a few literature entries.",
     [("Hypothesis.recursive_dependencies / proof_complexity / proof_date", "hypotheses.py:Hypothesis"), ("Hypothesis_Set.list_hypotheses / find_hypothesis", "hypotheses.py:Hypothesis_Set"),
      ("Reference", "reference.py:Reference")],
     "Bounds: acyclic graphs on 4 (thorough 5) hypotheses, arbitrary years, 3 hypotheses per selection.")
prop("P17", "Exponent pair transforms are exact; the search neither invents nor loses pairs",
     "The A, B and C transforms map every exponent pair exactly as their theorems state, record the pair and the transform as dependencies and carry the later date. Searching for pairs returns only pairs "
     "obtained from the given ones by the assumed transforms; without pruning all of them up to the depth, with pruning a set with the same convex hull. The hull of a set of pairs contains every pair.",
     ["inputs"], "every exponent pair, every selection of transforms and every set of pairs",
     "A wrong coefficient or a pruned useful pair shows only for some pairs; the tests transform three pairs.",
     [("A/B/C_transform_function", "literature.py:A_transform_function"), ("compute_exp_pairs", "exponent_pair.py:compute_exp_pairs"), ("compute_convex_hull", "exponent_pair.py:compute_convex_hull")],
     "Bounds: one arbitrary pair for transforms; search depth 1-2 from up to 3 pairs; hulls of up to 4 (thorough 5) pairs.")
prop("P18", "Bounds on beta and exponent pairs imply each other exactly",
     "The best bound on beta over an interval is the smallest applicable bound at every point, defined wherever some bound applies and resting on a bound that attains it. Exponent pairs derived from bounds on beta "
     "dominate those bounds on all of [0, 1/2] and no implied pair is lost; bounds that leave part of [0, 1/2] open imply none. A pair (k, l), directly or through the D process, yields exactly the bound its theorem states.",
     ["inputs"], "every affine bound, every break point and every exponent pair",
     "Validity is a statement about all alpha and all bounds; an off-by-one piece or an uncovered gap yields false exponent pairs that no fixed example shows.",
     [("compute_best_beta_bounds", "bound_beta.py:compute_best_beta_bounds"), ("exponent_pairs_to_beta_bounds", "bound_beta.py:exponent_pairs_to_beta_bounds"),
      ("beta_bounds_to_exponent_pairs", "exponent_pair.py:beta_bounds_to_exponent_pairs"), ("D_transform_function", "literature.py:D_transform_function")],
     "Bounds: 1-3 affine pieces with arbitrary values, one arbitrary break point; 2 arbitrary pairs.")
prop("P19", "Exponent pair proofs are valid; the earliest or shortest one is found",
     "A proof of an exponent pair is returned exactly when the pair lies in the convex hull of what the hypotheses give. Every step of a returned proof is correct (convexity, transform or bounds on beta) down to the "
     "given hypotheses. With reduced dependencies the three pairs used are the simplest possible; the date search finds no proof that uses later results than necessary. The given hypotheses are unchanged.",
     ["inputs"], "every target pair, every assignment of years and every iteration order of sets",
     "Whether a proof is sound or optimal depends on which triangle contains the target; tests prove a handful of pairs.",
     [("construct_proof", "exponent_pair.py:construct_proof"), ("in_triangle", "exponent_pair.py:in_triangle"), ("find_best_proof", "exponent_pair.py:find_best_proof")],
     "Bounds: sets of 1-4 pairs (one arbitrary), every target; searches over 1-3 pairs, A and B, one bound on beta, arbitrary years.")
prop("P20", "Bounds on mu follow exactly from the hypotheses",
     "The functional equation, convexity, the trivial bound and exponent pairs give exactly the bounds on mu(sigma) that their theorems state. The best bound at a point, and as a piecewise function on an interval, is the lower "
     "convex envelope of the given bounds and their reflections, covers the interval without gaps and names its sources; a bound is reported as proved exactly when that envelope implies it.",
     ["inputs"], "every bound, every sigma and every interval",
     "The envelope changes at points that depend on all bounds at once; tests evaluate it at a few sigma for the literature set.",
     [("best_mu_bound / best_mu_bound_piecewise", "bound_mu.py:best_mu_bound"), ("prove_mu_bound", "bound_mu.py:prove_mu_bound"), ("bound_mu_convexity and other rules", "bound_mu.py:bound_mu_convexity")],
     "Bounds: 0-2 given bounds with arbitrary sigma or value, every interval end.")
prop("P21", "Large value estimates describe the right region and scale exactly",
     "A large value estimate given as a maximum of affine bounds describes exactly the points (sigma, tau, rho) of the default domain below that maximum, displays those bounds, and is labelled and dated like its source. Raising it to the "
     "power k makes (sigma, k tau, k rho) possible exactly when (sigma, tau, rho) is, rests on the given estimate and leaves it unchanged.",
     ["inputs"], "every list of affine bounds, every power and every point (sigma, tau, rho)",
     "A region is a statement about a continuum of points; tests check membership of none or a few.",
     [("convert_bounds", "large_values.py:convert_bounds"), ("raise_to_power_hypothesis", "large_values.py:raise_to_power_hypothesis"), ("derived_bound_LV", "large_values.py:derived_bound_LV")],
     "Bounds: 1-4 bounds with arbitrary constants or 1-2 with arbitrary slopes; arbitrary powers.")
prop("P22", "Zeta large value estimates follow exactly from LV, beta and mu bounds",
     "Every large value estimate, and every power of it, is a zeta large value estimate restricted to tau >= 2. A bound on beta excludes exactly the points with rho > 0 and sigma above tau beta(1/tau) for the tau it covers; a bound on mu "
     "excludes those with sigma > sigma0 + tau mu(sigma0); elsewhere only rho <= tau is claimed. Combining collects all of these, each dated by and resting on its source.",
     ["inputs"], "every estimate, every affine bound on beta, every bound on mu and every point (sigma, tau, rho)",
     "A region that excludes too much yields false zero density theorems; no test evaluates these regions.",
     [("lv_to_zlv", "zeta_large_values.py:lv_to_zlv"), ("beta_to_zlv", "zeta_large_values.py:beta_to_zlv"), ("mu_to_zlv", "zeta_large_values.py:mu_to_zlv"),
      ("compute_large_value_estimate", "zeta_large_values.py:compute_large_value_estimate")],
     "Bounds: 1-2 estimates, 1-2 pieces of beta with one arbitrary end point, up to 2 bounds on mu.")
prop("P23", "Large value energy regions combine and project exactly",
     "An exponent pair gives exactly the energy region of its theorem; lifting a large value estimate leaves rho* and s free; raising to the power k scales tau, rho, rho* and s by k. The best region is the intersection of all regions (and "
     "their powers; zeta regions only for zeta) over the requested domain, and the derived large value estimate and additive energy estimate are its projections, up to boundaries of pieces.",
     ["inputs"], "every exponent pair, power, set of regions and point (sigma, tau, rho, rho*, s)",
     "Five-dimensional unions of polytopes cannot be inspected by examples; one wrong row claims false energy bounds.",
     [("ep_to_lver", "additive_energy.py:ep_to_lver"), ("compute_best_lver", "additive_energy.py:compute_best_lver"), ("lver_to_lv / lver_to_energy", "additive_energy.py:lver_to_lv"),
      ("lv_to_lver / expand_lver", "additive_energy.py:lv_to_lver")],
     "Bounds: intersections of 1-3 regions with up to 2 arbitrary constants; projections of 1-2 polytopes with constants from a list of 8.")
prop("P24", "Zero density bounds from large value regions are the exact suprema",
     "The best large value region is the intersection of the estimates (and their powers; the zeta ones only for zeta) over the requested domain, and the estimates it names imply it. The supremum of rho/tau over a union of polytopes "
     "is exact at every sigma. Both ways of deriving zero density estimates from large value regions, and their energy analogues, state as the bound on A(sigma)(1-sigma) exactly the larger of the suprema over the two ranges of tau of their theorems.",
     ["inputs"], "every large value estimate within the shapes of the bounds and every sigma",
     "Each derived bound is the optimum of a linear program for every sigma; tests compare a few at sample points.",
     [("compute_sup_rho_on_tau", "zero_density_estimate.py:compute_sup_rho_on_tau"), ("compute_large_value_region", "zero_density_estimate.py:compute_large_value_region"),
      ("lv_zlv_to_zd / lv_zlv_to_zd2 / lver_to_zd", "zero_density_estimate.py:lv_zlv_to_zd"), ("lver_to_energy_bound", "zero_density_energy_estimate.py:lver_to_energy_bound")],
     "Bounds: 1-2 estimates with arbitrary constants or constants from lists; every sigma in [1/2, 1].")
prop("P25", "Best zero density and energy estimates are the minima over their sources",
     "The best zero density estimate at every sigma is the smallest of all given ones there, and the best energy estimate likewise, where given, derived and trivial (energy from zero density, A* <= 3A) estimates count; "
     "where nothing is known nothing is stated. Each stated piece rests on an estimate that implies it, can be evaluated, and simplifying a list of pieces changes no value.",
     ["inputs"], "every set of zero density and energy estimates within the bounds and every sigma",
     "The minimum of rational functions switches at points that depend on the inputs; tests sample a few sigma on the recorded data only.",
     [("best_zero_density_estimate / simplify", "zero_density_estimate.py:best_zero_density_estimate"), ("add_zero_density", "zero_density_estimate.py:add_zero_density"),
      ("compute_best_energy_bound", "zero_density_energy_estimate.py:compute_best_energy_bound"),
      ("add_trivial_zero_density_energy_estimates", "zero_density_energy_estimate.py:add_trivial_zero_density_energy_estimates")],
     "Bounds: 1-3 estimates (constants or reciprocal-linear bounds with arbitrary coefficients), arbitrary end points and sigma.")
prop("P26", "Zero density estimates from exponent pairs follow Ivic and Bourgain exactly",
     "From a set of exponent pairs and a parameter m, Ivic's lemma yields its bound exactly on the sigma where some pair allows it, resting on and dated by that pair. Bourgain's theorem yields, for each admissible pair, its bound exactly where the theorem "
     "applies and the best over the pairs everywhere, nowhere weaker than the optimised corollary of the blueprint; converting a set of exponent pairs to zero density estimates yields both families.",
     ["inputs"], "every set of exponent pairs, parameter m and sigma",
     "The valid range depends on the pair through a rational threshold; a wrong threshold or a broken chain shows only when evaluated off the tested pairs.",
     [("ivic_ep_to_zd", "zero_density_estimate.py:ivic_ep_to_zd"), ("bourgain_ep_to_zd", "zero_density_estimate.py:bourgain_ep_to_zd"), ("ep_to_zd", "zero_density_estimate.py:ep_to_zd")],
     "Bounds: 1-3 arbitrary pairs, m = 2..8, every sigma in [1/2, 1].")
prop("P27", "Recorded large value estimates say what the cited theorems say",
     "Each large value estimate in the literature (Huxley 1972, Heath-Brown 1979, Jutila 1977 for every k, Bourgain 2000 with the optimised table of the blueprint, Guth-Maynard 2024, and Heath-Brown 1978 for zeta) allows exactly the "
     "points (sigma, tau, rho) that its theorem in the blueprint text allows, and carries the year of its source.",
     ["inputs"], "every point (sigma, tau, rho), every recorded estimate and every parameter k",
     "Every derived bound rests on these rows; one wrong sign or a missing coefficient leaves regions unbounded or excludes too much, and no test looks at them.",
     [("large value estimates", "literature.py:add_huxley_large_values_estimate"), ("Bourgain's table", "literature.py:add_bourgain_large_values_estimate"),
      ("literature_bound_LV_max", "large_values.py:literature_bound_LV_max")],
     "Oracle: the theorems and tables of large_values.tex / zeta_large_values.tex; the optimised table covers its domain and equals the optimum of Bourgain's theorem over its parameters (both decided too).")
prop("P28", "Recorded large value energy relations say what the cited theorems say",
     "Each large value energy region in the literature (Heath-Brown 1979 relations 1, 2a, 2b and 3 for every k, Ivic, Guth-Maynard 2024 relations 1 for every k, 2 and 3) allows exactly the points (sigma, tau, rho, rho*, s) that its "
     "relation in the blueprint text allows on the range of tau it covers, and everything of the domain elsewhere.",
     ["inputs"], "every point (sigma, tau, rho, rho*, s), every recorded region and every parameter k",
     "The rows expand maxima and sums of maxima by hand; a swapped coefficient is invisible to tests and makes derived energy bounds false.",
     [("Heath-Brown's relations", "literature.py:add_lver_heath_brown_1979"), ("Guth-Maynard's relations", "literature.py:add_lver_guth_maynard_2024a"),
      ("literature_large_value_energy_region", "additive_energy.py:literature_large_value_energy_region")],
     "Oracle: the relations of additive_energy.tex, written with their maxima.")
prop("P29", "Recorded beta, exponent pair and mu bounds say what the cited theorems say",
     "For every author and year, the recorded bounds on beta claim nothing beyond the theorems of the blueprint at any alpha and leave nothing of them out; likewise the recorded exponent pairs and bounds on mu, with the van der Corput, Hardy-Littlewood, "
     "Huxley and Heath-Brown families, are exactly those listed; selecting the pairs or mu bounds known up to (or as of) a year adds exactly those.",
     ["inputs"], "every alpha, every (k, l) and every (sigma, mu), for every recorded theorem",
     "A wrong breakpoint or coefficient claims a false bound on an interval that no test samples.",
     [("bounds on beta", "literature.py:add_beta_bound_huxley_1993"), ("exponent pairs", "literature.py:add_literature_exponent_pairs"), ("bounds on mu", "literature.py:add_literature_bounds_mu"),
      ("max_with", "functions.py:Affine.max_with")],
     "Oracle: beta.tex, exponent_pairs.tex, zeta_growth.tex; families up to the recorded truncation.")
prop("P30", "Recorded zero density and energy estimates say what the cited theorems say",
     "For every author and year, the recorded zero density estimates (and Heath-Brown's energy estimates) claim nothing beyond the theorems of the blueprint at any sigma and leave nothing of them out on their ranges, and each can be evaluated wherever it is stated.",
     ["inputs"], "every sigma in [1/2, 1) and every recorded rational estimate",
     "The best known bound takes the minimum of all of them, so that one overstated range makes it false.",
     [("zero density estimates", "literature.py:add_zero_density_ivic_1980"), ("Ivic's and Pintz's families", "literature.py:add_zero_density_pintz_2023"),
      ("energy estimates", "literature.py:add_zero_density_energy_heath_brown_1979"), ("evaluation", "zero_density_estimate.py:Zero_Density_Estimate.at")],
     "Oracle: zero_density.tex and zero_density_energy.tex; estimates with square roots are left out.")
prop("P31", "Derivations re-prove exactly the theorems they are named after",
     "Every named derivation (the zero density estimates of Ingham, Huxley, Jutila, Heath-Brown and Guth-Maynard by either method, the energy estimates, the van der Corput pair of every order, the recorded exponent pairs and their mu bounds, and the Guth-Maynard bound on the energy of large values) "
     "completes, states at every point of its range neither more nor less than its theorem, and rests on hypotheses that imply it.",
     ["inputs"], "every sigma of each theorem's range, every alpha and every order k of the inductive step",
     "A derivation chains transforms, intersections, projections and suprema; tests run a few and compare printed or sampled values.",
     [("zero density derivations", "derived.py:prove_zero_density"), ("energy derivations", "derived.py:prove_heath_brown_energy_estimate"),
      ("exponent pairs", "derived.py:prove_exponent_pair"), ("van der Corput", "derived.py:van_der_corput_pair")],
     "Oracle: the theorems of zero_density.tex, zero_density_energy.tex, exponent_pairs.tex; derivations restated as recorded in the functions' own names.")
prop("P32", "The prime gap computation bounds both exponents on every range",
     "compute_gap2 splits [1/2, 1] into ranges on which the best zero density and energy bounds are single formulas; the value it reports for a range is at least both exponents of the criterion for prime gaps in square mean "
     "at every sigma of the range, and is attained when they are affine.",
     ["inputs"], "every sigma and every pair of estimates of the stated shapes",
     "A missed stationary point or end point gives a value that is too small, for some estimates only.",
     [("computation", "prime_gap.py:compute_gap2"), ("density", "zero_density_estimate.py:best_zero_density_estimate"), ("energy", "zero_density_energy_estimate.py:compute_best_energy_bound")],
     "Oracle: the corollary on gaps in square mean in primes.tex (the two suprema alpha and beta).")
prop("P33", "The bibliography is read as written and searched exactly",
     "Reading a BibTeX file yields one reference per entry, found under its label, with the entry's type and field names in lower case. Every field has the text between its braces or quotation marks (or its bare value), inner braces, commas, = and @ included, line breaks read as one space; the year is an integer (the first of a range such as 1998/99); the author is the last names joined by --, whole before a comma, else the last word. Neither the order of fields, their letter case, white space, line breaks between fields, a trailing comma nor blank lines and comments before an entry matter; absent or empty fields stay absent. find_all returns exactly the references with the author and year asked for, get that of the label or ValueError, and max_year the latest year, or unknown if one is.",
     ["inputs"], "every character of labels, names, values and years within the layouts, every year",
     "Every hypothesis is dated and cited by what is read here, and a misread field silently changes which results count as known by a year.",
     [("Reference_Manager.load / _parse / _split_level / _extract", "reference.py:Reference_Manager"), ("names and years", "reference.py:Reference_Manager._parse_authors"), ("find_all / get", "reference.py:Reference_Manager.find_all"), ("Reference.max_year", "reference.py:Reference.max_year")],
     "Strings have a fixed length and symbolic characters; files have at most two entries.")
