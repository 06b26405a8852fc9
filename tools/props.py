"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": state} if state else {}),
            observe_at=observe or [], hook_needed=None)))


prop("C01", "Exact OT returns a feasible coupling of minimal cost",
     "For any source and target histograms of equal mass (any size, rectangular, with zero-weight atoms, ties or very uneven masses) and any finite ground cost (negative, tied, badly scaled or integer), the exact solver returns a non-negative plan whose marginals are the two histograms and whose cost is the minimum over all couplings. The reported cost is that of the returned plan and equals the value-only entry point, which for several target histograms gives the independent value of each. Input layout, number of threads, dual warm start and process count never change the optimal value.",
     ["inputs", "configurations"],
     "all histograms x all cost matrices x solver options (threads, warm start, centring, list/array input, several targets)",
     "Tests compare a few Gaussian instances at fixed sizes with one another; optimality against an independent LP on degenerate, tied, zero-mass or warm-started instances is never sampled.",
     ["ot/lp/_network_simplex.py", "ot/lp/emd_wrap.pyx", "ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h", "ot/lp/full_bipartitegraph.h"],
     [("network simplex pivots", "ot/lp/network_simplex_simple.h"), ("zero-mass filtering and inflation", "ot/lp/_network_simplex.py:_compute_active_subset,_inflate_from_active_subset"), ("wrapper copies", "ot/lp/EMD_wrapper.cpp")],
     ["ot.emd", "ot.emd2"])

prop("C02", "Exact OT dual potentials certify optimality",
     "The pair of dual potentials returned by the exact solver is dual feasible (their sum never exceeds the ground cost on any pair of atoms, including atoms of zero weight), attains the primal optimal value, and is tight wherever the plan puts mass. This holds with or without centring and whatever warm start was supplied, and the potentials have the shape of the two histograms.",
     ["inputs", "configurations"],
     "all histograms (zero weights included) x all costs x centring/warm start",
     "Tests check strong duality on a handful of random instances; feasibility on every pair, including removed zero-weight atoms, is not checked on generated degenerate inputs.",
     ["ot/lp/_network_simplex.py", "ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h"],
     [("recovery of duals of null-weight atoms", "ot/lp/_network_simplex.py:estimate_dual_null_weights"), ("dual centring", "ot/lp/_network_simplex.py:center_ot_dual"), ("potentials of the spanning tree", "ot/lp/network_simplex_simple.h")],
     ["log['u'], log['v'] of ot.emd/ot.emd2", "OTResult.potentials"])

prop("C03", "Sparse and on-the-fly exact OT solve the same problem as dense OT",
     "Exact OT given only a sparse set of admissible pairs returns a sparse plan supported on those pairs that is a feasible coupling and is cost-minimal among couplings so supported; when every pair is present it attains the dense optimum. Exact OT computed from sample locations without forming the cost matrix attains, for every supported metric, the optimum of the explicit cost matrix.",
     ["inputs", "configurations"],
     "all sparsity patterns admitting a coupling, all sample sets and supported metrics, all histograms incl. zero weights",
     "Tests use a couple of kNN graphs and one metric at a time.",
     ["ot/lp/_network_simplex.py", "ot/lp/EMD_wrapper.cpp", "ot/lp/sparse_bipartitegraph.h", "ot/lp/emd_wrap.pyx", "ot/utils.py"],
     [("sparse solver", "ot/lp/EMD_wrapper.cpp:EMD_wrap_sparse"), ("lazy cost evaluation", "ot/lp/network_simplex_simple.h"), ("sparse cost of a plan", "ot/utils.py:sparse_ot_dist")],
     ["ot.emd / ot.emd2 with sparse cost", "ot.lp.emd2_lazy", "ot.solve_sample(lazy=True)"])

prop("C04", "One-dimensional OT is exact",
     "On the real line the closed-form solvers return the optimal cost (and, where a plan is returned, an optimal coupling) for costs |x-y|^p with p >= 1, for unsorted, tied, weighted and zero-weight samples of different sizes. Every column of a batched call gets the value it would get alone, and the answer does not depend on the order of the samples or on telling the solver that data are already sorted.",
     ["inputs", "configurations"],
     "all finite supports with ties, all weights, all p>=1, all metrics, batched and unbatched",
     "Tests use random (almost surely distinct) locations and uniform or Gaussian weights at fixed sizes.",
     ["ot/lp/solver_1d.py", "ot/lp/emd_wrap.pyx"],
     [("monotone rearrangement", "ot/lp/emd_wrap.pyx:emd_1d_sorted"), ("quantile functions", "ot/lp/solver_1d.py:quantile_function"), ("plan export", "ot/lp/solver_1d.py:wasserstein_1d"), ("dual by backprop", "ot/lp/solver_1d.py:emd_1d_dual_backprop")],
     ["ot.emd_1d", "ot.emd2_1d", "ot.wasserstein_1d"])

prop("C05", "OT on the circle is exact and rotation invariant",
     "For measures on the unit-length circle the circular solvers return the minimal transport cost for the geodesic distance to the power p, for any weights, ties and sample order, and the value is unchanged when both measures are rotated or swapped. The special cases (p=1, comparison with the uniform measure, linear circular embedding) agree with their definitions.",
     ["inputs"],
     "all weighted samples on the circle, all p>=1, all rotations",
     "Tests compare a few random von-Mises samples and one rotation.",
     ["ot/lp/solver_circle.py", "ot/utils.py"],
     [("binary search over the cut point", "ot/lp/solver_circle.py:binary_search_circle"), ("median formula", "ot/lp/solver_circle.py:wasserstein1_circle"), ("semi-discrete formula", "ot/lp/solver_circle.py:semidiscrete_wasserstein2_unif_circle"), ("linear circular OT", "ot/lp/solver_circle.py:linear_circular_ot")],
     ["ot.wasserstein_circle", "ot.binary_search_circle", "ot.semidiscrete_wasserstein2_unif_circle", "ot.lp.linear_circular_ot"])

prop("C06", "Sliced distances and sliced plans equal their 1-D definition",
     "For given projection directions, every sliced (Euclidean, max or spherical) distance equals the stated aggregate of exact 1-D (or circular) costs of the projected samples, is symmetric, zero on identical measures and a function of the seed only. Every sliced transport plan is a feasible coupling, its reported cost is the cost of that coupling under the requested metric (hence an upper bound of exact OT), and dense, sparse and batched computations agree.",
     ["inputs", "configurations"],
     "all weighted point clouds, dimensions, directions, p, metrics, dense/sparse/batched options",
     "Tests check symmetry and a few fixed sizes; aggregation over arbitrary supplied directions, weights and options is not compared with the definition.",
     ["ot/sliced/_sliced_distances.py", "ot/sliced/_sliced_plans.py", "ot/sliced/_spherical_sliced.py", "ot/sliced/_utils.py", "ot/utils.py"],
     [("projection and aggregation", "ot/sliced/_sliced_distances.py"), ("plans from projected sort", "ot/sliced/_sliced_plans.py"), ("sphere to circle", "ot/sliced/_utils.py:projection_sphere_to_circle")],
     ["ot.sliced_wasserstein_distance", "ot.max_sliced_wasserstein_distance", "ot.sliced_wasserstein_sphere", "ot.sliced.min_sliced_transport_plan", "ot.sliced.expected_sliced_plan"])

prop("C07", "Every Sinkhorn variant converges to the unique entropic OT plan",
     "For positive histograms of equal mass, any bounded cost and any regularisation, every entropic solver variant that reports convergence returns the same, unique regularised coupling: non-negative, with the prescribed marginals up to the stopping tolerance, and of Gibbs form with the returned scalings or potentials. The value-only entry point returns the documented value of that plan, several target histograms are solved independently, and warm starts change the path but not the answer.",
     ["inputs", "configurations"],
     "all histograms, costs, regularisation strengths, methods, warm starts, several targets",
     "Tests compare methods at one or two regularisations on Gaussian samples.",
     ["ot/bregman/_sinkhorn.py", "ot/bregman/_screenkhorn.py", "ot/solvers.py"],
     [("matrix scaling", "ot/bregman/_sinkhorn.py:sinkhorn_knopp"), ("log-domain iterations", "ot/bregman/_sinkhorn.py:sinkhorn_log"), ("absorption", "ot/bregman/_sinkhorn.py:sinkhorn_stabilized"), ("greedy updates", "ot/bregman/_sinkhorn.py:greenkhorn"), ("screening", "ot/bregman/_screenkhorn.py")],
     ["ot.sinkhorn", "ot.sinkhorn2", "ot.bregman.*"])

prop("C08", "Sample-based and low-rank Sinkhorn agree with the matrix version",
     "Entropic OT computed from sample locations (dense, lazy by blocks, or symbolic) gives the plan, potentials and value of entropic OT on the explicit cost matrix, whatever the block size. The Sinkhorn divergence is the debiased combination of three such values, is symmetric, non-negative and zero between identical measures. Low-rank and Nystroem solvers return factored plans whose entries, marginals and reported value are consistent with each other and with their kernel.",
     ["inputs", "configurations"],
     "all weighted point clouds, metrics, batch sizes, ranks, anchors",
     "Tests fix one sample size and a few block sizes.",
     ["ot/bregman/_empirical.py", "ot/bregman/_geomloss.py", "ot/lowrank.py", "ot/utils.py"],
     [("block-wise logsumexp", "ot/bregman/_empirical.py:empirical_sinkhorn"), ("divergence", "ot/bregman/_empirical.py:empirical_sinkhorn_divergence"), ("Dykstra low rank", "ot/lowrank.py:lowrank_sinkhorn"), ("kernel factorisation", "ot/lowrank.py:sinkhorn_low_rank_kernel")],
     ["ot.bregman.empirical_sinkhorn*", "ot.lowrank.*"])

prop("C09", "Fixed-support barycenters are valid and optimal",
     "Barycenter solvers on a fixed grid return a non-negative histogram of the input mass; the linear-programming barycenter minimises the weighted sum of exact OT costs, and converged entropic barycenters are the fixed point of the corresponding scaling scheme, identically for all algorithm variants (plain, log-domain, stabilised, convolutional versus explicit separable cost). Permuting inputs with their weights, or putting all weight on one input, has the corresponding effect on the result.",
     ["inputs", "configurations"],
     "all sets of histograms, weights, costs, regularisations, methods",
     "Tests use two shifted Gaussians.",
     ["ot/bregman/_barycenter.py", "ot/bregman/_convolutional.py", "ot/lp/_barycenter_solvers.py", "ot/bregman/_dictionary.py", "ot/unbalanced/_sinkhorn.py"],
     [("iterative Bregman projections", "ot/bregman/_barycenter.py"), ("separable convolution", "ot/bregman/_convolutional.py"), ("LP", "ot/lp/_barycenter_solvers.py:barycenter"), ("unmixing", "ot/bregman/_dictionary.py")],
     ["ot.barycenter", "ot.bregman.*barycenter*", "ot.lp.barycenter", "ot.barycenter_unbalanced"])

prop("C10", "Free-support barycenters are fixed points that improve the objective",
     "Free-support barycenter solvers return supports of the requested shape with the requested weights, never worsen the barycentric OT objective compared with their initialisation, and on convergence each support point is the weighted combination of the barycentric images of that point under the optimal plans. Gluing couplings along a common marginal yields a joint coupling with the given pairwise marginals, and the reported barycenter energy is the sum of OT costs.",
     ["inputs", "configurations"],
     "all weighted measures, initial supports, weights, ground costs",
     "Tests check one trivial two-measure configuration per solver.",
     ["ot/lp/_barycenter_solvers.py", "ot/bregman/_barycenter.py"],
     [("fixed-point update", "ot/lp/_barycenter_solvers.py:free_support_barycenter"), ("generalised update", "ot/lp/_barycenter_solvers.py:generalized_free_support_barycenter"), ("north-west gluing", "ot/lp/_barycenter_solvers.py:NorthWestMMGluing"), ("generic costs", "ot/lp/_barycenter_solvers.py:free_support_barycenter_generic_costs")],
     ["ot.lp.free_support_barycenter*", "ot.bregman.free_support_sinkhorn_barycenter"])

prop("C11", "Unbalanced OT solvers minimise the documented objective",
     "Every unbalanced OT solver (scaling, stabilised, translation-invariant, majorisation-minimisation, quasi-Newton) returns, at convergence, a non-negative plan that minimises the documented sum of transport cost, regulariser (entropy, KL or squared L2 to the reference measure) and marginal penalties (KL, squared L2 or total variation) with its own weights per side. Reported linear and total costs are those of the returned plan, solvers agree with each other, and infinite penalties give the balanced or semi-relaxed problem.",
     ["inputs", "configurations"],
     "all positive measures of unequal mass, costs, penalty pairs, regularisers, reference measures, initialisations",
     "Tests use one fixed-size random instance per option and check a fixed-point equation only for KL.",
     ["ot/unbalanced/_sinkhorn.py", "ot/unbalanced/_mm.py", "ot/unbalanced/_lbfgs.py", "ot/utils.py"],
     [("scaling iterations", "ot/unbalanced/_sinkhorn.py"), ("MM multiplicative update", "ot/unbalanced/_mm.py"), ("loss and gradient", "ot/unbalanced/_lbfgs.py:_get_loss_unbalanced"), ("penalty pair parsing", "ot/utils.py:get_parameter_pair")],
     ["ot.unbalanced.*"])

prop("C12", "Partial OT moves exactly the requested mass at minimal cost",
     "Partial OT returns a non-negative plan whose marginals never exceed the two measures, whose total mass is the requested one, and whose cost is minimal among such plans; the Lagrangian form minimises cost minus the mass reward, and the one-dimensional solver returns index sets whose assignment is optimal for every intermediate number of samples. Entropic partial plans satisfy the same constraints, and value-only entry points return the cost of the plan.",
     ["inputs", "configurations"],
     "all measures of unequal mass, all masses between 0 and the smaller mass, all costs incl. negative/tied, any number of dummy points",
     "Tests check feasibility on two random instances and no optimality.",
     ["ot/partial/partial_solvers.py", "ot/partial/partial_cython.pyx", "ot/lp/_network_simplex.py"],
     [("dummy points extension", "ot/partial/partial_solvers.py:partial_wasserstein"), ("Lagrangian extension", "ot/partial/partial_solvers.py:partial_wasserstein_lagrange"), ("chain construction in 1D", "ot/partial/partial_cython.pyx"), ("Dykstra projections", "ot/partial/partial_solvers.py:entropic_partial_wasserstein")],
     ["ot.partial.*"])

prop("C13", "1-D and sliced unbalanced OT satisfy their definitions",
     "The one-dimensional KL-unbalanced solver returns reweighted marginals whose balanced 1-D cost is the reported linear cost, whose penalised total is an upper bound that converges to the optimum of the full unbalanced problem, and which tends to the balanced solution for large penalties. The sliced unbalanced losses are the corresponding averages over the given directions with consistent reweighted marginals.",
     ["inputs", "configurations"],
     "all weighted 1-D samples / point clouds, penalties (scalar or pair), directions",
     "Tests compare with one cvx solution per fixed seed.",
     ["ot/unbalanced/_solver_1d.py", "ot/unbalanced/_sliced.py", "ot/lp/solver_1d.py"],
     [("Frank-Wolfe on potentials", "ot/unbalanced/_solver_1d.py:uot_1d"), ("rescaling of potentials", "ot/unbalanced/_solver_1d.py:rescale_potentials"), ("sliced loops", "ot/unbalanced/_sliced.py")],
     ["ot.unbalanced.uot_1d", "ot.unbalanced.sliced_unbalanced_ot", "ot.unbalanced.unbalanced_sliced_ot"])

prop("C14", "(Fused) Gromov-Wasserstein solvers descend to a consistent solution",
     "For any structure matrices (symmetric or not), feature costs, weights, loss and trade-off, exact GW and fused GW return a coupling with the prescribed marginals whose reported value (and its linear and quadratic parts) is the documented objective at that coupling, never above the objective of the starting coupling, and first-order stationary on convergence. Relabelling the nodes of either side relabels the plan's value consistently, and the helpers computing the quadratic loss and its gradient agree with the four-index definition.",
     ["inputs", "configurations"],
     "all (a)symmetric structure matrices, both losses, all alpha in [0,1], all starting couplings, all weights",
     "Tests compare a matrix with its own permutation and a few losses on two fixed graphs.",
     ["ot/gromov/_gw.py", "ot/gromov/_utils.py", "ot/optim.py"],
     [("factored quadratic loss", "ot/gromov/_utils.py:init_matrix,tensor_product,gwloss,gwggrad"), ("exact line search", "ot/gromov/_gw.py:solve_gromov_linesearch"), ("conditional gradient", "ot/optim.py:cg")],
     ["ot.gromov.gromov_wasserstein*", "ot.gromov.fused_gromov_wasserstein*", "ot.solve_gromov"])

prop("C15", "Entropic and approximate Gromov-Wasserstein results are consistent",
     "Entropic, Bregman-alternated, sampled, pointwise, quantized and low-rank (fused) Gromov-Wasserstein solvers return couplings that are non-negative with the prescribed marginals (both, or the documented one), and whose reported value is the documented (fused) objective at that coupling. At convergence the entropic plan is the Gibbs plan of its own linearised cost, quantised plans respect the partitions and their representants, and repeated runs with one seed agree.",
     ["inputs", "configurations"],
     "all structures, features, losses, regularisations, partitions, ranks, seeds",
     "Tests use two small fixed graphs per solver.",
     ["ot/gromov/_bregman.py", "ot/gromov/_estimators.py", "ot/gromov/_quantized.py", "ot/gromov/_lowrank.py"],
     [("PGD/PPA", "ot/gromov/_bregman.py"), ("BAPG", "ot/gromov/_bregman.py"), ("partition and local plans", "ot/gromov/_quantized.py"), ("sampled gradients", "ot/gromov/_estimators.py")],
     ["ot.gromov.entropic_*", "ot.gromov.BAPG_*", "ot.gromov.quantized_*", "ot.gromov.lowrank_*", "ot.gromov.pointwise_*", "ot.gromov.sampled_*"])

prop("C16", "Semi-relaxed and partial GW respect their marginal constraints and value",
     "Semi-relaxed (fused) GW plans have the prescribed source marginal and any target marginal; partial (fused) GW plans carry exactly the requested mass under both marginals; entropic versions satisfy the same constraints. The reported value is the documented objective at the returned plan, is never above that of the starting plan for the descent solvers, and relabelling nodes does not change a minimiser's value.",
     ["inputs", "configurations"],
     "all structures (asymmetric too), losses, alphas, masses, starting plans",
     "Tests use a fixed pair of graphs and one mass.",
     ["ot/gromov/_semirelaxed.py", "ot/gromov/_partial.py", "ot/partial/partial_solvers.py", "ot/optim.py"],
     [("semi-relaxed conditional gradient", "ot/optim.py:semirelaxed_cg"), ("partial conditional gradient", "ot/optim.py:partial_cg"), ("line searches", "ot/gromov/_semirelaxed.py, ot/gromov/_partial.py")],
     ["ot.gromov.semirelaxed_*", "ot.gromov.partial_*", "ot.gromov.entropic_partial_*", "ot.gromov.entropic_semirelaxed_*"])

prop("C17", "GW barycenters and dictionaries are consistent block-coordinate solutions",
     "Gromov-Wasserstein barycenter solvers return structures (and features) of the requested size equal to the closed-form minimiser given the returned plans, keep fixed what they were asked to keep fixed, and are a function of the seed. Dictionary learning returns atoms in the requested constraint set, and unmixing returns weights on the simplex whose embedding, plan and reconstruction error are mutually consistent.",
     ["inputs", "configurations"],
     "all input structures, weights, losses, sizes, fixed parts, seeds",
     "Tests only check shapes and one decrease on fixed graphs.",
     ["ot/gromov/_gw.py", "ot/gromov/_bregman.py", "ot/gromov/_semirelaxed.py", "ot/gromov/_dictionary.py", "ot/gromov/_utils.py"],
     [("closed-form updates", "ot/gromov/_utils.py:update_barycenter_structure,update_barycenter_feature"), ("unmixing", "ot/gromov/_dictionary.py")],
     ["ot.gromov.*barycenters", "ot.gromov.*dictionary*", "ot.gromov.*unmixing"])

prop("C18", "Co-optimal transport, balanced and unbalanced, is consistent",
     "Co-optimal transport returns a sample plan and a feature plan that are couplings of their weights, whose reported cost is the documented objective at those plans and which are blockwise optimal on convergence; transposing the data swaps the two plans. The unbalanced and fused unbalanced GW versions return non-negative plans of equal mass when rescaled, whose reported linear and total costs are the documented objective at those plans.",
     ["inputs", "configurations"],
     "all data matrices, weights, regularisations, linear terms, divergences, solvers, warm starts",
     "Tests check one fixed-size random instance per option.",
     ["ot/coot.py", "ot/gromov/_unbalanced.py", "ot/gromov/_utils.py"],
     [("block coordinate descent", "ot/coot.py"), ("alternating unbalanced OT", "ot/gromov/_unbalanced.py"), ("cost", "ot/gromov/_utils.py:fused_unbalanced_across_spaces_cost")],
     ["ot.coot.*", "ot.gromov.unbalanced_co_optimal_transport*", "ot.gromov.fused_unbalanced_gromov_wasserstein*"])

prop("C19", "Gaussian OT formulas are exact",
     "Bures-Wasserstein distances equal the closed form, are metric-like (symmetric, zero iff equal) and agree between single, batched and paired calls; Gaussian maps push the source mean and covariance onto the target; barycenters satisfy the fixed-point equation and are invariant to reordering. Empirical versions equal the parametric ones at the weighted sample moments, and the Gaussian Gromov-Wasserstein map and distance follow their closed form.",
     ["inputs", "configurations"],
     "all means, all positive-definite covariances, dimensions, weights, sample sets",
     "Tests use a few well-conditioned random covariances.",
     ["ot/gaussian.py", "ot/utils.py"],
     [("closed forms", "ot/gaussian.py"), ("matrix square roots", "ot/backend.py:sqrtm")],
     ["ot.gaussian.*"])

prop("C20", "Gaussian-mixture OT is discrete OT between components",
     "The mixture OT loss and plan are those of exact discrete OT between component weights under squared Bures-Wasserstein cost; densities equal the mixture density definition; the barycentric map is the responsibility- and plan-weighted combination of the Gaussian maps, and random maps choose among them reproducibly. Mixture barycenters are fixed points with valid weights and positive semi-definite covariances.",
     ["inputs", "configurations"],
     "all mixtures (sizes, dimensions, weights, covariances), all evaluation points, methods, seeds",
     "Tests check one random mixture per function.",
     ["ot/gmm.py", "ot/gaussian.py"],
     [("component cost", "ot/gmm.py:dist_bures_squared"), ("map", "ot/gmm.py:gmm_ot_apply_map"), ("barycenter", "ot/gmm.py:gmm_barycenter_fixed_point")],
     ["ot.gmm.*"])

prop("C21", "Regularised OT solvers descend to a feasible stationary coupling",
     "Generic regularised OT solvers (conditional gradient, generalised, semi-relaxed, partial) for any smooth regulariser keep iterates in the constraint polytope, never increase the recorded objective, report the objective of the returned plan and stop at a first-order stationary point. Smooth dual and semi-dual, weak, and factored OT solvers return plans of the documented marginals that optimise their documented objective.",
     ["inputs", "configurations"],
     "all histograms, costs, regularisers, strengths, starting plans",
     "Tests check marginals on one Gaussian pair.",
     ["ot/optim.py", "ot/smooth.py", "ot/weak.py", "ot/factored.py"],
     [("conditional gradient", "ot/optim.py:generic_conditional_gradient"), ("line search", "ot/optim.py:line_search_armijo,solve_1d_linesearch_quad"), ("dual ascent", "ot/smooth.py")],
     ["ot.optim.*", "ot.smooth.*", "ot.weak_optimal_transport", "ot.factored_optimal_transport"])

prop("C22", "Stochastic, path-following and multi-marginal solvers match definitions",
     "Gradients, c-transforms, losses and plans of the stochastic entropic/quadratic solvers equal their definitions, full-batch expectations equal the exact gradient and runs depend only on the seed. The regularisation path returns, at every reported level, an optimal solution of the quadratically penalised problem, with linear interpolation between breakpoints. The multi-marginal 1-D loss is the exact discrete Monge cost with a matching dual and coupling.",
     ["inputs", "configurations"],
     "all histograms, costs, regularisations, batch sizes, seeds",
     "Tests check convergence of a few fixed instances.",
     ["ot/stochastic.py", "ot/regpath.py", "ot/lp/dmmot.py"],
     [("semi-dual gradient", "ot/stochastic.py"), ("active-set path", "ot/regpath.py"), ("greedy multi-marginal", "ot/lp/dmmot.py")],
     ["ot.stochastic.*", "ot.regpath.*", "ot.lp.dmmot_*"])

prop("C23", "Domain-adaptation estimators implement barycentric transport",
     "After fitting, every domain-adaptation estimator exposes a coupling with its documented marginals computed from the documented cost (including label constraints and normalisation); transforming the training samples gives the weighted barycenter of the other domain, new samples follow the documented out-of-sample rule independently of batch size, and label transport gives the coupling-weighted class scores. Refitting replaces all earlier state, and fit/transform history never changes the answer for the same data.",
     ["inputs", "histories", "configurations"],
     "all source/target samples and (partial) labels, estimators and hyper-parameters, sequences of fit/transform/inverse/label calls",
     "Tests check shapes and marginals on one dataset; histories and out-of-sample rules are not checked.",
     ["ot/da.py"],
     [("base estimator", "ot/da.py:BaseTransport"), ("label-aware cost", "ot/da.py:BaseTransport.fit"), ("group-lasso solvers", "ot/da.py:sinkhorn_lpl1_mm,sinkhorn_l1l2_gl"), ("JCPOT", "ot/da.py:JCPOTTransport")],
     ["ot.da.*Transport"])

prop("C24", "Estimated transport maps satisfy their optimality conditions",
     "Joint map/coupling estimation returns a coupling with uniform marginals and a linear or kernel map that is the exact ridge solution for that coupling, with a recorded objective that does not increase. Nearest Brenier potentials satisfy the strong convexity and smoothness interpolation inequalities, and predicted bounds bracket each other. Linear (Gaussian) transport pushes source moments to target moments and its inverse undoes it.",
     ["inputs", "configurations"],
     "all sample sets, bias/kernels, penalties, regularity constants",
     "Tests check shapes and one fit.",
     ["ot/mapping.py", "ot/da.py", "ot/gaussian.py"],
     [("ridge solves", "ot/mapping.py:joint_OT_mapping_linear,joint_OT_mapping_kernel"), ("QCQP", "ot/mapping.py:nearest_brenier_potential_fit")],
     ["ot.mapping.*", "ot.da.LinearTransport", "ot.da.MappingTransport"])

prop("C25", "The unified solver API solves the requested problem consistently",
     "For every combination of regulariser, marginal relaxation, loss and method that the unified solvers accept, the result's plan solves the requested problem, its value, linear value, quadratic value, potentials, marginals, dense/sparse/lazy plan views all describe that same plan, and agree with the specialised solver. Solving from samples equals solving from the corresponding cost matrix; unsupported combinations raise instead of returning something else.",
     ["inputs", "configurations"],
     "all option combinations x all problem data",
     "Tests iterate over options on one random problem and compare values only between entry points.",
     ["ot/solvers.py", "ot/utils.py"],
     [("dispatch", "ot/solvers.py:solve,solve_sample,solve_gromov"), ("result object", "ot/utils.py:OTResult")],
     ["ot.solve", "ot.solve_sample", "ot.solve_gromov"])

prop("C26", "Batched solvers equal solving each problem alone",
     "Solving a batch of OT or Gromov problems gives for each element the plan, value, potentials and cost that element has when solved alone (in a batch of one or by the non-batched solver), independently of the other elements and of their order. Batched ground costs and losses equal their non-batched definitions.",
     ["inputs", "configurations"],
     "all batch sizes/contents, metrics, losses, regularisations, solvers",
     "Tests compare one random batch with a loop for one option each.",
     ["ot/batch/_linear.py", "ot/batch/_quadratic.py", "ot/batch/_utils.py"],
     [("batched Bregman projections", "ot/batch/_utils.py"), ("batched costs", "ot/batch/_linear.py"), ("batched quadratic loss", "ot/batch/_quadratic.py")],
     ["ot.batch.*"])

prop("C27", "Backend primitives have NumPy semantics on every backend",
     "Every numeric primitive of the backend abstraction returns, on each available array library, the value NumPy's reference operation returns for the same arguments (axes, keepdims, shapes, broadcasting, dtypes), preserves the requested dtype, and does not modify its inputs. Conversions to and from NumPy round-trip, and backend detection picks the library of the arguments and rejects mixtures.",
     ["inputs", "configurations"],
     "all primitives x arrays (shapes, axes, dtypes) x backends",
     "Tests call each primitive once with one small matrix.",
     ["ot/backend.py"],
     [("per-library implementations", "ot/backend.py")],
     ["ot.backend.get_backend(...).<primitive>"])

prop("C28", "Solvers give the same answer on every backend and dtype",
     "Given the same problem, solvers return on every available array library the result they return on NumPy arrays, up to floating-point precision, as arrays of the caller's library and dtype (single or double precision).",
     ["inputs", "configurations"],
     "all backend-compatible solvers x problems x libraries x dtypes",
     "Tests use one problem per solver and rarely check output dtype.",
     ["ot/backend.py", "ot/solvers.py", "ot/bregman", "ot/gromov", "ot/unbalanced", "ot/lp", "ot/sliced", "ot/gaussian.py"],
     [("backend dispatch", "ot/backend.py:get_backend")],
     ["public solvers"])

prop("C29", "Differentiable values have correct gradients",
     "Wherever a solver returns a differentiable value, automatic differentiation on each differentiable array library yields the true derivative of the value with respect to costs, sample positions, structures and weights (weights up to the constant direction tangent to equal mass), matching finite differences of the value at smooth points, in the 'envelope' and 'autodiff' gradient modes; gradient mode 'last_step' yields the derivative of one Sinkhorn iteration started from the converged potentials.",
     ["inputs", "configurations"],
     "all smooth points of the problem data x differentiable solvers x gradient modes",
     "Tests check that gradients exist and have the right shape, rarely their value.",
     ["ot/lp/_network_simplex.py", "ot/backend.py", "ot/solvers.py", "ot/gromov/_gw.py", "ot/bregman", "ot/sliced", "ot/batch"],
     [("set_gradients", "ot/backend.py"), ("envelope gradients", "ot/solvers.py:solve")],
     ["torch/jax gradients of emd2, gromov_wasserstein2, sinkhorn2, solve(...).value ..."])

prop("C30", "Ground costs, projections and utilities equal their definitions",
     "Pairwise ground costs equal their mathematical definition for every metric, exponent and weighting, whether one or two sample sets are given; simplex, sparse-simplex and PSD projections return the nearest feasible point and are idempotent; kernels, Laplacians, label encodings, scalers, cost normalisation, lazy-array indexing/reduction and dataset generators equal their definitions for all shapes and slices.",
     ["inputs", "configurations"],
     "all arrays, metrics, exponents, slices, labels, scalers",
     "Tests use one random matrix per utility.",
     ["ot/utils.py", "ot/datasets.py", "ot/backend.py"],
     [("ground cost", "ot/utils.py:dist,euclidean_distances"), ("projections", "ot/utils.py:proj_simplex,projection_sparse_simplex,proj_SDP"), ("lazy arrays", "ot/utils.py:LazyTensor,reduce_lazytensor"), ("scaler", "ot/utils.py:DataScaler")],
     ["ot.dist", "ot.utils.*", "ot.datasets.*"])

prop("C31", "Calls are pure: inputs unchanged, results reproducible",
     "Calling any public solver leaves every array, list and option object passed by the caller (weights, costs, samples, warm starts, initial plans) unchanged, and a deterministic or explicitly seeded call returns the same result whenever it is repeated, whatever other calls came in between, whatever the memory layout of the arrays, and without disturbing the global random state when given a seed.",
     ["inputs", "histories"],
     "all public solvers x inputs x call histories",
     "Tests never compare inputs before and after, nor interleave calls.",
     ["ot"],
     [("defensive copies", "across ot"), ("seed handling", "ot/utils.py:check_random_state")],
     ["all public entry points"])

prop("C32", "Invalid problems are rejected, never silently mis-solved or crashed",
     "Problems that violate the documented preconditions - mismatched dimensions, unequal masses for balanced exact OT, out-of-range partial mass, unknown method/metric/loss/regulariser names, unsupported option combinations, mixed array libraries - raise a Python exception before a result is returned. Boundary inputs are solved: with a single atom on a side balanced solvers return the only coupling, whatever the scale of the cost they support; with a constant cost plans are feasible and entropic plans are products; solvers stopped by their iteration limit return finite numbers; and the process never crashes.",
     ["inputs", "configurations"],
     "all invalid argument combinations and boundary inputs",
     "Tests raise a few errors with fixed arguments.",
     ["ot/lp/_network_simplex.py", "ot/lp/emd_wrap.pyx", "ot/partial", "ot/solvers.py", "ot/bregman", "ot/gromov", "ot/unbalanced", "ot/backend.py"],
     [("validation", "across ot")],
     ["all public entry points"])

prop("C33", "Native solvers are memory-safe and always terminate with a status",
     "For any sizes, histograms, costs, sparsity pattern, warm start and iteration limit, the compiled exact-OT and 1-D partial-OT kernels never read or write outside their buffers, never overflow, and return a status together with a result whose optimality claim is true.",
     ["inputs", "configurations"],
     "all native-kernel arguments the Python layer can pass",
     "Tests run uninstrumented builds on a few sizes.",
     ["ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h", "ot/lp/full_bipartitegraph.h", "ot/lp/sparse_bipartitegraph.h", "ot/partial/partial_cython.pyx"],
     [("arc/node indexing", "ot/lp/full_bipartitegraph.h"), ("spanning tree updates", "ot/lp/network_simplex_simple.h")],
     ["EMD_wrap*, via sanitised builds"])

prop("C34", "Dimension reduction, operator and graph layers match their objectives",
     "OT-based dimension-reduction solvers return orthonormal projections with the documented shape that act identically through the returned projector and never end worse than their documented start; spectral-Grassmann operator costs and metrics equal their definition and are symmetric and invariant to eigenvector rescaling and reordering. Graph pooling layers output the documented template distances for each graph, independently of batching.",
     ["inputs", "configurations"],
     "all labelled datasets, projections, operators, graphs, batches",
     "Tests check shapes.",
     ["ot/dr.py", "ot/sgot.py", "ot/gnn/_layers.py", "ot/gnn/_utils.py"],
     [("projection-robust descent", "ot/dr.py"), ("operator cost", "ot/sgot.py"), ("template distances", "ot/gnn/_utils.py")],
     ["ot.dr.*", "ot.sgot.*", "ot.gnn.*"])

prop("C35", "BSP-OT bijections are valid and never worse than their inputs",
     "The binary-space-partition matcher returns a permutation of the target points whose cost is the reported one, is a function of the seed, and merging plans (or starting from one) never yields a plan costlier than the best given.",
     ["inputs", "configurations"],
     "all equal-size point clouds, seeds, numbers of plans, initial permutations",
     "The extension is not even built in this environment; upstream tests check one cloud.",
     ["ot/bsp/bsp_ot.py", "ot/bsp/bsp_wrap.pyx", "ot/bsp/bsp_wrapper.cpp", "ot/bsp/BSP-OT_header_only.h"],
     [("bijection construction and merging", "ot/bsp/BSP-OT_header_only.h")],
     ["ot.bsp.*"])

# ---------------------------------------------------------------- manifest
TECH = {}
NOTE = {}
sys.path.insert(0, os.path.join(ROOT, "tools"))
try:
    from notes import TECH, NOTE, NOT_APPLICABLE, CLAIMED, HOOKS
except ImportError:
    NOT_APPLICABLE, CLAIMED, HOOKS = {}, [], None


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        i = p["id"]
        if i not in CLAIMED:
            continue
        checks.append(dict(
            property=i,
            quick_cmd=f"./check {i} --tier quick",
            thorough_cmd=f"./check {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=TECH.get(i, "property-based testing (Hypothesis generators, shrinking) against an explicit oracle"),
            level="exploration",
            level_note=NOTE.get(i, "Generated-input search; shows presence, not absence, of violations within the stated generator domain.")))
    na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet")) for p in P if p["id"] not in CLAIMED]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="One runner (vlib/main.py) drives Hypothesis over JSON-able cases; see DESIGN.md. Replay: ./check <id> --replay <file>.")
    if HOOKS:
        m["hooks"] = HOOKS
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
