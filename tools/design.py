"""Regenerate DESIGN.md: hand-written head (tools/design_head.md), per-property text below, facet list read from the checks, tail (tools/design_tail.md)."""
import ast, json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda *p: open(os.path.join(ROOT, *p)).read()
TEXT = {
"C01": "Generated: weights (uniform, Dirichlet, zeros, tiny, integer-like, one side dominant), costs (Gaussian, integer with ties, constant, negative, 1e-6…1e6 scale, metric, low rank), sizes 1–10 with occasional 60–200 and facets up to several hundred atoms, memory layouts, threads, warm starts. Oracle: HiGHS linear program (Hungarian algorithm for assignments), marginals, number of non-zeros ≤ n+m-1, bitwise relation between emd and emd2. The pivot order, artificial arcs and multi-thread paths are only reached on degenerate or large inputs, which fixed tests do not sample.",
"C02": "Weak duality is the oracle: u+v ≤ M everywhere (including rows removed because their weight is zero) and equality of the dual value with the cost prove optimality without any solver.",
"C03": "Sparse: random edge patterns containing a feasible plan; oracle the linear program restricted to the pattern. Lazy: coordinates, three metrics; oracle the linear program on the explicit cost.",
"C04": "Oracle: linear program and an independent monotone sweep; metrics, powers 1–3, ties, duplicates, batches, Python lists. Known finding: potentials at coinciding quantile levels.",
"C05": "Oracle: linear program for geodesic^p on the circle; metamorphic: rotations (crossing the cut), permutations, swap; batched columns against each alone.",
"C06": "Projections are drawn by the check and given to the library; oracle: independent 1-D transport of the projected samples, aggregated.",
"C07": "Oracle: marginals together with vanishing cross differences of log P + M/reg characterise the unique optimum, so no solver is trusted; plus an independent log-domain Sinkhorn. Reg from 1e-3 to 100 relative to the cost, degenerate sizes, warm starts, several targets. Non-converged runs (warning) are skipped and counted.",
"C08": "Differential against the explicit-matrix problem solved by the reference Sinkhorn; block sizes that do not divide n; low-rank factors checked by their marginal identities.",
"C09": "Oracle: optimality condition (weighted potentials of K entropic problems sum to a constant), joint linear program for the exact barycenter, fixed points of debiased/unbalanced/JCPOT iterations.",
"C10": "Monotonicity of the objective against fewer iterations, exact fixed-point residuals at convergence, own LP for every transport value, gluing marginals.",
"C11": "First-order conditions of the convex unbalanced objective for every divergence and regulariser (numerical subgradients), history monotonicity for MM, agreement of the solver families where both converge.",
"C12": "Oracle: LP with mass constraint, Lagrangian LP, entropic KKT, assignment for 1-D partial matching for every count.",
"C13": "Dual feasibility + reported marginals + duality gap; sliced versions against per-projection recomputation. Exactness: comonotone LP on small sizes.",
"C14": "Four-index sums for loss, value and gradient; first-order condition of conditional gradient (no feasible descent direction found by LP), descent of the recorded losses, permuted copies have value 0 when started at the relabelling.",
"C15": "As C14 for entropic/BAPG/sampled/pointwise/quantised/low-rank solvers: reconstruction identities, one documented step from the returned plan must be a fixed point when converged.",
"C16": "As C14 with semi-relaxed and partial constraint sets; the documented step of each iteration is recomputed independently.",
"C17": "Closed-form structure/feature updates recomputed entry by entry from the returned plans; one-epoch dictionary update equals projected gradient.",
"C18": "Own four-index objective and own KL/l2 divergences; block optimality by LP (balanced) and by stationarity (unbalanced).",
"C19": "Oracle: scipy sqrtm closed forms, push-forward moments, fixed-point equation and neighbour perturbations of the barycenter. Semi-definite cases included where the definition covers them.",
"C20": "Discrete LP between components with own Bures costs; density by direct formula and numerical integration; responsibility-weighted maps recomputed.",
"C21": "Own objective; conditional-gradient gap by LP; dual values and projections recomputed; line-search Wolfe/Armijo inequality verified on arbitrary functions.",
"C22": "Seed-reproducibility, distance to the optimum of the dual objective (own), path points certified by KKT at every breakpoint and at regularisations between breakpoints, multi-marginal LP.",
"C23": "Stateful: generated sequences of fit/transform/inverse/refit/set_params on one estimator, compared with a fresh estimator on the same data; barycentric map of the solver's plan recomputed; out-of-sample = nearest-sample rule.",
"C24": "Optimality conditions: least-squares map given plan, plan stationarity given map; smooth-strongly-convex interpolation inequalities for the nearest Brenier potentials.",
"C25": "Each option combination of solve / solve_gromov / solve_sample is mapped to the problem it documents, which is then checked by C01–C16 oracles; every lazily computed attribute of OTResult is compared with its definition.",
"C26": "Differential: each problem alone (numpy), and definition for costs and losses.",
"C27": "About 120 backend primitives with generated arguments against NumPy/scipy semantics on numpy, torch, jax and tensorflow.",
"C28": "About 150 registered solver calls on generated problems, each on four array libraries and two dtypes, against NumPy double precision.",
"C29": "Central finite differences along random tangent directions (two step sizes; points where one-sided differences disagree are not smooth and are skipped).",
"C30": "Textbook formulas written entry by entry; variational inequalities for projections; brute force over supports; LazyTensor indexing against dense arrays.",
"C31": "Deep bitwise snapshot of every argument before and after ~200 registered calls; repeated calls interleaved with other calls and global RNG changes; strided/reversed/Fortran/read-only copies.",
"C32": "A table of invalid calls (shape mismatch, negative or unequal mass, unknown names, impossible parameters) on generated problems must raise; boundary-valid inputs (one atom, constant cost, iteration limit hit) must be solved.",
"C33": "The C++/Cython kernels are rebuilt with AddressSanitizer and UBSan and driven with generated (valid and hostile) arguments; a sanitizer report, crash, or a non-terminating case is a violation; returned status is checked by an independent certificate.",
"C34": "FDA: trace ratio against the generalised eigenvalues. WDA/PRW/EWCA: Stiefel, own objective not worse than at the start (for small steps in PRW), exact first block step of EWCA. Spectral-Grassmann: entry-wise definition, LP value, invariances. Graph layers: LP value (TW), library FGW on each graph plus product-plan upper and feature-only lower bounds (TFGW), batch independence with isolated nodes and interleaved batches.",
"C35": "The extension is built from /repo's sources with the system Eigen (the submodule is empty here); permutation validity, cost recomputed, never above the inputs, never below the Hungarian optimum, same seed same result after arbitrary other calls.",
}
out = [R("tools", "design_head.md").rstrip(), "", "## Properties", ""]
for l in R("properties.jsonl").splitlines():
    p = json.loads(l)
    i = p["id"]
    out += [f"### {i} {p['title']}", "", TEXT[i], ""]
    f = os.path.join(ROOT, "checks", i.lower() + ".py")
    if os.path.exists(f):
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.FunctionDef):
                d = [x for x in n.decorator_list if ast.unparse(x).startswith("facet(")]
                if d:
                    kw = {k.arg: ast.unparse(k.value) for k in d[0].keywords}
                    pos = [ast.unparse(a) for a in d[0].args[1:]]
                    q = kw.get("quick", pos[0] if pos else "?")
                    t = kw.get("thorough", pos[1] if len(pos) > 1 else "20 x")
                    doc = (ast.get_docstring(n) or "").split("\n")[0].rstrip(".")
                    out.append(f"* `{n.name}` ({q} cases quick, {t} thorough)" + (f": {doc}" if doc else ""))
        out.append("")
k = json.load(open(os.path.join(ROOT, "known_findings.json")))
find = "\n".join(f"* {x['property']} `{x['tag']}` (facet {x['facet']}): {x['what']}" for x in k["findings"])
extra = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    extra.append(f"| {d}: {m['what_it_breaks']} (needs: {m['needs']}) | {m['property']} |")
out.append(R("tools", "design_tail.md").rstrip().replace("FINDINGS", find).replace("NFIXED", str(len(k["fixed"]))).replace("EXTRA_BUGS\n", "".join(e + "\n" for e in extra)+"\n"))
with open(os.path.join(ROOT, "DESIGN.md"), "w") as fh:
    fh.write("\n".join(out) + "\n")
