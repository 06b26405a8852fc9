"""Regenerate the 'fixed' list of known_findings.json from /repo's fix: commits (run after each new fix; PROP maps commits to properties)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {"linear_circular": None}
KEYS = [("artificial arc", "C01"), ("OpenMP network simplex", "C01"), ("scale artificial", "C01"), ("quantile_function with torch", "C04"), ("wasserstein_1d(return_plans", "C04"), ("binary_search_circle", "C05"), ("wasserstein1_circle", "C05"),
        ("semidiscrete_wasserstein2_unif_circle", "C05"), ("sparse_ot_dist", "C06"), ("projection_sphere_to_circle", "C06"), ("linear_sliced_wasserstein_sphere", "C06"), ("sinkhorn_log with a single", "C07"),
        ("screenkhorn", "C07"), ("lowrank_sinkhorn value", "C08"), ("geomloss wrapper", "C08"), ("barycenter_sinkhorn", "C09"), ("barycenter_stabilized", "C09"), ("debiased convolutional", "C09"), ("jcpot", "C09"), ("unmix with a prior", "C09")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], capture_output=True, text=True).stdout.splitlines()
rev = {l.split("\t")[1].split(":", 1)[0] for l in log}
out = []
extra = json.load(open(os.path.join(ROOT, "tools", "fixed_props.json"))) if os.path.exists(os.path.join(ROOT, "tools", "fixed_props.json")) else {}
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix:") or "linear_circular_embedding" in s or "quantile levels of both" in s:
        continue
    p = next((p for k, p in list(extra.items()) + KEYS if k in s), None)
    if p is None:
        raise SystemExit("no property for: " + s)
    out.append(f"fixed: property={p} {h} {s[4:].strip()}")
f = os.path.join(ROOT, "known_findings.json")
d = json.load(open(f))
d["fixed"] = out
with open(f, "w") as fh:
    json.dump(d, fh, indent=1)
    fh.write("\n")
print(len(out), "fixed")
