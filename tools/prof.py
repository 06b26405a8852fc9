import json,sys
for i in sys.argv[1:]:
    d=json.load(open(f"/verif/evidence/{i}.json")); print(i, d["wall_s"])
    for k,v in d['coverage']['facets'].items(): print("  ",k,v['evaluations'],v['distinct_nontrivial'],f"{v['cpu_s']}s max {v['slowest_case_s']}",v['labels'])
