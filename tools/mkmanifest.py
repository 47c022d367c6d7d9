import json, sys
sys.path.insert(0, '/verif'); import checks
ids = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
NA = {}
m = dict(version=1, setup_cmd="python3 build.py asan", checks=[], not_applicable=[])
for i in ids:
    if i in checks.C:
        c = checks.C[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s thorough" % i,
            technique=c["technique"], level="exploration", level_note=c["note"]))
    else: m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m["checks"]), "checks")
