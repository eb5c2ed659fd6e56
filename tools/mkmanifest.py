import json, os
CLAIMED = json.load(open("/verif/tools/claimed.json"))
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"VERIF_TIER=thorough bin/check {i}",
                           technique=c["technique"], level=c.get("level", "model_checking"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=CLAIMED.get("_na", {}).get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="TLA+ specifications in specs/, checked with TLC; conformance by replaying TLC's behaviours on the real code through its public API (lib/vf).")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
