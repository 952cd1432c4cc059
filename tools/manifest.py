import json,subprocess
V="/verif"
props=json.load(open(V+"/contracts/props.json"))
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
NA=json.load(open(V+"/contracts/not_applicable.json"))
m={"version":1,"setup_cmd":"cd extract && cargo build --offline -q && cd ../harness && RUSTFLAGS='--cfg keride_verif' cargo build --offline --locked --release -q",
"checks":[],"hooks":{"guard":"keride_verif","enable":"RUSTFLAGS=\"--cfg keride_verif\"","source_commits":subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^verif hook"],text=True,stdout=subprocess.PIPE).stdout.split()},
"not_applicable":[]}
for i in ids:
    if i in props:
        c=props[i]
        m["checks"].append({"property":i,"quick_cmd":f"python3 check.py {i}","thorough_cmd":f"VERIF_TIER=thorough python3 check.py {i}",
          "technique":c.get("technique","contract-based deductive verification of the real code (Verus contracts, code extracted from /repo on every run), failing inputs searched on the compiled code"),
          "level":c["level"],"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"not claimed yet: its functions are not under contract yet")})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
