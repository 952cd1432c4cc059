#!/usr/bin/env python3
"""seed.py make SPEC.py   -- build seeded/<id>/ from a list of specs
   seed.py test ID...     -- apply to /repo, build, test, demo, run the check, undo"""
import json, os, subprocess, sys, re
V="/verif"; R="/repo"
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0: the property holds on this input
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'find "$d" -mindepth 1 -delete; rmdir "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
keride = { path = "$repo" }
serde_json = { version = "~1", features = ["preserve_order"] }
[profile.dev]
debug = 0
X
cd "$d"
export CARGO_TARGET_DIR="$d/target" RUSTFLAGS=""
cargo build --offline -q 2>&1 | grep -E "^error" -A6
timeout 120 "$d/target/debug/demo"
'''
def run(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): run(f"git -C {R} checkout -- .")
def make(spec):
    ns={}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        clean()
        for f,old,new in s["edits"]:
            p=f"{R}/{f}"; t=open(p).read()
            assert t.count(old)>=1,(s["id"],f,old)
            if t.count(old)>1 and "nth" not in s: print("AMBIGUOUS",s["id"],t.count(old))
            t=t.replace(old,new,1); open(p,"w").write(t)
        d=run(f"git -C {R} diff").stdout
        clean()
        o=f"{V}/seeded/{s['id']}"; os.makedirs(o,exist_ok=True)
        open(o+"/patch.diff","w").write(d)
        open(o+"/demo.sh","w").write(DEMO.replace('RUSTFLAGS=""','RUSTFLAGS="%s"'%s.get("flags",""))); os.chmod(o+"/demo.sh",0o755)
        run(f"cp {V}/tools/demo.lock {o}/Cargo.lock")
        open(o+"/main.rs","w").write(s["demo"])
        json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(o+"/meta.json","w"),indent=1)
        # only lines of the original repository count
        base=run(f"git -C {R} log --format=%H --grep='^fix:' --grep='^verif' --invert-grep -1").stdout.strip()
        for f in set(e[0] for e in s["edits"]):
            orig=set(run(f"git -C {R} show {base}:{f}").stdout.split("\n"))
            for l in run(f"git -C {R} diff --no-index /dev/null /dev/null; git apply --stat {o}/patch.diff >/dev/null; cat {o}/patch.diff").stdout.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:] not in orig: print("   not an original line:",s["id"],l)
        if not any(l.startswith("-") and not l.startswith("---") for l in d.split("\n")): print("   insertion only:",s["id"])
        print("made",s["id"])
def passed(j):
    d=json.load(open(j))
    for k in ("passed","pass"):
        if k in d: return set(d[k])
    return set(k for k,v in d.items() if v in("passed","ok",True))
def test(i, checks=True):
    o=f"{V}/seeded/{i}"; m=json.load(open(o+"/meta.json"))
    clean()
    r=run(f"git -C {R} apply {o}/patch.diff")
    if r.returncode: print(i,"PATCH FAILS",r.stdout); return
    res={}
    try:
        b=run("bash /opt/vp/build.sh"); res["build"]=b.returncode
        if b.returncode: print(b.stdout[-1500:])
        run("bash /opt/vp/test.sh /tmp/seedtest.json")
        base=json.load(open("/opt/vp/BASELINE.json")); 
        want=set(base["stable"] if "stable" in base else base["tests"] if "tests" in base else [])
        got=passed("/tmp/seedtest.json")
        res["tests_lost"]=sorted(want-got)[:5] if want else len(got)
        x=run(f"bash {o}/demo.sh",cwd=R); res["demo_with"]=x.returncode; res["demo_out"]=x.stdout.strip()[-200:]
        if checks:
            c=run(f"python3 {V}/check.py {m['property']}",cwd=V); res["check"]=c.returncode
            l=[z for z in c.stdout.split("\n") if z.startswith(("VIOLATION","observed","input"))or "FAILED OBL" in z or "bounded only" in z]
            res["lines"]=[z[:300] for z in l]
    finally:
        clean()
    x=run(f"bash {o}/demo.sh",cwd=R); res["demo_without"]=x.returncode
    print(i,m["property"],json.dumps(res,indent=1),flush=True)
if sys.argv[1]=="make": [make(s) for s in sys.argv[2:]]
else:
    for i in sys.argv[2:]:
        if i!="--nocheck": test(i, "--nocheck" not in sys.argv)
