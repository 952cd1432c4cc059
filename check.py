#!/usr/bin/env python3
"""check.py PROPERTY  -- decide one property on /repo's current tree.

1. vp-extract reads /repo/src and rewrites the functions under contract into one Verus file
2. verus discharges every obligation of the functions and theorems the property depends on
3. an independent search drives the compiled code: it stands in (bounded) for what the verifier
   cannot reach, and looks for a concrete input when an obligation fails
exit 0 held / 1 violated (VIOLATION line) / 2 the check itself is broken
"""
import fnmatch, json, os, re, resource, subprocess, sys, threading, time, hashlib, glob

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
PROP = sys.argv[1]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
WORK = os.path.join(V, "work", PROP)
T0 = time.time()
CPUS = os.cpu_count() or 8
LIMIT = 10 ** 6 if THOROUGH else 840  # a quick check answers within this many seconds


def remaining():
    return LIMIT - (time.time() - T0)


def sh(cmd, cwd=V, env=None, timeout=None, mem=None):
    def lim():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return -999, dec(x.stdout), dec(x.stderr)


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def load_props():
    d = json.load(open(os.path.join(V, "contracts", "props.json")))
    return d


# ---- building ---------------------------------------------------------------------------
def build_extractor():
    tgt = os.path.join(V, "extract", "target")
    rc, o, e = sh(["cargo", "build", "--offline"], cwd=os.path.join(V, "extract"), env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": ""}, timeout=600)
    if rc != 0:
        print(e[-4000:])
        log("the extractor does not build")
        sys.exit(2)
    return os.path.join(tgt, "debug", "vp-extract")


class Harness(threading.Thread):
    """builds the search harness against /repo while the verifier runs"""

    def __init__(self):
        super().__init__()
        self.bin = None
        self.note = ""
        self.hooks = True

    def run(self):
        tgt = os.path.join(V, "harness", "target")
        for flags in ["--cfg keride_verif", ""]:
            cmd = ["cargo", "build", "--offline", "--locked", "--release"]
            if REPO != "/repo":
                cmd += ["--config", f'patch."crates-io".keride.path="{REPO}"']
            rc, o, e = sh(cmd, cwd=os.path.join(V, "harness"), env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": flags}, timeout=800)
            if rc == 0:
                self.bin = os.path.join(tgt, "release", "keride-harness")
                self.hooks = bool(flags)
                return
            self.note = e[-3000:]


# ---- the verifier -----------------------------------------------------------------------
class Proof:
    def __init__(self, cfg, extractor):
        self.cfg = cfg
        self.ex = extractor
        self.stubs = {}
        self.times = {}
        self.ok = {}
        self.errors = {}  # function -> verifier text
        self.undecided = {}
        self.cmds = []
        self.usable = True
        self.solver_ms = 0
        self.rs = os.path.join(WORK, "code.rs")
        self.js = os.path.join(WORK, "code.json")

    def extract(self):
        cmd = [self.ex, REPO, os.path.join(V, "contracts"), self.rs, self.js]
        for s in self.stubs:
            cmd += ["--stub", s]
        rc, o, e = sh(cmd, timeout=120)
        if rc != 0:
            log("extraction failed:", (o + e)[-2000:])
            return False
        self.info = json.load(open(self.js))
        self.fn = {f["path"]: f for f in self.info["functions"]}
        self.lines = sorted((f["start"], f["end"], f["path"]) for f in self.info["functions"] if f["start"])
        return True

    def at(self, line):
        for a, b, p in self.lines:
            if a <= line <= b:
                return p
        return None

    def in_closure(self, path):
        return any(fnmatch.fnmatchcase(path, p) for p in self.cfg["fns"])

    def modules(self):
        ms = {"vp"}
        for f in self.fn.values():
            if self.in_closure(f["path"]) and f["start"]:
                ms.add(self.module_of(f["path"]))
        return sorted(ms)

    def module_of(self, path):
        """the module a function is in"""
        if self.fn.get(path, {}).get("module"):
            return self.fn[path]["module"]
        out = []
        for s in path.split("::")[:-1]:
            if s[:1].isupper() or " " in s:
                break
            out.append(s)
        return "::".join(out)

    def verus(self, extra, timeout, rlimit=None, tag=""):
        cmd = ["verus", self.rs, "--crate-type=lib", "--triggers-mode", "silent", "--num-threads", str(CPUS), "--output-json", "--time-expanded", "--multiple-errors", "8",
               "--rlimit", str(rlimit or 100)] + extra
        self.cmds.append(" ".join(cmd).replace(V, "/verif"))
        t = time.time()
        rc, o, e = sh(cmd, cwd=WORK, timeout=timeout)
        open(os.path.join(WORK, f"verus{tag}.err"), "w").write(e)
        open(os.path.join(WORK, f"verus{tag}.json"), "w").write(o)
        try:
            d = json.loads(o)
        except ValueError:
            d = {}
        return d, e, time.time() - t

    def parse_errors(self, e):
        """[(message, [lines in the generated file], block text)]"""
        out = []
        for blk in re.split(r"\n(?=error|warning|note: )", "\n" + e):
            blk = blk.strip("\n")
            if not blk.startswith("error"):
                continue
            if re.match(r"error: aborting|error: could not", blk):
                continue
            pr = [int(x) for x in re.findall(r"--> [^\n]*?:(\d+):\d+", blk)]
            ls = [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", blk, re.M)]
            out.append((blk.split("\n")[0], pr + ls, blk))
        return out

    def breakdown(self, d):
        r = {}
        try:
            for m in d["times-ms"]["smt"]["smt-run-module-times"]:
                for f in m.get("function-breakdown", []):
                    r[f["function"]] = f
        except (KeyError, TypeError):
            pass
        return r

    def run(self):
        if not self.extract():
            self.usable = False
            self.why = "extraction failed"
            return
        for rnd in range(12):
            if not self.modules():
                break
            mods = []
            for m in self.modules():
                mods += ["--verify-only-module", m]
            d, e, dt = self.verus(mods, max(60, min(560, remaining() - 200)))
            vr = d.get("verification-results")
            errs = self.parse_errors(e)
            bd = self.breakdown(d)
            if vr is None or vr.get("encountered-vir-error") or (not bd and errs):
                # the rewritten text is outside the verifier's subset: leave those functions to the bounded check
                new = {}
                for msg, ls, blk in errs:
                    for l in ls:
                        p = self.at(l)
                        if p and "decreases clause" in msg and "nodec:" + p not in self.stubs:
                            new["nodec:" + p] = msg
                            break
                        if p and p not in self.stubs:
                            new[p] = msg
                            break
                if not new:
                    self.usable = False
                    self.why = "the verifier rejected the extracted text: " + "; ".join(x[0] for x in errs[:3]) + e[-500:]
                    return
                for p, m in new.items():
                    log(f"termination not proved: {p[6:]}" if p.startswith("nodec:") else f"outside the verifier's subset: {p}: {m}")
                self.stubs.update(new)
                if not self.extract():
                    self.usable = False
                    self.why = "extraction failed"
                    return
                continue
            self.finish(d, errs, bd, dt)
            return
        self.usable = False
        self.why = "too many functions outside the verifier's subset"

    def finish(self, d, errs, bd, dt):
        self.vr = d["verification-results"]
        self.wall = dt
        fails = {}
        for msg, ls, blk in errs:
            p = None
            for l in ls:
                p = self.at(l)
                if p and (self.fn[p]["status"] == "verified"):
                    break
            if p is None:
                p = "vp (lemma)"
            fails.setdefault(p, []).append(blk)
        self.bd = {k.split("::", 1)[1]: v for k, v in bd.items()}
        for k, v in self.bd.items():
            self.solver_ms += v.get("time", 0)
        # lemmas do not depend on the source: a failure is a matter of solver luck
        self.lemma_fail = "vp (lemma)" in fails
        if self.lemma_fail:
            names = [k.split("::")[-1] for k, v in self.bd.items() if k.startswith("vp::") and not v.get("success", True)]
            left = []
            for n in names[:6]:
                for k, seed in enumerate(["7", "42", "3"]):
                    if remaining() < 300:
                        left.append(n)
                        break
                    d2, e2, dt2 = self.verus(["--verify-only-module", "vp", "--verify-function", n, "--smt-option", "smt.random_seed=" + seed], 120, 400, ".lemma")
                    r2 = d2.get("verification-results") or {}
                    if r2.get("errors") == 0 and r2.get("verified", 0) > 0 and r2.get("success"):
                        log(f"lemma {n} discharged on retry")
                        break
                else:
                    left.append(n)
            self.lemma_fail = bool(left) or not names or len(names) > 6
            if not self.lemma_fail:
                del fails["vp (lemma)"]
        self.fails = fails
        self.closure = [f for f in self.fn.values() if self.in_closure(f["path"])]
        for f in self.closure:
            if f["status"] in ("stubbed", "missing"):
                self.undecided[f["path"]] = self.stubs.get(f["path"]) or "; ".join(f["notes"])
        for p in self.info["problems"]:
            log("note:", p)

    def retry(self):
        """whatever failed, once more, alone, with more resources and other solver seeds"""
        fails = self.fails
        t0 = time.time()
        for p in list(fails):
            if time.time() - t0 > 240 or remaining() < 260 or p == "vp (lemma)" or not self.in_closure(p):
                continue
            log(f"obligation failed in {p}; retrying alone")
            name = p.split("::")[-1]
            for k, x in enumerate([["--smt-option", "smt.random_seed=7"], ["--smt-option", "smt.random_seed=42"]]):
                d2, e2, dt2 = self.verus(["--verify-only-module", self.module_of(p), "--verify-function", self.vname(p)] + x, 150, 400 if k == 0 else 600, f".retry{k}")
                r2 = d2.get("verification-results") or {}
                if r2.get("errors") == 0 and r2.get("verified", 0) > 0 and r2.get("success"):
                    log("   discharged on retry")
                    del fails[p]
                    break

    def vname(self, p):
        m = self.module_of(p)
        s = p[len(m) + 2:]
        return re.sub(r"^(\w+) as (\w+)::", r"\1::", s)

    def violated(self):
        bad = {p: b for p, b in self.fails.items() if p != "vp (lemma)" and self.in_closure(p)}
        if self.cfg.get("safety_only"):
            # the property is about panics and termination: a wrong result alone is not a violation of it
            for p in list(bad):
                if not any(re.match(SAFETY, b) for b in bad[p]):
                    self.undecided[p] = "its result is not proved, so the safety of its callers rests on the bounded check"
                    del bad[p]
        return bad


SAFETY = r"error: (precondition not|possible|decreases|could not prove termination|.*overflow|.*index|.*bounds|.*division|.*unreachable)"


def trusted_list():
    out = []
    for f in sorted(glob.glob(os.path.join(V, "contracts", "*.rs"))):
        t = open(f).read()
        base = os.path.basename(f)
        ax = re.findall(r"axiom fn (\w+)", t)
        eb = re.findall(r"external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?(?:exec )?(?:fn|struct) (\w+)", t)
        if ax:
            out.append(f"{base}: axioms {', '.join(ax)}")
        if eb:
            out.append(f"{base}: specified std/dependency functions {', '.join(eb)}")
    return out


def lemma_names(cfg):
    ns = []
    for f in cfg.get("files", []):
        t = open(os.path.join(V, "contracts", f)).read()
        ns += re.findall(r"proof fn (\w+)", t)
    return ns


def new_literals():
    """literals the source has and the reference has not: values the search tries more often"""
    try:
        sys.path.insert(0, os.path.join(V, "tools"))
        import literals
        return literals.new(REPO, json.load(open(os.path.join(V, "tools", "literals.json"))))
    except Exception as e:
        log("no search dictionary:", e)
        return {"ints": [], "strs": []}


# ---- search -----------------------------------------------------------------------------
def search(h, secs, known, seed=SEED):
    """-> (report, failures [(case, message)])"""
    os.makedirs(WORK, exist_ok=True)
    args = [h.bin, "search", PROP, str(seed), str(secs), "", ",".join(known)]
    dic = os.path.join(WORK, "dict.json")
    json.dump(new_literals(), open(dic, "w"))
    os.environ["VP_DICT"] = dic
    rc, o, e = sh(args, cwd=WORK, timeout=min(secs + 400, max(30, remaining())), mem=20 << 30, env={"RUST_BACKTRACE": "0"})
    if rc == 0:
        d = json.loads(o.strip().split("\n")[-1])
        return d, [(f["case"], f["message"]) for f in d["failures"]]
    if rc == 3 and '"hang"' in o:
        c = json.loads(o.strip().split("\n")[-1])["hang"]
        return {"evaluations": 0, "distinct_nontrivial": 0}, [(c, "does not come back: more than 60 s on this input")]
    # the process died (stack overflow, out of memory): find the case
    log(f"search process ended with {rc}; looking for the input")
    for f in glob.glob(os.path.join(WORK, "trace.*")):
        os.remove(f)
    args[5] = os.path.join(WORK, "trace")
    rc, o, e = sh(args, cwd=WORK, timeout=min(secs + 400, max(30, remaining())), mem=20 << 30)
    for f in sorted(glob.glob(os.path.join(WORK, "trace.*"))):
        try:
            c = json.load(open(f))
        except ValueError:
            continue
        rf = os.path.join(WORK, "probe.json")
        json.dump(c, open(rf, "w"))
        rc2, o2, e2 = sh([h.bin, "replay", rf], timeout=120, mem=20 << 30)
        if rc2 not in (0,):
            return {"evaluations": 0, "distinct_nontrivial": 0}, [(c, f"the process dies on this input (status {rc2}) {o2.strip()[-300:]}{e2.strip()[-300:]}")]
    log("search died without an input that reproduces it:", rc, e[-500:])
    return None, []


def write_replay(data):
    d = os.path.join(V, "work", "replay")
    os.makedirs(d, exist_ok=True)
    t = json.dumps(data, indent=1)
    p = os.path.join(d, f"{PROP}-{hashlib.sha256(t.encode()).hexdigest()[:10]}.json")
    open(p, "w").write(t)
    return p


def known_findings():
    ks = []
    p = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m:
                ks.append(m.groups())
    return ks


def main():
    props = load_props()
    cfg = props[PROP]
    os.makedirs(WORK, exist_ok=True)
    for f in glob.glob(os.path.join(WORK, "*")):
        if os.path.isfile(f):
            os.remove(f)
    h = Harness()
    h.start()
    ex = build_extractor()
    pf = Proof(cfg, ex)
    pf.fails = {}
    pf.closure = []
    if cfg["fns"]:
        pf.run()
        if not pf.usable:
            log("PROOF NOT AVAILABLE on this tree, bounded check only:", pf.why)
    else:
        pf.usable = False
        pf.why = "no function under contract"
    h.join()
    bad = pf.violated() if pf.usable else {}
    for p in bad:
        log(f"FAILED OBLIGATION in {p}:")
        for b in bad[p][:4]:
            print(b[:1500])
    for p, w in pf.undecided.items():
        log(f"bounded only on this tree: {p}: {w}")

    known = [k for k in known_findings() if k[0] == PROP]
    kids = [k[1] for k in known]

    def unknown(fails):
        return [(c, m) for c, m in fails if not any(m.startswith(f"[{k}]") for k in kids)]

    report, new = None, []
    if h.bin is None:
        log("the search harness does not build against this tree:", h.note[-1500:])
    else:
        secs = cfg.get("secs", 15)
        if not pf.usable or pf.undecided:
            secs = max(secs, 45)
        if bad:
            secs = max(secs, 75)
        if THOROUGH:
            secs = max(secs * 20, 600)
        report, fails = search(h, secs, kids)
        new = unknown(fails)
    if bad and not new:
        pf.retry()
        bad = pf.violated()
        if bad and h.bin and remaining() > 60:
            r2, fails = search(h, int(min(secs, remaining() - 30)), kids, SEED + 1000003)
            new = unknown(fails)
            if report and r2:
                report["evaluations"] += r2["evaluations"]

    rc = 0
    viol = []
    for k in known:
        print(f"KNOWN-FINDING: property={PROP} {k[1]}: {k[2]}")
    if new:
        c, m = new[0]
        rp = write_replay({"property": PROP, "case": c, "message": m, "failed_obligations": {p: b for p, b in bad.items()},
                           "how": f"{h.bin} replay <this file>"})
        print(f"input: {json.dumps(c)[:1500]}\nobserved: {m}")
        print(f"VIOLATION property={PROP} replay={rp}")
        viol.append(m)
        rc = 1
    elif bad:
        rp = write_replay({"property": PROP, "failed_obligations": {p: b for p, b in bad.items()}, "verifier": pf.cmds[0] if pf.cmds else "",
                           "search": f"{(report or {}).get('evaluations', 0)} inputs tried against the compiled code, none fails"})
        print(f"VIOLATION property={PROP} replay={rp} no-failing-input-found")
        viol.append("obligation failed: " + ", ".join(bad))
        rc = 1
    elif pf.usable and getattr(pf, "lemma_fail", False):
        log("a lemma was not discharged:", "\n".join(pf.fails.get("vp (lemma)", [])[:3]))
        rc = 2
    elif not pf.usable and report is None:
        log("neither proof nor search could run")
        rc = 2

    # ---- evidence
    lem = lemma_names(cfg) if cfg["fns"] else []
    bd = getattr(pf, "bd", {})
    vf = [f for f in pf.closure if f["status"] == "verified"]
    lem_run = [n for n in lem if "vp::" + n in bd] or lem
    missing_thm = [t for t in cfg.get("theorems", []) if t not in lem]
    if missing_thm:
        log("theorem not found:", missing_thm)
        rc = rc or 2
    obl = len(vf) + len(lem) if pf.usable else 0
    dis = obl - len(bad)
    cov = {
        "obligations": obl,
        "discharged": dis,
        "checker_cmd": pf.cmds[0] if pf.cmds else "none",
        "trusted_base": trusted_list() + [f"trusted contract: {f['path']}: {'; '.join(f['notes'])}" for f in pf.closure if f["status"] == "trusted"]
        if pf.usable else ["none: proof not run"],
        "what_an_obligation_is": "one function (all its pre/postconditions, loop invariants, absence of overflow/panic/out of bounds) or one lemma, as one verifier query",
        "back_end": "Verus " + verus_version() + " with Z3",
        "functions_under_contract": [{"function": f["path"], "inlined_helpers": f["inlined"], "ms": bd.get(f["path"], {}).get("time")} for f in vf],
        "declared_trait_functions": [f["path"] for f in pf.closure if f["status"] == "declared"],
        "theorems": cfg.get("theorems", []),
        "solver_ms_total": pf.solver_ms,
        "verifier_total": getattr(pf, "vr", None),
        "bounded_only_on_this_tree": pf.undecided if pf.usable else {"all": pf.why},
        "bounded_search": {
            "label": "bounded, not counted as proved",
            "scope": cfg.get("bounded", ""),
            "evaluations": (report or {}).get("evaluations", 0),
            "distinct_nontrivial": (report or {}).get("distinct_nontrivial", 0),
            "per_kind": (report or {}).get("per_kind", []),
            "samples": (report or {}).get("samples", []),
        },
    }
    if cfg["level"] != "proof":
        cov["evaluations"] = (report or {}).get("evaluations", 0)
        cov["distinct_nontrivial"] = (report or {}).get("distinct_nontrivial", 0)
        cov["rule"] = "systematic corner cases first, then seeded random cases; non-trivial: the input was accepted or the property's premise held; distinct by content"
        cov["samples"] = (report or {}).get("samples", []) or ["none"]
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": cfg["level"], "coverage": cov,
        "assumptions": props["_assumptions"] + cfg.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", PROP + ".json"), "w"), indent=1)
    log(f"{PROP}: {dis}/{obl} obligations, {cov['bounded_search']['evaluations']} inputs, "
        + ("VIOLATED" if rc == 1 else "held" if rc == 0 else "broken"))
    sys.exit(rc)


_vv = None


def verus_version():
    global _vv
    if _vv is None:
        rc, o, e = sh(["verus", "--version"])
        m = re.search(r"Version: (\S+)", o)
        _vv = m.group(1) if m else "?"
    return _vv


main()
