#!/usr/bin/env python3
"""Driver: python3 check.py <property-id> [quick|thorough]

1. proof stage   - vx extracts the functions under contract from /repo's current sources, Verus
                   re-discharges every obligation, a second Verus run checks that no contract is
                   vacuous (an `assert(false)` behind every precondition / loop invariant must fail).
2. bounded stage - the executable form of the same contracts is run against the real crate
                   (labelled bounded, never counted as proved); it is also the replay search for a
                   failed obligation.
Outcome: exit 0, or exit 1 with one VIOLATION line.
"""
import array, fcntl, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, "build")
TARGET = os.path.join(BUILD, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def env_base():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:/opt/veriftools/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_MIN_STACK"] = "536870912"  # long if-else chains in extracted text
    e.pop("LOUIS_TABLE_PATH", None)
    e.pop("RUST_LOG", None)
    return e


def run(cmd, timeout, env=None, cwd=V):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or env_base(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\ntimeout"


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_vx():
    with lock("vx"):
        e = env_base()
        e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "vxtarget")
        rc, o, s = run(["cargo", "build", "--offline", "-q"], 600, e, os.path.join(V, "tools/vx"))
        p = os.path.join(BUILD, "vxtarget/debug/vx")
        if rc != 0 or not os.path.exists(p):
            raise RuntimeError("vx does not build: " + s[-2000:])
        return p


def build_harness(binname, probe):
    """returns (path or None, why)"""
    with lock("harness"):
        e = env_base()
        e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
        e["CARGO_TARGET_DIR"] = TARGET
        e["RUSTFLAGS"] = "--cfg louis_verif -Awarnings"
        e["LOUIS_VERIF_PROBE"] = os.path.join(V, "harness/probes", probe + ".rs")
        lockf = os.path.join(V, "harness/Cargo.lock")
        rc, o, s = run(["cargo", "build", "--offline", "-q", "--bin", binname], 800, e, os.path.join(V, "harness"))
        p = os.path.join(TARGET, "debug", binname)
        if rc != 0:
            return None, s[-3000:]
        # the lock is released before the binary runs: keep a private copy
        q = os.path.join(BUILD, "bin_%s_%d" % (binname, os.getpid()))
        subprocess.run(["cp", p, q], check=True)
        return q, ""


VERUS = ["verus", "--edition=2024", "--output-json", "--time", "--num-threads", "4"]


def norm_err(block):
    first = block.splitlines()[0]
    return first[:200]


COMPILE_MARKS = ("error[E", "The verifier does not yet support", "is not supported", "cannot find", "expected ")


def verus(path, rlimit, extra=()):
    t = time.time()
    rc, o, s = run(VERUS + ["--rlimit", str(rlimit)] + list(extra) + [path], 400)
    res = {"wall": time.time() - t, "rc": rc, "stderr": s, "ok": False, "verified": 0, "errors": 0, "blocks": []}
    try:
        j = json.loads(o[o.index("{"):])
        vr = j["verification-results"]
        res["vir"] = vr.get("encountered-vir-error", False)
        res["verified"] = vr.get("verified", 0)
        res["errors"] = vr.get("errors", 0)
        res["ok"] = bool(vr.get("success")) and res["errors"] == 0 and res["verified"] > 0
        res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        if "verified" not in vr:
            res["vir"] = True
    except Exception:
        res["vir"] = True
        res["smt_ms"] = 0
    blocks, cur = [], None
    for line in s.splitlines():
        if re.match(r"^(error|warning|note)", line):
            cur = [line]
            blocks.append(cur)
        elif cur is not None:
            cur.append(line)
    res["blocks"] = ["\n".join(b) for b in blocks if b[0].startswith("error")]
    return res


def lines_of(block):
    return [int(m) for m in re.findall(r"-->\s+\S+?\.rs:(\d+):", block)] + \
           [int(m) for m in re.findall(r"^\s*(\d+)\s+\|", block, re.M)]


def prove(vx, module, focus=None):
    """proof stage for one contract file"""
    r = {"module": module, "status": "undecided", "reason": "", "verified": 0, "obligations": 0, "failed": [],
         "solver_s": 0.0, "functions": [], "assumed": [], "cmd": ""}
    os.makedirs(os.path.join(BUILD, "proof"), exist_ok=True)
    base = os.path.join(BUILD, "proof", "%s_%d" % (module, os.getpid()))
    rs, js = base + ".rs", base + ".json"
    spec = os.path.join(V, "contracts", module + ".vs")
    rc, o, s = run([vx, spec, os.path.join(REPO, "src"), rs, js], 60)
    r["cmd"] = "vx contracts/%s.vs /repo/src out.rs out.json && verus --edition=2024 out.rs" % module
    if rc != 0:
        r["reason"] = "lost anchor: " + s.strip()[-600:]
        return r
    meta = json.load(open(js))
    text = open(rs).read()
    r["functions"] = [{"file": f["file"], "fn": f["path"], "loops": f["loops"]} for f in meta["functions"] if not f["assumed"]]
    r["assumed"] = scan_assumptions(text, meta)
    res = verus(rs, 30)
    if not res["ok"] and not res.get("vir") and res["errors"] and any("rlimit" in b or "Resource limit" in b for b in res["blocks"]):
        res = verus(rs, 200)
    r["solver_s"] = res["smt_ms"] / 1000.0
    r["verified"] = res["verified"]
    r["obligations"] = res["verified"] + res["errors"]
    if res["ok"]:
        vac = vacuity(vx, spec, base)
        if vac["bad"]:
            r["reason"] = "vacuity guard: " + vac["bad"]
            r["status"] = "vacuous"
            return r
        r["vacuity_probes"] = vac["n"]
        r["status"] = "proved"
        return r
    if res.get("vir") or not res["errors"]:
        r["reason"] = "the extracted text is outside the verifier's reach or an anchor is lost: " + \
            " / ".join(norm_err(b) for b in res["blocks"][:4])
        r["output"] = res["stderr"][-4000:]
        return r
    # genuine failed obligations
    rs_lines = text.split("\n")
    hard = []
    for b in res["blocks"]:
        h = b.splitlines()[0]
        if h.startswith("error: aborting"):
            continue
        fn = "lemma / spec text"
        for ln in lines_of(b)[:1]:
            for f in meta["functions"]:
                if f["out_start"] <= ln <= f["out_end"]:
                    fn = f["file"] + " " + f["path"]
                    for q in f.get("parts", []):
                        if q["out_start"] <= ln <= q["out_end"]:
                            fn += " [" + q["name"] + "]"
            # obligations that name what they are about
            for ln in lines_of(b):
                for t in re.findall(r"/\*@(\w+)\*/", rs_lines[ln - 1]):
                    fn += " [" + t + "]"
        soft = "rlimit" in b or "Resource limit" in b or "timed out" in b
        hard.append({"obligation": h, "function": fn, "soft": soft, "text": b[:1800]})
    # one text can carry obligations of several properties: those of other properties raise no alarm here
    if focus:
        other = [h for h in hard if not re.search(focus, h["function"] + " :: " + h["obligation"])]
        hard = [h for h in hard if h not in other]
        if other and not hard:
            r["reason"] = "obligations that do not concern this property failed: " + "; ".join("%s in %s" % (h["obligation"], h["function"]) for h in other[:4])
            r["output"] = "\n".join(h["text"] for h in other)[:4000]
            return r
    r["failed"] = hard
    if hard and all(h["soft"] for h in hard):
        r["reason"] = "solver resource limit"
        return r
    r["status"] = "failed"
    return r


def vacuity(vx, spec, base):
    rs, js = base + "_vac.rs", base + "_vac.json"
    rc, o, s = run([vx, "--vacuity", spec, os.path.join(REPO, "src"), rs, js], 60)
    if rc != 0:
        return {"bad": "extraction: " + s, "n": 0}
    want = set(i + 1 for i, l in enumerate(open(rs).read().split("\n")) if "assert(false /*vx*/)" in l)
    if not want:
        return {"bad": "no probes generated", "n": 0}
    res = verus(rs, 30, ["--multiple-errors", "30"])
    got = set()
    for b in res["blocks"]:
        for ln in lines_of(b):
            if ln in want:
                got.add(ln)
    if res.get("vir"):
        return {"bad": "probe run did not reach the solver: " + res["stderr"][-500:], "n": 0}
    miss = want - got
    if miss:
        # the search for several errors in one function can run out of resources: ask for the rest alone
        lines = open(rs).read().split("\n")
        for i in want - miss:
            lines[i - 1] = ""
        rs = base + "_vac2.rs"
        open(rs, "w").write("\n".join(lines))
        res = verus(rs, 30, ["--multiple-errors", "30"])
        if res.get("vir"):
            return {"bad": "probe run did not reach the solver: " + res["stderr"][-500:], "n": 0}
        fns = [f for f in json.load(open(js))["functions"]]
        for b in res["blocks"]:
            soft = "rlimit" in b or "Resource limit" in b
            for ln in lines_of(b):
                if ln in miss:
                    got.add(ln)
                if soft:  # not proved: so it was not accepted either
                    got |= {m for m in miss for f in fns if f["out_start"] <= ln <= f["out_end"] and f["out_start"] <= m <= f["out_end"]}
        miss = want - got
    if miss:
        ctx = []
        for m in sorted(miss)[:3]:
            k = m - 1
            while k > 0 and not lines[k].startswith("fn "):
                k -= 1
            ctx.append("line %d in %s" % (m, lines[k][:60]))
        return {"bad": "assert(false) was accepted: " + "; ".join(ctx), "n": len(want)}
    return {"bad": "", "n": len(want)}


def scan_assumptions(text, meta):
    out = []
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+)\]", text):
        out.append("assumed contract on std: " + " ".join(m.group(1).split()))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?((?:proof )?fn|struct)\s+(\w+)", text):
        out.append("trusted (external_body): " + m.group(2))
    for m in re.finditer(r"(?:broadcast )?axiom fn\s+(\w+)|admit\(\)|assume\(", text):
        out.append("axiom/assume: " + (m.group(1) or m.group(0)))
    for m in re.finditer(r"uninterp spec fn\s+(\w+)", text):
        out.append("uninterpreted: " + m.group(1))
    for f in meta["functions"]:
        if f["assumed"]:
            out.append("assumed contract (body not verified): %s %s" % (f["file"], f["path"]))
        for a, b in f["subst"]:
            out.append("token substitution in %s: `%s` -> `%s`" % (f["path"], a, b))
    for t in meta["types"]:
        for o in t["opts"]:
            if o.startswith("drop="):
                out.append("type %s extracted without %s" % (t["name"], o[5:]))
            if o.startswith("retype="):
                out.append("type %s: field type replaced by a specified stand-in (%s)" % (t["name"], o[7:]))
    return sorted(set(out))


def bounded(prop, cfg, budget, tier):
    """executable contracts against the real crate"""
    r = {"status": "not-run", "evaluations": 0, "distinct_nontrivial": 0, "failures": [], "rule": "", "samples": [], "bound": ""}
    tried = []
    binp = None
    for b, p in [(cfg["bin"], cfg.get("probe", "none"))] + [tuple(x) for x in cfg.get("fallback", [])]:
        binp, why = build_harness(b, p)
        tried.append("%s/%s: %s" % (b, p, "built" if binp else "does not build against the current source: " + why[-700:]))
        if binp:
            break
    r["tried"] = tried
    if not binp:
        r["status"] = "unbuildable"
        return r
    # independent workers, each with its own seed and scratch folder; their findings are merged
    n = int(cfg.get("workers", 5 if tier == "quick" else 8))
    with ThreadPoolExecutor(max_workers=n) as ex:
        parts = [f.result() for f in [ex.submit(worker, prop, binp, budget, tier, w) for w in range(n)]]
    os.remove(binp)
    r["status"] = "ran"
    r["workers"] = n
    seen = set()
    for j in parts:
        r["evaluations"] += j["evaluations"]
        seen.update(j.get("hashes", ()))
        r["rule"], r["bound"] = j["rule"] or r["rule"], j["bound"] or r["bound"]
        r["samples"] = (r["samples"] + j["samples"])[:6]
        have = set(f["key"] for f in r["failures"])
        r["failures"] += [f for f in j["failures"] if f["key"] not in have]
    r["distinct_nontrivial"] = len(seen)
    return r


def worker(prop, binp, budget, tier, w):
    import shutil
    seed = SEED * 1000 + w
    tag = "%s_%d_%d" % (prop, os.getpid(), w)
    out = os.path.join(BUILD, tag + ".out.json")
    env = env_base()
    env["VERIF_SCRATCH"] = os.path.join(BUILD, "scratch_" + tag)
    os.makedirs(env["VERIF_SCRATCH"], exist_ok=True)
    jr = out + ".journal"
    try:
        cmd = [binp, str(seed), str(budget), tier, out]
        rc, o, s = run(cmd, budget * 3 + 120, env)
        if not os.path.exists(out):
            # crashed (stack overflow, abort): same seed again, journalling the running case
            rc2, o2, s2 = run(cmd + [jr], budget * 6 + 200, env)
            case = open(jr, errors="replace").read() if os.path.exists(jr) else ""
            if not os.path.exists(out):
                return {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "bound": "", "samples": [],
                        "failures": [{"key": "crash rc=%d" % rc2, "input": case[:4000], "detail": (s2 or s)[-800:], "seed": seed}]}
        j = json.load(open(out))
        for f in j["failures"]:
            f["seed"] = seed
        h = array.array("Q")
        if os.path.exists(out + ".h"):
            h.frombytes(open(out + ".h", "rb").read())
        j["hashes"] = h
        return j
    finally:
        for p in (out, out + ".h", jr):
            if os.path.exists(p):
                os.remove(p)
        shutil.rmtree(env["VERIF_SCRATCH"], ignore_errors=True)


def load_known(prop):
    known = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    cfg = json.load(open(os.path.join(V, "checks.json")))[prop]
    vx = build_vx()
    mods = cfg["contracts"]
    quick_b, thorough_b = cfg.get("budget", [25, 240])
    budget = quick_b if tier == "quick" else thorough_b
    with ThreadPoolExecutor(max_workers=4) as ex:
        fb = ex.submit(bounded, prop, cfg, budget, tier)
        focus = cfg.get("focus", {})
        fp = [ex.submit(prove, vx, m, focus.get(m, focus.get("*"))) for m in mods]
        proofs = [f.result() for f in fp]
        bnd = fb.result()
    failed = [p for p in proofs if p["status"] == "failed"]
    if failed and not bnd["failures"]:
        # an obligation failed: look harder for a concrete input
        more = bounded(prop, cfg, max(90, budget * 4) if tier == "quick" else budget, "thorough")
        if more["status"] == "ran":
            more["evaluations"] += bnd.get("evaluations", 0)
            bnd = more
    known = load_known(prop)
    viol = []
    for k, what in known:
        hit = [f for f in bnd["failures"] if f["key"] == k]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    viol = [f for f in bnd["failures"] if f["key"] not in [k for k, _ in known]]

    ob = sum(p["obligations"] for p in proofs)
    dis = sum(p["verified"] for p in proofs if p["status"] in ("proved", "failed"))
    undec = [p for p in proofs if p["status"] in ("undecided", "vacuous")]
    assumptions = []
    for p in proofs:
        assumptions += ["%s: %s" % (p["module"], a) for a in p["assumed"]]
    if undec:
        assumptions.append("PROOF NOT REDONE on this tree for: " + "; ".join("%s (%s)" % (p["module"], p["reason"][:300]) for p in undec)
                           + " - for these the run rests on the bounded executable contracts only")
    trusted = ["Verus 0.2026.09.13 + bundled Z3, vstd specifications", "vx extraction and its rewrites (DESIGN.md)",
               "rustc / std"] + cfg.get("trusted", [])
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": cfg.get("level", "proof"),
        "coverage": {
            "obligations": ob, "discharged": dis, "back_end": "Verus/Z3",
            "solver_s": round(sum(p["solver_s"] for p in proofs), 3),
            "vacuity_probes_refuted": sum(p.get("vacuity_probes", 0) for p in proofs),
            "functions_under_contract": [f for p in proofs for f in p["functions"]],
            "proof_modules": [{"module": p["module"], "status": p["status"], "obligations": p["obligations"],
                               "discharged": p["verified"], "solver_s": p["solver_s"], "reason": p["reason"]} for p in proofs],
            "checker_cmd": " ; ".join(p["cmd"] for p in proofs),
            "trusted_base": trusted,
            "bounded_label": "BOUNDED, not proved: executable contracts against the real crate",
            "bounded_bound": bnd.get("bound", ""),
            "evaluations": bnd.get("evaluations", 0), "distinct_nontrivial": bnd.get("distinct_nontrivial", 0),
            "rule": bnd.get("rule", ""), "samples": bnd.get("samples", []),
            "bounded_status": bnd["status"], "bounded_builds": bnd.get("tried", []),
            "outside_contracts": cfg.get("outside", []),
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
        "violations": len(viol) + (1 if failed and not viol else 0),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    for p in proofs:
        print("proof %s: %s, %d/%d obligations, solver %.2fs %s" % (p["module"], p["status"], p["verified"], p["obligations"], p["solver_s"], p["reason"][:300]))
    print("bounded: %s, %d evaluations (%d distinct non-trivial)" % (bnd["status"], bnd.get("evaluations", 0), bnd.get("distinct_nontrivial", 0)))
    if any(p["status"] == "vacuous" for p in proofs) and not viol and not failed:
        print("WARNING: vacuous contract; not counted as proved")
    if viol or failed:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rp = os.path.join(V, "replays", prop + ".json")
        json.dump({"property": prop, "seed": SEED, "failing_inputs": viol,
                   "failed_obligations": [h for p in failed for h in p["failed"]],
                   "replay": "VERIF_SEED=%d python3 /verif/check.py %s %s" % (SEED, prop, tier)},
                  open(rp, "w"), indent=1, ensure_ascii=False)
        for f in viol[:4]:
            print("  failing input [%s]: %s\n    %s" % (f["key"], f["input"][:600], f["detail"][:600]))
        for p in failed:
            for h in p["failed"][:6]:
                print("  failed obligation: %s in %s" % (h["obligation"], h["function"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if viol else " no-failing-input-found"))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
