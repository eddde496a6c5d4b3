#!/usr/bin/env python3
"""run.py PROPERTY  - decides one property on /repo's current working tree.

Three engines, started together (see DESIGN.md):
  verus   : contracts and loop invariants on functions extracted mechanically from /repo (tools/vx.py); unbounded
  kani    : contract harnesses (harness/src) on /repo's crates, mechanically ported to the verifier's rustc
            (tools/port.py); `full` harnesses are complete over their types, `bounded` ones carry a stated bound
  native  : the same contract harnesses executed on the unmodified sources with the repository's own toolchain;
            a bounded stand-in, used to replay counterexamples and to look for a failing input when a proof fails
Exit 0 (held on everything decided), 1 (VIOLATION line), 2 (nothing could be decided: error of the check).
"""
import json, os, re, resource, shutil, subprocess, sys, threading, time, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import port, vx
from props import PROPS, FEATURE_CRATES, COMMON_TRUST

NIGHTLY = "nightly-2023-11-04"
T0 = time.time()
PID = sys.argv[1]
P = PROPS[PID]
TIER = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2: TIER = sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEADLINE = T0 + (760 if TIER == "quick" else 3300)
BUILD = os.path.join(os.environ.get("LK_BUILD", os.path.join(HERE, "build")), PID)
REPLAYS = os.environ.get("LK_REPLAYS", os.path.join(HERE, "replays"))
EVID = os.environ.get("LK_EVIDENCE", os.path.join(HERE, "evidence"))
ENV = {k: v for k, v in os.environ.items() if k not in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR")}
ENV["CARGO_NET_OFFLINE"] = "true"; ENV["RUST_BACKTRACE"] = "0"
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"
LOCK = threading.Lock()
R = {"native": {}, "kani": {}, "verus": {}, "notes": [], "rewrites": {}}

def log(*a):
    with LOCK:
        print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

def note(s):
    log(s)
    with LOCK:
        R["notes"].append(s)

def limit(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f

def run(cmd, cwd=None, timeout=None, gb=None, env=None):
    """-> (rc or None on timeout, stdout, stderr)"""
    timeout = max(1, min(timeout or 1e9, DEADLINE - time.time()))
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", preexec_fn=limit(gb) if gb else os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return None, o, e

def workspace(variant):
    out = os.path.join(BUILD, variant)
    crates = FEATURE_CRATES(P["features"])
    members = ("vh", "vhrun") if variant == "native" else ("vh",)
    rep = port.port(variant, out, crates=crates, members=members)
    for src, name in (("harness", "vh"), ("runner", "vhrun")):
        if name not in members: continue
        shutil.rmtree(os.path.join(out, name), ignore_errors=True)
        shutil.copytree(os.path.join(HERE, src), os.path.join(out, name), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    # only the dependencies of the selected crates are resolved
    m = os.path.join(out, "vh", "Cargo.toml")
    with open(m) as f: s = f.read()
    keep = set(crates)
    lines = []
    for l in s.splitlines():
        d = re.match(r'^\S+ = \{ path = "\.\./crates/([^"]+)"', l)
        if d and d.group(1) not in keep: continue
        if l.startswith("lmdb-rkv-sys") and "core" not in keep: continue
        if l.startswith("rust-argon2") and "argon2-identity" not in keep: continue
        lines.append(l)
    s = "\n".join(lines) + "\n"
    have = set(re.findall(r'^(\S+) = \{ ', s, re.M))
    def feat(mm):
        items = [x for x in re.findall(r'"([^"]+)"', mm.group(2)) if (x[4:] in have if x.startswith("dep:") else "?/" not in x or x.split("?")[0] in have)]
        return '%s = [%s]' % (mm.group(1), ", ".join('"%s"' % x for x in items))
    head, tail = s.split("[dependencies]")
    head = re.sub(r'(?m)^(\w+) = \[([^\]]*)\]$', feat, head)
    with open(m, "w") as f: f.write(head + "[dependencies]" + tail)
    shutil.copyfile("/opt/vp/Cargo.lock", os.path.join(out, "Cargo.lock"))
    R["rewrites"][variant] = rep
    return out

# ---------------------------------------------------------------- native
VHRUN = None
def native_build():
    global VHRUN
    out = workspace("native")
    rc, o, e = run(["cargo", "+" + NIGHTLY, "build", "-q", "-p", "vhrun", "--features", ",".join(P["features"]), "--offline"], cwd=out, timeout=600)
    if rc != 0:
        note("native build failed: " + "\n".join(l for l in e.splitlines() if "error" in l)[:1500])
        with open(os.path.join(BUILD, "native-build.log"), "w") as f: f.write(e)
        return False
    VHRUN = os.path.join(out, "target", "debug", "vhrun")
    return True

def native_list():
    rc, o, e = run([VHRUN, "list"])
    return {l.split()[0]: (l.split()[1], int(l.split()[2])) for l in o.splitlines()}

def native_run(h, secs, seed, maxit=1 << 40):
    tag = h.replace("::", "-") + "-%d" % seed
    st = os.path.join(BUILD, "state-" + tag)
    tmp = os.path.join(BUILD, "lkscratch-" + tag); os.makedirs(tmp, exist_ok=True)
    rc, o, e = run([VHRUN, "run", h, str(secs), str(maxit), str(seed), st], timeout=secs + 60, gb=16, env=dict(ENV, TMPDIR=tmp))
    shutil.rmtree(tmp, ignore_errors=True)
    try:
        r = json.loads(o.strip().splitlines()[-1])
    except Exception:
        r = {"harness": h, "evals": 0, "crash": True}
        try:
            s = int.from_bytes(open(st, "rb").read(8), "little")
            r.update({"fail": "the code under contract ended the process (%s): %s" % ("timeout" if rc is None else "status %s" % rc, e.strip()[-300:]), "rng": s, "bias": None})
        except Exception:
            pass
    finally:
        try: os.remove(st)
        except OSError: pass
    return r

def replay_vals(h, arg):
    """-> (failed?, text)"""
    tmp = os.path.join(BUILD, "lkscratch-replay"); os.makedirs(tmp, exist_ok=True)
    rc, o, e = run([VHRUN, "replay", h, arg], timeout=60, gb=16, env=dict(ENV, TMPDIR=tmp))
    shutil.rmtree(tmp, ignore_errors=True)
    bad = rc not in (0, 2)
    return bad, (o + e)[-4000:]

def native_all(hs, secs, seed, par):
    res = {}
    q = list(hs)
    def w():
        while True:
            with LOCK:
                if not q: return
                h = q.pop(0)
            r = native_run(h, secs, seed)
            with LOCK: res[h] = r
    ts = [threading.Thread(target=w) for _ in range(par)]
    [t.start() for t in ts]; [t.join() for t in ts]
    return res

# ---------------------------------------------------------------- kani
def kani_all(hs):
    """-> {harness: {"status":..., "checks":[...]...}}"""
    out = workspace("kani")
    jf = os.path.join(BUILD, "kani.json")
    try: os.remove(jf)
    except OSError: pass
    ht = P.get("kani_timeout", 240 if TIER == "quick" else 1200)
    cmd = ["cargo", "kani", "-p", "vh", "--features", ",".join(P["features"]), "-Z", "unstable-options", "-Z", "stubbing", "--output-format", "terse", "--exact"]
    for h in hs: cmd += ["--harness", h]
    cmd += ["-j", str(min(len(hs), P.get("kani_jobs", 6))), "--harness-timeout", "%ds" % ht, "--export-json", jf]
    rc, o, e = run(cmd, cwd=out, gb=14)
    with open(os.path.join(BUILD, "kani.log"), "w") as f: f.write(" ".join(cmd) + "\n" + o + e)
    R["kani_cmd"] = " ".join(cmd)
    if not os.path.exists(jf):
        errs = "\n".join(l for l in e.splitlines() if l.startswith("error"))[:1000]
        note("kani produced no result (undecided): rc=%s %s" % (rc, errs or (o + e)[-600:]))
        return {}
    d = json.load(open(jf))
    return d

def kani_digest(d, hs):
    res = {}
    if not d: return res
    det = {}
    def walk(x):
        if isinstance(x, dict):
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    stats = {}
    for s in d.get("cbmc", []): stats[s.get("harness_id")] = s.get("cbmc_metadata") or s.get("cbmc_stats") or s
    for r in d.get("verification_results", {}).get("results", []):
        h = r["harness_id"]
        cs = r.get("checks", [])
        fails, ok, cov, covall, bad = [], 0, 0, 0, []
        for c in cs:
            st = c["status"].upper(); cat = (c.get("category") or "").lower()
            if cat == "cover" or st in ("SATISFIED", "UNSATISFIABLE"):
                covall += 1; cov += st == "SATISFIED"
                continue
            if st in ("SUCCESS", "UNREACHABLE"): ok += 1
            elif st in ("FAILURE",):
                soft = "unwind" in cat or "unwinding" in (c.get("description") or "") or "unsupported" in cat or "unsupported" in (c.get("description") or "").lower() or "recursion" in (c.get("description") or "").lower()
                (bad if soft else fails).append(c)
            else: bad.append(c)
        res[h] = {"status": r.get("status"), "obligations": ok + len(fails) + len(bad), "discharged": ok, "fails": fails, "undecided": bad,
                  "covers": cov, "covers_all": covall, "ms": r.get("duration_ms"), "nchecks": len(cs)}
    return res

def playback(h):
    """concrete values for every failing check of one harness"""
    out = os.path.join(BUILD, "kani")
    cmd = ["cargo", "kani", "-p", "vh", "--features", ",".join(P["features"]), "-Z", "unstable-options", "-Z", "stubbing", "-Z", "concrete-playback", "--concrete-playback=print", "--output-format", "regular", "--exact", "--harness", h,
           "--harness-timeout", "300s"]
    rc, o, e = run(cmd, cwd=out, gb=20, timeout=330)
    with open(os.path.join(BUILD, "playback-" + h.replace("::", "-") + ".log"), "w") as f: f.write(o + e)
    vals = []
    for blk in re.findall(r"(?s)```(.*?)```", o):
        m = re.search(r"(?s)let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", blk)
        if not m: continue
        what = re.search(r"/// Check for `?([^`:\n]*)`?: \"?(.*)", blk)
        if what and "cover" in what.group(1): continue
        vs = re.findall(r"vec!\[([\d,\s]*)\]", m.group(1))
        hx = ",".join("".join("%02x" % int(b) for b in re.findall(r"\d+", v)) for v in vs)
        vals.append((what.group(2) if what else "?", hx))
    return vals

# ---------------------------------------------------------------- verus
def verus_unit(u):
    tpl = os.path.join(HERE, "verus", u + ".rs.in")
    d = os.path.join(BUILD, "verus"); os.makedirs(d, exist_ok=True)
    outp = os.path.join(d, u + ".rs")
    t = time.time()
    try:
        txt, rep = vx.build(tpl)
    except vx.Lost as ex:
        note("verus unit %s: extraction lost its anchor (undecided): %s" % (u, ex))
        return {"status": "undecided", "why": "extraction: %s" % ex}
    with open(outp, "w") as f: f.write(txt)
    cmd = [VERUS, outp, "--output-json", "--time", "--num-threads", "4", "--rlimit", "60", "--multiple-errors", "5"]
    rc, o, e = run(cmd, timeout=400, gb=24, cwd=d)
    with open(os.path.join(d, u + ".log"), "w") as f: f.write(o + e)
    r = {"cmd": "verus %s.rs --rlimit 60" % u, "report": rep, "wall": round(time.time() - t, 1)}
    try:
        j = json.loads(o[o.index("{"):])
        vr = j["verification-results"]
    except Exception:
        note("verus unit %s: no result (undecided): %s" % (u, e[-500:]))
        return dict(r, status="undecided", why="no result: " + e[-500:])
    r.update(verified=vr.get("verified", 0), errors=vr.get("errors", 0))
    try: r["smt_ms"] = j["times-ms"]["smt"]["total"]
    except Exception: pass
    # assumed contracts in the generated text
    r["external"] = sorted(set(re.findall(r"(?s)#\[verifier::external_body\].{0,300}?fn (\w+)", txt)))
    r["external"] += sorted(set(re.findall(r"assume_specification[^\[]*\[\s*(.+?)\s*\]\(", txt)))
    r["assumes"] = len(re.findall(r"\bassume\s*\(|\badmit\s*\(", txt))
    if vr.get("success") and r["errors"] == 0 and r["verified"] > 0:
        return dict(r, status="ok")
    if vr.get("encountered-vir-error") or r["errors"] == 0:
        note("verus unit %s: not accepted (undecided): %s" % (u, e[:600]))
        return dict(r, status="undecided", why="front end: " + e[:1500])
    # the front end accepted the text; look at the kinds of failure
    kinds = re.findall(r"(?m)^error: (.*)$", e)
    hard = [k for k in kinds if not re.search(r"rlimit|Resource limit|aborting|timed out|could not finish", k, re.I)]
    if not hard:
        note("verus unit %s: resource limit (undecided)" % u)
        return dict(r, status="undecided", why="resource limit")
    return dict(r, status="failed", kinds=hard, output=e[:8000])

# ---------------------------------------------------------------- main
def tier(key):
    v = list(P.get(key, []))
    if TIER != "quick": v += P.get(key + "_thorough", [])
    return v

def write_replay(kind, data):
    os.makedirs(REPLAYS, exist_ok=True)
    f = os.path.join(REPLAYS, "%s.json" % PID)
    data = dict({"property": PID, "kind": kind, "repeat_with": "python3 /verif/tools/replay.py " + f, "features": P["features"]}, **data)
    with open(f, "w") as g: json.dump(data, g, indent=1)
    return f

def known():
    f = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) harness=(\S+) (.*)", l.strip())
            if m and m.group(1) == PID: out.append((m.group(2), m.group(3)))
    return out

def main():
    os.makedirs(BUILD, exist_ok=True)
    th = []
    hn_state = {}
    def t_native():
        if not native_build(): return
        ls = native_list()
        hn_state["list"] = ls
        kf = {h for h, _ in known()}
        names = [h for h in ls if any(re.fullmatch(p, h) for p in P["harness"]) and h not in kf]
        hn_state["names"] = names
        miss = [h for h in tier("kani") if h not in ls]
        if miss: note("no such harness: %s" % miss)
        secs = P.get("native_secs", 8 if TIER == "quick" else 60)
        if TIER != "quick": secs = max(secs, 60)
        R["native"].update(native_all(names, secs, SEED, P.get("native_par", 4)))
        log("native done", {h: r.get("evals") for h, r in R["native"].items()})
    def t_kani():
        hs = tier("kani")
        if not hs: return
        d = kani_all(hs)
        R["kani"].update(kani_digest(d, hs))
        for h in hs:
            if h not in R["kani"]:
                note("kani: no result for %s (undecided)" % h)
                R["kani"][h] = {"status": "none", "obligations": 0, "discharged": 0, "fails": [], "undecided": [{"description": "no result"}], "covers": 0, "covers_all": 0}
        log("kani done", {h: (r["status"], r["discharged"], r["obligations"], r["ms"] if "ms" in r else None) for h, r in R["kani"].items()})
    def t_verus():
        for u in tier("verus"):
            R["verus"][u] = verus_unit(u)
            log("verus", u, {k: v for k, v in R["verus"][u].items() if k in ("status", "verified", "errors", "why", "kinds")})
    for f in (t_native, t_kani, t_verus):
        t = threading.Thread(target=f); t.start(); th.append(t)
    for t in th: t.join()

    viol = None
    if VHRUN is None:
        print("ERROR property=%s the harness does not build against the current tree; nothing decided" % PID)
        evidence(hn_state, 0)
        return 2
    # 1. executed contract fails on the real code
    for h, r in R["native"].items():
        if "fail" in r and viol is None:
            arg = r.get("vals")
            bias = r.get("bias")
            if bias is None: bias = hn_state["list"][h][1]
            if arg is None: arg = "rng:%d:%d" % (r["rng"], bias)
            bad, txt = replay_vals(h, arg)
            if not bad and r.get("vals") is not None:
                arg = "rng:%d:%d" % (r["rng"], bias); bad, txt = replay_vals(h, arg)
            sched = h in P.get("schedules", [])
            for _ in range(30 if sched and not bad else 0):
                bad, txt = replay_vals(h, arg)
                if bad: break
            if not bad and sched:
                # the outcome depends on the schedule, which the values do not fix; what was observed stands
                bad, txt = True, "observed under one schedule; 30 repetitions took others"
            if not bad:
                note("native failure of %s did not repeat: %s" % (h, r["fail"])); continue
            viol = write_replay("failing-input", {"harness": h, "contract": r["fail"], "values": arg, "output": txt}) , ""
            log("native failure", h, r["fail"])
    # 2. a proof obligation fails in kani: replay the verifier's counterexample, then search
    pend = []
    if viol is None:
        for h, r in R["kani"].items():
            if r["fails"]:
                log("kani failure", h, [c.get("description") for c in r["fails"]][:5])
                got = None
                for what, hx in playback(h):
                    bad, txt = replay_vals(h, hx)
                    if bad: got = (what, hx, txt); break
                if got:
                    viol = write_replay("failing-input", {"harness": h, "contract": got[0], "values": got[1], "output": got[2], "found_by": "kani counterexample"}), ""
                    break
                pend.append(("kani", h, [{"description": c.get("description"), "function": c.get("function"), "location": c.get("location")} for c in r["fails"]][:10]))
    for u, r in R["verus"].items():
        if r["status"] == "failed": pend.append(("verus", u, {"kinds": r["kinds"], "output": r["output"]}))
    # 3. a proof failed without a replayable input: look for one on the real code for longer
    if viol is None and pend:
        names = hn_state.get("names", [])
        rest = max(5, min(60, (DEADLINE - time.time() - 60) / max(1, (len(names) + 5) // 6)))
        res = native_all(names, rest, SEED + 1000, 6)
        for h, r in res.items():
            if "fail" in r:
                bias = r.get("bias")
                if bias is None: bias = hn_state["list"][h][1]
                arg = r.get("vals") or "rng:%d:%d" % (r["rng"], bias)
                bad, txt = replay_vals(h, arg)
                if bad:
                    viol = write_replay("failing-input", {"harness": h, "contract": r["fail"], "values": arg, "output": txt, "found_by": "search after failed proof", "failed_obligations": pend}), ""
                    break
        if viol is None:
            viol = write_replay("failed-obligation", {"failed_obligations": pend}), " no-failing-input-found"
    # 4. listed findings
    for h, text in known():
        r = native_run(h, 3, SEED)
        R.setdefault("known", {})[h] = bool("fail" in r)
        if "fail" in r: print("KNOWN-FINDING: property=%s %s" % (PID, text))
    evidence(hn_state, 1 if viol else 0)
    if viol:
        print("VIOLATION property=%s replay=%s%s" % (PID, viol[0], viol[1]))
        return 1
    print("OK property=%s %.0fs" % (PID, time.time() - T0))
    return 0

def evidence(st, nviol):
    ls = st.get("list", {})
    kinds = lambda h: ls.get(h, ("full", 0))[0]
    full = {h: r for h, r in R["kani"].items() if kinds(h) == "full"}
    bnd = {h: r for h, r in R["kani"].items() if kinds(h) == "bounded"}
    vacuous = [h for h, r in R["kani"].items() if r["covers_all"] and r["covers"] < r["covers_all"]]
    ob = sum(r["obligations"] for r in full.values()); di = sum(r["discharged"] for r in full.values())
    vo = sum(r.get("verified", 0) + r.get("errors", 0) for r in R["verus"].values()); vd = sum(r.get("verified", 0) for r in R["verus"].values() if r["status"] == "ok")
    fns = {}
    subs, ext = {}, {}
    for u, r in R["verus"].items():
        rp = r.get("report") or {}
        fns[u] = rp.get("functions"); subs[u] = rp.get("substitutions"); ext[u] = {"external_body": r.get("external"), "assume_or_admit": r.get("assumes"), "items": rp.get("items")}
    ev = sum(r.get("evals", 0) for r in R["native"].values())
    samples = [{"harness": h, "values": s} for h, r in R["native"].items() for s in r.get("samples", [])[:1]][:6]
    cov = {
        "obligations": ob + vo, "discharged": di + vd,
        "checker_cmd": "python3 tools/run.py %s  [kani: %s] [verus: %s]" % (PID, R.get("kani_cmd", "-"), "; ".join("verus build/%s/verus/%s.rs --rlimit 60" % (PID, u) for u in R["verus"]) or "-"),
        "trusted_base": COMMON_TRUST + P.get("trust", []),
        "kani_full": {h: {k: r[k] for k in ("status", "obligations", "discharged", "covers", "covers_all", "ms") if k in r} for h, r in full.items()},
        "bounded_standins_kani": {h: {k: r[k] for k in ("status", "obligations", "discharged", "covers", "covers_all", "ms") if k in r} for h, r in bnd.items()},
        "undecided": [{"harness": h, "why": [c.get("description") for c in r["undecided"]][:3]} for h, r in R["kani"].items() if r["undecided"]] +
                     [{"verus": u, "why": r.get("why")} for u, r in R["verus"].items() if r["status"] == "undecided"],
        "verus": {u: {k: r.get(k) for k in ("status", "verified", "errors", "smt_ms", "wall")} for u, r in R["verus"].items()},
        "verus_functions_under_contract": fns, "verus_substitutions": subs, "verus_assumed": ext,
        "toolchain_rewrites": R["rewrites"].get("kani"),
        "executed_contracts_bounded": {h: {k: r.get(k) for k in ("evals", "distinct", "discarded", "checks", "covers", "wall")} for h, r in R["native"].items()},
        "evaluations": ev, "distinct_nontrivial": sum(r.get("distinct", 0) for r in R["native"].values()),
        "rule": "each executed case draws the harness' inputs from a seeded generator biased to boundary values; it counts when its precondition held and its input vector had not been seen in this run",
        "samples": samples,
        "vacuous_covers": vacuous,
        "not_proved": P.get("not_proved", ""),
    }
    e = {"property": PID, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": P.get("level", "proof"), "coverage": cov,
         "assumptions": P.get("assume", []) + R["notes"], "wall_s": round(time.time() - T0, 1), "violations": nviol}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, PID + ".json"), "w") as f: json.dump(e, f, indent=1)

if __name__ == "__main__":
    sys.exit(main())
