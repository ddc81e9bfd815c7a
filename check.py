#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree.

 1. expand /repo (cfgs resolved, macros expanded) and extract the functions
    under contract into one Verus file (tools/vx, rules in DESIGN.md);
 2. let Verus discharge every obligation of every function;
 3. a failed obligation in the property's cone is a violation; the bounded
    search (search/, oracle translated from the same specification text) looks
    for an input that shows it on the real code;
 4. functions the verifier could not take in (changed beyond the extraction's
    reach) are *undecided*: the bounded search stands in and the evidence says so.
"""
import json, os, re, shutil, subprocess, sys, threading, time, glob, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()
sys.path.insert(0, os.path.join(VERIF, "tools"))
from cones import CONE, NO_RECURSION, CONTRACTS, PRELUDE, THEOREMS, D_CONTRACTS, D_PRELUDE, NOTES  # noqa: E402

BUILD = os.path.join(VERIF, "build")
KNOWN = os.path.join(VERIF, "known-findings.txt")
OBLIGATION = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "possible arithmetic", "decreases not satisfied", "possible division", "could not prove termination",
              "may fail to meet its declared", "assert_by_contradiction", "bitvector", "possible bit shift", "assertion not satisfied",
              "unable to prove", "cannot show", "constructed value may fail", "recommendation not met", "possible invalid",
              "not provably", "loop ensures", "failed precondition", "might not be allowed", "unwind", "unreachable")


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout=600, env=None, cwd=None, stdout=subprocess.PIPE, stderr=subprocess.PIPE):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=stdout, stderr=stderr, env=e, cwd=cwd, start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, (o or b"").decode("utf8", "replace"), (er or b"").decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, er = p.communicate()
        return -999, (o or b"").decode("utf8", "replace"), (er or b"").decode("utf8", "replace")


def die(msg):
    print("check error:", msg, flush=True)
    sys.exit(2)


def build_vx():
    r, o, e = sh(["cargo", "build", "--offline", "--release", "--target-dir", BUILD + "/vx"], cwd=VERIF + "/tools/vx")
    if r:
        die("vx does not build:\n" + e[-3000:])
    return BUILD + "/vx/release/vx"


def expand(run, name, cfg, feats):
    tgt = run + "/exp-" + name
    shutil.rmtree(tgt, ignore_errors=True)
    r, o, e = sh(["cargo", "+nightly", "rustc", "--offline", "--lib", "--no-default-features"] + feats + ["--target-dir", tgt, "--", "-Zunpretty=expanded"],
                 cwd=REPO, env={"RUSTFLAGS": cfg})
    shutil.rmtree(tgt, ignore_errors=True)
    if r or not o.strip():
        die("/repo does not compile (%s):\n%s" % (name, e[-3000:]))
    path = run + "/%s.rs" % name
    open(path, "w").write(o)
    return path


# the configurations whose source is verified: the fallback implementation on
# its own, behind the dispatch of wrapper.rs (imp), outside of a macro, and the
# default one (wrapper.rs, no span locations)
PROOF = {
    "A": ("--cfg procmacro2_semver_exempt", []),
    "B": ("--cfg procmacro2_semver_exempt", ["--features", "proc-macro,span-locations"]),
    "C": ("", ["--features", "proc-macro"]),
}
MARK = {"A": "", "B": " (wrapped)", "C": " (default)"}
# C16, on its own: the dispatch with both sides opaque, of the source of B
INSIDE = {"D": PROOF["B"]}
CONFIGS = {
    # span locations on, fallback only, unstable interface on
    "A": ("--cfg procmacro2_semver_exempt", "spans,exempt"),
    # what a user of the crate gets with span-locations: wrapper dispatch
    "B": ("", "pm,loc,spans"),
    # defaults: wrapper dispatch, no locations
    "C": ("", "pm"),
}


# the cases of C16 run inside rustc, as a procedural macro: toolchain, flags, features
INMAC = {
    "N": ("nightly", "--cfg procmacro2_semver_exempt", "loc,exempt"),
    "L": ("stable", "", "loc"),
    "S": ("stable", "", ""),
}


def build_inside(run, name, res):
    tc, flags, feats = INMAC[name]
    tgt = BUILD + "/inmac-" + name
    r, o, e = sh(["cargo", "+" + tc, "build", "--offline", "--features", feats, "--target-dir", tgt], cwd=VERIF + "/search/inmac", env={"RUSTFLAGS": flags})
    if r:
        res[name] = None
        log("macro of the search, configuration", name, "does not build:", e[-1500:])
        return
    d = run + "/inmac-" + name
    os.makedirs(d)
    shutil.copy(tgt + "/debug/libinmac.so", d + "/libinmac.so")
    res[name] = d


def inside(d, name, **kw):
    """one run of the macro inside rustc: status, outcome, what rustc said"""
    out = d + "/outcome"
    if os.path.exists(out):
        os.remove(out)
    env = {"INMAC_OUT": out}
    env.update({"INMAC_" + k: str(v) for k, v in kw.items()})
    r, o, e = sh(["rustc", "+" + INMAC[name][0], "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-o", d + "/driver.rmeta",
                  VERIF + "/search/inmac/driver.rs", "--extern", "inmac=" + d + "/libinmac.so"], env=env, timeout=kw.get("SECS", 10) * 4 + 60)
    return r, open(out).read() if os.path.exists(out) else "", e


def search_inside(d, name, secs, seed):
    r, o, e = inside(d, name, SECS=secs, SEED=seed)
    w = o.split()
    cases = int(w[1]) if len(w) > 1 else 0
    if w and w[0] == "FOUND":
        return {"cfg": name, "cases": cases, "detail": o.strip(), "found": ("inside %s %s\n" % (w[2], w[3]), o.split("\n", 1)[1].strip())}
    if w and r == 0:
        return {"cfg": name, "cases": cases, "detail": o.strip(), "found": None}
    if not w:  # rustc died, or the case does not come back
        cur = open(d + "/outcome.cur").read() if os.path.exists(d + "/outcome.cur") else ""
        if cur:
            r, o, e = inside(d, name, CASE=cur)
            if not o:
                return {"cfg": name, "cases": 0, "detail": e[-300:], "found": ("inside %s\n" % cur, "rustc is ended, or does not come back: " + e[-300:])}
        return {"cfg": name, "cases": 0, "detail": "rustc ended with %s: %s" % (r, e[-300:]), "found": None}
    # no case fails but the compiler reported an error: it was asked what it must not be asked
    lo, n = 0, cases
    while n > 1:
        h = n // 2
        if inside(d, name, SEED=seed, SKIP=lo, COUNT=h)[0]:
            n = h
        else:
            lo, n = lo + h, n - h
    r, o, e = inside(d, name, SEED=seed, SKIP=lo, COUNT=1)
    cur = open(d + "/outcome.cur").read()
    if r:
        return {"cfg": name, "cases": cases, "detail": e[:300], "found": ("inside %s\n" % cur, "the compiler reports an error: " + e[:200])}
    return {"cfg": name, "cases": cases, "detail": "rustc reports an error: " + e[:300], "found": None}


def build_search(run, oracle, name, res):
    flags, feats = CONFIGS[name]
    tgt = BUILD + "/search-" + name
    r, o, e = sh(["cargo", "build", "--offline", "--release", "--features", feats, "--target-dir", tgt], cwd=VERIF + "/search",
                 env={"RUSTFLAGS": flags, "VX_ORACLE": oracle})
    if r:
        res[name] = None
        log("search configuration", name, "does not build:", e[-1500:])
        return
    dst = run + "/search-" + name
    shutil.copy(tgt + "/release/search", dst)
    res[name] = dst


def unesc_ok(s):
    return s.isprintable() and len(s) < 40


def dictionary(run):
    chars, strs, nums = set(), set(), set()
    for f in glob.glob(REPO + "/src/**/*.rs", recursive=True):
        t = open(f, encoding="utf8").read()
        t = re.sub(r"^\s*//.*$", "", t, flags=re.M)
        for m in re.finditer(r"b?'((?:\\.[^']*|[^'\\\n]))'", t):
            chars.add(m.group(1))
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            if unesc_ok(m.group(1)):
                strs.add(m.group(1))
        for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|\d[\d_]*)\b", t):
            try:
                nums.add(int(m.group(1).replace("_", ""), 0))
            except ValueError:
                pass
    path = run + "/dict"
    with open(path, "w") as f:
        def fix(s):
            s = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: "\\u{%s}" % m.group(1), s)
            return s.replace("\\0", "\\u{0}")
        for s in sorted(strs):
            f.write("s %s\n" % fix(s))
        for c in sorted(chars):
            f.write("c %s\n" % fix(c))
        for n in sorted(nums):
            f.write("n %d\n" % n)
    return path


def vx(run, vxbin, exp, tag, extra=(), theorems=False):
    out, mp = run + "/%s/out.rs" % tag, run + "/%s/map.json" % tag
    os.makedirs(os.path.dirname(out), exist_ok=True)
    con, pre = (D_CONTRACTS, D_PRELUDE) if tag.endswith("-D") else (CONTRACTS + (THEOREMS[1] if theorems else []), PRELUDE + (THEOREMS[0] if theorems else []))
    r, o, e = sh([vxbin, exp, out, mp, "--contracts", ",".join(VERIF + "/contracts/" + c for c in con),
                  "--prelude", ",".join(VERIF + "/prelude/" + c for c in pre)] + list(extra))
    if r:
        return None, None, e
    return out, json.load(open(mp)), ""


def verus(out, rlimit, timeout, errors=2, extra=()):
    cmd = ["verus", out, "--num-threads", "8", "--multiple-errors", str(errors), "--rlimit", str(rlimit), "--output-json", "--time-expanded"] + list(extra) + ["--", "--error-format=json"]
    r, o, e = sh(cmd, timeout=timeout, cwd=os.path.dirname(out))
    try:
        j = json.loads(o)
    except ValueError:
        j = None
    diags = []
    for l in e.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            if l.strip() and "panicked" in l:
                diags.append({"message": l, "spans": [], "level": "error"})
            continue
        if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
            diags.append(d)
    return {"rc": r, "json": j, "diags": diags, "cmd": " ".join(cmd), "stderr": e}


def attribute(d, mp, outname="out.rs"):
    """function whose text a diagnostic belongs to (primary spans first)"""
    spans = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
    hit = None
    for s in spans:
        if not s["file_name"].endswith(outname):
            continue
        for f in mp["functions"]:
            if f["first"] <= s["line_start"] <= f["last"]:
                if f["status"] != "ghost":
                    return f["id"], s["line_start"]
                hit = hit or (f["id"], s["line_start"])
    return hit or (None, 0)


def kind(msg):
    m = msg.lower()
    if "resource limit" in m or "timed out" in m or "timeout" in m:
        return "limit"
    if any(k in m for k in OBLIGATION):
        return "obligation"
    return "compile"


def text_at(out, line):
    try:
        return open(out).read().splitlines()[line - 1].strip()
    except IndexError:
        return ""


class Result:
    def __init__(self):
        self.failed = {}      # function -> [(message, line, text, rendered)]
        self.undecided = {}   # function -> reason
        self.verified = []    # functions
        self.ghost_failed = {}
        self.queries = 0
        self.solver_ms = 0
        self.slow = []
        self.cmd = ""
        self.out = None
        self.note = []
        self.theorems = []
        self.without = []
        self.all_undecided = None


def breakdown(j):
    for m in (j or {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            yield f


def base_id(f):
    """function id without contract variant and configuration"""
    return unmark(f).split("#")[0]


def unmark(f):
    for m in MARK.values():
        f = f.replace(m, "") if m else f
    return f


def prove_all(run, vxbin, tier, confs=PROOF):
    """all configurations at once; functions of those but the first are marked"""
    exps, ress = {}, {}

    def one(c):
        cfg, feats = confs[c]
        try:
            exps[c] = expand(run, "expanded-" + c, cfg, feats)
        except SystemExit:
            return
        ress[c] = prove(run, vxbin, exps[c], tier, c)

    ths = [threading.Thread(target=one, args=(c,)) for c in confs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if len(ress) != len(confs):
        die("/repo does not compile")
    first = next(iter(confs))
    a = ress[first]
    a.outs = [x.out for x in ress.values() if x.out]
    for c in confs:
        if c == first:
            continue
        b, mark = ress[c], MARK[c]
        for name in ("failed", "undecided"):
            x, y = getattr(a, name), getattr(b, name)
            for f, v in y.items():
                if not any(f + m in x for m in MARK.values()):
                    x[f + mark] = v
        a.verified += [f + mark for f in b.verified]
        a.without = sorted(set(a.without) | set(b.without))
        a.ghost_failed.update({f + mark: v for f, v in b.ghost_failed.items()})
        a.queries += b.queries
        a.solver_ms += b.solver_ms
        a.slow = sorted(a.slow + b.slow, reverse=True)[:15]
        a.cmd += " ; " + b.cmd
        if b.all_undecided:
            a.all_undecided = (a.all_undecided + "; " if a.all_undecided else "") + "configuration %s: %s" % (c, b.all_undecided)
    a.exps = exps
    return a


def prove(run, vxbin, exp, tier, config="A"):
    res = Result()
    stubs = {}
    conf = ["--config", config]
    theorems = config == "A"  # over contracts alone, the same in both
    for attempt in range(8):
        extra = conf + (["--stub", ";".join(sorted(stubs))] if stubs else [])
        out, mp, err = vx(run, vxbin, exp, "proof-" + config, extra, theorems)
        if out is None:
            res.all_undecided = "extraction failed: " + err.strip()[-500:]
            return res
        for k, v in mp["problems"].items():
            if "lost anchor" in v or k not in stubs:
                stubs.setdefault(k, v)
        v = verus(out, 40, 420)
        res.cmd, res.out = v["cmd"], out
        vr = (v["json"] or {}).get("verification-results")
        if vr is None or vr.get("encountered-vir-error") or "verified" not in vr or (v["diags"] and vr.get("verified", 0) == 0 and all(kind(d["message"]) == "compile" for d in v["diags"])):
            new, lost = {}, []
            for d in v["diags"]:
                if kind(d["message"]) != "compile":
                    continue
                f, _ = attribute(d, mp)
                st = next((x["status"] for x in mp["functions"] if x["id"] == f), None)
                if f is not None and st == "verify" and f not in stubs:
                    new[f] = "outside the verifier's reach: " + d["message"][:200]
                else:
                    lost.append(d["message"][:200])
            # a name that is not found is mostly the consequence of another error
            first = {f: m for f, m in new.items() if ": cannot find" not in m and ": unresolved" not in m}
            new = first or new
            if not new and theorems:
                theorems = False
                res.note.append("theorems do not fit the contracted functions: " + "; ".join(lost[:2]))
                log(res.note[-1])
                continue
            if not new:
                res.all_undecided = "the extracted file is not accepted: " + "; ".join(lost[:3] or [v["stderr"][-300:]])
                res.undecided.update(stubs)
                return res
            log("undecided (verifier does not accept the text):", new)
            stubs.update(new)
            continue
        break
    else:
        res.all_undecided = "too many functions outside the verifier's reach"
        return res
    status = {f["id"]: f["status"] for f in mp["functions"]}
    res.without = mp["without_contract"]
    res.theorems = re.findall(r"\bfn (t\d\d_\w+|lemma_round_trip|lemma_source_placed)\b", open(out).read()) if theorems else []
    res.undecided.update(stubs)
    res.queries = vr["verified"] + vr["errors"]
    res.solver_ms += sum(f["time-micros"] for f in breakdown(v["json"])) // 1000
    res.slow = sorted(((f["time-micros"] // 1000, f["function"]) for f in breakdown(v["json"])), reverse=True)[:15]

    def classify(v, mp, out):
        bad = {}
        for d in v["diags"]:
            f, line = attribute(d, mp)
            bad.setdefault(f or "?", []).append((kind(d["message"]), d["message"], line, text_at(out, line), d.get("rendered", "")))
        return bad

    bad = classify(v, mp, out)
    redo = [f for f in bad if status.get(f) == "verify"]
    ghost = [f for f in bad if status.get(f) != "verify"]
    if bad:
        log("not discharged at first:", {f: sorted({m for _, m, *_ in b}) for f, b in bad.items()})
        # confirm on their own, with more resources; a proof found then counts
        out2, mp2, err = vx(run, vxbin, exp, "retry-" + config, conf + ["--verify", ";".join(redo) or "-", "--stub", ";".join(sorted(stubs))])
        for rlimit, timeout, seed in ((150, 300, None), (60, 90, 3), (60, 90, 11)):
            v2 = verus(out2, rlimit, timeout, errors=5, extra=["--smt-option", "smt.random_seed=%d" % seed] if seed else ())
            vr2 = (v2["json"] or {}).get("verification-results") or {}
            if "verified" in vr2 and not vr2.get("encountered-vir-error"):
                bad2 = classify(v2, mp2, out2)
                res.solver_ms += sum(f["time-micros"] for f in breakdown(v2["json"])) // 1000
                if seed is None:
                    bad = {f: bad2[f] for f in bad if f in bad2} | {f: bad2[f] for f in bad2}
                else:  # the same obligations, searched in another order
                    won = [f for f in bad if f not in bad2]
                    for f in won:
                        log("discharged with seed", seed, ":", f)
                        del bad[f]
                    for f in bad:
                        if not any(x[0] == "obligation" for x in bad[f]):
                            bad[f] = bad2[f]
            elif v2["rc"] == -999:
                log("retry timed out")
            if not bad:
                break
    for f, b in bad.items():
        obs = [x for x in b if x[0] == "obligation"]
        if status.get(f) == "verify":
            if obs:
                res.failed[f] = [(m, l, t, r) for _, m, l, t, r in obs]
            else:
                res.undecided[f] = "; ".join(sorted({x[1][:160] for x in b}))
        else:
            res.ghost_failed[f] = [x[1] for x in b]
    res.verified = [f for f, s in status.items() if s == "verify" and f not in res.failed and f not in res.undecided]
    return res


def canary(run, vxbin, exp, skip, config):
    """every body starts with assert(false); a body that still verifies is vacuous"""
    out, mp, err = vx(run, vxbin, exp, "canary-" + config, ["--config", config, "--canary", "1", "--stub", ";".join(sorted(skip))])
    if out is None:
        return None
    v = verus(out, 2, 400, errors=0)
    failed = {attribute(d, mp)[0] for d in v["diags"]}
    fns = [f["id"] for f in mp["functions"] if f["status"] == "verify"]
    return len(fns), [f for f in fns if f not in failed]


def trusted(out):
    """everything the verifier takes on faith, read off the file it was given"""
    t = open(out).read().splitlines()
    found = []
    for i, l in enumerate(t):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s or "external_fn_specification" in s or "external_type_specification" in s:
            for k in range(i, min(i + 8, len(t))):
                m = re.search(r"\b(fn|struct|enum|const)\s+(\w+)", t[k])
                if m:
                    found.append("%s %s (contract assumed)" % (m.group(1), m.group(2)))
                    break
        m = re.search(r"\baxiom fn (\w+)", s)
        if m:
            found.append("axiom %s" % m.group(1))
        m = re.search(r"assume_specification.*\[\s*(.*?)\s*\]", s)
        if m:
            found.append("std contract %s" % m.group(1))
        if re.search(r"\b(admit|assume)\s*\(", s):
            found.append("assume: " + s[:120])
        m = re.search(r"uninterp spec fn (\w+)", s)
        if m:
            found.append("uninterpreted %s" % m.group(1))
    return sorted(set(found))


def search(run, binary, cfg, prop, secs, seed, tier, dic):
    od = run + "/find-" + cfg
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    r, o, e = sh([binary, "find", prop, str(secs), str(seed), tier, dic, od], timeout=secs * 4 + 120)
    line = (o.strip().splitlines() or [""])[-1]
    w = line.split(" ", 2)
    cases = int(w[1]) if len(w) > 1 and w[1].isdigit() else 0
    if w[0] == "NONE":
        return {"cfg": cfg, "cases": cases, "detail": line, "found": None}
    if w[0] in ("FOUND", "HANG"):
        msg = w[2] if len(w) > 2 else "does not come back within 25 s"
        return {"cfg": cfg, "cases": cases, "detail": line, "found": (open(od + "/case").read(), msg)}
    # the process died: which case did it?
    log("search", cfg, "ended with", r, e[-300:])
    for f in sorted(glob.glob(od + "/cur.*")):
        body = open(f, errors="replace").read().split("// end")[0]
        open(od + "/one", "w").write(body)
        r2, o2, e2 = sh([binary, "replay", od + "/one", prop], timeout=60)
        if r2 != 0:
            return {"cfg": cfg, "cases": cases, "detail": line, "found": (body, "the process is ended by this case (status %s)" % r2 if r2 != 1 else o2.strip())}
    return {"cfg": cfg, "cases": 0, "detail": "search ended with %s: %s" % (r, e[-300:]), "found": None}


def judge(res, prop):
    """what the proof says about one property: failed, undecided, proved functions"""
    cone = [re.compile(c + r"\Z") for c in CONE[prop]]
    inc = lambda f: any(c.match(base_id(f)) for c in cone)
    failed = {f: v for f, v in res.failed.items() if inc(f)}
    und = {f: v for f, v in res.undecided.items() if inc(f)}
    proved = [f for f in res.verified if inc(f)]
    # functions that must not be part of a recursion: the verifier takes a
    # recursive function with a decreases clause only, and these have none
    rec = [re.compile(c + r"\Z") for c in NO_RECURSION.get(prop, [])]
    reci = lambda f: not inc(f) and any(c.match(base_id(f)) for c in rec)
    for f, v in res.undecided.items():
        if reci(f):
            if "recursive function must have a decreases clause" in v:
                failed[f] = [(v, 0, "the function is part of a recursion", v)]
            else:
                und[f] = v
    proved += [f for f in list(res.verified) + list(res.failed) if reci(f)]
    if res.all_undecided:
        und["(all)"] = res.all_undecided
    return failed, und, proved


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    run = BUILD + "/run-" + prop
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    vxbin = build_vx()
    mac = prop == "C16"
    oracle = run + "/oracle.rs"
    r, o, e = sh([vxbin, "--exec", oracle] + [VERIF + "/spec/%s.rs" % s for s in ("text", "pos", "lex", "value", "show")])
    if r:
        die("oracle: " + e)
    dic = dictionary(run)
    bins = {}
    if mac:
        ths = [threading.Thread(target=build_inside, args=(run, c, bins)) for c in INMAC]
    else:
        ths = [threading.Thread(target=build_search, args=(run, oracle, c, bins)) for c in CONFIGS]
    for t in ths:
        t.start()
    log("expanding and verifying")
    res = prove_all(run, vxbin, tier, INSIDE if mac else PROOF)
    for t in ths:
        t.join()
    if not any(bins.values()):
        die("the search crate does not build against /repo")
    failed, und, proved = judge(res, prop)
    for f, v in failed.items():
        log("FAILED", f, [x[0] + ": " + x[2] for x in v])
    for f, v in und.items():
        log("UNDECIDED", f, v)
    if res.ghost_failed:
        log("ghost text not proved (does not depend on /repo):", res.ghost_failed)
    log("proved %d functions of the cone, %d failed, %d undecided; %d queries" % (len(proved), len(failed), len(und), res.queries))

    # the bounded search: witness for a failed proof, stand-in for undecided
    # functions, and a check of the trusted base otherwise
    base = {"A": 8, "B": 4, "C": 3, "N": 8, "L": 5, "S": 4}
    if failed or und:
        base = {"A": 60, "B": 25, "C": 15, "N": 40, "L": 20, "S": 20}
    if tier == "thorough":
        base = {k: v * 6 for k, v in base.items()}
    found, runs = None, []
    for c in INMAC if mac else CONFIGS:
        if not bins.get(c):
            runs.append({"cfg": c, "cases": 0, "detail": "not built", "found": None})
            continue
        s = search_inside(bins[c], c, base[c], seed) if mac else search(run, bins[c], c, prop, base[c], seed, tier, dic)
        runs.append(s)
        log("search", c, s["detail"][:300])
        if s["found"]:
            found = (c,) + s["found"]
            break
    ax = None
    if bins.get("A"):
        r, o, e = sh([bins["A"], "axioms", str(seed)], timeout=120)
        ax = o.strip()
        log("assumed contracts on std, tried:", ax)
        if r:
            die("an assumed contract does not hold of the installed std: " + ax)
    can = None
    if tier == "thorough":
        cs = [canary(run, vxbin, res.exps[c], {unmark(f) for f in set(res.undecided) | set(res.failed)}, c) for c in (INSIDE if mac else PROOF)]
        can = (sum(c[0] for c in cs if c), sorted({f for c in cs if c for f in c[1]}))
        log("vacuity canary:", can)

    # --- verdict
    vio = None
    if found or failed:
        rdir = os.path.join(VERIF, "replay", "out")
        os.makedirs(rdir, exist_ok=True)
        vio = os.path.join(rdir, "%s.replay" % prop)
        with open(vio, "w") as f:
            f.write("// property %s\n" % prop)
            for fn, v in failed.items():
                for m, l, t, rend in v:
                    f.write("// failed obligation in %s: %s\n//   at: %s\n" % (fn, m, t))
                    for ln in rend.splitlines():
                        f.write("//   | %s\n" % ln)
            if failed:
                f.write("// verifier: %s\n" % res.cmd)
            if found:
                f.write("// configuration %s; replay: bash /verif/replay/replay.sh <this file>\n" % found[0])
                f.write("// what happens: %s\n" % found[2].replace("\n", " "))
                f.write(found[1])
            else:
                f.write("// no failing input found by the bounded search\n")
    trust = sorted({t for o in res.outs if os.path.exists(o) for t in trusted(o)})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": NOTES[prop]["level"],
        "coverage": {
            "explanation": NOTES[prop]["note"],
            "obligations": res.queries, "discharged": res.queries - sum(1 for _ in res.failed) - len(res.ghost_failed) if res.queries else 0,
            "checker_cmd": res.cmd, "backend": "Verus (Z3)", "solver_ms": res.solver_ms, "slowest_ms": res.slow,
            "trusted_base": trust,
            "functions_under_contract": len(res.verified) + len(res.failed) + len(res.undecided),
            "functions_of_the_crate_without_contract": res.without,
            "functions_proved_in_cone": proved,
            "functions_failed_in_cone": sorted(failed),
            "functions_undecided_in_cone": und,
            "theorems_over_the_contracts": res.theorems if not res.ghost_failed else {"stated": res.theorems, "not proved": res.ghost_failed},
            "not_proved_bounded_only": NOTES[prop]["bounded"],
            "assumed_contracts_tried": ax,
            "vacuity_canary": None if can is None else {"functions": can[0], "vacuous": can[1]},
            "bounded_search": {
                "evaluations": sum(s["cases"] for s in runs),
                "rule": "search/inmac, run inside rustc as a procedural macro: random values, spans, texts, stream histories and mixtures with forced fallback values, compared with proc_macro asked directly; bounded, not proof" if mac else "cases made by search/src/gen.rs for this property (exhaustive blocks of short texts/values, then random ones), judged by search/src/checks.rs against the oracle translated from spec/*.rs; bounded, not proof",
                "configurations": [{"config": s["cfg"], "cases": s["cases"], "outcome": s["detail"][:200]} for s in runs],
            },
        },
        "assumptions": NOTES["*"]["assumptions"] + NOTES[prop].get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if vio else 0,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known: property=%s " % prop):
                print("KNOWN-FINDING: " + l[len("known: "):].strip())
    if tier == "quick":
        shutil.rmtree(run, ignore_errors=True)
    if can and can[1]:
        die("vacuous contracts: %s" % can[1])
    if vio:
        print("VIOLATION property=%s replay=%s%s" % (prop, vio, "" if found else " no-failing-input-found"), flush=True)
        sys.exit(1)
    print("OK property=%s %s" % (prop, "proved" if not und else "(undecided functions covered by bounded search only)"), flush=True)
    sys.exit(0)


if __name__ == "__main__":
    main()
