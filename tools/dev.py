#!/usr/bin/env python3
"""dev.py [-s SECONDS] [-p C01,C02] PATCH...   (development only)

Applies each patch to /repo, verifies once, reports which properties' checks
would raise an alarm and whether the search finds an input, then undoes it.
-s 0: the proof only.
"""
import sys, os, re, subprocess, threading, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
from cones import CONE


def inside(run, vxbin, secs):
    res = check.prove_all(run, vxbin, "quick", check.INSIDE)
    print("   C16 failed:", {f: [x[0] for x in v] for f, v in res.failed.items()}, "undecided:", res.undecided, res.all_undecided or "")
    bins, found = {}, None
    for c in check.INMAC if secs else ():
        check.build_inside(run, c, bins)
        if bins.get(c):
            r = check.search_inside(bins[c], c, secs / 3, 1)
            print("   C16 search", c, r["detail"][:200], flush=True)
            if r["found"]:
                break


def one(patch, secs, props):
    name = patch
    if patch != "-":
        subprocess.run(["git", "-C", "/repo", "apply", os.path.abspath(patch)], check=True)
    try:
        run = check.BUILD + "/run-dev"
        shutil.rmtree(run, ignore_errors=True)
        os.makedirs(run)
        vxbin = check.build_vx()
        oracle = run + "/oracle.rs"
        check.sh([vxbin, "--exec", oracle] + [check.VERIF + "/spec/%s.rs" % s for s in ("text", "pos", "lex", "value", "show")])
        dic = check.dictionary(run)
        bins = {}
        ths = [threading.Thread(target=check.build_search, args=(run, oracle, c, bins)) for c in check.CONFIGS if secs]
        for t in ths:
            t.start()
        if not secs and props == ["C16"]:
            print("==", name)
            inside(run, vxbin, 0)
            return
        res = check.prove_all(run, vxbin, "quick")
        for t in ths:
            t.join()
        print("==", name)
        print("   failed:", {f: [x[0] for x in v] for f, v in res.failed.items()})
        print("   undecided:", res.undecided, res.all_undecided or "")
        if res.ghost_failed:
            print("   ghost:", res.ghost_failed)
        if not secs:
            return
        for p in props or sorted(CONE):
            if p == "C16":
                inside(run, vxbin, secs)
                continue
            fs, us, _ = check.judge(res, p)
            fs, us = list(fs), [u for u in us if u != "(all)"]
            if not fs and not us and not props and not res.all_undecided:
                s = 3
            else:
                s = secs
            found = None
            for c in ("A", "B", "C"):
                if not bins.get(c):
                    continue
                r = check.search(run, bins[c], c, p, s if c == "A" else max(2, s / 3), 1, "quick", dic)
                if r["found"]:
                    found = (c, r["found"][1])
                    break
            v = "quiet" if not found and not fs else ("input found" if found else "no-failing-input-found")
            if v != "quiet" or us or props:
                print("   %s %-24s failed=%s undecided=%s %s" % (p, v, fs, us, (found or ("", ""))[1][:150]), flush=True)
    finally:
        if patch != "-":
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)


a = sys.argv[1:]
secs, props = 20, None
while a and a[0] in ("-s", "-p"):
    if a[0] == "-s":
        secs = int(a[1])
    else:
        props = a[1].split(",")
    a = a[2:]
for p in a:
    one(p, secs, props)
