#!/usr/bin/env python3
"""Runs the check of its property against every planted change in seeded/ and rewrites the table
in DESIGN.md (between the markers). Needs a clean /repo; leaves it as it was. Not a check.

usage: tools/sweep.py [--seed N] [--no-write] [ids...]"""
import json, os, re, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- sweep begin -->", "<!-- sweep end -->"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    args = sys.argv[1:]
    seed, write = "1", True
    if "--seed" in args:
        k = args.index("--seed"); seed = args[k + 1]; del args[k:k + 2]
    if "--no-write" in args:
        args.remove("--no-write"); write = False
    seeded = os.path.join(ROOT, "seeded")
    ids = args or sorted(os.listdir(seeded))
    if sh("git -C /repo status --short").stdout.strip():
        sys.exit("/repo is not clean")
    rows = []
    for i in ids:
        meta = json.load(open(os.path.join(seeded, i, "meta.json")))
        prop = meta["property"]
        if sh("git -C /repo apply %s/%s/patch.diff" % (seeded, i)).returncode:
            rows.append((prop, i, meta["needs"], "patch does not apply")); print(rows[-1], flush=True); continue
        t = time.time()
        try:
            p = sh("python3 check.py " + prop, cwd=ROOT, env=dict(os.environ, VERIF_SEED=seed))
        finally:
            sh("git -C /repo checkout -q -- .")
        m = re.search(r"^  %s \[([\w-]+)\] case ([\w-]+):" % prop, p.stdout, re.M)
        if p.returncode == 1 and "VIOLATION property=" + prop in p.stdout:
            how = "%s, `%s`%s" % (prop, m.group(2) if m else "?", ", " + m.group(1) if m else "")
        else:
            how = "MISSED (exit %d)" % p.returncode
        rows.append((prop, i, meta["needs"], how))
        print("%-28s %s %4.0fs %s" % (i, prop, time.time() - t, how), flush=True)
    rows.sort()
    if write and not args:
        f = os.path.join(ROOT, "DESIGN.md")
        s = open(f).read()
        table = "| change | needs | caught by (check, case family, oracle) |\n|---|---|---|\n" + "".join(
            "| %s | %s | %s |\n" % (i, n.replace("|", "/"), how) for _, i, n, how in rows)
        s = s[:s.index(BEGIN)] + BEGIN + "\n" + table + s[s.index(END):]
        open(f, "w").write(s)
    print("%d of %d caught" % (sum("MISSED" not in r[3] and "apply" not in r[3] for r in rows), len(rows)))


main()
