#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  check.py C01            run the check of one property (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE  run the case of a recorded violation again
  check.py --setup        build everything once

Builds the harness against /repo's working tree (race detector build and plain build,
both with the statement-level schedule perturbation overlay), runs its shards, merges
what the monitors saw, writes evidence/<id>.json and reports.
Exit 0: held. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
CLIENT = "github.com/QuangTung97/go-memcache/"

# plain shards, race shards (quick), per-shard time limits
DEFAULT = {"plain": 8, "race": 8}
SHARDS = {"C18": {"plain": 0, "race": 16}, "C31": {"plain": 8, "race": 0}, "C32": {"plain": 8, "race": 0}}
LEVELS = {"C10": "fault_enumeration", "C04": "fault_enumeration", "C09": "fault_enumeration"}
SHARD_LIMIT = {"quick": 420, "thorough": 5400}
DEADLINE = {"quick": 560, "thorough": 7200}
GRACE = 20  # s that running shards get once a violation decides


def env_go(extra=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOWORK="off")
    if extra:
        e.update(extra)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(work, variants=("plain", "race")):
    """Returns {variant: binary}, notes."""
    notes = []
    ov = os.path.join(work, "ov")
    os.makedirs(ov, exist_ok=True)
    instr = os.path.join(work, "instr")
    r = run(["go", "build", "-o", instr, "./cmd/instr"], cwd=HARNESS, env=env_go())
    overlay = None
    if r.returncode == 0:
        r = run([instr, REPO, ov], cwd=HARNESS, env=env_go())
        if r.returncode == 0:
            overlay = os.path.join(ov, "overlay.json")
    if overlay is None:
        notes.append("no perturbation overlay: " + r.stdout[-600:])

    def one(variant):
        out = os.path.join(work, "vh-" + variant)
        base = ["go", "build", "-o", out] + (["-race"] if variant == "race" else [])
        if overlay:
            r = run(base + ["-tags", "verifperturb", "-overlay", overlay, "."], cwd=HARNESS, env=env_go())
            if r.returncode == 0:
                return out, None, True
            first = r.stdout
        else:
            first = ""
        r = run(base + ["."], cwd=HARNESS, env=env_go())
        if r.returncode != 0:
            return None, r.stdout[-4000:], False
        return out, first[-600:], False

    bins, pert = {}, {}
    with cf.ThreadPoolExecutor(2) as ex:
        for v, (b, n, p) in zip(variants, ex.map(one, variants)):
            if b is None:
                print("harness does not build (%s):\n%s" % (v, n))
                sys.exit(2)
            if n:
                notes.append("%s build fell back to the uninstrumented sources: %s" % (v, n))
            bins[v] = b
            pert[v] = p
    return bins, pert, notes


FRAME = re.compile(r"^([\w./*()\-]+(?:\.[\w.*()\[\]\-]+)+)\(", re.M)


def client_frame_first(text):
    """In one goroutine's stack: is the innermost frame of ours the client's?"""
    for line in text.splitlines():
        line = line.strip()
        if line.startswith(CLIENT) and "verifY" not in line and "verifPoison" not in line:
            return True
        if line.startswith("main.") or line.startswith("verifharness/"):
            return False
    return False


def classify_crash(err):
    """None, or (is_client, headline, text)."""
    m = re.search(r"^(panic: .*|fatal error: .*|runtime: out of memory.*|SIGSEGV.*|unexpected fault address.*)$", err, re.M)
    if not m:
        return None
    head = m.group(1)
    rest = err[m.start():]
    g = re.search(r"^goroutine \d+ .*?:\n(.*?)(?:\n\n|\Z)", rest, re.M | re.S)
    stack = g.group(1) if g else rest[:4000]
    is_client = client_frame_first(stack)
    if not is_client and re.match(r"fatal error: (concurrent map|all goroutines|sync:|checkptr)", head):
        is_client = CLIENT in stack
    return is_client, head, rest[:6000]


def races(path_prefix):
    """Data race reports: (in client, text)."""
    out = []
    d, b = os.path.split(path_prefix)
    for f in sorted(os.listdir(d)):
        if not f.startswith(b + "."):
            continue
        txt = open(os.path.join(d, f), errors="replace").read()
        for rep in txt.split("=================="):
            if "WARNING: DATA RACE" not in rep:
                continue
            parts = re.split(r"\n\n", rep)
            acc = [p for p in parts if re.search(r"(Read|Write|read|write) at 0x|Previous (read|write|atomic)", p)]
            out.append((any(client_frame_first(p) for p in acc[:2]), rep.strip()))
    return out


def race_sig(rep):
    fs = [l.strip().split("(")[0] for l in rep.splitlines() if l.strip().startswith(CLIENT)]
    return " / ".join(fs[:4])


def load_findings():
    known = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            m = re.match(r"known: property=(\S+) kind=(\S+) match=/(.*?)/ (.*)$", line)
            if m:
                known.append({"prop": m[1], "kind": m[2], "re": re.compile(m[3]), "what": m[4]})
    return known


def listed(x, prop, known):
    return next((k for k in known if k["prop"] == prop and k["kind"] == x["kind"] and
                 k["re"].search(x["case"] + " " + x["msg"])), None)


def fresh_violation(out, prop, known):
    """Whether a running shard has already reported a violation that is not a known finding."""
    try:
        vs = json.load(open(out)).get("violations") or []
    except (OSError, ValueError):
        return False
    return any(not listed(x, prop, known) for x in vs)


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if not args:
        print(__doc__)
        return 2
    work = tempfile.mkdtemp(prefix="vh-")
    try:
        if args[0] == "--setup":
            bins, _, notes = build(work)
            for n in notes:
                print("note:", n)
            r = run([bins["plain"], "-list"])
            print("built; properties:", r.stdout.strip())
            return 0
        if args[0] == "--replay":
            return replay(args[1], work)
        prop = args[0]
        if "--tier" in args:
            tier = args[args.index("--tier") + 1]
        only = args[args.index("--only") + 1] if "--only" in args else ""
        return check(prop, tier, seed, work, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path, work):
    r = json.load(open(path))
    bins, _, _ = build(work, (r["variant"],))
    for i in range(int(os.environ.get("REPLAY_TRIES", "20"))):
        out = os.path.join(work, "replay.json")
        p = subprocess.run([bins[r["variant"]], "-prop", r["property"], "-tier", r["tier"], "-seed", str(r["seed"]),
                            "-only", r["case"], "-out", out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           text=True, errors="replace", env=env_go({"GOTRACEBACK": "all"}), cwd=work)
        c = classify_crash(p.stderr)
        if c or "DATA RACE" in p.stderr:
            print(p.stderr[:8000])
            return 1
        if os.path.exists(out):
            v = json.load(open(out)).get("violations") or []
            if v:
                print(json.dumps(v[0], indent=1))
                return 1
    print("not reproduced (schedules differ between runs)")
    return 0


def check(prop, tier, seed, work, only):
    t0 = time.time()
    cfg = SHARDS.get(prop, DEFAULT)
    variants = [v for v in ("plain", "race") if cfg[v]]
    bins, pert, notes = build(work, variants)
    build_s = time.time() - t0
    jobs = []
    for i in range(max(cfg.values())):
        for v in variants:
            if i < cfg[v]:
                jobs.append((v, i, cfg[v]))
    deadline = t0 + DEADLINE[tier]
    stop = threading.Event()
    stopped_at = []
    known = load_findings()

    def shard(job):
        v, i, n = job
        if stop.is_set():
            return {"job": job, "skipped": True}
        out = os.path.join(work, "out-%s-%d.json" % (v, i))
        racelog = os.path.join(work, "race-%s-%d" % (v, i))
        sd = seed * 2 + (1 if v == "race" else 0)
        cmd = [bins[v], "-prop", prop, "-tier", tier, "-seed", str(sd), "-shard", str(i), "-shards", str(n), "-out", out]
        if only:
            cmd += ["-only", only]
        env = env_go({"GOTRACEBACK": "all", "GORACE": "log_path=%s halt_on_error=0 exitcode=0 history_size=3" % racelog})
        errp = out + ".stderr"
        limit = max(20, min(SHARD_LIMIT[tier], deadline - time.time()))
        timed_out = cut = False
        with open(errp, "w") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=work)
            began = time.time()
            while True:
                try:
                    p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if not stop.is_set() and fresh_violation(out, prop, known):
                    stop.set()
                if stop.is_set() and not stopped_at:
                    stopped_at.append(time.time())
                cut = bool(stopped_at) and time.time() > stopped_at[0] + GRACE
                timed_out = time.time() > began + limit
                if cut or timed_out:
                    p.kill()
                    p.wait()
                    break
        err = open(errp, errors="replace").read()
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                pass
        case = ""
        if os.path.exists(out + ".case"):
            case = open(out + ".case").read()
        dist = b""
        if os.path.exists(out + ".dist"):
            dist = open(out + ".dist", "rb").read()
        r = {"job": job, "seed": sd, "rc": p.returncode, "err": err, "res": res, "case": case, "dist": dist,
             "timed_out": timed_out, "cut": cut, "races": races(racelog) if v == "race" else []}
        if (res and any(not listed(x, prop, known) for x in res.get("violations") or [])) or (p.returncode != 0 and classify_crash(err)) or \
           (prop == "C18" and any(c for c, _ in r["races"])):
            stop.set()  # a violation decides; do not start further shards
        return r

    with cf.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(shard, jobs))

    ev, dist, counters = 0, set(), {}
    samples, rule, exhaustive, incon, others = [], "", [], [], []
    violations, errors = [], []
    nraces = 0
    race_seen = {}
    for r in results:
        if r.get("skipped"):
            continue
        v, i, _ = r["job"]
        res = r["res"]
        if res:
            ev += res["evaluations"]
            rule = res["rule"] or rule
            for k, n in (res.get("counters") or {}).items():
                counters[k] = max(counters.get(k, 0), n) if k.startswith("max_") else counters.get(k, 0) + n
            samples += (res.get("samples") or [])[:2]
            exhaustive += res.get("exhaustive") or []
            incon += res.get("inconclusive") or []
            others += res.get("others") or []
            for x in res.get("violations") or []:
                violations.append(dict(x, variant=v, seed=r["seed"]))
        for (h,) in struct.iter_unpack("<Q", r["dist"][: len(r["dist"]) // 8 * 8]):
            dist.add(h)
        for c, rep in r["races"]:
            nraces += 1
            if prop == "C18":
                if c:
                    s = race_sig(rep)
                    if s not in race_seen:
                        race_seen[s] = 1
                        violations.append({"prop": prop, "kind": "data-race", "case": r["case"], "variant": v,
                                           "seed": r["seed"], "msg": "data race in the client: " + s, "detail": rep[:6000]})
                else:
                    errors.append("data race inside the harness:\n" + rep[:3000])
        if r["rc"] != 0:
            c = classify_crash(r["err"])
            if c and c[0]:
                violations.append({"prop": prop, "kind": "crash", "case": r["case"], "variant": v, "seed": r["seed"],
                                   "msg": "the client crashed the process: " + c[1], "detail": c[2]})
            elif r["cut"]:
                pass
            elif r["timed_out"]:
                incon.append("%s shard %d was stopped by the time limit in case %s" % (v, i, r["case"]))
            elif not (res and res.get("complete")):
                errors.append("%s shard %d ended with %s in case %s: %s" % (v, i, r["rc"], r["case"], r["err"][-3000:]))
        elif not res and not r["cut"]:
            errors.append("%s shard %d wrote no result: %s" % (v, i, r["err"][-1500:]))

    fresh, seen_known = [], {}
    for x in violations:
        k = listed(x, prop, known)
        if k:
            seen_known[k["what"]] = seen_known.get(k["what"], 0) + 1
        else:
            fresh.append(x)

    samples = samples[:8]
    cov = {"evaluations": ev, "distinct_nontrivial": len(dist), "rule": rule or "see DESIGN.md", "samples": samples,
           "observed": dict(sorted(counters.items())), "build_variants": {v: {"shards": cfg[v], "perturbed": pert[v]} for v in variants},
           "build_s": round(build_s, 1)}
    if exhaustive:
        cov["enumerated_completely"] = sorted(set(exhaustive))
    if incon:
        cov["inconclusive"] = incon[:10]
    if notes:
        cov["notes"] = notes
    if nraces:
        cov["race_reports"] = nraces
    if others:
        cov["other_properties_suspected"] = ["%s %s: %s" % (o["prop"], o["kind"], o["msg"][:200]) for o in others[:5]]
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": LEVELS.get(prop, "exploration"), "coverage": cov,
                "assumptions": ["the fake server and the in-memory connections behave like memcached and TCP in what the client can observe",
                                "schedules are sampled, not enumerated"],
                "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for k in known:
        if k["prop"] == prop and k["what"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s seed=%d: %d evaluations, %d distinct, %.1f s (build %.1f s)" % (prop, tier, seed, ev, len(dist), time.time() - t0, build_s))
    for k, n in sorted(counters.items()):
        print("  %-40s %d" % (k, n))
    for o in others[:5]:
        print("  note: may concern another property: %s %s %s: %s" % (o["prop"], o["kind"], o["case"], o["msg"][:300]))
    for x in incon[:5]:
        print("  inconclusive:", x[:400])
    if fresh:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        x = fresh[0]
        path = os.path.join(rd, "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", x["case"]), os.getpid()))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": x["seed"], "variant": x["variant"], "case": x["case"],
                       "kind": x["kind"], "msg": x["msg"], "detail": x.get("detail", ""), "all": fresh[:20],
                       "how": "python3 check.py --replay <this file>"}, f, indent=1)
        for x in fresh[:6]:
            print("  %s [%s] case %s (%s, seed %s): %s" % (x["prop"], x["kind"], x["case"], x["variant"], x["seed"], x["msg"][:1200]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("CHECK ERROR:\n" + "\n".join(errors[:3]))
        return 2
    if ev == 0:
        print("CHECK ERROR: nothing was evaluated")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
