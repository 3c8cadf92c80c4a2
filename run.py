#!/usr/bin/env python3
"""Check driver:  run.py PROPERTY --tier quick|thorough

Builds the property's harness from /repo's working tree, explores its spaces exhaustively in parallel shards, replays any
failing case alone before reporting it, and writes evidence/<property>.json.
Exit status: 0 held on everything explored; 1 violation (VIOLATION line printed); 2 the check itself could not run.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FFCL_REPO", "/repo")
INC = os.path.join(REPO, "include")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
SHARDS = 8
FLAGS = ["-std=c++17", "-O2", "-DNDEBUG", "-DVERBOSE=false", "-D_GLIBCXX_ASSERTIONS", "-w", "-I" + INC, "-I" + HARN]

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def fingerprint(cmd, sources):
    h = hashlib.sha256(repr(cmd).encode())
    files = list(sources)
    for root in (os.path.join(INC, "ffcl"), HARN):
        for d, _, fs in sorted(os.walk(root)):
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".hpp", ".h"))]
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def build(unit, san):
    """a unit may name fewer kinds of instantiation to fall back to when the tree no longer accepts all of them"""
    spent = 0.0
    for more in [[]] + unit.get("fallbacks", []):
        out, seconds = build_one(dict(unit, flags=unit.get("flags", []) + more), san)
        spent += seconds
        if out:
            break
    return out, spent


def build_one(unit, san):
    """compile one harness; returns (binary, seconds). Cached by the content of every input.
    A unit is one source, or several "parts" (source, flags) compiled apart and linked together."""
    parts = [(os.path.join(HARN, p), f) for p, f in unit.get("parts", [])] or [(os.path.join(HARN, unit["src"]), [])]
    cxx = unit.get("cxx", "g++")
    cmd = [cxx] + FLAGS + ([] if unit.get("threads") else ["-DTHREADS_ENABLED=false"]) + unit.get("flags", [])
    if san:
        cmd += ["-UNDEBUG", "-DMC_SAN", "-fsanitize=address", "-fno-omit-frame-pointer", "-O1", "-g1"]
    libs = unit.get("libs", [])
    fp = fingerprint(cmd + libs + parts, [p for p, _ in parts])
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, os.path.splitext(unit["src"])[0] + ("-san-" if san else "-") + fp)
    if os.path.exists(out):
        return out, 0.0
    t = time.time()
    tmp = out + ".tmp%d" % os.getpid()
    if len(parts) == 1:
        steps, objs = [cmd + parts[0][1] + [parts[0][0], "-o", tmp] + libs], []
    else:
        objs = ["%s.%d.o" % (tmp, i) for i in range(len(parts))]
        steps = [cmd + f + ["-c", p, "-o", o] for (p, f), o in zip(parts, objs)] + [[cxx, "-o", tmp] + objs + libs]
    ok = True
    for st in steps:
        r = subprocess.run(st, capture_output=True, text=True) if ok else r
        if r.returncode and ok:
            sys.stdout.write(" ".join(st) + "\n" + r.stderr[:6000] + "\n")
            ok = False
    for o in objs:
        if os.path.exists(o):
            os.remove(o)
    if not ok:
        return None, time.time() - t
    os.replace(tmp, out)
    return out, time.time() - t


def run_shard(job):
    binary, args, timeout, san = job
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "exitcode=97:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=6000:abort_on_error=0:detect_stack_use_after_return=0"
    try:
        r = subprocess.run([binary] + args, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        so = e.stdout or b""
        return "timeout", so.decode("utf8", "replace") if isinstance(so, bytes) else so, ""


def parse(out):
    res = {"fail": [], "known": [], "crash": [], "space": {}, "sample": [], "done": None}
    for line in out.splitlines():
        f = line.split("\t")
        if f[0] == "FAIL" and len(f) >= 5:
            res["fail"].append((f[1], int(f[2]), f[3], f[4]))
        elif f[0] == "KNOWN" and len(f) >= 5:
            res["known"].append((f[1], int(f[2]), f[3], f[4]))
        elif f[0] == "CRASH" and len(f) >= 4:
            res["crash"].append((f[1], int(f[2]), "crash", f[3]))
        elif f[0] == "SPACE":
            res["space"][f[1]] = [int(x) for x in f[2:6]]
        elif f[0] == "SAMPLE":
            res["sample"].append(f[1] + ": " + f[2])
        elif f[0] == "DONE":
            res["done"] = [int(x) for x in f[1:5]]
    return res


def known_for(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-check", action="store_true")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay", help="space:case  (runs one case of the first matching harness)")
    a = ap.parse_args()
    t0 = time.time()
    if a.self_check:
        r = subprocess.run(["g++", "--version"], capture_output=True, text=True)
        print(r.stdout.splitlines()[0] if r.returncode == 0 else "g++ is missing")
        missing = [s for c in CHECKS.values() for u in c["units"] for s in [u["src"]] + [p for p, _ in u.get("parts", [])] if not os.path.exists(os.path.join(HARN, s))]
        print("%d checks registered, missing sources: %s" % (len(CHECKS), missing))
        return 1 if r.returncode or missing else 0
    prop = a.property
    check = CHECKS[prop]
    limit = int(os.environ.get("MC_LIMIT") or (780 if a.tier == "quick" else 6 * 3600))
    known = known_for(prop)
    kargs = [x for sig, _ in known for x in ("--known", sig)]

    jobs = []  # (unit, san)
    for u in check["units"]:
        jobs.append((u, False))
        if u.get("san", True):
            jobs.append((u, True))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        builds = list(ex.map(lambda j: build(*j), jobs))
    if any(b is None for b, _ in builds):
        print("ERROR: harness does not compile against the current tree")
        return 2
    t_build = time.time() - t0

    shard_jobs, meta = [], []
    for (u, san), (b, _) in zip(jobs, builds):
        tier = "san" if san else a.tier
        nsh = u.get("shards", SHARDS)
        for i in range(nsh):
            args = ["--tier", tier, "--shard", str(i), "--shards", str(nsh)] + u.get("args", []) + kargs
            shard_jobs.append((b, args, max(60, limit - t_build), san))
            meta.append((u, san, b, tier))
    with cf.ThreadPoolExecutor(max_workers=SHARDS) as ex:
        results = list(ex.map(run_shard, shard_jobs))

    spaces, samples, fails, known_seen = {}, [], [], {}
    problems, outcomes, incomplete = [], 0, False
    for (u, san, b, tier), job, (rc, out, err) in zip(meta, shard_jobs, results):
        p = parse(out)
        for name, st in p["space"].items():
            key = name + ("[asan]" if san else "")
            cur = spaces.setdefault(key, [0, 0, 0, 0])
            cur[0] += st[0]
            cur[1] = max(cur[1], st[1])
            cur[2] += st[2]
            cur[3] += st[3]
        samples += p["sample"] if not san else []
        for k in p["known"]:
            known_seen.setdefault(k[2], k)
        for f in p["fail"] + p["crash"]:
            fails.append((f[0], f[1], f[2], f[3], b, tier, san, u, job))
        if p["done"]:
            outcomes += p["done"][2]
        elif rc == "timeout":
            incomplete = True
            problems.append("shard exceeded its time limit")
        elif not p["crash"] and not p["fail"]:
            problems.append("shard ended with status %s: %s" % (rc, (err or out)[-400:]))

    # replay candidates alone, smallest case first; a violation is only reported when the replay agrees
    confirmed = None
    fails.sort(key=lambda f: (f[6], f[1], f[0]))
    for f in fails[:12]:
        space, case, sig, msg, b, tier, san, u, job = f
        args = ["--tier", tier, "--shard", "0", "--shards", "1", "--replay", "%s:%d" % (space, case), "--hang", "60"]
        rc, out, err = run_shard((b, args + u.get("args", []) + kargs, 400, san))
        p = parse(out)
        hit = p["fail"] + p["crash"]
        if hit or rc == "timeout":
            confirmed = (f, hit[0] if hit else (space, case, sig, "does not terminate"), args, err)
            break
        problems.append("case %s:%d failed but its replay did not (%s)" % (space, case, msg[:200]))
    if fails and not confirmed:
        # state kept between cases: the history that led to the failure is the whole shard up to the case
        space, case, sig, msg, b, tier, san, u, job = fails[0]
        rc, out, err = run_shard((job[0], job[1] + ["--hang", "60"], job[2], job[3]))
        p = parse(out)
        hit = [h for h in p["fail"] + p["crash"] if h[:2] == (space, case)]
        if hit:
            confirmed = (fails[0], (hit[0][0], hit[0][1], hit[0][2], hit[0][3] + " (after the cases before it in the same process)"), job[1], err)

    wall = time.time() - t0
    total_cases = sum(s[0] for s in spaces.values())
    execs = sum(s[2] for s in spaces.values())
    steps = sum(s[3] for s in spaces.values())
    complete = all(s[0] == s[1] for s in spaces.values()) and not problems and not fails
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": total_cases, "transitions": steps, "traces_validated_against_impl": execs,
            "exhaustive": bool(complete), "distinct_outcomes": outcomes,
            "spaces": {k: {"cases": v[0], "size": v[1], "executions": v[2], "checked_operations": v[3]} for k, v in sorted(spaces.items())},
            "samples": samples[:40] or ["none"],
            "bounds": check["bounds"],
        },
        "wall_s": round(wall, 2), "build_s": round(t_build, 2),
        "violations": 1 if confirmed else 0,
        "known_findings": sorted(known_seen),
        "assumptions": check["assumptions"],
    }
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)

    for sig, text in known:
        if sig in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s %s: %d cases, %d executions, %d checked operations, %d distinct outcomes, %.1f s (build %.1f s)" % (prop, a.tier, total_cases, execs, steps, outcomes, wall, t_build))
    if confirmed:
        f, hit, args, err = confirmed
        rp = os.path.join(EVID, "replays")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.txt" % prop)
        with open(path, "w") as o:
            o.write("property: %s\nharness: harness/%s%s\nspace: %s\ncase: %d\nsignature: %s\nfailure: %s\n" % (prop, f[7]["src"], " (AddressSanitizer build)" if f[6] else "", hit[0], hit[1], hit[2], hit[3]))
            o.write("replay: %s %s\n" % (f[4], " ".join(args)))
            if err:
                o.write("\n" + err[:6000] + "\n")
        print("failure: [%s] %s" % (hit[2], hit[3][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        for x in problems[:5]:
            print("ERROR: " + x)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
