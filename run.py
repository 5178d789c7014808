#!/usr/bin/env python3
"""Build one property's generators from /repo's working tree, search for a violation, report.

  run.py PROPERTY            decide a property (VERIF_SEED, VERIF_TIER)
  run.py --replay FILE       re-execute a replay file against /repo's current tree
  run.py --setup             build every harness once (fills the object cache)
"""
import concurrent.futures, fnmatch, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
REPLAYS = os.path.join(VERIF, "replays")
sys.path.insert(0, VERIF)
from registry import PROPS, PKG_DEPS, CONFIGS  # noqa: E402
NCPU = min(8, os.cpu_count() or 8)
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:color=never:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:color=never",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:color=never:report_signal_unsafe=0:report_destroy_locked=0:detect_deadlocks=0",
}


def say(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


def includes():
    inc = ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "compat/include")]
    for d in sorted(glob.glob(REPO + "/*/include")):
        inc.append("-I" + d)
    return inc + ["-isystem", "/usr/include/eigen3"]


def lib_sources(pkgs):
    todo, seen = list(pkgs), []
    while todo:
        p = todo.pop(0)
        if p in seen:
            continue
        seen.append(p)
        todo += PKG_DEPS.get(p, [])
    out = []
    for p in seen:
        for f in sorted(glob.glob(f"{REPO}/{p}/src/lib/**/*.cpp", recursive=True)):
            b = os.path.basename(f)
            if "_w32" in b or "_win" in b:
                continue
            out.append(f)
    return out


def compiler(cfg):
    return cfg.get("cxx", "g++")


def compile_one(src, cfg, extra):
    """object file for src, cached by the hash of what the preprocessor makes of it"""
    cxx = compiler(cfg)
    flags = ["-std=c++14", "-w", "-pipe"] + cfg["flags"] + list(extra)
    cmd = [cxx] + flags + includes()
    r = subprocess.run(cmd + ["-E", "-P", src], capture_output=True)
    if r.returncode:
        raise BuildError(f"{src}: {r.stderr.decode(errors='replace')[:4000]}")
    key = hashlib.sha256(r.stdout + repr((cxx, flags)).encode()).hexdigest()[:40]
    obj = os.path.join(CACHE, key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = f"{obj}.{os.getpid()}.{hashlib.md5(src.encode()).hexdigest()[:6]}.tmp"
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True)
    if r.returncode:
        raise BuildError(f"{src}: {r.stderr.decode(errors='replace')[:4000]}")
    os.replace(tmp, obj)
    return obj


def targets(prop, tier):
    """(job, config name) pairs of a property"""
    out = []
    for job in PROPS[prop]["jobs"]:
        for c in job.get("configs", ["dbg", "rel"]):
            out.append((job, c))
    return out


def build(pairs, fuzz=False):
    os.makedirs(CACHE, exist_ok=True)
    units = {}
    for job, cname in pairs:
        cfg = dict(CONFIGS["fuzz"] if fuzz else CONFIGS[cname])
        if fuzz:
            cfg = dict(cfg, flags=cfg["flags"] + [f for f in CONFIGS[cname]["flags"] if f.startswith("-D")])
        srcs = [os.path.join(VERIF, "harness", job["src"])] + lib_sources(job.get("libs", []))
        srcs += [os.path.join(VERIF, "harness", s) for s in job.get("also", [])]
        units[(job["src"], cname)] = (cfg, srcs, tuple(job.get("flags", [])), job)
    work = {}
    for cfg, srcs, fl, job in units.values():
        for s in srcs:
            work[(s, json.dumps(cfg, sort_keys=True), fl)] = (s, cfg, fl)
    bins = {}
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        # harness files first: they are the slow ones
        items = sorted(work.items(), key=lambda kv: 0 if kv[0][0].startswith(VERIF) else 1)
        futs = {k: ex.submit(compile_one, *v) for k, v in items}
        objs = {k: f.result() for k, f in futs.items()}
        links = {}
        for uk, (cfg, srcs, fl, job) in units.items():
            ol = [objs[(s, json.dumps(cfg, sort_keys=True), fl)] for s in srcs]
            lf = job.get("link", ["-lpthread", "-lrt"])
            key = hashlib.sha256(repr((ol, cfg, lf)).encode()).hexdigest()[:40]
            exe = os.path.join(CACHE, key + ".exe")
            bins[uk] = exe
            if not os.path.exists(exe) and exe not in links:
                tmp = f"{exe}.{os.getpid()}.tmp"
                links[exe] = (tmp, ex.submit(subprocess.run, [compiler(cfg)] + cfg["flags"] + ol + ["-o", tmp] + lf, capture_output=True))
        for exe, (tmp, f) in links.items():
            r = f.result()
            if r.returncode:
                raise BuildError("link: " + r.stderr.decode(errors="replace")[:4000])
            os.replace(tmp, exe)
    return bins


def prune_cache(limit=3 << 30):
    try:
        fs = [(os.path.getatime(p), os.path.getsize(p), p) for p in glob.glob(CACHE + "/*")]
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    for _, size, p in sorted(fs):
        if tot <= limit:
            break
        try:
            os.unlink(p)
            tot -= size
        except OSError:
            pass


def known_entries():
    """KNOWN_FINDINGS lines: '<id> property=<p> <what>'; '#' comments; 'fixed: ...' suppress nothing"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            kid, prop, what = line.split(None, 2)
            out.append((kid, prop.split("=", 1)[1], what))
    return out


def env(extra=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["PBT_INCLUDES"] = " ".join(includes())
    e["PBT_REPO"] = REPO
    e["PBT_KNOWN"] = ",".join(k for k, _, _ in known_entries())
    e.update(extra or {})
    return e


def select(exe, patterns):
    r = subprocess.run([exe, "list"], capture_output=True, text=True, env=env())
    if r.returncode:
        raise BuildError("cannot list bodies: " + r.stderr[:2000])
    rows = [line.split("\t") for line in r.stdout.splitlines() if line.strip()]
    return [x for x in rows if any(fnmatch.fnmatch(x[0], p) for p in patterns)]


def run_property(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    pairs = targets(prop, tier)
    bins = build(pairs)
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    os.makedirs(REPLAYS, exist_ok=True)
    violations, knowns_hit = [], []
    try:
        # 1. known findings: run each listed reproduction against the real code
        mine = [(k, w) for k, p, w in known_entries() if p == prop]
        state = {}
        for job, cname in pairs:
            exe = bins[(job["src"], cname)]
            r = subprocess.run([exe, "known"], capture_output=True, text=True, env=env({"PBT_SCRATCH": scratch}), cwd=scratch, timeout=200)
            for line in r.stdout.splitlines():
                f = line.split("\t")
                if len(f) >= 2:
                    s = state.setdefault(f[0], [0, ""])
                    if f[1] == "1":
                        s[0] = 1
                        s[1] = f[2] if len(f) > 2 else ""
        for k, w in mine:
            if state.get(k, [0])[0]:
                say(f"KNOWN-FINDING: property={prop} {k}: {w}")
                knowns_hit.append(k)
            else:
                say(f"note: listed finding {k} was not reproduced on this tree")
        # 2. search
        seconds = spec.get("seconds", 10) if tier == "quick" else spec.get("thorough_seconds", 240)
        procs = []
        nw = max(1, spec.get("workers", NCPU))
        plan = []
        per = max(1, nw // len(pairs))
        rules, allsel = {}, {}
        for job, cname in pairs:
            exe = bins[(job["src"], cname)]
            rows = select(exe, job.get("only", ["*"]))
            if not rows:
                raise BuildError(f"no bodies for {prop} in {job['src']}")
            for n, _, rule in rows:
                rules[n] = rule
            allsel[(job["src"], cname)] = [x[0] for x in rows]
            k = job.get("share", 1) * per
            for _ in range(max(1, int(k))):
                plan.append((job, cname, exe, [x[0] for x in rows]))
        for w, (job, cname, exe, names) in enumerate(plan):
            out = os.path.join(scratch, f"w{w}")
            cmd = [exe, "run", "--seed", str(seed), "--worker", str(w), "--budget", str(seconds), "--out", out, "--only", ",".join(names)] + (["--racy"] if job.get("racy") else [])
            wd = os.path.join(scratch, f"d{w}")
            os.makedirs(wd, exist_ok=True)
            os.chmod(scratch, 0o755)
            os.chmod(wd, 0o777)
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".stderr", "wb"), env=env({"PBT_SCRATCH": wd, "PBT_WORKER": str(w)}), cwd=wd, start_new_session=True)
            procs.append((p, out, job, cname, exe))
        hard = time.time() + seconds + 120
        failed = []
        live = list(procs)
        while live:
            time.sleep(0.05)
            for t in list(live):
                rc = t[0].poll()
                if rc is None:
                    continue
                live.remove(t)
                if rc == 3:
                    failed.append(t)
                elif rc != 0:
                    raise BuildError(f"worker of {t[2]['src']} ended with {rc}: {open(t[1] + '.stderr', errors='replace').read()[:2000]}")
            if failed and live and not getattr(run_property, "grace", None):
                run_property.grace = time.time() + 2
            if (failed and time.time() > (run_property.grace or 0)) or time.time() > hard:
                for t in live:
                    kill_group(t[0])
                live = []
        run_property.grace = None
        for p, *_ in procs:
            kill_group(p)
        # 3. failures: shrink, confirm by replay, report
        unconfirmed = 0
        for p, out, job, cname, exe in failed[:4]:
            if violations:
                break
            v = confirm(prop, job, cname, exe, out + ".fail", scratch, seed, spec)
            if v:
                violations.append(v)
            else:
                unconfirmed += 1
        for f in sorted(glob.glob(os.path.join(scratch, "w*.unrepeated*")))[:50]:
            unconfirmed += 1
            if unconfirmed <= 2:
                say(f"note: a failure did not repeat, neither alone nor after the cases before it, and is not reported:")
                say("\n".join("  " + x for x in open(f, errors="replace").read().splitlines()[:12])[:1500])
        # 4. coverage-guided campaign on the same bodies (thorough tier)
        fuzz_runs = 0
        if tier == "thorough" and not violations and spec.get("fuzz", True):
            fuzz_runs, v = fuzz(prop, spec, pairs, seed, scratch, bins)
            if v:
                violations.append(v)
        # evidence
        write_evidence(prop, tier, seed, spec, procs, rules, t0, t_build, violations, knowns_hit, unconfirmed, fuzz_runs, seconds)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return violations


run_property.grace = None


def kill_group(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    try:
        p.wait(5)
    except Exception:
        pass


def confirm(prop, job, cname, exe, failfile, scratch, seed, spec):
    if not os.path.exists(failfile):
        return None
    e = env({"PBT_SCRATCH": scratch, "PBT_WORKER": "99"})
    small = os.path.join(scratch, "small.case")
    original = open(failfile, errors="replace").read()
    try:
        r = subprocess.run([exe, "shrink", "--file", failfile, "--out", small, "--budget", str(spec.get("shrink_seconds", 25))], capture_output=True, text=True, env=e, timeout=300, cwd=scratch)
    except subprocess.TimeoutExpired:
        r = None
    reps = 3
    for cand in ([small] if r and os.path.exists(small) else []) + [failfile]:
        n = reps if not job.get("racy") else 40
        try:
            rr = subprocess.run([exe, "replay", "--file", cand, "--reps", str(n)], capture_output=True, text=True, env=e, timeout=400, cwd=scratch)
        except subprocess.TimeoutExpired:
            continue
        ok = rr.returncode == 1 or (job.get("racy") and rr.returncode == 3)
        if ok:
            h = hashlib.sha256(open(cand, "rb").read()).hexdigest()[:12]
            path = os.path.join(REPLAYS, f"{prop}-{seed}-{h}.case")
            body = open(cand, errors="replace").read()
            if "# failure\n(not" in body or cand == failfile:
                body = body + "\n# replay output\n" + rr.stdout[-6000:]
            with open(path, "w") as f:
                f.write(f"property {prop}\nharness {job['src']}\nconfig {cname}\n" + body)
            say("\n".join("  " + x for x in body.splitlines()[:60]))
            say(f"VIOLATION property={prop} replay={path}")
            return path
    say(f"note: a failure of {job['src']} ({cname}) did not repeat on replay and is not reported:")
    say("\n".join("  " + x for x in original.splitlines()[:12])[:2500])
    return None


def fuzz(prop, spec, pairs, seed, scratch, bins):
    jobs = [(j, c) for j, c in pairs if c == pairs[0][1] and j.get("fuzz", True) and not j.get("racy")]
    if not jobs:
        return 0, None
    try:
        fb = build(jobs, fuzz=True)
    except BuildError as ex:
        say(f"note: coverage-guided build not available: {str(ex)[:300]}")
        return 0, None
    total, found = 0, None
    secs = spec.get("fuzz_seconds", 120)
    procs = []
    for i in range(NCPU):
        job, cname = jobs[i % len(jobs)]
        exe = fb[(job["src"], cname)]
        names = [x[0] for x in select(bins[(job["src"], cname)], job.get("only", ["*"])) ]
        d = os.path.join(scratch, f"corpus{i % len(jobs)}")
        os.makedirs(d, exist_ok=True)
        ff = os.path.join(scratch, f"fuzz{i}.fail")
        wd = os.path.join(scratch, f"f{i}")
        os.makedirs(wd, exist_ok=True)
        os.chmod(wd, 0o777)
        cmd = [exe, d, f"-seed={seed * 100 + i + 1}", f"-max_total_time={secs}", "-max_len=4096", "-len_control=20", "-timeout=40", "-rss_limit_mb=3000", "-print_final_stats=1", f"-artifact_prefix={wd}/"]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(ff + ".log", "wb"), env=env({"PBT_FAILFILE": ff, "PBT_ONLY": ",".join(names), "PBT_SCRATCH": wd, "PBT_WORKER": str(50 + i)}), cwd=wd, start_new_session=True)
        procs.append((p, ff, job, cname))
    end = time.time() + secs + 90
    for p, ff, job, cname in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            pass
        kill_group(p)
    for p, ff, job, cname in procs:
        for line in open(ff + ".log", errors="replace"):
            if line.startswith("stat::number_of_executed_units:"):
                total += int(line.split(":")[-1])
        if os.path.exists(ff) and not found:
            found = confirm(prop, job, cname, bins[(job["src"], cname)], ff, scratch, seed, spec)
    return total, found


def write_evidence(prop, tier, seed, spec, procs, rules, t0, t_build, violations, knowns_hit, unconfirmed, fuzz_runs, seconds):
    bodies, hashes, evals, disc, by_cfg = {}, set(), 0, 0, {}
    for p, out, job, cname, exe in procs:
        for f in sorted(glob.glob(out + ".part*.json")):
            try:
                d = json.load(open(f))
            except ValueError:
                continue
            for b in d["bodies"]:
                x = bodies.setdefault(b["name"], {"evaluations": 0, "nontrivial": 0, "discarded": 0, "labels": {}, "samples": []})
                x["evaluations"] += b["evals"]
                x["nontrivial"] += b["nontrivial"]
                x["discarded"] += b["discards"]
                for k, n in b["labels"].items():
                    x["labels"][k] = x["labels"].get(k, 0) + n
                if len(x["samples"]) < 2:
                    x["samples"] += b["samples"][: 2 - len(x["samples"])]
                evals += b["evals"]
                disc += b["discards"]
                by_cfg[cname] = by_cfg.get(cname, 0) + b["evals"]
        for f in glob.glob(out + ".part*.hash"):
            data = open(f, "rb").read()
            hashes.update(data[i : i + 8] for i in range(0, len(data), 8))
    samples = []
    for n, x in bodies.items():
        for s in x.pop("samples"):
            samples.append({"body": n, "case": s})
        x["rule"] = rules.get(n, "")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes),
            "rule": "cases are choice sequences drawn by each body's generator; distinct = different sequences; a body's rule for non-trivial: " + "; ".join(f"[{n}] {r}" for n, r in rules.items()),
            "samples": samples[:24], "bodies": bodies, "evaluations_by_configuration": by_cfg, "discarded": disc,
            "coverage_guided_executions": fuzz_runs, "search_seconds": seconds, "build_seconds": round(t_build, 1),
            "known_findings_reproduced": knowns_hit, "failures_not_confirmed_on_replay": unconfirmed,
        },
        "assumptions": spec.get("assumptions", ["the missing ecl_lite/Sophus packages behave like the stand-ins in compat/"]),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    say(f"{prop} {tier}: {evals} cases, {len(hashes)} distinct non-trivial, {disc} discarded, build {t_build:.1f}s, total {time.time() - t0:.1f}s")


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i : i + 2]
    try:
        if a and a[0] == "--setup":
            t0 = time.time()
            pairs = []
            for p in PROPS:
                for t in targets(p, "quick"):
                    if t not in pairs:
                        pairs.append(t)
            build(pairs)
            prune_cache()
            say(f"built {len(pairs)} harness configurations in {time.time() - t0:.0f}s")
            return 0
        if a and a[0] == "--replay":
            head = open(a[1], errors="replace").read().splitlines()[:3]
            prop, src, cname = (x.split(None, 1)[1] for x in head)
            job = next(j for j in PROPS[prop]["jobs"] if j["src"] == src)
            exe = build([(job, cname)])[(src, cname)]
            n = "40" if job.get("racy") else "3"
            d = tempfile.mkdtemp(prefix="verif-replay-")
            os.chmod(d, 0o777)
            r = subprocess.run([exe, "replay", "--file", os.path.abspath(a[1]), "--reps", n], env=env({"PBT_SCRATCH": d}), cwd=d)
            shutil.rmtree(d, ignore_errors=True)
            if r.returncode in (1, 3):
                say(f"VIOLATION property={prop} replay={os.path.abspath(a[1])}")
                return 1
            return 0
        if a and a[0] in PROPS:
            v = run_property(a[0], tier, seed)
            return 1 if v else 0
    except BuildError as ex:
        say(f"ERROR cannot decide: {ex}")
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
