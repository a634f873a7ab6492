#!/usr/bin/env python3
"""Runner: builds a property's monitors against /repo's working tree, runs the workloads,
judges what the monitors observed, writes evidence.

  run.py check <PROPERTY> [quick|thorough]     run.py replay <FILE>     run.py all [tier]
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
NPROC = min(8, os.cpu_count() or 4)
QUICK = float(os.environ.get("VERIF_QUICK", "3"))  # the quick tier runs this many times the cases listed
sys.path.insert(0, HERE)
import checks as C

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,vptr,function",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-std=c++11", "-g1", "-w", "-include", "cstdint", "-I" + REPO, "-I" + HARN]
CONFIGS = {
    "rel": ("clang++", ["-O1", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"] + SAN),
    "dbg": ("clang++", ["-O1", "-DIL_UNIT_TEST", "-ftrivial-auto-var-init=pattern"] + SAN),
    "gcc": ("g++", ["-O2", "-DNDEBUG", "-fno-omit-frame-pointer"]),
    "gccdbg": ("g++", ["-O1", "-DIL_UNIT_TEST"]),
    "gccsan": ("g++", ["-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,vptr",
                       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "tsan": ("clang++", ["-O1", "-DNDEBUG", "-fsanitize=thread", "-fno-omit-frame-pointer"]),
    "vg": ("g++", ["-O1", "-DNDEBUG"]),
}
MKLF = ["-I/usr/include/mkl", "-DIL_MKL", "-DIL_BLAS"]
MKLL = ["-lmkl_intel_lp64", "-lmkl_core", "-lmkl_intel_thread", "-liomp5", "-ldl", "-lpthread", "-lm"]
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=190:"
                    "detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=2304:"
                    "hard_rss_limit_mb=6000:handle_abort=1:print_summary=1:detect_container_overflow=0:quarantine_size_mb=16",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=87",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=88:second_deadlock_stack=1",
    "MKL_CBWR": "COMPATIBLE", "OMP_NUM_THREADS": "2", "MKL_NUM_THREADS": "2", "LC_ALL": "C.UTF-8",
    "MKL_DISABLE_FAST_MM": "1", "KMP_BLOCKTIME": "0",
})


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "il"), HARN):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()


def build_cmd(unit, config, part, out):
    cxx, flags = CONFIGS[config]
    cmd = [cxx] + BASE + flags + ["-DVF_CONFIG_" + config.upper(), '-DVF_REPO="%s"' % REPO]
    if unit.get("mkl"):
        cmd += MKLF
    if part is not None:
        cmd += ["-DVF_PART=%d" % part]
    cmd += unit.get("flags", [])
    cmd += [os.path.join(HARN, unit["src"])]
    cmd += [os.path.join(REPO, s) for s in unit.get("repo_src", [])]
    cmd += ["-o", out] + (MKLL if unit.get("mkl") else []) + unit.get("libs", []) + ["-lpthread"]
    return cmd


class HarnessError(Exception):
    pass


def build(unit, config, part, th):
    out0 = "x"
    key = hashlib.sha256((th + repr(build_cmd(unit, config, part, out0))).encode()).hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s-%s-%s" % (os.path.splitext(unit["src"])[0], config, part, key))
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = build_cmd(unit, config, part, tmp)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
    if p.returncode != 0:
        raise HarnessError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    os.rename(tmp, out)
    return out


def prune():
    """keep the build cache below ~3 GB"""
    try:
        fs = sorted((os.path.getmtime(p), os.path.getsize(p), p) for p in
                    (os.path.join(BUILD, f) for f in os.listdir(BUILD)) if os.path.isfile(p))
        tot = sum(s for _, s, _ in fs)
        for _, s, p in fs:
            if tot < 3e9:
                break
            os.unlink(p)
            tot -= s
    except OSError:
        pass


def classify(rc, err, op):
    """Key and message of an abnormal ending."""
    m = re.search(r"SUMMARY: AddressSanitizer: (\S+)", err)
    if m and m.group(1) not in ("ABRT",):
        kind = m.group(1)
        if "requested allocation size" in err:
            kind = "allocation-size-too-big"
        return "asan:%s@%s" % (kind, op), err
    m = re.search(r"runtime error: (.*)", err)
    if m:
        t = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
        t = re.sub(r"'[^']*'", "T", t)
        return "ubsan:%s@%s" % (t[:80].strip(), op), err
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", err)
    if m:
        return "tsan:%s@%s" % (m.group(1).strip(), op), err
    if "VF-HANG" in err or rc == 97:
        return "hang@%s" % op, err
    if "rss limit exhausted" in err:
        return "memory-exhausted@%s" % op, err
    if "terminate called" in err or "libc++abi" in err:
        return "terminate@%s" % op, err
    if rc == -signal.SIGABRT or "ABRT" in err:
        return "abort@%s" % op, err
    return "crash(%s)@%s" % (rc, op), err


def trail_of(prog):
    try:
        with open(prog, "rb") as f:
            b = f.read()
    except OSError:
        return None, "?", ""
    z = lambda x: x.split(b"\0", 1)[0].decode("latin-1")
    try:
        case = int(z(b[:64]))
    except ValueError:
        return None, "?", ""
    return case, z(b[64:256]), z(b[256:])


LIMIT = [float("inf")]        # a quick check has to answer within 900 s
STOP = threading.Event()      # a confirmed endless loop: the remaining shards end early, the verdict is already known


def await_process(p, wall):
    """Exit code, or None when the time is over or the remaining shards have been called off."""
    end = min(time.time() + wall, LIMIT[0])
    while True:
        try:
            return p.wait(timeout=0.25)
        except subprocess.TimeoutExpired:
            if STOP.is_set() or time.time() > end:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                return None


def run_shard(job):
    """Runs cases [b,e); restarts after a crash. Returns dict of observations."""
    unit, config, part, binary, seed, b, e, tmpdir, ix, cpu = job
    res = {"evaluations": 0, "events": {}, "sigs": set(), "samples": [], "violations": [], "allocs": 0, "errors": []}
    crashes = 0
    cur = b
    n = 0
    while cur < e and not STOP.is_set():
        n += 1
        out = os.path.join(tmpdir, "o%d-%d.json" % (ix, n))
        prog = os.path.join(tmpdir, "p%d" % ix)
        wd = os.path.join(tmpdir, "w%d" % ix)
        os.makedirs(wd, exist_ok=True)
        cmd = [binary, "--seed", str(seed), "--begin", str(cur), "--end", str(e), "--out", out, "--prog", prog,
               "--cpu", str(cpu)]
        if config == "vg":
            cmd = ["valgrind", "-q", "--error-exitcode=89", "--exit-on-first-error=yes", "--track-origins=no"] + cmd
        env = dict(ENV)
        env["VF_TMP"] = wd
        env.update(unit.get("env", {}))
        errf = os.path.join(tmpdir, "e%d" % ix)
        wall = unit.get("wall", 700)
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, cwd=wd, env=env,
                                 start_new_session=True)
            rc = await_process(p, wall)
            if rc is None and STOP.is_set():
                return res
        with open(errf, "rb") as ef:
            err = ef.read()[-20000:].decode("utf-8", "replace")
        if rc == 0 and os.path.exists(out):
            d = json.load(open(out))
            res["evaluations"] += d["evaluations"]
            res["allocs"] += d["allocs"]
            for k, v in d["events"].items():
                res["events"][k] = res["events"].get(k, 0) + v
            res["sigs"].update(d["sigs"])
            res["samples"] += d["samples"]
            for v in d["violations"]:
                v.update(config=config, part=part, unit=unit["name"])
                res["violations"].append(v)
            break
        case, op, trail = trail_of(prog)
        if rc is None:
            res["errors"].append("wall-clock watchdog: %s case %s op %s (inconclusive)" % (unit["name"], case, op))
            break
        if case is None or rc in (2, 3):
            res["errors"].append("harness %s did not start: rc=%s %s" % (unit["name"], rc, err[-500:]))
            break
        if rc == -signal.SIGKILL and unit.get("big"):   # ended for lack of memory: says nothing about the code
            res["events"]["killed-no-memory"] = res["events"].get("killed-no-memory", 0) + 1
            cur = case + 1
            continue
        key, msg = classify(rc, err, op)
        if config == "vg" and rc == 89:
            m = re.search(r"==\d+== (.*)", err)
            key = "valgrind:%s@%s" % (m.group(1)[:60] if m else "?", op)
        if key.startswith("hang@"):
            # inconclusive until it repeats alone with three times the budget
            cmd2 = [binary, "--seed", str(seed), "--begin", str(case), "--end", str(case + 1), "--prog", prog + "r",
                    "--cpu", str(cpu * 3)]
            p2 = subprocess.Popen(cmd2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=wd, env=env,
                                  start_new_session=True)
            rc2 = await_process(p2, 600)
            if rc2 is None and STOP.is_set():
                return res
            if rc2 != 97:
                res["errors"].append("slow case %s (not reproduced)" % case)
                cur = case + 1
                continue
            msg = "the case does not terminate within %d s of processor time (normal: milliseconds)\n" % (cpu * 3) + err
        res["violations"].append({"case": case, "key": key, "msg": msg[-6000:], "trail": trail[-6000:], "config": config,
                                  "part": part, "unit": unit["name"]})
        res["evaluations"] += case - cur + 1
        crashes += 1
        if key.startswith("hang@"):
            if re.match(unit.get("keys", ""), key):
                STOP.set()   # every shard would spend its whole budget on the same endless loop
            break
        if crashes >= 3:
            break
        cur = case + 1
    return res


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def match_known(pid, v, kf):
    for k in kf:
        if k.get("status") != "open" or k["property"] != pid:
            continue
        if k["unit"] == v["unit"] and re.fullmatch(k["key"], v["key"]):
            return k
    return None


def check(pid, tier, seed):
    t0 = time.time()
    spec = C.CHECKS[pid]
    STOP.clear()
    LIMIT[0] = t0 + 840 if tier == "quick" else float("inf")
    th = tree_hash()
    units = spec["units"]
    errors = []
    tmpdir = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try:
        builds = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {}
            for u in units:
                cfgs = u["configs"] if tier == "quick" or "configs_thorough" not in u else u["configs_thorough"]
                for c in cfgs:
                    for part in (range(u["parts"]) if u.get("parts") else [None]):
                        futs[ex.submit(build, u, c, part, th)] = (u, c, part)
            for f in cf.as_completed(futs):
                try:
                    builds.append(futs[f] + (f.result(),))
                except HarnessError as e:
                    errors.append(str(e))
        t1 = time.time()
        builds.sort(key=lambda b: (b[0]["name"], b[1], b[2] if b[2] is not None else -1))
        jobs = []
        ix = 0
        for u, c, part, binary in builds:
            n = int(u["cases"][0] * QUICK) if tier == "quick" else u["cases"][1]
            n = int(n * u.get("scale", {}).get(c, 1.0))
            if u.get("big"):
                n = u["cases"][0 if tier == "quick" else 1]   # each kind once, whatever the factor
            sh = u.get("shards", max(1, min(NPROC, n // 4)))
            sh = min(sh, max(1, n))
            for s in range(sh):
                b, e = n * s // sh, n * (s + 1) // sh
                if e > b:
                    jobs.append((u, c, part, binary, seed, b, e, tmpdir, ix, u.get("cpu", 10)))
                    ix += 1
        ev, evals, allocs, sigs, samples, viols = {}, 0, 0, set(), [], []
        percfg = {}
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for job, r in zip(jobs, ex.map(run_shard, jobs)):
                evals += r["evaluations"]
                allocs += r["allocs"]
                sigs |= set((job[0]["name"], s) for s in r["sigs"])
                samples += r["samples"][:1]
                viols += r["violations"]
                errors += r["errors"]
                for k, v in r["events"].items():
                    ev[k] = ev.get(k, 0) + v
                kk = "%s/%s" % (job[0]["name"], job[1])
                percfg[kk] = percfg.get(kk, 0) + r["evaluations"]
        # verdict
        unit_of = {u["name"]: u for u in units}
        kf = known_findings()
        seen, new, known = set(), [], []
        viols = [v for v in viols if re.match(unit_of[v["unit"]].get("keys", ""), v["key"])]
        for v in viols:
            k = match_known(pid, v, kf)
            if k:
                if k["id"] not in [x["id"] for x in known]:
                    known.append(k)
                continue
            kk = (v["unit"], v["key"])
            if kk in seen:
                continue
            seen.add(kk)
            new.append(v)
        for u in units:
            for req in u.get("require", []):
                if ev.get(req, 0) == 0 and not new and not errors:
                    errors.append("%s observed no '%s' event" % (u["name"], req))
        if evals == 0 and not new:
            errors.append("nothing was observed")
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new[:10]):
            path = os.path.join(rdir, "%s-%d.json" % (pid, i))
            v2 = dict(v, property=pid, seed=seed, tier=tier)
            with open(path, "w") as f:
                json.dump(v2, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  [%s %s case %s] %s: %s" % (v["unit"], v["config"], v["case"], v["key"], v["msg"][:600].replace("\n", "\n    ")))
        ev_doc = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(sigs),
                "rule": spec["rule"], "samples": samples[:6] or ["(no sample recorded)"],
                "events_observed": dict(sorted(ev.items())),
                "allocations_tracked": allocs,
                "executions_per_build": percfg,
                "known_findings_seen": [k["id"] for k in known],
                "build_s": round(t1 - t0, 2),
                "harness_errors": errors[:5],
            },
            "assumptions": spec.get("assumptions", []) + C.ASSUME,
            "wall_s": round(time.time() - t0, 2), "violations": len(new),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev_doc, f, indent=1)
        print("%s %s seed=%d: %d executions, %d distinct, %d violation(s), %d known, build %.1fs, total %.1fs" %
              (pid, tier, seed, evals, len(sigs), len(new), len(known), t1 - t0, time.time() - t0))
        if new:
            return 1
        if errors:
            for e in errors[:10]:
                print("HARNESS-ERROR", e[:6000])
            return 2
        return 0
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
        prune()


def replay(path):
    v = json.load(open(path))
    u = [u for u in C.CHECKS[v["property"]]["units"] if u["name"] == v["unit"]][0]
    b = build(u, v["config"], v["part"], tree_hash())
    d = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        env = dict(ENV)
        env["VF_TMP"] = d
        env.update(u.get("env", {}))
        env["ASAN_OPTIONS"] += ":symbolize=1"
        r = subprocess.run([b, "--seed", str(v["seed"]), "--begin", str(v["case"]), "--end", str(v["case"] + 1),
                            "--out", os.path.join(d, "o.json"), "--verbose"], cwd=d, env=env)
        o = os.path.join(d, "o.json")
        bad = r.returncode != 0 or (os.path.exists(o) and json.load(open(o))["violations"])
        print("replayed: %s" % ("violation reproduced" if bad else "no violation"))
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if sys.argv[1] == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[2], tier, seed))
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "all":
        tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
        bad = {}
        for pid in sorted(C.CHECKS):
            rc = check(pid, tier, seed)
            if rc:
                bad[pid] = rc
            sys.stdout.flush()
        print("failed:", bad)
        sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
