#!/usr/bin/env python3
"""Deterministic-simulation checks for EKAT.  See DESIGN.md.

  check.py ID [--tier quick|thorough]     run the check of a property (exit 0 / 1 + VIOLATION line / 2)
  check.py ID --replay FILE [-v]          re-execute a replay file against the current tree
  check.py --setup                        check that the tools are there
  check.py --build [VARIANT ...]          build harnesses only
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from variants import VARIANTS, PROPS, PREP      # noqa: E402

NPROC = min(8, os.cpu_count() or 1)


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "bin"), os.path.join(REPO, "cmake"), os.path.join(HERE, "sim"), os.path.join(HERE, "harness")]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                try:
                    data = open(p, "rb").read()
                except OSError:
                    continue
                h.update(p.encode() + b"\0" + str(len(data)).encode() + b"\0" + data)
    h.update(open(os.path.join(HERE, "variants.py"), "rb").read())
    return h.hexdigest()[:20]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=840):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="backslashreplace", timeout=timeout)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout


def spare(n, out):
    """An archive of the repository's own sources that variant n does not name, compiled as its harness is."""
    v = VARIANTS[n]
    part = v.get("so") or v["units"]
    flags = [f.replace("$REPO", REPO).replace("$HERE", HERE).replace("$OUT", out) for f in part[0][1]] + (["-fPIC", "-fno-gnu-unique"] if v.get("so") else [])
    named = {os.path.basename(s) for s, _ in part} | {"ekat_catch_main.cpp", "ekat_comm.cpp", "ekat_comm_serial.cpp", "ekat_test_session.cpp"}
    objs = []
    for src in sorted(glob.glob(os.path.join(REPO, "src", "*", "*.cpp"))):
        if os.path.basename(src) in named:
            continue
        o = os.path.join(out, "spare-%s-%s.o" % (n, os.path.basename(src)[:-4]))
        if subprocess.run([v.get("cxx", "g++")] + flags + ["-DEKAT_HAVE_FEENABLEEXCEPT", "-c", src, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            objs.append(o)
    a = os.path.join(out, "spare-%s.a" % n)
    sh(["ar", "rcs", a] + objs)
    return a


def build(names):
    """Build the harness variants from the current tree; returns the directory of the executables."""
    base = os.path.join(HERE, ".build")
    os.makedirs(base, exist_ok=True)
    out = os.path.join(base, tree_hash())
    with open(os.path.join(base, "lock"), "w", errors="backslashreplace") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # keep only a few old builds
        olds = sorted((d for d in os.listdir(base) if d != "lock" and os.path.join(base, d) != out), key=lambda d: os.path.getmtime(os.path.join(base, d)))
        for d in olds[:-2]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        os.utime(out)
        objs = {}      # object file -> command
        links = []
        for n in names:
            if os.path.exists(os.path.join(out, n)):
                continue
            v = VARIANTS[n]
            if "script" in v:      # a harness in Python: an executable that starts it on this tree
                with open(os.path.join(out, n + ".tmp"), "w", errors="backslashreplace") as f:
                    f.write("#!/bin/sh\nPYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 SIM_REPO='%s' exec python3 '%s' \"$@\"\n" % (REPO, v["script"].replace("$HERE", HERE)))
                os.chmod(os.path.join(out, n + ".tmp"), 0o755)
                os.rename(os.path.join(out, n + ".tmp"), os.path.join(out, n))
                continue
            for p in v.get("prep", []):
                PREP[p](out, REPO)
            mine = []
            for src, flags in v["units"]:
                src = src.replace("$REPO", REPO).replace("$HERE", HERE)
                fl = [f.replace("$REPO", REPO).replace("$HERE", HERE).replace("$OUT", out) for f in flags]
                key = hashlib.sha256((src + " " + " ".join(fl)).encode()).hexdigest()[:16]
                o = os.path.join(out, os.path.basename(src).rsplit(".", 1)[0] + "-" + key + ".o")
                cc = v.get("cxx", "g++")
                objs.setdefault(o, [cc] + fl + ["-c", src, "-o"])
                mine.append(o)
            lf = [f.replace("$OUT", out).replace("$HERE", HERE) for f in v["link"]]
            if v.get("so"):
                # the code under test and its harness as a shared object, whose data every simulated rank has a copy of
                so = []
                for src, flags in v["so"]:
                    src = src.replace("$REPO", REPO).replace("$HERE", HERE)
                    fl = [f.replace("$REPO", REPO).replace("$HERE", HERE).replace("$OUT", out) for f in flags] + ["-fPIC", "-fno-gnu-unique"]
                    key = hashlib.sha256((src + " " + " ".join(fl)).encode()).hexdigest()[:16]
                    o = os.path.join(out, os.path.basename(src).rsplit(".", 1)[0] + "-" + key + ".o")
                    objs.setdefault(o, [v.get("cxx", "g++")] + fl + ["-c", src, "-o"])
                    so.append(o)
                sof = os.path.join(out, "lib%s_ranks.so" % n)
                links.append(([v.get("cxx", "g++"), "-shared", "-Wl,-Bsymbolic", "-Wl,-z,now"] + so + v.get("so_link", []) + ["-o"], sof))
                lf = [sof, "-Wl,-rpath," + out] + lf
            links.append(([v.get("cxx", "g++")] + v.get("ldflags", []) + mine + lf + ["-o"], os.path.join(out, n)))
        todo = [(o, c) for o, c in objs.items() if not os.path.exists(o)]

        def one(t):
            o, c = t
            sh(c + [o + ".tmp.o"])
            os.rename(o + ".tmp.o", o)
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, todo))

        def ln(t):
            c, o = t
            try:
                sh(c + [o + ".tmp"])
            except BuildError:
                # the code may have come to need more of the repository's own sources than the variant names: offer all of them, as an archive
                n = os.path.basename(o)
                if n.endswith(".so"):
                    raise
                a = spare(n, out)
                if VARIANTS[n].get("so"):
                    sc, sof = [l for l in links if l[1].endswith("lib%s_ranks.so" % n)][0]
                    sh(sc[:-1] + [a, "-o", sof + ".tmp"])
                    os.rename(sof + ".tmp", sof)
                else:
                    j = max(k for k, x in enumerate(c) if x.endswith(".o"))
                    c = c[:j + 1] + [a] + c[j + 1:]
                sh(c + [o + ".tmp"])
            os.rename(o + ".tmp", o)
        sos = [l for l in links if l[1].endswith(".so")]
        for part in (sos, [l for l in links if l not in sos]):
            with ThreadPoolExecutor(NPROC) as ex:
                list(ex.map(ln, part))
    return out


def clean_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR", "SIM_TRACE_FILE")}
    e.update({"LC_ALL": "C", "TZ": "UTC"})
    return e


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p, errors="backslashreplace"):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append({"class": m.group(2), "re": re.compile(m.group(3)), "what": m.group(4)})
    return out


def run_check(pid, tier):
    t_start = time.time()
    prop = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = float(os.environ.get("VERIF_TIME", prop.get(tier, {"quick": 30, "thorough": 700}[tier])))
    names = prop["variants"]
    try:
        bdir = build(names)
    except BuildError as e:
        log("BUILD FAILED for", pid, "\n", e)
        return 2
    t_build = time.time() - t_start
    scratch = tempfile.mkdtemp(prefix="ekatsim-%s-" % pid, dir="/tmp")
    procs = []
    try:
        # one worker per core, shared among the variants
        workers = []
        nw = max(NPROC, len(names))
        for w in range(nw):
            workers.append(names[w % len(names)])
        base = (seed % 1000003) * 1000000000000
        for w, n in enumerate(workers):
            wd = os.path.join(scratch, "w%d" % w)
            os.mkdir(wd)
            cmd = [os.path.join(bdir, n), "--prop", pid, "--scratch", wd, "--seed0", str(base + w), "--stride", str(nw), "--time", str(budget),
                   "--batch", str(prop.get("batch", 100)), "--out", os.path.join(scratch, "out%d.json" % w), "--replay-out", os.path.join(scratch, "replay%d.txt" % w), "--cpu-limit", str(prop.get("cpu_limit", 60))]
            procs.append(subprocess.Popen(cmd, env=clean_env(), cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(os.path.join(scratch, "err%d.txt" % w), "w", errors="backslashreplace")))
        rcs = [None] * nw
        first_bad = None
        deadline = time.time() + budget + 120
        while any(r is None for r in rcs):
            for w, p in enumerate(procs):
                if rcs[w] is None:
                    r = p.poll()
                    if r is not None:
                        rcs[w] = r
                        if r == 1 and first_bad is None:
                            first_bad = w
            if first_bad is not None:
                t_end = time.time() + 2.0        # let the others flush what they are doing, then stop them
                while time.time() < t_end and any(p.poll() is None for p in procs):
                    time.sleep(0.05)
                break
            if time.time() > deadline:
                log("a worker did not finish in time")
                break
            time.sleep(0.05)
        for w, p in enumerate(procs):
            if p.poll() is None:
                p.terminate()
                try:
                    p.wait(5)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                if rcs[w] is None:
                    rcs[w] = -15
            else:
                rcs[w] = p.returncode
        # gather
        stats = []
        for w in range(nw):
            f = os.path.join(scratch, "out%d.json" % w)
            if os.path.exists(f):
                try:
                    s = json.load(open(f, errors="backslashreplace"))
                    s["variant"] = workers[w]
                    stats.append(s)
                except ValueError:
                    pass
        bad = [w for w in range(nw) if rcs[w] == 1]
        rc = 0
        violations = 0
        lines = []
        if bad:
            w = bad[0]
            rdir = os.path.join(HERE, "replays")
            os.makedirs(rdir, exist_ok=True)
            raw = os.path.join(scratch, "replay%d.txt" % w)
            exe = os.path.join(bdir, workers[w])
            mini = os.path.join(scratch, "min.txt")
            sc = os.path.join(scratch, "min")
            subprocess.run([exe, "--scratch", sc, "--minimise", raw, mini, "--min-budget", str(prop.get("min_budget", 20))], env=clean_env(), cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

            def exact(f):
                p = subprocess.run([exe, "--scratch", sc, "--replay", f], env=clean_env(), cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="backslashreplace")
                return "reproduced exactly" in p.stdout, p.stdout
            final = None
            for f in (mini, raw):
                if os.path.exists(f):
                    ok, _ = exact(f)
                    ok2, o2 = exact(f)
                    if ok and ok2:
                        final = f
                        break
            if final is None:
                log("the violation found does not replay in a fresh process:\n" + open(raw, errors="backslashreplace").read()[:2000])
                rc = 2
            else:
                txt = open(final, errors="backslashreplace").read()
                cls = re.search(r"^class (.*)$", txt, re.M).group(1)
                msg = re.search(r"^message (.*)$", txt, re.M).group(1)
                dst = os.path.join(rdir, "%s-%s-%s.txt" % (pid, workers[w], hashlib.sha256(txt.encode()).hexdigest()[:10]))
                with open(dst, "w", errors="backslashreplace") as f:
                    f.write("# variant %s\n" % workers[w] + txt)
                lines.append("VIOLATION property=%s replay=%s" % (pid, dst))
                log("class: %s\nmessage: %s" % (cls, msg))
                violations = 1
                rc = 1
        else:
            errs = [(workers[w], rcs[w], w) for w in range(nw) if rcs[w] != 0]
            if errs:
                rc = 2
                for n, r, w in errs:
                    log("worker %s ended with %s" % (n, r))
                    for s in stats:
                        if s["variant"] == n and s.get("error"):
                            log("  ", s["error"])
                    log(open(os.path.join(scratch, "err%d.txt" % w), errors="backslashreplace").read()[-2000:])
        write_evidence(pid, tier, seed, stats, scratch, nw, bdir, workers, t_build, time.time() - t_start, violations, prop, budget)
        for k in known_findings(pid):
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        for l in lines:
            print(l, flush=True)
        return rc
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(pid, tier, seed, stats, scratch, nw, bdir, workers, t_build, wall, violations, prop, budget):
    runs = sum(s["runs"] for s in stats)
    hashes = set()
    for w in range(nw):
        f = os.path.join(scratch, "out%d.json.hashes" % w)
        if os.path.exists(f):
            d = open(f, "rb").read()
            n = names_tag = hash(workers[w]) & 0xffff
            for (h,) in struct.iter_unpack("<Q", d):
                hashes.add((workers[w], h) if len(hashes) < 4000000 else (workers[w], h))
    faults, counters = {}, {}
    for s in stats:
        for k, (o, fr) in s["faults"].items():
            a = faults.setdefault(k, {"offered": 0, "injected": 0})
            a["offered"] += o
            a["injected"] += fr
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
    secs = max([s["seconds"] for s in stats] or [0.001])
    # a few actual runs, written out
    samples = []
    for n in dict.fromkeys(workers):
        if len(samples) >= 4:
            break
        sd = (seed % 1000003) * 1000000000000 + workers.index(n)
        try:
            p = subprocess.run([os.path.join(bdir, n), "--prop", pid, "--scratch", os.path.join(scratch, "sample"), "--seed0", str(sd), "--count", "1", "--trace",
                                "--out", os.path.join(scratch, "s.json"), "--replay-out", os.path.join(scratch, "s.txt")], env=clean_env(), cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60)
            tl = p.stderr.splitlines()
            samples.append({"variant": n, "seed": sd, "trace": [x.strip() for x in tl[:40]], "trace_lines": len(tl)})
        except subprocess.TimeoutExpired:
            pass
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": "One evaluation is one simulated run: its operations, schedule and faults are drawn from one seed. A run is non-trivial if the scheduler switched between tasks or a fault was injected; "
                    "two are distinct if the hash of all their choices, events and context-switch positions differs.",
            "samples": samples,
            "seeds_per_hour": int(runs / secs * 3600) if secs else 0,
            "search_seconds": round(secs, 1), "build_seconds": round(t_build, 1), "workers": nw,
            "simulated_seconds": sum(s["virtual_ns"] for s in stats) * 1e-9,
            "instrumented_accesses": sum(s["steps"] for s in stats),
            "context_switches": sum(s["switches"] for s in stats),
            "preemptions": sum(s["preemptions"] for s in stats),
            "faults": faults,
            "probes": counters,
            "runs_per_variant": {n: sum(s["runs"] for s in stats if s["variant"] == n) for n in dict.fromkeys(workers)},
            "real_components": sorted({s["real"] for s in stats}),
            "stubbed_components": sorted({s["stub"] for s in stats}),
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": violations,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w", errors="backslashreplace"), indent=1)
    os.rename(tmp, os.path.join(d, pid + ".json"))


def replay(pid, path, verbose):
    txt = open(path, errors="backslashreplace").read()
    m = re.search(r"^# variant (\S+)", txt, re.M)
    n = m.group(1) if m else PROPS[pid]["variants"][0]
    bdir = build([n])
    sc = tempfile.mkdtemp(prefix="ekatsim-replay-", dir="/tmp")
    try:
        cmd = [os.path.join(bdir, n), "--scratch", os.path.join(sc, "r"), "--replay", os.path.abspath(path)] + (["-v"] if verbose else [])
        return subprocess.run(cmd, env=clean_env(), cwd=sc).returncode
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--build", nargs="*")
    a = ap.parse_args()
    if a.setup:
        for t in ("g++", "gcc", "python3", "cmake", "git", "sed"):
            if not shutil.which(t):
                log("missing tool:", t)
                return 2
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        print("ok")
        return 0
    if a.build is not None:
        try:
            print(build(a.build or list(VARIANTS)))
            return 0
        except BuildError as e:
            log(e)
            return 2
    if a.prop not in PROPS:
        log("unknown property", a.prop)
        return 2
    if a.replay:
        return replay(a.prop, a.replay, a.v)
    return run_check(a.prop, a.tier)


if __name__ == "__main__":
    sys.exit(main())
