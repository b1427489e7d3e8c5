"""C27: histories of edits, configures, disk faults and crashes around EKAT's assert tests.

One run: a project has source files with lines marked EKAT_EXPECT_ASSERT_FAIL.  They are edited and configured several times; each
configure is the real CMake code (run by cmake, the project commands recorded) calling the real generator script, which runs on a
simulated disk: its reads and writes are short, fail, or the process dies at one of them, as the fault stream says.  After every
configure that CMake does not reject, what is registered is compared with what the sources say; without a fault, CMake must not
reject.
"""
import json, os, shutil, signal, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
EPOCH = 10 ** 9
KEY = "EKAT_EXPECT_ASSERT_FAIL"


# ===================================================================== inside the generator's process
def shim(argv):
    """Runs a Python script (argv[0]) on the simulated disk.  SIM_GEN_PLAN names the directory with the plan and the logs."""
    import builtins, io, random, runpy, signal
    script, base = argv[0], os.environ["SIM_GEN_PLAN"]
    root = os.environ["SIM_GEN_ROOT"]
    nth = len([f for f in os.listdir(base) if f.startswith("log")])
    log = os.open(os.path.join(base, "log%d" % nth), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    try:
        with open(os.path.join(base, "plan.json")) as f:
            plan = json.load(f)
        plan = plan[nth] if nth < len(plan) else {}
    except FileNotFoundError:
        plan = {}
    at, kind, rnd, sticky = plan.get("at", -1), plan.get("kind", ""), random.Random(plan.get("short", 0)), plan.get("sticky", False)
    shorts = plan.get("short", 0)
    st = {"n": 0, "full": False}
    os_write, os_close = os.write, os.close

    def note(s):
        os_write(log, (s + "\n").encode())

    def step(what, writing):
        """One operation on the disk: may fail, or be the last the process gets to do."""
        st["n"] += 1
        note("op " + what)
        if st["n"] - 1 == at:
            if kind == "kill":
                note("fault the generator is killed")
                os.kill(os.getpid(), signal.SIGKILL)
            note("fault " + ("a disk operation fails (%s)" % what))
            st["full"] = sticky
            raise OSError(plan.get("errno", 28), "simulated")
        if st["full"] and writing:
            note("fault the disk stays full")
            raise OSError(plan.get("errno", 28), "simulated")

    class Raw(io.FileIO):
        sim_stdout = False

        def readinto(self, b):
            step("read", False)
            if shorts and len(b) > 1 and rnd.random() < 0.5:
                note("fault short read")
                d = io.FileIO.read(self, rnd.randrange(1, min(len(b), 40)))
                b[:len(d)] = d
                return len(d)
            return io.FileIO.readinto(self, b)

        def readall(self):
            out = b""
            while True:
                b = bytearray(4096)
                n = self.readinto(b)
                if not n:
                    return out
                out += bytes(b[:n])

        def read(self, n=-1):
            if n is None or n < 0:
                return self.readall()
            b = bytearray(n)
            return bytes(b[:self.readinto(b)])

        def write(self, b):
            b = bytes(b)
            step("write to stdout" if self.sim_stdout else "write", not self.sim_stdout)
            if shorts and len(b) > 1 and rnd.random() < 0.5:
                note("fault short write")
                b = b[:rnd.randrange(1, len(b))]
            return io.FileIO.write(self, b)

        def close(self):
            if self.closed:
                return
            w = self.writable() and not self.sim_stdout
            io.FileIO.close(self)
            if w:
                step("close", True)

    real_open = io.open

    def mine(p):
        try:
            return os.path.abspath(os.fspath(p)).startswith(root)
        except TypeError:
            return False

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or not mine(file) or opener is not None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        w = any(c in mode for c in "wax+")
        step("open for writing" if w else "open", w)
        raw = Raw(file, mode.replace("b", "").replace("t", ""))
        if buffering == 0:
            return raw
        buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw) if w else io.BufferedReader(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    builtins.open = io.open = sim_open

    def wrap(name, writing):
        real = getattr(os, name)

        def f(p, *a, **k):
            if mine(p):
                step(name, writing)
            return real(p, *a, **k)
        setattr(os, name, f)
    for name in ("rename", "replace", "unlink", "remove", "mkdir", "truncate", "link", "symlink"):
        wrap(name, True)
    real_osopen = os.open

    def sim_osopen(p, flags, *a, **k):
        if mine(p):
            step("os.open", bool(flags & (os.O_WRONLY | os.O_RDWR)))
        return real_osopen(p, flags, *a, **k)
    os.open = sim_osopen

    def sim_oswrite(fd, b):
        step("os.write", True)
        return os_write(fd, b)
    os.write = sim_oswrite
    out = Raw(1, "w", closefd=False)
    out.sim_stdout = True
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(out), encoding="utf-8")
    sys.argv = list(argv)
    sys.path[0] = os.path.dirname(os.path.abspath(script))
    runpy.run_path(script, run_name="__main__")


if __name__ == "__main__" and sys.argv[1:2] == ["--shim"]:
    shim(sys.argv[2:])
    sys.exit(0)

import launcher  # noqa: E402
import pysim  # noqa: E402
from launcher import PRELUDE, RECORDER, RECORDERS, REPO, TAIL, cm  # noqa: E402
from pysim import HarnessError  # noqa: E402

EXTRA = r'''
set(EKAT_SOURCE_DIR "%(repo)s")
set(EKAT_MPIRUN_EXE mpiexec)
set(EKAT_MPI_NP_FLAG -n)
macro(configure_file sim_in)
  file(APPEND "${SIM_REC}" "depends ")
  get_filename_component(sim_abs "${sim_in}" ABSOLUTE)
  string(HEX "${sim_abs}" sim_h)
  file(APPEND "${SIM_REC}" "x${sim_h}\n")
  _configure_file("${sim_in}" ${ARGN})
endmacro()
'''


# ===================================================================== the sources
PLAIN = ["", "#include <catch2/catch.hpp>", "  int x = 3;", "\tREQUIRE (x==3);", "// a comment", "  auto s = \"two  spaces\";", "}", "TEST_CASE (\"t\") {", "  f(a, \\", "    b);", "// \u00e9t\u00e9 \u4f60",
         "  printf(\"%s {} {0} \\n\", s);", "  x += 1;   ", "/* EKAT_EXPECT_ASSERT", "*/ // ekat_expect_assert_fail", "#ifndef NDEBUG", "#endif", "  $x @y@ ${z} ;;", "assert(x==3);", "'\"`", "#"]
EXPRS = ["assert (0==1);", "my_func ();", "check(\"a b\", 'c', x);", "assert(x==3);", "f({1,2}); g();", "EKAT_ASSERT(%d);", "h(\"\\t${v}\");", "v[3] = p->q % 2;"]


def source(sim, old):
    """The lines of a file; an edit of old if there is one."""
    def marked():
        e = sim.pick(EXPRS).replace("%d", str(sim.op(100)))
        k = sim.op(8)
        if k < 4:
            return "  " * sim.op(3) + KEY + sim.pick([" (", "("]) + e.rstrip(";") + ");"
        if k < 6:
            return "  " + e + " // " + KEY
        if k == 6:
            return KEY + " " + e + "  // fails"
        if sim.chance(1, 4):
            return "// " + KEY + " " + e
        return "  " + e + " /* " + KEY + " here */"

    def line():
        return marked() if sim.chance(1, 4) else sim.pick(PLAIN)
    if old is not None and sim.chance(3, 4):
        ls = list(old)
        for _ in range(sim.op_range(1, 4)):
            i = sim.op(len(ls) + 1)
            k = sim.op(4)
            if k == 0 or not ls:
                ls.insert(i, line())
            elif k == 1:
                del ls[i % len(ls)]
            elif k == 2:
                ls[i % len(ls)] = line()
            else:
                ls.insert(i, ls[sim.op(len(ls))])
        return ls
    n = sim.op_range(0, 20) if not sim.chance(1, 12) else sim.op_range(100, 800)
    ls = [line() for _ in range(n)]
    if n and sim.chance(1, 6):
        ls = [sim.pick(PLAIN) if KEY in l else l for l in ls]      # no marked line
    return ls


def words(l):
    return " ".join(l.split())


def expected(lines):
    """What each of the tests compiles: the base, and one per marked line; marked lines are compared word by word."""
    def norm(keep):
        out, n = [], 0
        for l in lines:
            if KEY in l:
                if n == keep:
                    out.append(words(l.replace(KEY, " ")))
                n += 1
            else:
                out.append(words(l))
        return tuple(x for x in out if x)
    m = len([l for l in lines if KEY in l])
    return norm(-1), [norm(i) for i in range(m)]


def exact(lines, text):
    """Whether the unmarked lines are in text as they are (trailing blanks apart), in order."""
    have = [l.rstrip() for l in text.splitlines()]
    i = 0
    for l in lines:
        l = l.rstrip()
        if KEY in l or not l:
            continue
        while i < len(have) and have[i] != l:
            i += 1
        if i == len(have):
            return l
        i += 1
    return None


def truth(v):
    return v.upper() in ("1", "ON", "YES", "TRUE", "Y") or v.isdigit() and int(v) != 0


def run_group(sim, cmd, cwd, env):
    """Runs a command; it and everything it started is ended if it does not come to an end."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, text=True, errors="replace", env=env, start_new_session=True)
    try:
        txt, _ = p.communicate(timeout=50)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        sim.fail("no-progress", "configuring does not end")
    return p.returncode, txt


class World:
    def __init__(self, sim, scratch):
        self.sim, self.scratch = sim, scratch
        self.root = os.path.join(scratch, "project")
        self.plan = os.path.join(scratch, "plan")
        self.shim = os.path.join(scratch, "shim")
        for d in (self.root, self.plan):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(self.root)
        os.makedirs(self.shim, exist_ok=True)
        for n in ("python3", "python"):
            f = os.path.join(self.shim, n)
            if not os.path.exists(f):
                with open(f + ".tmp", "w") as o:
                    o.write("#!/bin/sh\ncase \"$1\" in -*) exec '%s' \"$@\";; esac\nexec '%s' '%s' --shim \"$@\"\n" % (sys.executable, sys.executable, os.path.abspath(__file__)))
                os.chmod(f + ".tmp", 0o755)
                os.replace(f + ".tmp", f)
        self.files = []
        stems = ["asserts", "foo.test", "a-b_c", "x1", "deep.er.name", "UPPER"]
        used = set()
        for i in range(sim.op_range(1, 3)):
            d = sim.op(2)
            stem = sim.pick(stems)
            if (d, stem) in used:
                continue
            used.add((d, stem))
            self.files.append({"dir": "d%d" % d, "name": stem + sim.pick([".cpp", ".cpp", ".cxx", ".C"]), "test": "qz%dx" % i, "ref": "rf%dx" % i, "lines": None, "opts": self.options(i)})
        self.edit_all = True

    def options(self, i):
        sim = self.sim
        o = []
        if sim.chance(1, 2):
            o += ["MPI_RANKS"] + sim.pick([["1"], ["2"], ["1", "3"], ["1", "5", "2"]])
        if sim.chance(1, 3):
            o += ["THREADS"] + sim.pick([["1"], ["2"], ["1", "2"]])
        if sim.chance(1, 3):
            o += ["LABELS"] + sim.pick([["short"], ["short", "mpi"]])
        if sim.chance(1, 3):
            o += ["EXE_ARGS"] + [cm(x) for x in sim.pick([["-x"], ["--args -a 1"], ["--flag", "7"]])]
        if sim.chance(1, 3):
            o += ["LIBS"] + sim.pick([["ekat::Core"], ["l1", "l2"]])
        if sim.chance(1, 4):
            o += ["COMPILER_DEFS", "A%d" % i]
        if sim.chance(1, 4):
            o += ["SERIAL"]
        if sim.chance(1, 4):
            o += ["EXCLUDE_MAIN_CPP"]
        if sim.chance(1, 4):
            o += ["PROPERTIES", "TIMEOUT", "100"]
        return o

    def edit(self):
        sim = self.sim
        for f in self.files:
            if f["lines"] is not None and sim.chance(1, 3):
                continue
            f["lines"] = source(sim, f["lines"])
            p = os.path.join(self.root, "src", f["dir"], f["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            eol = "\r\n" if sim.chance(1, 15) else "\n"
            t = "".join(l + eol for l in f["lines"])
            if t and sim.chance(1, 5) and f["lines"][-1]:
                t = t[:-len(eol)]
            with open(p, "w", newline="", encoding="utf-8") as o:
                o.write(t)
            # the file's time is that of the machine it was edited on, or of the archive it came from
            at = EPOCH + sim.now
            if sim.fault("a source with an old time stamp", 1, 6):
                at -= 1000
            elif sim.fault("a source with a time stamp in the future", 1, 12):
                at += 1000
            os.utime(p, (at, at))
            sim.trace("edit", f["name"], len(f["lines"]), "lines", len([1 for l in f["lines"] if KEY in l]), "marked")

    def script(self, build):
        out = ["set(CMAKE_BUILD_TYPE %s)\n" % cm(build)]
        top = "${CMAKE_BINARY_DIR}"
        for d in sorted({f["dir"] for f in self.files}):
            l = ["include(EkatCreateUnitTestWithAsserts)"]
            for f in self.files:
                if f["dir"] == d:
                    l.append("EkatCreateUnitTestWithAsserts(%s %s %s)" % (f["test"], f["name"], " ".join(f["opts"])))
                    l.append("EkatCreateUnitTest(%s SOURCES none.cpp %s)" % (f["ref"], " ".join(f["opts"])))
            s = os.path.join(self.root, "src", d)
            with open(os.path.join(s, "CMakeLists.cmake"), "w") as o:
                o.write("\n".join(l) + "\n")
            out.append('file(MAKE_DIRECTORY "%s/%s")\nset(CMAKE_CURRENT_BINARY_DIR "%s/%s")\nset(CMAKE_CURRENT_SOURCE_DIR "%s")\ninclude("%s/CMakeLists.cmake")\n' % (top, d, top, d, s, s))
        return "".join(out)

    def configure(self, build, faulty):
        sim = self.sim
        shutil.rmtree(self.plan, ignore_errors=True)
        os.makedirs(self.plan)
        plan = []
        if faulty:
            for f in self.files:
                p = {}
                if sim.chance(1, 2):
                    p["short"] = 1 + sim.op(1000)
                if sim.chance(1, 2):
                    m = len([1 for l in f["lines"] if KEY in l])
                    p["at"] = sim.op(8 + 3 * m if not sim.chance(1, 3) else 6)
                    p["kind"] = sim.pick(["error", "error", "kill"])
                    p["errno"] = sim.pick([28, 5, 122, 13])          # ENOSPC, EIO, EDQUOT, EACCES
                    p["sticky"] = sim.chance(1, 2)
                plan.append(p)
            if sim.fault("python is not found", 1, 40):
                plan = None
        with open(os.path.join(self.plan, "plan.json"), "w") as o:
            json.dump(plan or [], o)
        rec, f = os.path.join(self.scratch, "rec.txt"), os.path.join(self.scratch, "suite.cmake")
        if os.path.exists(rec):
            os.remove(rec)
        bindir = os.path.join(self.root, "bld")
        head = PRELUDE % {"repo": REPO, "bin": bindir} + 'set(SIM_REC "%s")\n' % rec + "".join(RECORDER % {"n": n} for n in RECORDERS) + TAIL.replace('if (NOT sim_kind STREQUAL "TEST")', 'if (NOT sim_kind MATCHES "^(TEST|DIRECTORY)$")') + EXTRA % {"repo": REPO}
        with open(f, "w") as o:
            o.write(head + self.script(build))
        env = dict(os.environ, SIM_GEN_PLAN=self.plan, SIM_GEN_ROOT=self.root, PATH=self.shim + ":" + os.environ.get("PATH", "/usr/bin:/bin"))
        exe = shutil.which("cmake")
        if plan is None:
            env["PATH"] = "/nonexistent"
        rc, txt = run_group(sim, [exe, "-P", f], self.scratch, env)
        recs = []
        if os.path.exists(rec):
            for l in open(rec):
                w = l.split()
                recs.append((w[0], [bytes.fromhex(x[1:]).decode("utf-8", "replace") for x in w[1:]]))
        for d, _, fs in os.walk(bindir):        # what was written now has the simulated time
            for x in fs:
                x = os.path.join(d, x)
                if os.stat(x).st_mtime > EPOCH + 10 ** 8:
                    os.utime(x, (EPOCH + sim.now, EPOCH + sim.now))
        hit = plan is None
        for n in sorted(os.listdir(self.plan)):
            if n.startswith("log"):
                for l in open(os.path.join(self.plan, n)):
                    k, v = l.rstrip("\n").split(" ", 1)
                    if k == "op":
                        for kind in (("a disk operation fails (%s)" % v, "the generator is killed") if faulty else ()):
                            sim.fault_tab.setdefault(kind, [0, 0])[0] += 1
                        sim.steps += 1
                    else:
                        t = sim.fault_tab.setdefault(v, [0, 0])
                        t[0] = max(t[0], t[1] + 1)
                        t[1] += 1
                        sim.injected += 1
                        sim.trace("fault", v)
                        hit = hit or not v.startswith("short")
        sim.trace("configure", build, "faulty" if faulty else "", "->", rc)
        sim.count("configures")
        return rc, txt, recs, hit

    # ------------------------------------------------------------ the judge
    def tests_of(self, recs):
        """name -> [command, {property: value}]"""
        tests = {}
        for k, a in recs:
            if k == "add_test":
                if a[0] == "NAME":
                    i = a.index("COMMAND") if "COMMAND" in a else 2
                    name, cmd = a[1], a[i + 1:]
                else:
                    name, cmd = a[0], a[1:]
                if name in tests:
                    self.sim.fail("wrong-registration", "the test %s is registered twice" % name)
                tests[name] = [" ".join(cmd), {}]
            elif k == "set_tests_properties":
                i = a.index("PROPERTIES")
                for n in a[:i]:
                    tests[n][1].update(zip(a[i + 1::2], a[i + 2::2]))
            elif k == "set_property" and a[0] == "TEST":
                i = a.index("PROPERTY")
                names = [x for x in a[1:i] if x not in ("APPEND", "APPEND_STRING")]
                for n in names:
                    v = ";".join(a[i + 2:])
                    if "APPEND" in a[1:i] and a[i + 1] in tests[n][1]:
                        v = tests[n][1][a[i + 1]] + ";" + v
                    tests[n][1][a[i + 1]] = v
        return tests

    def judge(self, build, recs):
        sim = self.sim
        tests = self.tests_of(recs)
        target_src, target_rec = {}, {}
        for k, a in recs:
            if k == "add_executable":
                target_src[a[0]] = a[1:]
                target_rec[a[0]] = []
        for k, a in recs:
            if k == "target_sources" and a[0] in target_src:
                target_src[a[0]] += [x for x in a[1:] if x not in ("PRIVATE", "PUBLIC", "INTERFACE")]
            elif k.startswith(("target_", "set_target_")) and a and a[0] in target_rec:
                target_rec[a[0]].append((k, tuple(a[1:])))
        by_target = {t: [] for t in target_src}
        for n, (cmd, props) in tests.items():
            t = [w[2:] for w in cmd.split() if w.startswith("./")]
            if len(t) != 1 or t[0] not in by_target:
                sim.fail("wrong-registration", "the test %s runs %s, which nothing builds" % (n, cmd))
            by_target[t[0]].append((n, cmd, props))
        depends = {os.path.realpath(a[0]) for k, a in recs if k == "depends"}
        for k, a in recs:
            if k == "set_property" and a[0] == "DIRECTORY" and "CMAKE_CONFIGURE_DEPENDS" in a:
                depends |= {os.path.realpath(x) for x in a[a.index("CMAKE_CONFIGURE_DEPENDS") + 1:]}
        debug = build.lower() == "debug"

        def view(t):
            """What was registered for a target, with its name blotted out, apart from WILL_FAIL."""
            out = []
            for n, cmd, props in by_target[t]:
                p = {k: v for k, v in props.items() if k not in ("WILL_FAIL", "_BACKTRACE_TRIPLES")}
                out.append((n.replace(t, "@"), cmd.replace(t, "@"), sorted((k, v.replace(t, "@")) for k, v in p.items())))
            return sorted(out), sorted((k, tuple(x.replace(t, "@") for x in a)) for k, a in target_rec[t])
        seen = set()
        for f in self.files:
            path = os.path.join(self.root, "src", f["dir"], f["name"])
            base, each = expected(f["lines"])
            ref = view(f["ref"])
            seen.add(f["ref"])
            mine = sorted(t for t in target_src if t.startswith(f["test"]))
            seen |= set(mine)
            texts = {}
            for t in mine:
                if len(target_src[t]) != 1:
                    sim.fail("wrong-registration", "%s is built from %s" % (t, target_src[t]))
                s = target_src[t][0]
                try:
                    with open(s, encoding="utf-8") as g:
                        texts[t] = g.read()
                except (FileNotFoundError, UnicodeDecodeError) as e:
                    sim.fail("source-missing", "%s of %s (%d marked lines) is to be built from a file that cannot be read: %s" % (t, f["name"], len(each), type(e).__name__))
                if not by_target[t]:
                    sim.fail("wrong-registration", "%s is built, but no test runs it" % t)
                v = view(t)
                if v != ref:
                    sim.fail("wrong-options", "the tests of %s are not registered as a unit test with the options %s is: %s instead of %s" % (t, f["opts"], v, ref))
                bad = exact(f["lines"], texts[t])
                if bad is not None:
                    sim.fail("wrong-source", "the source of %s lacks the line %r" % (t, bad))
            got = {}
            for t in mine:
                wf = {truth(p.get("WILL_FAIL", "FALSE")) for _, _, p in by_target[t]}
                if len(wf) != 1:
                    sim.fail("wrong-expectation", "some tests of %s must fail and some must not" % t)
                got.setdefault((tuple(x for x in (words(l) for l in texts[t].splitlines()) if x), wf.pop()), []).append(t)
            want = {}
            want.setdefault((base, False), []).append("base")
            if debug:
                for i, e in enumerate(each):
                    want.setdefault((e, True), []).append(i)
            if f["test"] not in mine:
                sim.fail("missing-test", "there is no test %s" % f["test"])
            for k in want:
                if len(got.get(k, [])) != len(want[k]):
                    sim.fail("missing-test", "%s, %s build, %d marked lines: %d tests %s marked line %s, %d expected; the targets are %s" % (
                        f["name"], build or "default", len(each), len(got.get(k, [])), "that must fail, with the" if k[1] else "that must pass, without a", want[k], len(want[k]), mine))
            for k in got:
                if k not in want:
                    sim.fail("extra-test", "%s, %s build, %d marked lines: %s is no test of this source" % (f["name"], build or "default", len(each), got[k]))
            if os.path.realpath(path) not in depends:
                sim.fail("stale-after-edit", "nothing makes CMake run again when %s changes" % f["name"])
            sim.count("marked lines", len(each))
            sim.count("tests registered", len(mine))
        for t in target_src:
            if t not in seen:
                sim.fail("extra-test", "%s belongs to no source" % t)


def c27(sim, scratch):
    w = World(sim, scratch)
    build = sim.pick(["Debug", "debug", "DEBUG", "Debug", "Release", "RelWithDebInfo", "", "dEbUg", "Debugging"])
    n = sim.op_range(1, 4)

    def body():
        nonlocal build
        for i in range(n):
            w.edit()
            if sim.chance(1, 8):
                build = sim.pick(["Debug", "Release"])
            faulty = i + 1 < n and sim.chance(2, 3) or i + 1 == n and n == 1 and sim.chance(1, 2)
            rc, txt, recs, hit = w.configure(build, faulty)
            sim.now += sim.op(3)
            if rc != 0:
                if not hit:
                    sim.fail("cmake-error", "CMake rejects valid sources, although nothing failed%s: %s" % (" but for short reads and writes" if faulty else "", txt[-500:].replace(scratch, ".")))
                sim.count("configures that failed")
                continue
            if hit:
                sim.count("configures that survived a fault")
            w.judge(build, recs)
    sim.spawn(body, "developer")
    sim.run_all()


class H(pysim.Harness):
    name = "assertgen"
    props = {"C27": (c27, "cmake/gen_assert_test_src.py, cmake/EkatCreateUnitTestWithAsserts.cmake and the CMake functions below it (run by the real cmake and Python)",
                     "the generator's disk and standard output (faults), the project commands of CMake (recorded), the developer")}


if __name__ == "__main__":
    sys.exit(H().main(sys.argv[1:]))
