"""C29: histories of edits and configures around EkatConfigFile, with crashes and a failing sed.

One run: a project has one to three header templates, configured by real cmake processes that evaluate the real EkatConfigFile, again and
again, while templates, values and options change and output files get lost or damaged.  A shim loaded into cmake counts its operations on
files and ends the process group at (or in the middle of) the one the fault stream says; `sed` is a wrapper of the real one that can fail
or be killed before, within or after its output.  After every configure that succeeds, the files are compared with the model's, and files
that were right before must not have been written.
"""
import json, os, shutil, signal, struct, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "sim"))
import pysim  # noqa: E402
from pysim import HarnessError  # noqa: E402

REPO = os.environ.get("SIM_REPO", "/repo")
EPOCH = 10 ** 9
NV = 5
VALUES = ["1", "0", "ON", "OFF", "hello", "Hello", "a b", "a  b", "a b ", "3;4", "", "x/y", "//z", "/*q*/", "NOTFOUND", "lib-NOTFOUND", 'say "hi"', "back\\slash", "NO", "2.5", None]
FIXED = ["", "// comment", "// comment ", "// Comment", "//", "///", "/* comment */", "/**/", "  // indented", "  /* indented */", "x = 1 // trailing", "#define URL http://a//b", "/* a */ b /* c */",
         "text ; with ; semis", "a\\b", "[[x]]", '"quoted"', "$x @ y", "#ifdef A", "#endif", "int f(int a, /* b */ int c);", "! fortran", "@UNKNOWN@x", "// @UNKNOWN@", "//a//b", "/* a // b */", "// a /* b */"]

SED = r'''#!/bin/sh
unset LD_PRELOAD
n=$(cat "$SIM_DIR/sedn" 2>/dev/null || echo 0); n=$((n+1)); echo $n > "$SIM_DIR/sedn"
k=$(%(sed)s -n "${n}p" "$SIM_DIR/sedplan")
fired() { echo "$k" >> "$SIM_DIR/sedfired"; }
case "$k" in
  fails) fired; exit 4;;
  fails-half|killed-half)
    fired; %(sed)s "$@" > "$SIM_DIR/sedout"; c=$(wc -c < "$SIM_DIR/sedout"); head -c $((c / 2)) "$SIM_DIR/sedout"
    if [ "$k" = killed-half ]; then kill -9 0; fi
    exit 4;;
  killed) fired; kill -9 0;;
  dies) fired; kill -9 $$;;
  dies-half) fired; %(sed)s "$@" > "$SIM_DIR/sedout"; c=$(wc -c < "$SIM_DIR/sedout"); head -c $((c / 2)) "$SIM_DIR/sedout"; kill -9 $$;;
  killed-late) fired; %(sed)s "$@"; kill -9 0;;
esac
exec %(sed)s "$@"
'''


def cm(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("$", "\\$").replace("@", "\\@") + '"'


def false(v):
    return v is None or v.upper() in ("", "0", "OFF", "NO", "FALSE", "N", "IGNORE") or v == "NOTFOUND" or v.endswith("-NOTFOUND")


# ------------------------------------------------------------- the model
def expand(s, vals, at_only):
    out, i = "", 0
    while i < len(s):
        if s[i] == "@":
            j = s.find("@", i + 1)
            n = s[i + 1:j] if j > 0 else ""
            if n and all(c.isalnum() or c in "/_.+-" for c in n):
                out += vals.get(n) or ""
                i = j + 1
                continue
        if not at_only and s.startswith("${", i):
            j = s.index("}", i)
            out += vals.get(s[i + 2:j]) or ""
            i = j + 1
            continue
        out += s[i]
        i += 1
    return out


def render(lines, vals, at_only):
    out = []
    for l in lines:
        w = l.split()
        if w and w[0] == "#cmakedefine":
            l = "/* #undef %s */" % w[1] if false(vals.get(w[1])) else l.replace("#cmakedefine", "#define", 1)
        elif w and w[0] == "#cmakedefine01":
            l = "#define %s %d" % (w[1], 0 if false(vals.get(w[1])) else 1)
        out.append(expand(l, vals, at_only))
    return "".join(x + "\n" for x in out)


def fortran(text):
    return "".join("!" + l[2:] if l.startswith("//") else "!" + l if l.startswith("/") else l for l in text.splitlines(True))


# ------------------------------------------------------------- the world
class World:
    def __init__(self, sim, scratch):
        self.sim, self.scratch = sim, scratch
        self.so, self.shim = os.path.join(scratch, "disk.so"), os.path.join(scratch, "shim")
        if not os.path.exists(self.so):
            os.makedirs(self.shim, exist_ok=True)
            p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", self.so + ".new", os.path.join(HERE, "disk_preload.c"), "-ldl"], capture_output=True, text=True)
            if p.returncode:
                raise HarnessError("disk_preload.c: " + p.stderr[-400:])
            with open(os.path.join(self.shim, "sed"), "w") as o:
                o.write(SED % {"sed": shutil.which("sed")})
            os.chmod(os.path.join(self.shim, "sed"), 0o755)
            os.rename(self.so + ".new", self.so)
        self.root, self.dir = os.path.join(scratch, "project"), os.path.join(scratch, "run")
        for d in (self.root, self.dir):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        self.out = os.path.join(self.root, sim.pick(["bld", "bld", "b l d"]))
        os.makedirs(self.out)
        self.vals = {"V%d" % i: sim.pick(VALUES) for i in range(NV)}
        self.files = []
        for i in range(sim.op_range(1, 3)):
            f = {"in": os.path.join(self.root, "c%d.h.in" % i), "c": os.path.join(self.out, "c%d.h" % i), "f90": os.path.join(self.out, "c%d.f" % i), "lines": [], "at": sim.chance(1, 3), "f": sim.chance(2, 3), "gone": False}
            self.edit(f)
            self.files.append(f)

    def line(self):
        sim = self.sim
        v = "V%d" % sim.op(NV)
        k = sim.op(14)
        if k < 6:
            return sim.pick(FIXED)
        return ["#define N @%s@" % v, "#define N ${%s}" % v, "#cmakedefine " + v, "#cmakedefine01 " + v, "#cmakedefine %s @%s@" % (v, v), "// @%s@ and ${%s}" % (v, v), "@%s@" % v, "/* ${%s} */" % v][k - 6]

    def edit(self, f):
        sim = self.sim
        if not f["lines"] or sim.chance(1, 4):
            f["lines"] = [self.line() for _ in range(sim.op(8) if not sim.chance(1, 15) else sim.pick([100, 300, 1000, 3000]))]
        else:
            i = sim.op(len(f["lines"]))
            k = sim.op(3)
            if k == 0:
                f["lines"][i] = self.line()
            elif k == 1:
                f["lines"].insert(i, self.line())
            else:
                del f["lines"][i]
        with open(f["in"], "w") as o:
            o.write("".join(l + "\n" for l in f["lines"]))
        t = EPOCH + sim.now + (sim.pick([-5000, 0, 5000]) if sim.fault("a template with a wrong time stamp", 1, 4) else 0)
        os.utime(f["in"], (t, t))

    def step(self):
        """Something the developer does, or that happens to the files."""
        sim = self.sim
        f = sim.pick(self.files)
        k = sim.op(14)
        if k < 3:
            sim.trace("edit", os.path.basename(f["in"]))
            f["gone"] = False
            self.edit(f)
        elif k < 6:
            v = "V%d" % sim.op(NV)
            self.vals[v] = sim.pick(VALUES)
            sim.trace("set", v, self.vals[v])
        elif k < 8:
            f["at"] = not f["at"]
            sim.trace("AT_ONLY", os.path.basename(f["c"]), f["at"])
        elif k < 10:
            f["f"] = not f["f"]
            sim.trace("F90_FILE", os.path.basename(f["c"]), f["f"])
        elif k == 10:
            p = f[sim.pick(["c", "f90"])]
            if os.path.exists(p):
                sim.trace("lost", os.path.basename(p))
                os.remove(p)
        elif k == 11:
            p = f[sim.pick(["c", "f90"])]
            if os.path.exists(p):
                t = open(p).read()
                sim.trace("damaged", os.path.basename(p))
                with open(p, "w") as o:
                    o.write(sim.pick([t[:len(t) // 2], t + "x\n", "", t.replace("1", "2")]))
        elif k == 12 and sim.chance(1, 3):
            sim.trace("template missing", os.path.basename(f["in"]))
            f["gone"] = True
            if os.path.exists(f["in"]):
                os.remove(f["in"])
        elif k == 13:
            v = "V%d" % sim.op(NV)
            if self.vals[v]:
                x = self.vals[v]
                self.vals[v] = sim.pick([x.swapcase(), x + " ", x.replace(" ", "  "), x[::-1], x[:-1] or x])
                sim.trace("change", v, self.vals[v])
        sim.sleep(sim.pick([0, 1, 100]))

    # ------------------------------------------------------------ a configure
    def read(self, p):
        try:
            with open(p, newline="") as o:
                return o.read()
        except OSError:
            return None

    def configure(self, faulty):
        sim = self.sim
        script = os.path.join(self.dir, "conf.cmake")
        with open(script, "w") as o:
            o.write("cmake_minimum_required(VERSION 3.18)\nset(CMAKE_MODULE_PATH %s)\nset(CMAKE_CURRENT_BINARY_DIR %s)\nset(CMAKE_CURRENT_SOURCE_DIR %s)\ninclude(EkatUtils)\n" % (cm(os.path.join(REPO, "cmake")), cm(self.out), cm(self.root)))
            for k, v in self.vals.items():
                if v is not None:
                    o.write("set(%s %s)\n" % (k, cm(v)))
            for f in self.files:
                a = [cm(f["in"]), cm(f["c"])]
                if f["f"]:
                    a += ["F90_FILE", cm(f["f90"])]
                if f["at"]:
                    a.insert(2 if len(a) == 2 or sim.chance(1, 2) else 4, "AT_ONLY")
                o.write("EkatConfigFile(%s)\n" % " ".join(a))
        want = {}
        for f in self.files:
            t = render(f["lines"], self.vals, f["at"])
            want[f["c"]] = t
            if f["f"]:
                want[f["f90"]] = fortran(t)
        # all outputs have the time at which they were last looked at; what is written now has the real one
        before = {}
        for f in self.files:
            for p in (f["c"], f["f90"]):
                if os.path.exists(p):
                    t = EPOCH + int(sim.now)
                    os.utime(p, (t, t))
                    s = os.stat(p)
                    before[p] = (self.read(p), s.st_mtime_ns, s.st_ino)
        at = kind = -1
        for x in ("sedn", "sedfired", "sedout"):
            if os.path.exists(os.path.join(self.dir, x)):
                os.remove(os.path.join(self.dir, x))
        sed = []
        if faulty:
            if sim.op(2) == 0:
                at, kind = sim.op(16 * len(self.files)), sim.op(2)
            else:
                sed = [""] * sim.op(1 + len([1 for f in self.files if f["f"]])) + [sim.pick(["fails", "fails-half", "killed-half", "killed", "killed-late", "dies", "dies-half"])]
        with open(os.path.join(self.dir, "sedplan"), "w") as o:
            o.write("".join(x + "\n" for x in sed))
        plan = os.path.join(self.dir, "plan")
        with open(plan, "wb") as o:
            o.write(struct.pack("4i", 0, at, kind, 0) + bytes(240))
        env = dict(os.environ, SIM_DISK_ROOT=self.root, SIM_DISK_PLAN=plan, SIM_DIR=self.dir, LD_PRELOAD=self.so, PATH=self.shim + ":" + os.environ.get("PATH", "/usr/bin:/bin"))
        p = subprocess.Popen(["cmake", "-P", script], cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try:
            txt, _ = p.communicate(timeout=50)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            sim.fail("no-progress", "configuring does not end")
        with open(plan, "rb") as o:
            b = o.read()
        n, _, _, fired = struct.unpack("4i", b[:16])
        hit = None
        for name in ("a configure is killed", "sed fails or is killed"):
            sim.fault_tab.setdefault(name, [0, 0])[0] += faulty
        if fired:
            hit = "a configure is killed"
            sim.trace("fault", "killed at", b[16:].split(b"\0")[0].decode().replace(self.scratch, "~"))
        x = self.read(os.path.join(self.dir, "sedfired"))
        if x:
            hit = "sed fails or is killed"
            sim.trace("fault", "sed", x.strip())
        if hit:
            sim.fault_tab[hit][1] += 1
            sim.injected += 1
        sim.steps += n
        sim.count("configures")
        sim.count("operations of configures on files", n)
        rc = p.returncode
        sim.trace("configure", rc)
        gone = [f for f in self.files if f["gone"]]
        if rc != 0:
            if not hit and not gone:
                sim.fail("failed", "a configure fails although nothing happened to it: " + txt.replace(self.scratch, "~")[-400:])
            sim.count("failed configures")
            return
        if gone:
            sim.fail("missing-template", "a configure succeeds without the template " + os.path.basename(gone[0]["in"]))
        for f in self.files:
            for p in (f["c"], f["f90"]):
                b = os.path.basename(p)
                if p not in want:
                    if os.path.exists(p) != (p in before) or p in before and before[p][0] != self.read(p):
                        sim.fail("not-asked-for", "%s is written, which this call does not name" % b)
                    continue
                t = self.read(p)
                if t is None:
                    sim.fail("missing", "a configure succeeds and %s does not exist" % b)
                if t != want[p]:
                    i = next((i for i, (x, y) in enumerate(zip(t.splitlines() + [None], want[p].splitlines() + [None])) if x != y), -1)
                    sim.fail("wrong-content", "a configure succeeds and %s is not what its template says (%s, AT_ONLY %s): line %d of %d is %r, should be %r" % (
                        b, "the Fortran version" if p == f["f90"] else "C", f["at"], i + 1, len(want[p].splitlines()), (t.splitlines() + [None])[min(i, len(t.splitlines()))], (want[p].splitlines() + [None])[min(i, len(want[p].splitlines()))]))
                sim.count("files that are what they should be")
                if p in before and before[p][0] == want[p]:
                    s = os.stat(p)
                    if (s.st_mtime_ns, s.st_ino) != before[p][1:]:
                        sim.fail("touched", "%s was right before the configure, and it was written again" % b)
                    sim.count("files left alone")


def c29(sim, scratch):
    w = World(sim, scratch)
    fate = sim.op(3)

    def dev():
        for _ in range(sim.op_range(1, 7)):
            for _ in range(sim.op(3)):
                w.step()
            w.configure(fate != 0 and sim.fault("a configure is to be disturbed", 1, 3))
        w.configure(False)
    sim.spawn(dev, "developer")
    sim.run_all()


class H(pysim.Harness):
    name = "configfile"
    props = {"C29": (c29, "EkatConfigFile in cmake/EkatUtils.cmake (run by real cmake processes), cmake's configure_file, sed", "the points at which the processes die or fail, time stamps")}


if __name__ == "__main__":
    sys.exit(H().main(sys.argv[1:]))
