"""C28: several builds that configure at the same time and share a third-party source folder through ekat_fetch_content.

Every configure is a real cmake process that evaluates the real ekat_fetch_content.  It stops at each of its seams - a lock, a call of git,
the population of the folder, the use of its sources - until the simulator lets it go on, so that exactly one runs at any time and the
order of all their steps is the simulator's.  The locks are the kernel's, taken without waiting and retried when the simulator says so;
git is the real one.  What FetchContent does to the folder (remove, clone, check out, update) is simulated file by file, so that it can
be slow, fail or be killed at any point of it.
"""
import json, os, select, shutil, signal, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "sim"))
import pysim  # noqa: E402
from pysim import HarnessError, Killed  # noqa: E402

REPO = os.environ.get("SIM_REPO", "/repo")
NAMES = ["spdlog", "yaml-cpp", "Catch2"]

CLIENT = '''#!/bin/sh
echo "$*" > "$SIM_REQ"
read -r a < "$SIM_REP"
echo "$a"
'''
GIT = '''#!/bin/sh
echo "git $PWD|$*" > "$SIM_REQ"
read -r a < "$SIM_REP"
case "$a" in
  fail) echo "fatal: simulated failure" >&2; exit 128;;
esac
exec "$SIM_GIT" "$@"
'''
STUB = r'''
function(FetchContent_Declare name)
  cmake_parse_arguments(sim "" "GIT_REPOSITORY;GIT_TAG;SOURCE_DIR" "" ${ARGN})
  string(TOLOWER "${name}" name)
  set_property(GLOBAL PROPERTY SIM_FC_${name} "${sim_GIT_REPOSITORY}|${sim_GIT_TAG}|${sim_SOURCE_DIR}")
endfunction()
macro(FetchContent_Populate name)
  string(TOLOWER "${name}" sim_name)
  get_property(sim_fc GLOBAL PROPERTY SIM_FC_${sim_name})
  sim_ask(sim_a "populate ${sim_name}|${sim_fc}")
  if (NOT sim_a STREQUAL "ok")
    message(FATAL_ERROR "Build step for ${name} failed: ${sim_a}")
  endif()
  string(REGEX REPLACE "^.*[|]" "" ${sim_name}_SOURCE_DIR "${sim_fc}")
  set(${sim_name}_POPULATED TRUE)
endmacro()
macro(FetchContent_GetProperties name)
  string(TOLOWER "${name}" sim_name)
endmacro()
macro(FetchContent_MakeAvailable)
  foreach(sim_n ${ARGN})
    FetchContent_Populate(${sim_n})
    add_subdirectory("${${sim_name}_SOURCE_DIR}" "${CMAKE_BINARY_DIR}/_deps/${sim_name}-build")
  endforeach()
endmacro()
'''
PRELUDE = r'''
cmake_minimum_required(VERSION 3.18)
set(CMAKE_MODULE_PATH "%(stub)s" "%(repo)s/cmake")
set(CMAKE_BINARY_DIR "%(bin)s")
set(CMAKE_CURRENT_BINARY_DIR "%(bin)s")
set(CMAKE_SOURCE_DIR "%(src)s")
set(CMAKE_CURRENT_SOURCE_DIR "%(src)s")
function(sim_ask var what)
  execute_process(COMMAND "%(client)s" "${what}" OUTPUT_VARIABLE a OUTPUT_STRIP_TRAILING_WHITESPACE)
  set(${var} "${a}" PARENT_SCOPE)
endfunction()
function(add_subdirectory sim_dir)
  sim_ask(sim_a "sub ${sim_dir}|${ARGN}")
  sim_ask(sim_a "subend ${sim_dir}")
endfunction()
macro(file sim_op)
  if ("${sim_op}" STREQUAL "LOCK")
    cmake_parse_arguments(sim_l "DIRECTORY;RELEASE" "GUARD;RESULT_VARIABLE;TIMEOUT" "" ${ARGN})
    list(GET sim_l_UNPARSED_ARGUMENTS 0 sim_l_path)
    set(sim_l_dir)
    if (sim_l_DIRECTORY)
      set(sim_l_dir DIRECTORY)
    endif()
    if (sim_l_RELEASE)
      sim_ask(sim_a "release")
      _file(LOCK "${sim_l_path}" ${sim_l_dir} RELEASE)
      sim_ask(sim_a "released")
    else()
      if (NOT sim_l_GUARD)
        set(sim_l_GUARD PROCESS)
      endif()
      sim_ask(sim_a "lock ${sim_l_TIMEOUT}")
      while(TRUE)
        _file(LOCK "${sim_l_path}" ${sim_l_dir} GUARD ${sim_l_GUARD} TIMEOUT 0 RESULT_VARIABLE sim_l_r)
        if (sim_l_r STREQUAL "0")
          break()
        endif()
        sim_ask(sim_a "retry")
        if (sim_a STREQUAL "timeout")
          set(sim_l_r "Timeout reached")
          break()
        endif()
      endwhile()
      if (sim_l_RESULT_VARIABLE)
        set(${sim_l_RESULT_VARIABLE} "${sim_l_r}")
      elseif (NOT sim_l_r STREQUAL "0")
        message(FATAL_ERROR "file error while locking ${sim_l_path}: ${sim_l_r}")
      endif()
      sim_ask(sim_a "locked")
    endif()
  else()
    _file(${ARGV})
  endif()
endmacro()
include(EkatUtils)
'''


def cm(s):
    return "[==[%s]==]" % s


# ===================================================================== upstream: two commits of a project, kept for all runs
class Upstream:
    def __init__(self, scratch):
        self.git = shutil.which("git")
        if not self.git:
            raise HarnessError("git is needed")
        base = os.path.join(scratch, "upstream")
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        self.env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": base, "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C",
                    "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b", "GIT_AUTHOR_DATE": "1000000000 +0000", "GIT_COMMITTER_DATE": "1000000000 +0000"}
        d = os.path.join(base, "work")
        os.makedirs(d)
        self.run(d, "init", "-q", "-b", "main")
        self.files = []
        self.commits = []
        for v in range(2):
            fs = {"CMakeLists.txt": "project(x%d)\n" % v, "include/a.h": "#define V %d\n" % v, "src/b.cpp": "int b=%d;\n" % v, "same.txt": "same\n", "only%d.txt" % v: "x\n"}
            for f in os.listdir(d):
                if f != ".git":
                    p = os.path.join(d, f)
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            for f, t in fs.items():
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                with open(os.path.join(d, f), "w") as o:
                    o.write(t)
            self.run(d, "add", "-A")
            self.run(d, "commit", "-q", "-m", "v%d" % v)
            self.commits.append(self.run(d, "rev-parse", "HEAD").strip())
            self.files.append(fs)
        # what git leaves in .git after a clone without a checkout, and the index of each commit
        self.index = []
        self.bare = os.path.join(base, "dotgit")
        for v in range(2):
            c = os.path.join(base, "clone%d" % v)
            self.run(base, "clone", "-q", "--no-checkout", "file://" + d, c)
            if v == 0:
                shutil.copytree(os.path.join(c, ".git"), self.bare)
                for f in os.listdir(os.path.join(self.bare, "hooks")):
                    os.remove(os.path.join(self.bare, "hooks", f))
            self.run(c, "checkout", "-q", self.commits[v], "--")
            with open(os.path.join(c, ".git", "index"), "rb") as f:
                self.index.append(f.read())
        # the repository the shared folder lies in
        self.sup = os.path.join(base, "super")
        os.makedirs(self.sup)
        self.run(self.sup, "init", "-q", "-b", "main")
        with open(os.path.join(self.sup, "README"), "w") as o:
            o.write("x\n")
        self.run(self.sup, "add", "-A")
        self.run(self.sup, "commit", "-q", "-m", "s")
        shutil.rmtree(os.path.join(self.sup, ".git", "hooks"))

    def run(self, cwd, *a):
        p = subprocess.run([self.git] + list(a), cwd=cwd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise HarnessError("git %s: %s" % (a, p.stdout[-300:]))
        return p.stdout


UP = None


class Dead(BaseException):
    """The configure was killed."""


# ===================================================================== one configure
class Configure:
    def __init__(self, world, build, n, version, calls):
        self.w, self.build, self.n, self.version, self.calls = world, build, n, version, calls
        self.sim = world.sim
        self.subs = []             # sources it went on with
        self.in_sub = None
        self.hit = False           # a fault hit it
        self.timed_out = False
        self.over = False
        self.mixed = False         # another configure asks for another commit at the same time
        self.deadline = None
        self.touched = False
        self.by_stamp = False      # FetchContent itself trusted what an earlier configure of this build left
        self.killed = self.git_failed = False
        self.locked_at = 0

    def name(self):
        return "%s/%d" % (self.build.name, self.n)

    def wait_message(self):
        """The next message of the process, or None when it has ended."""
        p = select.poll()
        p.register(self.req, select.POLLIN)
        p.register(self.pidfd, select.POLLIN)
        ev = {fd for fd, _ in p.poll(50000)}
        if not ev:
            self.sim.fail("no-progress", "%s runs and runs" % self.name())
        if self.req in ev:
            b = b""
            while not b.endswith(b"\n"):
                b += os.read(self.req, 65536)
            return b.decode().rstrip("\n")
        return None

    def reply(self, s):
        os.write(self.rep, (s + "\n").encode())

    def step(self, what, kill=True):
        """A point at which the simulator decides who goes on, and whether this process lives."""
        self.w.events += 1
        self.sim.yield_()
        if self.w.faults and kill and self.sim.fault("a configure is killed", 1, 30):
            self.hit = self.killed = True
            self.w.damage(self)
            raise Dead()

    def run(self):
        w, sim = self.w, self.sim
        d = os.path.join(w.root, "proc-" + self.build.name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        req, rep = os.path.join(d, "req"), os.path.join(d, "rep")
        os.mkfifo(req)
        os.mkfifo(rep)
        self.req, self.rep = os.open(req, os.O_RDWR), os.open(rep, os.O_RDWR)
        f = os.path.join(d, "conf.cmake")
        with open(f, "w") as o:
            o.write(PRELUDE % {"stub": w.stub, "repo": REPO, "bin": self.build.dir, "src": w.root, "client": w.client} + self.script())
        env = dict(UP.env, SIM_REQ=req, SIM_REP=rep, SIM_GIT=UP.git, PATH=w.shim + ":" + UP.env["PATH"])
        for k in list(env):
            if k.startswith(("GIT_AUTHOR", "GIT_COMMITTER")):
                del env[k]
        os.makedirs(self.build.dir, exist_ok=True)
        sim.trace("configure", self.name(), "commit", self.version, [c["kind"] + " " + c["name"] for c in self.calls])
        w.active.append(self)
        for o in w.active:
            if o.version != self.version:
                o.mixed = self.mixed = True
        out = open(os.path.join(d, "out.txt"), "w+")
        p = subprocess.Popen(["cmake", "-P", f], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
        self.pidfd = os.pidfd_open(p.pid)
        try:
            while True:
                m = self.wait_message()
                if m is None:
                    break
                self.handle(m)
        except Dead:
            sim.trace("killed", self.name())
            p.kill()
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            for fd in (self.req, self.rep, self.pidfd):
                os.close(fd)
            w.active.remove(self)
            w.events += 1
            for n in [n for n, c in w.populating.items() if c is self]:
                del w.populating[n]
            out.seek(0)
            txt = out.read()
            out.close()
        self.over = True
        sim.trace("end", self.name(), 0 if p.returncode == 0 else 1)
        sim.count("configures")
        self.judge(p.returncode, txt)

    def script(self):
        out = []
        for c in self.calls:
            if c["kind"] == "override":
                v = "FETCHCONTENT_SOURCE_DIR_" + c["name"].upper().replace("-", "_")
                out.append("set(%s %s)" % (v, cm(c["dir"])))
        for c in self.calls:
            a = ["GIT_REPOSITORY", "https://example.org/%s.git" % c["name"], "GIT_TAG", UP.commits[self.version], "SOURCE_DIR", c["dir"] if c["kind"] != "override" else self.w.shared(c["name"])]
            if c["kind"] == "missing":
                del a[2 * c["which"]:2 * c["which"] + 2]
            if c["kind"] == "unknown":
                a += ["GIT_SHALOW", "ON"]
            out.append("ekat_fetch_content(%s %s)" % (c["name"], " ".join(a)))
            if c["twice"]:
                out.append("ekat_fetch_content(%s %s)" % (c["name"], " ".join(a)))
        return "\n".join(out) + "\n"

    # ---- the seams
    def handle(self, m):
        sim, w = self.sim, self.w
        k, _, rest = m.partition(" ")
        sim.trace(self.name(), m.replace(w.root, "~").replace(w.link, "~")[:160])
        if k == "git":
            self.step(m)
            if w.faults and sim.fault("git fails", 1, 40):
                self.hit = self.git_failed = True
                self.reply("fail")
            else:
                self.reply("run")
        elif k == "lock":
            self.step(m)
            self.deadline = sim.now + float(rest) if rest else None
            self.reply("ok")
        elif k == "retry":
            # until somebody has done something, or the time is over
            ev, dl = w.events, self.deadline
            sim.count("waits for a lock")
            sim.wait(lambda: w.events != ev, dl)
            if dl is not None and sim.now >= dl:
                self.timed_out = True
                sim.count("lock time-outs")
                self.reply("timeout")
            else:
                if w.faults and sim.fault("a configure is killed", 1, 60):
                    self.hit = self.killed = True
                    raise Dead()
                self.reply("again")
        elif k in ("locked", "release", "released"):
            if k == "locked":
                self.locked_at = w.events
            self.step(m)
            self.reply("ok")
        elif k == "populate":
            name, _, tag, d = rest.split("|")
            self.populate(name, tag, d)
        elif k == "sub":
            d, _, b = rest.partition("|")
            self.sub(d, b)
        elif k == "subend":
            self.step(m)
            self.check_sources("while it was used")
            self.in_sub = None
            self.reply("ok")
        else:
            raise HarnessError("message " + m)

    def populate(self, name, tag, d):
        sim, w = self.sim, self.w
        key = os.path.realpath(d)
        if key not in w.dirs:
            sim.fail("wrong-folder", "%s populates %s, which nobody asked for" % (self.name(), d.replace(w.root, "~")))
        if tag not in UP.commits:
            sim.fail("wrong-version", "%s populates %s with commit %r" % (self.name(), name, tag))
        v = UP.commits.index(tag)
        if v != self.version:
            sim.fail("wrong-version", "%s asked for version %d of %s, and version %d is fetched" % (self.name(), self.version, name, v))
        for c in self.calls:
            if c["name"].lower() == name and c["kind"] in ("missing", "unknown"):
                sim.fail("bad-call-accepted", "%s: a bad call for %s (%s) populates the folder" % (self.name(), name, c["kind"]))
            if c["name"].lower() == name and c["kind"] == "override":
                sim.fail("override-ignored", "%s overrides the sources of %s, and the shared folder is populated" % (self.name(), name))
        o = w.populating.get(key)
        if o is not None:
            sim.fail("concurrent-populate", "%s and %s populate %s at the same time" % (o.name(), self.name(), name))
        w.populating[key] = self
        self.touched = True
        sim.count("populations")
        st = w.state(key)
        fresh = key not in self.build.stamps
        if fresh and not self.git_failed and st["complete"] == v and st["head"] == v and st["index"] and not st["locked"]:
            users = [o.name() for o in w.active if o is not self and o.in_sub and os.path.realpath(o.in_sub[0]) == key]
            sim.fail("needless-populate", "%s removes and clones %s, which holds the commit asked for%s" % (self.name(), name, ", while %s uses it" % users if users else ""))
        for o in w.active:
            if o is not self and o.in_sub and os.path.realpath(o.in_sub[0]) == key:
                sim.count("populations while the folder is used")
        if fresh or st["head"] != v:
            w.owner[key] = (self, w.events)
        ok = self.fetch_content(key, v, fresh)
        if ok != "ok":
            self.hit = True
            w.broken = True
        w.populating.pop(key, None)
        self.reply(ok)

    def slow(self, what):
        if self.sim.fault("the network is slow", 1, 12):
            self.sim.sleep(self.sim.pick([1, 60, 500, 700]))

    def fetch_content(self, d, v, fresh):
        """What FetchContent_Populate does for a git repository: the steps of ExternalProject's clone or update script."""
        sim, w = self.sim, self.w
        git = os.path.join(d, ".git")

        def put(f, t):
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb" if isinstance(t, bytes) else "w") as o:
                o.write(t)
        if fresh:
            if os.path.exists(d):
                todo = sorted(os.listdir(d))
                while todo:
                    f = os.path.join(d, todo.pop(sim.op(len(todo))))
                    if os.path.basename(f) == ".git" and sim.chance(1, 2):
                        # in any order within, too
                        for x in sorted(os.listdir(f)):
                            if sim.chance(1, 2):
                                y = os.path.join(f, x)
                                shutil.rmtree(y) if os.path.isdir(y) else os.remove(y)
                        self.step("remove")
                    shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
                    self.step("remove")
                os.rmdir(d)
                self.step("removed")
            os.makedirs(git)
            self.step("clone")
            self.slow("clone")
            put(os.path.join(git, "config"), "[core]\n\trepositoryformatversion = 0\n")
            self.step("clone")
            if w.faults and sim.fault("the network fails", 1, 12):
                shutil.rmtree(d)
                return "git clone failed"
            shutil.copytree(UP.bare, git, dirs_exist_ok=True)
            self.step("cloned")
            had = {}
        else:
            st = w.state(d)
            if st["head"] is None:
                return "git rev-parse failed in the work tree"
            if st["head"] == v:
                self.by_stamp = True
                return "ok"
            self.slow("fetch")
            if w.faults and sim.fault("the network fails", 1, 12):
                return "git fetch failed"
            had = UP.files[st["head"]]
            for f, t in had.items():
                p = os.path.join(d, f)
                if UP.files[v].get(f) != t and os.path.exists(p):
                    with open(p) as o:
                        if o.read() != t:
                            return "git checkout failed: local changes would be overwritten"
        lock = os.path.join(git, "index.lock")
        if os.path.exists(lock):
            return "git checkout failed: index.lock exists"
        put(lock, "")
        self.step("checkout")
        todo = sorted(set(had) | set(UP.files[v]))
        while todo:
            f = todo.pop(sim.op(len(todo)))
            p = os.path.join(d, f)
            if f in UP.files[v]:
                if had.get(f) == UP.files[v][f] and os.path.exists(p):
                    continue
                t = UP.files[v][f]
                put(p, t[:len(t) // 2])
                self.step("checkout")
                put(p, t)
            elif os.path.exists(p):
                os.remove(p)
            self.step("checkout")
        put(os.path.join(git, "index"), UP.index[v])
        os.remove(lock)
        self.step("index")
        put(os.path.join(git, "HEAD"), UP.commits[v] + "\n")
        self.step("head")
        self.build.stamps.add(d)
        return "ok"

    def sub(self, d, b):
        sim, w = self.sim, self.w
        self.step("sub")
        mine = [c for c in self.calls if c["kind"] in ("shared", "override") and os.path.realpath(c["dir"]) == os.path.realpath(d)]
        if not mine:
            sim.fail("wrong-folder", "%s goes on with %s, which it did not ask for" % (self.name(), d.replace(w.root, "~")))
        c = mine[0]
        if any(x[0] == c["name"] for x in self.subs):
            sim.fail("added-twice", "%s adds %s twice" % (self.name(), c["name"]))
        rb = os.path.realpath(b)
        if not rb.startswith(os.path.realpath(self.build.dir) + os.sep):
            sim.fail("wrong-folder", "%s builds %s in %s" % (self.name(), c["name"], b))
        if any(x[1] == rb for x in self.subs):
            sim.fail("wrong-folder", "%s builds two of its parts in %s" % (self.name(), b))
        self.subs.append((c["name"], rb))
        self.in_sub = (d, c)
        self.check_sources("when it goes on")
        if sim.chance(1, 4):
            sim.sleep(sim.pick([1, 10, 100]))
        self.reply("ok")

    def check_sources(self, when):
        sim, w = self.sim, self.w
        d, c = self.in_sub
        if c["kind"] == "override":
            return
        key = os.path.realpath(d)
        st = w.state(key)
        if st["complete"] == self.version:
            sim.count("uses of complete sources")
            return
        # another commit may be asked for at the same time: then nothing is promised
        if self.mixed:
            sim.count("uses with another version asked for")
            return
        # an old build relies on the stamps of its earlier populations; only fresh ones are promised anything after somebody was stopped
        if self.by_stamp and w.broken:
            sim.count("uses of what another left, by an old build")
            return
        own, since = w.owner.get(key, (None, 0))
        # who could not find out what the folder holds replaces it, whoever uses it
        if own is not None and own.git_failed and since > self.locked_at:
            sim.count("uses of a folder that another replaced as git had failed")
            return
        # a finding of its own: the last to touch the folder was to replace what it holds, and was stopped when HEAD and the index said that it holds this commit
        if own is not None and own.over and own.hit and st["head"] == self.version and st["index"]:
            sim.fail("interrupted-replacement", "%s goes on with what %s left of commit %d when it was stopped while replacing it: %s" % (self.name(), own.name(), self.version, st["why"][self.version]))
        sim.fail("incomplete-sources", "%s asked for version %d of %s, and %s the folder is not that: %s" % (self.name(), self.version, c["name"], when, st["why"][self.version]))

    def judge(self, rc, txt):
        sim, w = self.sim, self.w
        txt = txt.replace(w.root, "~").replace(w.link, "~")
        bad = [c for c in self.calls if c["kind"] in ("missing", "unknown") or c["kind"] == "override" and not os.path.isdir(c["dir"])]
        if rc == 0:
            if bad:
                sim.fail("bad-call-accepted", "%s: the call for %s (%s) is accepted" % (self.name(), bad[0]["name"], bad[0]["kind"]))
            want = sorted(c["name"] for c in self.calls)
            if sorted(n for n, _ in self.subs) != want:
                sim.fail("not-added", "%s asked for %s and ends with success, having added %s" % (self.name(), want, [n for n, _ in self.subs]))
            return
        if self.hit or bad or self.timed_out:
            return
        # a build that populated the folder earlier relies on it; after somebody was stopped there it may have to report an error
        if w.broken and self.touched and self.build.old:
            sim.count("configures stopped by what another left")
            return
        sim.fail("failed", "%s fails although nothing happened to it: %s" % (self.name(), txt[-500:]))


class Build:
    def __init__(self, w, name):
        self.name = name
        self.dir = os.path.join(w.root, name)
        self.stamps = set()
        self.old = False


class World:
    def __init__(self, sim, scratch):
        global UP
        self.sim = sim
        self.shim, self.stub = os.path.join(scratch, "shim"), os.path.join(scratch, "stub")
        self.client = os.path.join(scratch, "sim-client")
        if UP is None:
            UP = Upstream(scratch)
            os.makedirs(self.shim, exist_ok=True)
            os.makedirs(self.stub, exist_ok=True)
            for f, t in ((self.client, CLIENT), (os.path.join(self.shim, "git"), GIT), (os.path.join(self.stub, "FetchContent.cmake"), STUB)):
                with open(f, "w") as o:
                    o.write(t)
                os.chmod(f, 0o755)
        self.root, self.link = os.path.join(scratch, "project"), os.path.join(scratch, "alias")
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.copytree(UP.sup, self.root)
        if not os.path.islink(self.link):
            os.symlink(self.root, self.link)
        self.events = 0
        self.active, self.populating, self.owner = [], {}, {}
        self.broken = False
        self.dirs = {os.path.realpath(self.shared(n)) for n in NAMES}

    def shared(self, n):
        return os.path.join(self.root, "extern", n)

    def damage(self, c):
        self.broken = True

    def state(self, d):
        """What a folder holds."""
        why = []
        complete = None
        for v, fs in enumerate(UP.files):
            miss = []
            for f, t in fs.items():
                try:
                    with open(os.path.join(d, f)) as o:
                        if o.read() != t:
                            miss.append(f + " differs")
                except OSError:
                    miss.append(f + " is missing")
            for o in UP.files:
                for f in o:
                    if f not in fs and os.path.exists(os.path.join(d, f)):
                        miss.append(f + " should not be there")
            why.append(", ".join(miss))
            if not miss:
                complete = v
        git = os.path.join(d, ".git")
        head = None
        # as git finds it: a repository needs HEAD, objects and refs
        try:
            with open(os.path.join(git, "HEAD")) as o:
                h = o.read().strip()
            if h.startswith("ref: "):
                h = UP.commits[1]
            if h in UP.commits and os.path.isdir(os.path.join(git, "objects")) and os.path.isdir(os.path.join(git, "refs")):
                head = UP.commits.index(h)
        except OSError:
            pass
        return {"complete": complete, "why": why, "head": head, "index": os.path.exists(os.path.join(git, "index")), "locked": os.path.exists(os.path.join(git, "index.lock"))}


def c28(sim, scratch):
    w = World(sim, scratch)
    w.faults = sim.chance(2, 3)
    mixed = sim.chance(1, 3)
    main = sim.op(2)
    names = [sim.pick(NAMES)] + ([sim.pick(NAMES)] if sim.chance(1, 3) else [])
    names = list(dict.fromkeys(names))
    nb = sim.op_range(1, 4)
    over = os.path.join(w.root, "mine")
    for x in names:
        os.makedirs(os.path.join(over, x))

    def user(i):
        b = Build(w, "b%d" % i)

        def body():
            for n in range(sim.op_range(1, 3)):
                if sim.chance(1, 2):
                    sim.sleep(sim.pick([0.1, 5, 300]))
                if sim.chance(1, 5):      # from scratch
                    shutil.rmtree(b.dir, ignore_errors=True)
                    b.stamps, b.old = set(), False
                v = sim.op(2) if mixed else main
                calls = []
                for x in names:
                    k = sim.op(24)
                    c = {"name": x, "kind": "shared", "dir": sim.pick([w.shared(x), w.shared(x), os.path.join(w.root, "extern", "..", "extern", x), os.path.join(w.link, "extern", x)]), "twice": sim.chance(1, 6)}
                    if k == 23:
                        c["kind"], c["which"], c["twice"] = "missing", sim.op(3), False
                    elif k == 22:
                        c["kind"], c["twice"] = "unknown", False
                    elif k in (20, 21):
                        c["kind"], c["dir"] = "override", os.path.join(over, x if k == 20 else "none")
                    calls.append(c)
                if any(c["kind"] in ("missing", "unknown") or c["dir"] == os.path.join(over, "none") for c in calls):
                    sim.count("bad calls")
                Configure(w, b, n, v, calls).run()
                b.old = True
        return body
    users = [sim.spawn(user(i), "b%d" % i) for i in range(nb)]

    def last():
        # whoever comes when faults have stopped, with a new build, gets its sources
        sim.wait(lambda: all(t.done for t in users))
        w.faults = sim.faults_on = False
        b = Build(w, "last")
        Configure(w, b, 0, sim.op(2) if mixed else main, [{"name": x, "kind": "shared", "dir": w.shared(x), "twice": False} for x in names]).run()
    sim.spawn(last, "last")
    sim.run_all()


class H(pysim.Harness):
    name = "fetch"
    props = {"C28": (c28, "ekat_fetch_content in cmake/EkatUtils.cmake (run by real cmake processes), the kernel's file locks, git's queries",
                     "FetchContent's effects on the folder (removal, clone, checkout, update, its stamps), the network, add_subdirectory, the scheduler and the clock")}


if __name__ == "__main__":
    sys.exit(H().main(sys.argv[1:]))
