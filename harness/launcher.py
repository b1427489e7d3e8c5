"""C24: a simulated CTest, MPI launcher, shell and operating system around EKAT's real test launcher and unit-test CMake functions.

One run: CMake (real, in script mode) configures bin/test-launcher and evaluates EkatCreateUnitTest for a generated suite, the
registered tests being recorded instead of generated; a simulated CTest runs them, several at a time, on a simulated node with
devices; mpiexec starts the ranks, each of which executes the real launcher in a simulated process.  What the launcher starts is
a simulated executable, whose outcome (and every system call's on the way) is drawn from the fault stream.
"""
import argparse, builtins, collections.abc, errno, fnmatch, hashlib, importlib, os, shlex, signal, subprocess as real_subprocess, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim"))
import pysim  # noqa: E402
from pysim import HarnessError, Killed  # noqa: E402

REPO = os.environ.get("SIM_REPO", "/repo")


# ===================================================================== a small POSIX shell
class ShellSyntax(Exception):
    pass


OPERATORS = ("&&", "||", ";", "&", "|", "\n")


def shell_tokens(cmd, env, listing):
    """Words (after expansion), operators and redirections of a command line."""
    toks, i, n = [], 0, len(cmd)
    word, quoted_any, started, glob = "", False, False, False

    def flush():
        nonlocal word, started, glob, quoted_any
        if started:
            if glob:
                m = sorted(f for f in listing if fnmatch.fnmatchcase(f, word) and not f.startswith("."))
                for f in m or [word]:
                    toks.append(("word", f, quoted_any))
            else:
                toks.append(("word", word, quoted_any))
        word, started, glob, quoted_any = "", False, False, False

    def var(i):
        j = i + 1
        if j < n and cmd[j] == "{":
            e = cmd.find("}", j)
            if e < 0:
                raise ShellSyntax("unterminated ${")
            name = cmd[j + 1:e]
            if not name.isidentifier():
                raise ShellSyntax("bad substitution")
            return env.get(name, ""), e + 1
        if j < n and (cmd[j].isalpha() or cmd[j] == "_"):
            e = j
            while e < n and (cmd[e].isalnum() or cmd[e] == "_"):
                e += 1
            return env.get(cmd[j:e], ""), e
        if j < n and cmd[j] in "$?#@*!-0123456789":
            return "0" if cmd[j] in "$?#!0" else "", j + 1
        if j < n and cmd[j] == "(":
            raise ShellSyntax("command substitution")
        return "$", i + 1
    while i < n:
        c = cmd[i]
        if c in " \t":
            flush()
            i += 1
        elif c == "'":
            e = cmd.find("'", i + 1)
            if e < 0:
                raise ShellSyntax("unterminated quoted string")
            word += cmd[i + 1:e]
            started = quoted_any = True
            i = e + 1
        elif c == '"':
            started = quoted_any = True
            i += 1
            while True:
                if i >= n:
                    raise ShellSyntax("unterminated quoted string")
                c = cmd[i]
                if c == '"':
                    i += 1
                    break
                if c == "\\" and i + 1 < n and cmd[i + 1] in '$`"\\\n':
                    word += cmd[i + 1] if cmd[i + 1] != "\n" else ""
                    i += 2
                elif c == "$":
                    v, i = var(i)
                    word += v
                elif c == "`":
                    raise ShellSyntax("command substitution")
                else:
                    word += c
                    i += 1
        elif c == "\\":
            if i + 1 < n:
                if cmd[i + 1] != "\n":
                    word += cmd[i + 1]
                    started = quoted_any = True
                i += 2
            else:
                word += c
                started = True
                i += 1
        elif c == "$":
            v, j = var(i)
            i = j
            if v == "$":
                word += v
                started = True
                continue
            # field splitting of an unquoted expansion
            parts = v.split()
            if v[:1].isspace():
                flush()
            for k, p in enumerate(parts):
                if k:
                    flush()
                word += p
                started = True
                glob = glob or any(x in p for x in "*?[")
            if parts and v[-1:].isspace():
                flush()
        elif c == "`" or c in "()":
            raise ShellSyntax("`%s' unexpected" % c)
        elif c == "#" and not started:
            e = cmd.find("\n", i)
            i = n if e < 0 else e
        elif c == "~" and not started and (i + 1 == n or cmd[i + 1] in " \t/\n;&|"):
            word += env.get("HOME", "~")
            started = True
            i += 1
        elif c in "&|;\n":
            flush()
            if cmd[i:i + 2] in ("&&", "||"):
                toks.append(("op", cmd[i:i + 2], False))
                i += 2
            else:
                toks.append(("op", c, False))
                i += 1
        elif c in "<>":
            fd = ""
            if started and word.isdigit() and not quoted_any:
                fd, word, started = word, "", False
            flush()
            o = c
            i += 1
            while i < n and cmd[i] in "<>&|":
                o += cmd[i]
                i += 1
            toks.append(("redir", fd + o, False))
        else:
            if c in "*?[":
                glob = True
            word += c
            started = True
            i += 1
    flush()
    return toks


# ===================================================================== simulated processes
class Pipe:
    """Where a process writes its output.  capacity None: never full (a file or a terminal)."""

    def __init__(self, capacity=None):
        self.data, self.capacity, self.unread = bytearray(), capacity, 0

    def room(self):
        return self.capacity is None or self.unread < self.capacity


class Proc:
    def __init__(self, sim, node, env, out, err, aff, parent, test):
        self.sim, self.node, self.env, self.out, self.err, self.aff, self.parent, self.test = sim, node, dict(env), out, err, aff, parent, test
        self.cwd = "/build/tests"
        self.task = None
        self.status = None          # wait status
        self.rank = None
        self.dead = False


class Node:
    """The simulated machine and everything that happens on it."""

    def __init__(self, sim):
        self.sim = sim
        self.running = []           # executables running now
        self.launches = []          # every start of an executable
        self.conf = None

    # ---- running a command in the current simulated process; returns the wait status
    def exec_argv(self, p, argv):
        sim = self.sim
        sim.yield_()
        # wrappers that change the process and go on
        while argv:
            b = argv[0]
            if b in ("env", "/usr/bin/env"):
                argv = argv[1:]
                while argv and ("=" in argv[0] or argv[0] in ("-u", "-i", "--")):
                    if argv[0] == "-u":
                        p.env.pop(argv[1], None)
                        argv = argv[2:]
                    elif argv[0] == "-i":
                        p.env = {}
                        argv = argv[1:]
                    elif argv[0] == "--":
                        argv = argv[1:]
                    else:
                        k, v = argv[0].split("=", 1)
                        p.env[k] = v
                        argv = argv[1:]
            elif b in ("taskset", "/usr/bin/taskset"):
                if sim.fault("taskset fails", 1, 120):
                    self.note(p, "taskset failed")
                    if sim.cur in p.test.cur_launcher:
                        p.test.cur_launcher[sim.cur].sys_fault = True
                    return 1 << 8
                i, spec = 1, None
                while i < len(argv) and argv[i].startswith("-"):
                    a = argv[i]
                    if a in ("-c", "--cpu-list"):
                        spec = argv[i + 1] if i + 1 < len(argv) else None
                        i += 2
                    elif a.startswith("--cpu-list="):
                        spec = a.split("=", 1)[1]
                        i += 1
                    elif a.startswith("-c"):
                        spec = a[2:]
                        i += 1
                    else:
                        raise HarnessError("taskset option %s is not simulated" % a)
                try:
                    if spec is None:        # a hexadecimal mask
                        m = int(argv[i], 16)
                        i += 1
                        cpus = {b for b in range(m.bit_length()) if m >> b & 1}
                    else:
                        cpus = set()
                        for r in spec.split(","):
                            lo, _, hi = r.partition("-")
                            cpus |= set(range(int(lo), int(hi or lo) + 1))
                except (ValueError, IndexError):
                    self.note(p, "taskset: failed to parse CPU list: %r" % (spec,))
                    return 1 << 8
                if not cpus & self.cpus:
                    self.note(p, "taskset: failed to set affinity to %s" % sorted(cpus))
                    return 1 << 8
                p.aff = frozenset(cpus & self.cpus)
                argv = argv[i:]
            elif b in ("exec", "command", "nohup"):
                argv = argv[1:]
            elif b in ("sh", "bash", "/bin/sh", "/bin/bash") and len(argv) > 2 and argv[1] == "-c":
                return self.shell(p, argv[2])
            else:
                break
        if not argv:
            return 0
        if argv[0] == self.conf["mpiexec"] and self.conf["mpiexec"]:
            return self.mpiexec(p, argv[1:])
        if argv[0] == self.conf["launcher"]:
            return self.launcher(p, argv)
        return self.executable(p, argv)

    def shell(self, p, cmd):
        """sh -c cmd"""
        try:
            toks = shell_tokens(cmd, p.env, ["CTestTestfile.cmake", "a.txt", "exe", "input.yaml"])
        except ShellSyntax as e:
            self.note(p, "sh: syntax error: %s in %s" % (e, cmd))
            return 2 << 8
        groups, cur, op = [], [], ""
        for t in toks:
            if t[0] == "op":
                groups.append((op, cur))
                op, cur = t[1], []
            else:
                cur.append(t)
        groups.append((op, cur))
        st = 0
        for k, (op, g) in enumerate(groups):
            if not g:
                if op in ("", ";", "\n"):
                    continue
                self.note(p, "sh: syntax error near %s" % op)
                return 2 << 8
            if op in ("|", "&") or (k + 1 < len(groups) and groups[k + 1][0] == "&" and any(x[1] for x in groups[k + 1:])):
                self.note(p, "sh: pipelines and background jobs are not simulated")
                return 2 << 8
            if op == "&&" and st != 0 or op == "||" and st == 0:
                continue
            st = self.simple(p, g, last=k + 1 == len(groups))
        return st

    def simple(self, p, toks, last):
        sets, words, i = {}, [], 0
        out, err = p.out, p.err
        while i < len(toks):
            k, v, q = toks[i]
            if k == "redir":
                fd, o = v.rstrip("<>&|"), v.lstrip("0123456789")
                if i + 1 >= len(toks):
                    self.note(p, "sh: syntax error: redirection without a target")
                    return 2 << 8
                tgt = toks[i + 1][1]
                i += 2
                if o == "<":
                    continue
                if o == ">&":
                    w = {"1": out, "2": err}.get(tgt)
                    if w is None:
                        self.note(p, "sh: bad file descriptor")
                        return 2 << 8
                    out, err = (out, w) if fd == "2" else (w, err)
                elif o in (">", ">>", ">|"):
                    w = Pipe()
                    out, err = (out, w) if fd == "2" else (w, err)
                else:
                    raise HarnessError("redirection %s is not simulated" % v)
                continue
            name, eq, val = v.partition("=")
            if not words and eq and name.isidentifier():
                sets[name] = val
            else:
                words.append(v)
            i += 1
        if not words:
            p.env.update(sets)
            return 0
        if words[0] == "export":
            for w in words[1:]:
                k, _, v = w.partition("=")
                p.env[k] = v
            return 0
        if words[0] == "unset":
            for w in words[1:]:
                p.env.pop(w, None)
            return 0
        if words[0] in ("true", ":"):
            return 0
        if words[0] == "false":
            return 1 << 8
        if words[0] == "cd":
            return 0
        if words[0] == "exit":
            return (int(words[1]) & 255) << 8
        c = Proc(self.sim, self, dict(p.env, **sets), out, err, p.aff, p, p.test)
        c.rank, c.task = p.rank, p.task
        st = self.exec_argv(c, words)
        if os.WIFSIGNALED(st) and not (last and self.sim.op(2)):
            return (128 + os.WTERMSIG(st)) << 8      # the shell waited for it
        return st

    def note(self, p, msg):
        self.sim.trace("note:", msg)
        p.notes = getattr(p, "notes", []) + [msg]
        self.write(p.err, ("%s\n" % msg).encode())

    def write(self, pipe, data):
        sim = self.sim
        if pipe.capacity is None:
            pipe.data += data
            return
        i = 0
        while i < len(data):
            sim.wait(pipe.room)
            k = min(len(data) - i, max(1, pipe.capacity - pipe.unread))
            pipe.data += data[i:i + k]
            pipe.unread += k
            i += k

    # ---- mpiexec
    def mpiexec(self, p, args):
        sim, cf = self.sim, self.conf
        i, n, pe = 0, None, None
        extra = cf["mpi_extra"].split()
        while i < len(args) and args[i].startswith("-"):
            a = args[i]
            if a == cf["np_flag"] and i + 1 < len(args):
                v = args[i + 1]
                i += 2
                if a == "--map-by":
                    t = v.split(":")
                    if len(t) != 4 or t[0] != "ppr" or t[2] != "node" or not t[3].startswith("pe=") or not t[1].isdigit() or not t[3][3:].isdigit():
                        self.note(p, "mpiexec: bad mapping %s" % v)
                        return 1 << 8
                    n, pe = int(t[1]), int(t[3][3:])
                elif v.isdigit():
                    n = int(v)
                else:
                    self.note(p, "mpiexec: bad number of processes %s" % v)
                    return 1 << 8
            elif cf["thread_flag"] and a == cf["thread_flag"] and i + 1 < len(args):
                pe = int(args[i + 1]) if args[i + 1].isdigit() else -1
                i += 2
            elif a in extra:
                i += 1
                if i < len(args) and args[i] in extra and not args[i].startswith("-"):
                    i += 1
            else:
                self.note(p, "mpiexec: unknown option %s" % a)
                return 1 << 8
        if not n or i >= len(args):
            self.note(p, "mpiexec: nothing to do")
            return 1 << 8
        sim.trace("mpiexec starts", n, "ranks of", args[i:])
        p.test.mpi_started.append((n, pe))
        if sim.fault("mpiexec cannot start", 1, 100):
            self.note(p, "mpiexec: cannot start")
            p.test.env_fault = True
            return 213 << 8
        ranks = []
        for r in range(n):
            e = dict(p.env)
            e[cf["rank_var"]], e[cf["size_var"]] = str(r), str(n)
            c = Proc(sim, self, e, p.out, p.err, p.aff, p, p.test)
            c.rank = r

            def body(c=c):
                c.task = sim.cur
                try:
                    if sim.op(3) == 2:
                        sim.sleep(0.001 * sim.op_range(1, 500))
                    c.status = self.exec_argv(c, list(args[i:]))
                except Killed:
                    c.dead = True
                    c.status = signal.SIGTERM
                    raise
            c.task = sim.spawn(body, "%s.%d" % (p.test.name, r))
            ranks.append(c)
        aborts = sim.chance(1, 2)        # does it kill the others when one fails?
        while True:
            sim.wait(lambda: all(c.status is not None for c in ranks) or aborts and any(c.status for c in ranks))
            if aborts and any(c.status for c in ranks) and not all(c.status is not None for c in ranks):
                for c in ranks:
                    if c.status is None:
                        sim.trace("mpiexec kills rank", c.rank)
                        c.dead = True
                        c.status = signal.SIGTERM
                        mine = [t for t in sim.tasks if t is c.task or t.name.startswith(c.task.name + "'")]
                        for t in mine:
                            sim.kill(t)
                        self.running = [l for l in self.running if l["task"] not in mine]
                        for l in self.launches:
                            if l["task"] in mine and not l["done"]:
                                l["killed"] = True
            if all(c.status is not None for c in ranks):
                break
        for c in ranks:
            p.test.ranks.append(c)
        bad = [c.status for c in ranks if c.status]
        if not bad:
            return 0
        s = bad[0]
        return (128 + os.WTERMSIG(s)) << 8 if os.WIFSIGNALED(s) else s

    # ---- the program under test
    def executable(self, p, argv):
        sim = self.sim
        l = {"argv": list(argv), "env": dict(p.env), "aff": p.aff, "rank": p.rank, "test": p.test, "task": sim.cur, "done": False, "ok": False, "killed": False, "t0": sim.now, "chunks": [], "launcher": p.test.cur_launcher.get(sim.cur)}
        known = self.conf["programs"]
        if argv[0] not in known:
            sim.trace("no such program:", argv)
            self.note(p, "sh: 1: %s: not found" % argv[0])
            p.test.stray.append(l)
            return 127 << 8
        if sim.fault("executable missing", 1, 60):
            l["done"] = l["nostart"] = True
            self.launches.append(l)
            self.note(p, "sh: 1: %s: not found" % argv[0])
            return 127 << 8
        if sim.fault("executable not runnable", 1, 60):
            l["done"] = l["nostart"] = True
            self.launches.append(l)
            self.note(p, "sh: 1: %s: Permission denied" % argv[0])
            return 126 << 8
        sim.trace("start", p.test.name, "rank", p.rank, argv, "cpus", sorted(p.aff) if p.aff is not None else "all")
        self.launches.append(l)
        self.running.append(l)
        self.check_running()
        st = 0
        for k in range(sim.op_range(0, 3)):
            sim.sleep(0.001 * sim.op_range(1, 2000))
            kind = sim.op(12)
            if kind == 11:
                d = b"x" * sim.op_range(1, 200000)
            elif kind == 10:
                d = bytes([0xff, 0xfe, 0xc3]) + b" invalid\n"
            elif kind == 9:
                d = "  \u00e9t\u00e9  \n".encode()
            else:
                d = b"%s r%d line %d\n" % (p.test.name.encode(), p.rank or 0, k)
            l["chunks"].append(d)
            self.write(p.err if sim.op(4) == 3 else p.out, d)
        if sim.fault("slow executable", 1, 12):
            sim.sleep(60.0 + sim.op_range(0, 600))
        if sim.fault("executable fails", 1, 10):
            st = sim.pick([1, 2, 3, 42, 77, 127, 128, 254, 255]) << 8
        elif sim.fault("executable dies of a signal", 1, 12):
            st = sim.pick([signal.SIGSEGV, signal.SIGABRT, signal.SIGKILL, signal.SIGFPE, signal.SIGHUP])
        sim.trace("end", p.test.name, "rank", p.rank, "status", int(st))
        self.running.remove(l)
        l["done"], l["ok"] = True, st == 0
        sim.yield_()
        return int(st)

    def check_running(self):
        """Invariant: no two executables running at the same time share a device they were bound to."""
        sim = self.sim
        new = self.running[-1]
        if new["aff"] is None:
            return
        for o in self.running[:-1]:
            if o["aff"] is not None and o["aff"] & new["aff"]:
                sim.fail("shared-cpu", "%s rank %s and %s rank %s run at the same time, both bound to %s" % (o["test"].name, o["rank"], new["test"].name, new["rank"], sorted(o["aff"] & new["aff"])))

    # ---- the real launcher in a simulated process
    def launcher(self, p, argv):
        sim = self.sim
        me = Launcher(p, argv)
        p.test.cur_launcher[sim.cur] = me
        p.test.launchers.append(me)
        sim.trace("launcher", argv[1:], "rank", p.rank)
        st = me.run()
        me.status = st
        p.test.cur_launcher.pop(sim.cur, None)
        sim.trace("launcher of", p.test.name, "rank", p.rank, "exits with", st)
        return (st & 255) << 8


# ===================================================================== the launcher's view of Python
class Environ(collections.abc.MutableMapping):
    """os.environ: assignments reach the process' environment (putenv); replacing os.environ itself does not."""

    def __init__(self, cenv):
        self.c = cenv
        self.d = dict(cenv)

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        if not isinstance(k, str) or not isinstance(v, str):
            raise TypeError("str expected, not %s" % type(v).__name__)
        self.d[k] = v
        self.c[k] = v

    def __delitem__(self, k):
        del self.d[k]
        self.c.pop(k, None)

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def copy(self):
        return dict(self.d)

    def __or__(self, o):
        return dict(self.d) | dict(o)

    def __repr__(self):
        return "environ(%r)" % self.d


class Stdout:
    encoding, errors, closed = "utf-8", "strict", False

    def __init__(self, me, pipe, what):
        self.me, self.pipe, self.what, self.buf = me, pipe, what, []
        self.size = 0
        self.buffer = StdoutBytes(self)

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self.raw(s.encode("utf-8"))
        return len(s)

    def raw(self, b):
        self.buf.append(b)
        self.size += len(b)
        if self.size > 8192 or self.what == "stderr":
            self.flush()

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        if not self.buf:
            return
        d = b"".join(self.buf)
        if self.what == "stdout" and self.me.sim.fault("write to stdout fails", 1, 150):
            self.me.io_fault = True
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        self.buf, self.size = [], 0
        self.me.node.write(self.pipe, d)
        self.me.sim.yield_()

    def isatty(self):
        return False

    def fileno(self):
        return 1 if self.what == "stdout" else 2

    def reconfigure(self, **k):
        pass


class StdoutBytes:
    def __init__(self, o):
        self.o = o

    def write(self, b):
        self.o.raw(bytes(b))
        return len(b)

    def flush(self):
        self.o.flush()


PURE = {"argparse", "pathlib", "shlex", "re", "json", "math", "itertools", "functools", "textwrap", "collections", "typing", "string", "errno", "signal", "enum", "dataclasses", "contextlib",
        "operator", "traceback", "copy", "io", "__future__", "warnings", "types", "abc", "bisect", "posixpath"}
OS_PURE = {"path", "sep", "linesep", "name", "pathsep", "devnull", "curdir", "extsep", "EX_OK", "WEXITSTATUS", "WIFEXITED", "WIFSIGNALED", "WTERMSIG", "WIFSTOPPED", "WCOREDUMP", "waitstatus_to_exitcode", "strerror",
           "fspath", "PathLike", "error", "fsencode", "fsdecode", "EX_USAGE", "EX_SOFTWARE", "EX_UNAVAILABLE"}
SYS_PURE = {"version_info", "version", "executable", "platform", "maxsize", "byteorder", "hexversion", "implementation", "exc_info", "flags", "path", "getdefaultencoding", "getfilesystemencoding", "intern"}

CODE = {}
CURRENT = {}       # task -> Launcher, for the module-level stand-ins


class ExecReplaced(BaseException):
    def __init__(self, st):
        self.st = st


class Namespace:
    pass


class Launcher:
    def __init__(self, p, argv):
        self.p, self.node, self.sim, self.argv = p, p.node, p.sim, argv
        self.cenv = dict(p.env)
        self.status = None
        self.io_fault = self.sys_fault = False
        self.started = 0
        self.stdout, self.stderr = Stdout(self, p.out, "stdout"), Stdout(self, p.err, "stderr")
        self.aff = p.aff

    # ---- os
    def make_os(self):
        me = self

        class Os:
            environ = Environ(me.cenv)

            def __getattr__(s, k):
                if k in OS_PURE:
                    return getattr(os, k)
                raise HarnessError("os.%s is not simulated" % k)

            def getcwd(s):
                if me.sim.fault("the working directory is gone", 1, 300):
                    me.sys_fault = True
                    raise FileNotFoundError(errno.ENOENT, "No such file or directory")
                return me.p.cwd

            def getenv(s, k, d=None):
                return s.environ.get(k, d)

            def putenv(s, k, v):
                me.cenv[k] = v

            def unsetenv(s, k):
                me.cenv.pop(k, None)

            def getpid(s):
                return 4711

            def cpu_count(s):
                return len(me.node.cpus)

            def sched_getaffinity(s, pid):
                return set(me.aff if me.aff is not None else me.node.cpus)

            def sched_setaffinity(s, pid, cpus):
                c = {int(x) for x in cpus} & me.node.cpus
                if not c:
                    raise OSError(errno.EINVAL, "Invalid argument")
                me.aff = frozenset(c)

            def system(s, cmd):
                if me.sim.fault("fork fails", 1, 60):
                    me.sys_fault = True
                    return -1
                c = me.child(me.cenv, me.p.out, me.p.err)
                return me.node.shell(c, cmd)

            def execvpe(s, f, args, env):
                if f != args[0] and os.path.basename(f) != os.path.basename(args[0]):
                    args = [f] + list(args[1:])
                c = me.child(dict(env), me.p.out, me.p.err)
                raise ExecReplaced(me.node.exec_argv(c, [str(a) for a in args]))

            def execvp(s, f, args):
                s.execvpe(f, args, me.cenv)
            execv = execvp
            execve = execvpe

            def _exit(s, code):
                raise ExecReplaced((code & 255) << 8)
        return Os()

    def child(self, env, out, err):
        for k, v in env.items():
            if not isinstance(k, str) or not isinstance(v, str):
                raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(v).__name__)
        c = Proc(self.sim, self.node, env, out, err, self.aff, self.p, self.p.test)
        c.rank, c.task = self.p.rank, self.sim.cur
        return c

    # ---- subprocess
    def make_subprocess(self, osm):
        me = self
        rs = real_subprocess
        sp = Namespace()
        sp.PIPE, sp.STDOUT, sp.DEVNULL = rs.PIPE, rs.STDOUT, rs.DEVNULL
        for k in ("CalledProcessError", "TimeoutExpired", "SubprocessError", "CompletedProcess", "list2cmdline"):
            setattr(sp, k, getattr(rs, k))

        class Popen:
            def __init__(s, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None,
                         startupinfo=None, creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, text=None, encoding=None, errors=None, **kw):
                if executable is not None or preexec_fn is not None:
                    raise HarnessError("this use of Popen is not simulated")
                if me.sim.fault("fork fails", 1, 60):
                    me.sys_fault = True
                    raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
                s.args, s.returncode = args, None
                s.text = bool(text or universal_newlines or encoding or errors)
                s.errors = errors or "strict"
                s.encoding = encoding or "utf-8"

                def sink(x, dflt):
                    if x is None:
                        return dflt
                    if x == rs.PIPE:
                        return Pipe(65536)
                    if x == rs.DEVNULL:
                        return Pipe()
                    if isinstance(x, (Stdout,)):
                        return x.pipe
                    raise HarnessError("this use of Popen is not simulated")
                s.o = sink(stdout, me.p.out)
                s.e = s.o if stderr == rs.STDOUT else sink(stderr, me.p.err)
                s.pipes = {"stdout": s.o if stdout == rs.PIPE else None, "stderr": s.e if stderr == rs.PIPE else None}
                s.rd = {"stdout": 0, "stderr": 0}
                s.c = me.child(dict(env) if env is not None else dict(me.cenv), s.o, s.e)
                if not shell:
                    av = [args] if isinstance(args, str) else [os.fspath(a) for a in args]
                    if any(not isinstance(a, str) for a in av):
                        raise TypeError("expected str, bytes or os.PathLike object")
                    if av[0] not in me.node.conf["programs"] and av[0] not in ("taskset", "env", "sh", "bash", "/bin/sh", "/usr/bin/env", "/usr/bin/taskset"):
                        me.p.test.stray.append({"argv": av, "launcher": me, "rank": me.p.rank})
                        raise FileNotFoundError(errno.ENOENT, "No such file or directory", av[0])
                else:
                    av = args if isinstance(args, str) else args[0]
                l = me
                s.cur0 = me.sim.cur

                def body():
                    s.c.task = me.sim.cur
                    me.p.test.cur_launcher[me.sim.cur] = l
                    try:
                        s.c.status = me.node.shell(s.c, av) if shell else me.node.exec_argv(s.c, list(av))
                    except Killed:
                        s.c.status = signal.SIGTERM
                        raise
                s.task = me.sim.spawn(body, me.sim.cur.name + "'")
                s.pid = 4712
                if s.text:
                    s.stdout = s.pipes["stdout"] and StreamReader(s, "stdout")
                    s.stderr = s.pipes["stderr"] and StreamReader(s, "stderr")
                else:
                    s.stdout = s.pipes["stdout"] and StreamReader(s, "stdout")
                    s.stderr = s.pipes["stderr"] and StreamReader(s, "stderr")
                me.sim.yield_()

            def drain(s):
                d = {}
                for k, q in s.pipes.items():
                    if q is not None:
                        d[k] = bytes(q.data[s.rd[k]:])
                        s.rd[k] = len(q.data)
                        q.unread = 0
                return d

            def conv(s, b):
                return b.decode(s.encoding, s.errors).replace("\r\n", "\n") if s.text else b

            def communicate(s, input=None, timeout=None):
                acc = {k: b"" for k in s.pipes if s.pipes[k] is not None}
                while True:
                    me.sim.wait(lambda: s.c.status is not None or any(q is not None and q.unread for q in s.pipes.values()))
                    for k, v in s.drain().items():
                        acc[k] += v
                    if s.c.status is not None:
                        break
                s.wait()
                return tuple(s.conv(acc[k]) if k in acc else None for k in ("stdout", "stderr"))

            def wait(s, timeout=None):
                me.sim.wait(lambda: s.c.status is not None)
                return s.poll()

            def poll(s):
                if s.c.status is None:
                    me.sim.yield_()
                if s.c.status is not None:
                    s.returncode = os.waitstatus_to_exitcode(s.c.status)
                return s.returncode

            def kill(s):
                raise HarnessError("Popen.kill is not simulated")
            terminate = send_signal = kill

            def __enter__(s):
                return s

            def __exit__(s, *a):
                s.wait()
                return False

        class StreamReader:
            def __init__(s, po, k):
                s.po, s.k = po, k

            def read(s, n=-1):
                acc = b""
                q = s.po.pipes[s.k]
                while True:
                    me.sim.wait(lambda: s.po.c.status is not None or q.unread)
                    acc += bytes(q.data[s.po.rd[s.k]:])
                    s.po.rd[s.k] = len(q.data)
                    q.unread = 0
                    if s.po.c.status is not None:
                        return s.po.conv(acc)

            def __iter__(s):
                d = s.read()
                return iter(d.splitlines(True))

            def readline(s):
                raise HarnessError("readline on a pipe is not simulated")

            def close(s):
                pass

        def run(args, *, input=None, capture_output=False, timeout=None, check=False, **kw):
            if capture_output:
                kw["stdout"] = kw["stderr"] = rs.PIPE
            p = Popen(args, **kw)
            o, e = p.communicate()
            r = rs.CompletedProcess(args, p.returncode, o, e)
            if check:
                r.check_returncode()
            return r

        def call(args, **kw):
            kw.pop("timeout", None)
            return Popen(args, **kw).wait()

        def check_call(args, **kw):
            r = call(args, **kw)
            if r:
                raise rs.CalledProcessError(r, args)
            return 0

        def check_output(args, **kw):
            return run(args, stdout=rs.PIPE, check=True, **kw).stdout

        def getstatusoutput(cmd, **kw):
            r = run(cmd, shell=True, text=True, stdout=rs.PIPE, stderr=rs.STDOUT)
            return r.returncode, r.stdout[:-1] if r.stdout.endswith("\n") else r.stdout
        sp.Popen, sp.run, sp.call, sp.check_call, sp.check_output, sp.getstatusoutput = Popen, run, call, check_call, check_output, getstatusoutput
        return sp

    def make_sys(self):
        me = self

        class Sys:
            argv = list(me.argv)
            stdout, stderr, stdin = me.stdout, me.stderr, None
            __stdout__, __stderr__ = me.stdout, me.stderr
            modules = {}

            def exit(s, code=None):
                raise SystemExit(code)

            def __getattr__(s, k):
                if k in SYS_PURE:
                    return getattr(sys, k)
                raise HarnessError("sys.%s is not simulated" % k)
        return Sys()

    def run(self):
        sim = self.sim
        path = self.node.conf["launcher_file"]
        osm, sysm = self.make_os(), self.make_sys()
        spm = self.make_subprocess(osm)
        mods = {"os": osm, "sys": sysm, "subprocess": spm}
        self.sys = sysm

        def imp(name, g=None, l=None, fromlist=(), level=0):
            root = name.split(".")[0]
            if name == "os.path":
                return os.path if fromlist else osm
            if root in mods and name == root:
                return mods[root]
            if name == "time":
                t = Namespace()
                t.sleep = sim.sleep
                t.time = t.monotonic = t.perf_counter = lambda: 1.6e9 + sim.now
                return t
            if root in PURE:
                return __import__(name, {}, {}, fromlist, level)
            raise HarnessError("import of %s is not simulated" % name)
        b = dict(vars(builtins))

        def p(*a, sep=" ", end="\n", file=None, flush=False):
            f = sysm.stdout if file is None else file
            f.write((" " if sep is None else sep).join(str(x) for x in a) + ("\n" if end is None else end))
            if flush:
                f.flush()

        def no_open(*a, **k):
            raise HarnessError("open() in the launcher is not simulated")
        b.update({"__import__": imp, "print": p, "open": no_open, "exit": sysm.exit, "quit": sysm.exit})
        g = {"__name__": "__main__", "__builtins__": b, "__file__": self.argv[0], "__doc__": None}
        CURRENT[sim.cur] = self
        code = 0
        try:
            try:
                exec(self.node.conf["code"], g)
            except SystemExit as e:
                code = e.code
                if code is None or code is True or code is False or isinstance(code, int):
                    code = int(code or 0)
                else:
                    sysm.stderr.write(str(code) + "\n")
                    code = 1
            except (pysim.Violation, HarnessError, Killed):
                raise
            except ExecReplaced as e:
                return e.st >> 8 if os.WIFEXITED(e.st) else 128 + os.WTERMSIG(e.st)
            except KeyboardInterrupt:
                raise
            except BaseException as e:
                sim.trace("uncaught", type(e).__name__, str(e)[:200])
                try:
                    sysm.stderr.write("Traceback: %s: %s\n" % (type(e).__name__, e))
                except OSError:
                    pass
                code = 1
            try:
                self.stdout.flush()
            except OSError:
                code = 120
        finally:
            CURRENT.pop(sim.cur, None)
        return code & 255


class ArgparseSys:
    """argparse's sys: the simulated process' own."""

    def __getattr__(self, k):
        import threading
        for t, l in CURRENT.items():
            if t.thread is threading.current_thread():
                return getattr(l.sys, k)
        return getattr(sys, k)


argparse._sys = ArgparseSys()


# ===================================================================== CMake, for real
RECORDERS = ("add_test", "set_tests_properties", "add_executable", "target_link_directories", "target_include_directories", "set_target_properties", "target_compile_definitions", "target_compile_options",
             "target_sources", "target_compile_features", "add_custom_command", "add_custom_target", "install", "add_dependencies", "target_link_options")

PRELUDE = r'''
cmake_minimum_required(VERSION 3.18)
list(APPEND CMAKE_MODULE_PATH "%(repo)s/cmake")
set(CMAKE_BINARY_DIR "%(bin)s")
set(CMAKE_CURRENT_BINARY_DIR "%(bin)s/tests")
set(CMAKE_Fortran_SOURCE_FILE_EXTENSIONS f;F;f90;F90)
'''
RECORDER = r'''
function(%(n)s)
  set(sim_l "%(n)s")
  if (ARGC GREATER 0)
    math(EXPR sim_n "${ARGC}-1")
    foreach(sim_i RANGE 0 ${sim_n})
      string(HEX "${ARGV${sim_i}}" sim_h)
      string(APPEND sim_l " x${sim_h}")
    endforeach()
  endif()
  file(APPEND "${SIM_REC}" "${sim_l}\n")
endfunction()
'''
TAIL = r'''
function(target_link_libraries sim_t)
  _set_property(GLOBAL APPEND PROPERTY SIM_LL_${sim_t} ${ARGN})
endfunction()
function(get_target_property sim_v sim_t sim_p)
  set(${sim_v} "${sim_v}-NOTFOUND" PARENT_SCOPE)
  if (sim_p STREQUAL "LINK_LIBRARIES")
    get_property(sim_x GLOBAL PROPERTY SIM_LL_${sim_t})
    list(REMOVE_ITEM sim_x PUBLIC PRIVATE INTERFACE)
    set(${sim_v} "${sim_x}" PARENT_SCOPE)
  endif()
endfunction()
function(set_property sim_kind)
  if (NOT sim_kind STREQUAL "TEST")
    _set_property(${ARGV})
    return()
  endif()
  set(sim_l "set_property")
  math(EXPR sim_n "${ARGC}-1")
  foreach(sim_i RANGE 0 ${sim_n})
    string(HEX "${ARGV${sim_i}}" sim_h)
    string(APPEND sim_l " x${sim_h}")
  endforeach()
  file(APPEND "${SIM_REC}" "${sim_l}\n")
endfunction()
include(EkatCreateUnitTest)
'''


def cm(s):
    """A string as a CMake bracket argument."""
    return "[==[%s]==]" % s


def run_cmake(scratch, script, bindir):
    rec = os.path.join(scratch, "rec.txt")
    f = os.path.join(scratch, "suite.cmake")
    for x in (rec,):
        if os.path.exists(x):
            os.remove(x)
    os.makedirs(bindir, exist_ok=True)
    head = PRELUDE % {"repo": REPO, "bin": bindir} + 'set(SIM_REC "%s")\n' % rec + "".join(RECORDER % {"n": n} for n in RECORDERS) + TAIL
    with open(f, "w") as o:
        o.write(head + script)
    p = real_subprocess.run(["cmake", "-P", f], stdout=real_subprocess.PIPE, stderr=real_subprocess.STDOUT, cwd=scratch, text=True, errors="replace")
    recs = []
    if os.path.exists(rec):
        for l in open(rec):
            w = l.split()
            recs.append((w[0], [bytes.fromhex(x[1:]).decode() for x in w[1:]]))
    return p.returncode, p.stdout, recs


# ===================================================================== the simulated CTest
class Test:
    def __init__(self, name):
        self.name = name
        self.cmd = None
        self.props = {}
        self.spec = None          # what was asked for: (suite entry, ranks, threads)
        self.state = "waiting"
        self.passed = None
        self.alloc = []
        self.ranks, self.launchers, self.mpi_started, self.stray = [], [], [], []
        self.cur_launcher = {}
        self.env_fault = False
        self.managed_alloc = False
        self.t0 = self.t1 = None
        self.manual = None


def split_list(s):
    return [x for x in s.split(";") if x]


class Run:
    def __init__(self, sim, scratch):
        self.sim, self.scratch = sim, scratch
        self.node = Node(sim)

    # ------------------------------------------------------- what is asked for
    def words(self, manual):
        sim = self.sim
        simple = ["--flag", "-b", "-p", "--", "--help", "--args", "-c=4,5", "x=1", "3.5e-3", "name:value", "a/b.nc", "--buffer-output", "-h", "-K", "1,2", "a@b", "+x", "%"]
        odd = ["two words", "a  b", "it's", 'say "hi"', "$HOME", "${OMP_NUM_THREADS}", "*", "a?txt", "#x", "~", "a&b", "a|b", "x>y", "<in", "(p)", "`id`", "", "!", "tab\there", "&&", "\u00e9", " lead"]
        if manual:
            odd += ["a;b", "[x]", "a\\b", ";", "back\\", "line\nbreak", "{a,b}"]
        out = []
        for _ in range(sim.op_range(0, 4)):
            out.append(sim.pick(odd) if sim.chance(1, 4) else sim.pick(simple))
        return out

    def generate(self):
        sim = self.sim
        mpi = sim.pick(["mpiexec", "", "/opt/mpi/bin/mpirun", "srun"])
        np = sim.pick(["-np", "-n", "--map-by"])
        conf = {
            "mpiexec": mpi, "np_flag": np, "thread_flag": sim.pick(["", "-c", "--threads"]) if np != "--map-by" else "", "mpi_extra": sim.pick(["", "--oversubscribe --bind-to none", "-q", "--bind-to core"]),
            "managed": sim.chance(1, 2), "gpu": sim.chance(1, 5), "buffer": sim.chance(1, 2), "spec": sim.chance(2, 3),
            "rank_var": "OMPI_COMM_WORLD_RANK", "size_var": "OMPI_COMM_WORLD_SIZE", "wrapper": sim.pick(["", "", "", "valgrind", "cuda", "sanitizer"]),
        }
        if sim.chance(1, 3):
            conf["rank_var"], conf["size_var"] = "PMI_RANK", "PMI_SIZE"
        self.conf = conf
        suite = []
        for i in range(sim.op_range(1, 3)):
            e = {"name": "t%d" % i, "opts": [], "args": None}

            def rng(hi):
                k = sim.op(5)
                if k == 0:
                    return []
                if k == 1:
                    return [sim.op_range(1, hi if sim.op(3) else 3 * hi)]
                a = sim.op_range(1, hi)
                b = sim.op_range(a, hi)
                return [a, b] if k < 4 else [a, b, sim.op_range(1, 3)]
            e["ranks"] = rng(4) if mpi else sim.pick([[], [1], [1, 1]])
            e["threads"] = rng(3)
            if sim.chance(1, 2):
                e["args"] = self.words(False)
                e["split"] = sim.op(2)        # one string, or one list element per word
            for o in ("PRINT_OMP_AFFINITY", "SERIAL", "WILL_FAIL"):
                if sim.chance(1, 4):
                    e["opts"].append(o)
            e["labels"] = sim.pick([[], ["short"], ["short", "mpi"]])
            e["catch"] = sim.chance(1, 2)
            e["props"] = sim.pick([[], ["TIMEOUT", "100"], ["COST", "3", "RUN_SERIAL", "FALSE"]])
            e["how"] = sim.op(2)          # EkatCreateUnitTest, or EkatCreateUnitTestFromExec on an existing executable
            e["dep"] = sim.chance(1, 4) and i > 0
            e["fix"] = sim.pick([None, None, "all", "individual"]) if i > 0 else None
            suite.append(e)
        for i, e in enumerate(suite):
            e["exe"] = e["name"]
            if e["fix"]:
                s = suite[i - 1]
                s["setup"] = s.get("setup", []) + [(e["fix"], "f%d" % i)]
                if e["fix"] == "individual":
                    e["ranks"], e["threads"] = list(s["ranks"]), list(s["threads"])
            if i > 0 and e["how"] == 1 and sim.chance(1, 2):
                e["exe"] = suite[0]["exe"]
        self.suite = suite
        conf["extra_opts"] = []
        self.exes = sorted({e["exe"] for e in suite})

    @staticmethod
    def expand(r):
        if not r:
            return [1]
        if len(r) == 1:
            return [r[0]]
        return list(range(r[0], r[1] + 1, r[2] if len(r) > 2 else 1))

    def cmake_script(self):
        c = self.conf
        out = []

        def s(k, v):
            out.append("set(%s %s)" % (k, cm(v)))
        if c["mpiexec"]:
            s("EKAT_MPIRUN_EXE", c["mpiexec"])
        s("EKAT_MPI_NP_FLAG", c["np_flag"])
        if c["thread_flag"]:
            s("EKAT_MPI_THREAD_FLAG", c["thread_flag"])
        s("EKAT_MPI_EXTRA_ARGS", c["mpi_extra"])
        s("EKAT_TEST_LAUNCHER_BUFFER", "ON" if c["buffer"] else "OFF")
        if c["mpiexec"]:       # without MPI, SetMpiRuntimeEnvVars is not called
            s("EKAT_MPIRUN_COMM_WORLD_RANK", c["rank_var"])
            s("EKAT_MPIRUN_COMM_WORLD_SIZE", c["size_var"])
        s("TEST_LAUNCHER_MANAGE_RESOURCES", "True" if c["managed"] else "False")
        s("TEST_LAUNCHER_ON_GPU", "True" if c["gpu"] else "False")
        self.wrap = []
        if c["wrapper"] == "valgrind":
            s("EKAT_ENABLE_VALGRIND", "ON")
            s("EKAT_VALGRIND_SUPPRESSION_FILE", "/build/mpi.supp")
            self.wrap = ["valgrind", "--error-exitcode=1", "--suppressions=/build/mpi.supp"]
        elif c["wrapper"] == "cuda":
            s("EKAT_ENABLE_CUDA_MEMCHECK", "ON")
            self.wrap = ["cuda-memcheck", "--error-exitcode", "1"]
        elif c["wrapper"] == "sanitizer":
            s("EKAT_ENABLE_COMPUTE_SANITIZER", "ON")
            s("EKAT_COMPUTE_SANITIZER_OPTIONS", "--tool=memcheck")
            self.wrap = ["compute-sanitizer", "--error-exitcode", "1", "--tool=memcheck"]
        out.append('configure_file("%s/bin/test-launcher" "${CMAKE_BINARY_DIR}/bin/test-launcher")' % REPO)
        made = set()
        for i, e in enumerate(self.suite):
            a = []
            if e["ranks"]:
                a += ["MPI_RANKS"] + [str(x) for x in e["ranks"]]
            if e["threads"]:
                a += ["THREADS"] + [str(x) for x in e["threads"]]
            if e["args"]:
                q = [shlex.quote(w) for w in e["args"]]
                a += ["EXE_ARGS"] + ([cm(" ".join(q))] if e["split"] == 0 else [cm(x) for x in q])
            a += e["opts"]
            if e["labels"]:
                a += ["LABELS"] + e["labels"]
            if e["props"]:
                a += ["PROPERTIES"] + e["props"]
            if e["dep"]:
                p = self.suite[i - 1]
                e["dep_on"] = self.full_name(p, self.expand(p["ranks"])[0], self.expand(p["threads"])[0])
                a += ["DEP", e["dep_on"]]
            allf = [f for k, f in e.get("setup", []) if k == "all"]
            ind = [f for k, f in e.get("setup", []) if k == "individual"]
            if allf:
                a += ["FIXTURES_SETUP"] + allf
            if ind:
                a += ["FIXTURES_SETUP_INDIVIDUAL"] + ind
            if e["fix"] == "all":
                a += ["FIXTURES_REQUIRED", "f%d" % i]
            if e["fix"] == "individual":
                a += ["FIXTURES_REQUIRED_INDIVIDUAL", "f%d" % i]
            # the order of keyword arguments is free
            if e["how"] == 0 and e["exe"] == e["name"]:
                libs = ["LIBS", "lib1"] if e["catch"] else ["EXCLUDE_MAIN_CPP", "LIBS", "lib1"]
                out.append("EkatCreateUnitTest(%s SOURCES a.cpp %s %s)" % (e["name"], " ".join(libs), " ".join(a)))
                made.add(e["name"])
            else:
                if e["exe"] not in made:
                    out.append("EkatCreateUnitTestExec(%s SOURCES a.cpp %s)" % (e["exe"], "" if e["catch"] else "EXCLUDE_MAIN_CPP"))
                    made.add(e["exe"])
                out.append("EkatCreateUnitTestFromExec(%s %s %s)" % (e["name"], e["exe"], " ".join(a)))
        return "\n".join(out) + "\n"

    @staticmethod
    def full_name(e, r, t):
        n = e["name"]
        if len(e["ranks"]) > 1 or (e["ranks"] and e["ranks"][0] > 1):
            n += "_np%d" % r
        if len(e["threads"]) > 1 or (e["threads"] and e["threads"][0] > 1):
            n += "_omp%d" % t
        return n

    # ------------------------------------------------------- configure
    def configure(self):
        sim, c = self.sim, self.conf
        bindir = os.path.join(self.scratch, "bin-tree")
        rc, txt, recs = run_cmake(self.scratch, self.cmake_script(), bindir)
        if rc != 0:
            sim.fail("cmake-error", "CMake rejects a valid suite: " + txt[-600:].replace(self.scratch, "."))
        recs = [(k, [x.replace(bindir, "/build") for x in a]) for k, a in recs]
        c["launcher"] = "/build/bin/test-launcher"
        f = c["launcher_file"] = os.path.join(bindir, "bin", "test-launcher")
        src = open(f).read()
        k = hashlib.sha256(src.encode()).hexdigest()
        sim.mix_str(src)
        if k not in CODE:
            try:
                CODE[k] = compile(src, "test-launcher", "exec")
            except SyntaxError as e:
                sim.fail("launcher-syntax", "the configured launcher does not compile: %s" % e)
        c["code"] = CODE[k]
        tests = {}
        for cmd, a in recs:
            if cmd == "add_test":
                if a[0] == "NAME" and "COMMAND" in a:
                    i = a.index("COMMAND")
                    name, argv = a[1], a[i + 1:]
                    if "WORKING_DIRECTORY" in argv:
                        argv = argv[:argv.index("WORKING_DIRECTORY")]
                else:
                    name, argv = a[0], a[1:]
                if name in tests:
                    sim.fail("duplicate-test", "the test %s is registered twice" % name)
                t = tests[name] = Test(name)
                t.cmd = argv
            elif cmd == "set_tests_properties":
                i = a.index("PROPERTIES")
                kv = a[i + 1:]
                for n in a[:i]:
                    if n not in tests:
                        sim.fail("cmake-error", "properties are set on an unknown test %s" % n)
                    for k in range(0, len(kv) - 1, 2):
                        tests[n].props[kv[k]] = kv[k + 1]
            elif cmd == "set_property":
                app = "APPEND" in a[:a.index("PROPERTY")]
                i = a.index("PROPERTY")
                for n in [x for x in a[1:i] if x not in ("APPEND", "APPEND_STRING")]:
                    if n not in tests:
                        sim.fail("cmake-error", "properties are set on an unknown test %s" % n)
                    v = ";".join(a[i + 2:])
                    o = tests[n].props.get(a[i + 1], "")
                    tests[n].props[a[i + 1]] = (o + ";" + v if o and v else o or v) if app else v
        self.tests = tests
        # every combination once, with what it needs
        want = {}
        for e in self.suite:
            for r in self.expand(e["ranks"]):
                for t in self.expand(e["threads"]):
                    want[self.full_name(e, r, t)] = (e, r, t)
        miss, more = sorted(set(want) - set(tests)), sorted(set(tests) - set(want))
        if miss or more:
            sim.fail("registration", "asked for %s: not registered %s; registered as well %s" % (
                [(e["name"], e["ranks"], e["threads"]) for e in self.suite], miss, more))
        for n, (e, r, t) in want.items():
            T = tests[n]
            T.spec = (e, r, t)
            T.env = {}
            for kv in split_list(T.props.get("ENVIRONMENT", "")):
                k, _, v = kv.partition("=")
                T.env[k] = v
            if T.props.get("PROCESSORS") != str(r * t):
                sim.fail("processors", "%s runs %d ranks of %d threads and is registered with PROCESSORS=%s" % (n, r, t, T.props.get("PROCESSORS")))
            if split_list(T.props.get("LABELS", "")) != e["labels"]:
                sim.fail("test-properties", "%s should have the labels %s, has %r" % (n, e["labels"], T.props.get("LABELS")))
            for k in range(0, len(e["props"]), 2):
                if T.props.get(e["props"][k]) != e["props"][k + 1]:
                    sim.fail("test-properties", "%s should have the property %s=%s" % (n, e["props"][k], e["props"][k + 1]))
            wf = T.props.get("WILL_FAIL", "").upper() in ("TRUE", "1", "ON", "YES")
            if wf != ("WILL_FAIL" in e["opts"]):
                sim.fail("test-properties", "%s: WILL_FAIL is %s" % (n, wf))
        progs = set(self.wrap[:1]) if self.wrap else set()
        c["programs"] = progs | {"./" + x for x in self.exes} | {c["mpiexec"]} - {""} | {c["launcher"]}
        sim.count("suites configured")
        sim.count("tests registered", len(tests))

    # ------------------------------------------------------- the machine
    def machine(self):
        sim, c = self.sim, self.conf
        need = max([r * t for e in self.suite for r in self.expand(e["ranks"]) for t in self.expand(e["threads"])])
        n = need + sim.op_range(0, 8)
        first = sim.pick([0, 0, 1, 5, 95])
        ids = list(range(first, first + n))
        if sim.chance(1, 4):
            ids = [first + 2 * k for k in range(n)]
        self.node.cpus = set(range(0, max(ids) + 1))
        w = len(str(max(ids))) if sim.chance(2, 3) else 1
        self.devices = [str(i).zfill(w) for i in ids]
        self.free = sorted(self.devices)
        self.jobs = need + sim.op_range(0, 8)
        self.node.conf = c
        self.base_env = {"PATH": "/usr/bin", "HOME": "/home/u"}
        for k, vs in (("OMP_PROC_BIND", ["close", "false", "master", "spread", ""]), ("OMP_PLACES", ["cores", "{0,1},{2,3}", "sockets", ""]), ("ODD", ["a b", "x;y", "$HOME", "'"]), ("OMP_DISPLAY_ENV", ["false"]), ("LANG", ["C"])):
            if sim.chance(1, 3):
                self.base_env[k] = sim.pick(vs)
        if sim.chance(1, 12):
            # leftovers in the environment CTest runs in: not an MPI run on their own
            self.base_env[c["size_var"]] = "3"
        sim.faults_on = sim.chance(2, 3)

    # ------------------------------------------------------- CTest
    def can_start(self, t):
        if t.state != "waiting":
            return False
        if sum(int(x.props.get("PROCESSORS", "1") or 1) for x in self.active) + int(t.props.get("PROCESSORS", "1") or 1) > self.jobs:
            return False
        lock = set(split_list(t.props.get("RESOURCE_LOCK", "")))
        for x in self.active:
            if lock & set(split_list(x.props.get("RESOURCE_LOCK", ""))):
                return False
        for d in split_list(t.props.get("DEPENDS", "")):
            if d in self.tests and self.tests[d].state not in ("done", "skipped"):
                return False
        for f in split_list(t.props.get("FIXTURES_REQUIRED", "")):
            for x in self.tests.values():
                if f in split_list(x.props.get("FIXTURES_SETUP", "")) and x.state not in ("done", "skipped"):
                    return False
        if self.conf["spec"] and t.props.get("RESOURCE_GROUPS"):
            if self.groups_size(t) > len(self.free) and self.groups_size(t) <= len(self.devices):
                return False
        return True

    def groups(self, t):
        """RESOURCE_GROUPS: ';' separates groups (a leading number repeats one), ',' requirements within a group."""
        out = []
        for g in split_list(t.props.get("RESOURCE_GROUPS", "")):
            rep, reqs = 1, []
            for x in g.split(","):
                x = x.strip()
                if not x:
                    continue
                if x.isdigit():
                    rep = int(x)
                else:
                    ty, _, k = x.partition(":")
                    reqs.append((ty, int(k)))
            out += [list(reqs)] * rep
        return out

    def groups_size(self, t):
        return sum(len(g) for g in self.groups(t))

    def ctest(self):
        sim = self.sim
        self.active = []
        for t in self.tests.values():
            sim.spawn(lambda t=t: self.run_test(t), t.name)
        for m in self.manual:
            sim.spawn(lambda m=m: self.run_manual(m), m.name)
        sim.run_all()

    def run_test(self, t):
        sim, c = self.sim, self.conf
        if sim.op(3) == 2:
            sim.sleep(0.001 * sim.op_range(1, 3000))
        sim.wait(lambda: self.can_start(t))
        # a fixture that failed: not run
        for f in split_list(t.props.get("FIXTURES_REQUIRED", "")):
            for x in self.tests.values():
                if f in split_list(x.props.get("FIXTURES_SETUP", "")) and not x.passed:
                    t.state = "skipped"
                    t.passed = False
                    sim.count("tests skipped for a failed fixture")
                    return
        env = dict(self.base_env)
        env.update(t.env)
        if c["spec"] and t.props.get("RESOURCE_GROUPS"):
            gs = self.groups(t)
            if sum(len(g) for g in gs) > len(self.devices) or any(ty != "devices" or k != 1 for g in gs for ty, k in g):
                sim.fail("resource-groups", "%s asks for %s: the node has %d devices with one slot, enough for its %d ranks of %d threads" % (t.name, t.props["RESOURCE_GROUPS"], len(self.devices), t.spec[1], t.spec[2]))
            env["CTEST_RESOURCE_GROUP_COUNT"] = str(len(gs))
            for i, g in enumerate(gs):
                mine = []
                for _ in g:
                    d = self.free.pop(sim.op(len(self.free)) if sim.chance(1, 2) else 0)
                    mine.append(d)
                mine.sort()
                t.alloc += mine
                env["CTEST_RESOURCE_GROUP_%d" % i] = "devices"
                env["CTEST_RESOURCE_GROUP_%d_DEVICES" % i] = ";".join("id:%s,slots:1" % d for d in mine)
            t.managed_alloc = True
        t.state = "running"
        t.t0 = sim.now
        self.active.append(t)
        self.invariants()
        self.node.conf = c
        p = Proc(sim, self.node, env, Pipe(), None, None, None, t)
        p.err = p.out
        t.proc = p
        t.full_env = dict(env)
        st = self.node.exec_argv(p, list(t.cmd))
        t.status = st
        ok = st == 0
        t.t1 = sim.now
        t.passed = ok != ("WILL_FAIL" in t.spec[0]["opts"])
        t.state = "done"
        self.active.remove(t)
        self.free = sorted(self.free + t.alloc)
        self.judge(t, ok)

    def invariants(self):
        sim = self.sim
        n = sum(x.spec[1] * x.spec[2] for x in self.active)
        if n > self.jobs:
            sim.fail("oversubscribed", "%d threads run with -j %d: %s" % (n, self.jobs, [x.name for x in self.active]))
        new = self.active[-1]
        e = new.spec[0]
        for x in self.active[:-1]:
            if x.spec[0] is e and "SERIAL" in e["opts"]:
                sim.fail("not-serial", "%s and %s of a SERIAL test run at the same time" % (x.name, new.name))
        if e["dep"]:
            d = e["dep_on"]
            if self.tests[d].state not in ("done", "skipped"):
                sim.fail("dependency", "%s starts before %s, on which it depends, ended" % (new.name, d))
        if e["fix"]:
            i = self.suite.index(e)
            s = self.suite[i - 1]
            for x in self.tests.values():
                if x.spec[0] is s and (e["fix"] == "all" or x.spec[1:] == new.spec[1:]):
                    if not (x.state == "done" and x.passed):
                        sim.fail("fixture", "%s starts although %s, which sets up its fixture, is %s" % (new.name, x.name, x.state if not x.state == "done" else "failed"))

    # ------------------------------------------------------- judging
    def judge_launch(self, l, me, want, env0, t, opts):
        """One start of an executable against what was asked for."""
        sim = self.sim
        got = l["argv"]
        if got != want and not (opts.get("catch") and got == want[:opts["nprog"]] + ["--use-colour", "no"] + want[opts["nprog"]:]):
            sim.fail("wrong-command", "%s: the launcher was asked to run %s, and runs %s" % (t.name, want, got))
        env = l["env"]
        for k, v in env0.items():
            if k in ("OMP_DISPLAY_ENV", "OMP_DISPLAY_AFFINITY") and opts["p"]:
                continue
            if env.get(k) != v:
                sim.fail("environment", "%s: %s is %r in the environment, and %r in the executable's" % (t.name, k, v, env.get(k)))
        for k, d in (("OMP_PROC_BIND", "spread"), ("OMP_PLACES", "threads")):
            if k not in env0 and env.get(k) != d:
                sim.fail("environment", "%s: %s should be %s by default, is %r" % (t.name, k, d, env.get(k)))
        if opts["p"] and (env.get("OMP_DISPLAY_ENV", "").lower() != "verbose" or env.get("OMP_DISPLAY_AFFINITY", "").lower() != "true"):
            sim.fail("environment", "%s: with -p, OMP_DISPLAY_ENV=%r, OMP_DISPLAY_AFFINITY=%r" % (t.name, env.get("OMP_DISPLAY_ENV"), env.get("OMP_DISPLAY_AFFINITY")))

    def judge_launcher(self, me, t):
        """The exit code and the output of one launcher process that was not killed."""
        sim = self.sim
        mine = [l for l in self.node.launches if l["launcher"] is me]
        ok = len(mine) == 1 and mine[0]["ok"]
        if len(mine) > 1:
            sim.fail("run-twice", "%s: one launcher started %d executables" % (t.name, len(mine)))
        if me.status == 0 and not ok:
            sim.fail("false-success", "%s rank %s: the launcher exits with 0, but %s" % (t.name, me.p.rank, "nothing was run" if not mine else "the executable could not be started" if mine[0].get("nostart") else "the executable failed"))
        if ok and me.status != 0 and not me.io_fault and not me.sys_fault:
            sim.fail("false-failure", "%s rank %s: the executable succeeded, and the launcher exits with %d" % (t.name, me.p.rank, me.status))
        if mine and ok and not me.io_fault:
            text = bytes(me.stdout.pipe.data).decode("utf-8", "ignore")
            own = me.argv[1:me.argv.index("--")] if "--" in me.argv else []
            buffered = any(a in ("-b", "--buffer-output") for a in own)
            chunks = [b"".join(mine[0]["chunks"])] if buffered else mine[0]["chunks"]
            if any(d.decode("utf-8", "ignore").strip() not in text for d in chunks):
                sim.fail("output-lost", "%s rank %s: the executable's output is not in the launcher's" % (t.name, me.p.rank))
        return mine, ok

    def judge(self, t, ok):
        sim, c = self.sim, self.conf
        e, R, T = t.spec
        sim.count("tests run")
        ran = [l for l in self.node.launches if l["test"] is t]
        if t.env_fault:
            if ok:
                sim.fail("false-success", "%s passes although mpiexec could not start" % t.name)
            return
        lost = any(m.io_fault or m.sys_fault for m in t.launchers)
        dead = any(r.dead for r in t.ranks)
        for s in t.stray:
            sim.fail("wrong-command", "%s: the launcher starts %s" % (t.name, s["argv"]))
        if len(t.launchers) != R and not dead:
            sim.fail("ranks", "%s should run with %d ranks and runs with %d" % (t.name, R, len(t.launchers)))
        if c["mpiexec"]:
            n, pe = t.mpi_started[0] if t.mpi_started else (0, None)
            if len(t.mpi_started) != 1 or n != R:
                sim.fail("ranks", "%s should run with %d ranks, mpiexec is asked for %s" % (t.name, R, t.mpi_started))
            if (c["np_flag"] == "--map-by" or c["thread_flag"]) and pe != T:
                sim.fail("threads", "%s should run with %d threads per rank, mpiexec is asked for %s" % (t.name, T, pe))
        want = self.wrap + ["./" + e["exe"]] + list(e["args"] or [])
        env0 = dict(t.full_env)
        env0["OMP_NUM_THREADS"] = str(T)
        if c["mpiexec"]:
            for k in (c["rank_var"], c["size_var"]):
                env0.pop(k, None)
        all_ok = True
        affs = []
        gpu_misfit = c["managed"] and c["spec"] and c["gpu"] and T > 1
        for me in t.launchers:
            if me.status is None:
                all_ok = False
                continue
            mine, lok = self.judge_launcher(me, t)
            all_ok = all_ok and lok and me.status == 0
            if not mine and not me.io_fault and not me.sys_fault and not lost and not gpu_misfit:
                sim.fail("not-started", "%s rank %s: the launcher started nothing and exits with %d: %s" % (t.name, me.p.rank, me.status, bytes(me.stdout.pipe.data).decode("utf-8", "replace")[-300:]))
        for l in ran:
            self.judge_launch(l, l["launcher"], want, env0, t, {"p": "PRINT_OMP_AFFINITY" in e["opts"], "catch": True, "nprog": len(self.wrap) + 1})
            affs.append((l["rank"], l["aff"]))
        if c["managed"] and c["spec"] and not c["gpu"]:
            alloc = {int(d) for d in t.alloc}
            seen = {}
            for r, a in affs:
                if a is None or not a <= alloc:
                    sim.fail("outside-allocation", "%s rank %s runs on CPUs %s, was given %s" % (t.name, r, "all" if a is None else sorted(a), sorted(alloc)))
                if len(a) != T:
                    sim.fail("unequal-share", "%s rank %s with %d threads runs on %d CPUs" % (t.name, r, T, len(a)))
                for b in a:
                    if b in seen:
                        sim.fail("shared-cpu", "%s: ranks %s and %s are both bound to CPU %d" % (t.name, seen[b], r, b))
                    seen[b] = r
            if len(affs) == R and set(seen) != alloc:
                sim.fail("unused-cpus", "%s does not use CPUs %s of its allocation" % (t.name, sorted(alloc - set(seen))))
        else:
            for r, a in affs:
                if a is not None and not (c["managed"] and c["spec"]):
                    sim.fail("bound", "%s rank %s is bound to CPUs %s although no resources were given" % (t.name, r, sorted(a)))
        complete = len([l for l in ran if l["ok"]]) == R
        if ok and not complete:
            sim.fail("false-success", "%s passes, but %d of its %d ranks succeeded" % (t.name, len([l for l in ran if l["ok"]]), R))
        if complete and not ok and not lost:
            sim.fail("false-failure", "%s fails although all its %d ranks succeeded" % (t.name, R))
        if complete:
            sim.count("tests whose every rank succeeded")

    # ------------------------------------------------------- the launcher started by hand
    def make_manual(self):
        sim, c = self.sim, self.conf
        self.manual = []
        for i in range(sim.op(3)):
            m = Test("manual%d" % i)
            m.kind = sim.pick(["good", "good", "good", "no-dashes", "no-exe", "unknown-option", "help", "bad-resources"])
            pre = []
            if sim.chance(1, 3):
                pre.append(sim.pick(["-b", "--buffer-output"]))
            if sim.chance(1, 3):
                pre.append(sim.pick(["-p", "--print-omp-affinity"]))
            exe = "./" + self.exes[0]
            m.args = [exe] + self.words(True)
            if m.kind == "no-dashes":
                m.argv = pre + [exe]
            elif m.kind == "no-exe":
                m.argv = pre + ["--"]
            elif m.kind == "unknown-option":
                m.argv = pre + ["--bogus", "--"] + m.args
            elif m.kind == "help":
                m.argv = pre + ["--help"]
            else:
                m.argv = pre + ["--"] + m.args
            m.p = any(x in ("-p", "--print-omp-affinity") for x in pre)
            m.b = any(x in ("-b", "--buffer-output") for x in pre)
            m.env = {}
            if m.kind == "bad-resources":
                m.env["CTEST_RESOURCE_GROUP_COUNT"] = "1"
                k = sim.op(4)
                if k == 1:
                    m.env["CTEST_RESOURCE_GROUP_0"] = "gpus"
                    m.env["CTEST_RESOURCE_GROUP_0_GPUS"] = "id:0,slots:1"
                elif k == 2:
                    m.env["CTEST_RESOURCE_GROUP_0"] = "devices"
                elif k == 3:
                    m.env["CTEST_RESOURCE_GROUP_0"] = "devices"
                    m.env["CTEST_RESOURCE_GROUP_0_DEVICES"] = "id:900,slots:1"       # no such CPU
            self.manual.append(m)

    def run_manual(self, m):
        sim, c = self.sim, self.conf
        if sim.op(2):
            sim.sleep(0.001 * sim.op_range(1, 2000))
        env = dict(self.base_env)
        env.update(m.env)
        p = Proc(sim, self.node, env, Pipe(), None, None, None, m)
        p.err = p.out
        sim.count("launcher started by hand: " + m.kind)
        st = self.node.exec_argv(p, [c["launcher"]] + m.argv)
        me = m.launchers[0]
        mine, ok = [l for l in self.node.launches if l["launcher"] is me], False
        for s in m.stray:
            sim.fail("wrong-command", "%s: asked to run %s, the launcher starts %s" % (m.name, m.argv, s["argv"]))
        if m.kind in ("good", "bad-resources") or mine:
            if m.kind == "help":
                if mine:
                    sim.fail("wrong-command", "--help runs %s" % mine[0]["argv"])
                return
            mine, ok = self.judge_launcher(me, m)
            if m.kind == "good" and not mine and not me.io_fault and not me.sys_fault:
                sim.fail("not-started", "asked to run %s, the launcher started nothing and exits with %d: %s" % (m.argv, me.status, bytes(p.out.data).decode("utf-8", "replace")[-300:]))
            for l in mine:
                if m.kind in ("no-dashes", "no-exe", "unknown-option"):
                    sim.fail("wrong-command", "with the bad command line %s, the launcher starts %s" % (m.argv, l["argv"]))
                self.judge_launch(l, me, m.args, env, m, {"p": m.p})
        elif m.kind in ("no-dashes", "no-exe", "unknown-option") and st == 0:
            sim.fail("false-success", "with the bad command line %s, the launcher exits with 0" % m.argv)


def c24(sim, scratch):
    r = Run(sim, scratch)
    r.generate()
    r.configure()
    r.machine()
    r.make_manual()
    sim.trace("conf", {k: v for k, v in r.conf.items() if k not in ("code", "launcher", "launcher_file", "programs")}, "devices", r.devices, "jobs", r.jobs)
    r.ctest()
    for t in r.tests.values():
        if t.state not in ("done", "skipped"):
            sim.fail("no-progress", "%s was never run" % t.name)


class H(pysim.Harness):
    name = "launcher"
    props = {"C24": (c24, "bin/test-launcher and cmake/EkatCreateUnitTest.cmake, EkatUtils.cmake (run by the real cmake and Python)",
                     "CTest, mpiexec, /bin/sh, taskset, the executables, and the launcher's os, sys and subprocess modules; add_test and the other project commands of CMake")}


if __name__ == "__main__":
    sys.exit(H().main(sys.argv[1:]))
