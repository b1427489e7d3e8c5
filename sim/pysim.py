"""Deterministic simulator for Python programs: the counterpart of sim.cpp for EKAT's scripts.

Simulated processes run in threads of their own, but exactly one of them runs at any time: they hand a baton to each other, and
whom it goes to is drawn from the run's SCHED stream.  Operations, schedule and faults come from three streams seeded by the run's
seed; a replay file holds the streams' values.  Command line, output and replay format are those of sim.cpp.
"""
import ctypes, json, os, re, signal, struct, sys, threading, time

OPS, SCHED, FAULT = 0, 1, 2
M64 = (1 << 64) - 1


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls + ": " + msg)
        self.cls, self.msg = cls, msg


class HarnessError(Exception):
    pass


class Killed(BaseException):
    """Raised in a simulated process that is killed."""


def _splitmix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64
    z = x
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return x, z ^ (z >> 31)


class Rng:
    def __init__(self, seed, stream):
        x = (seed * 0x9e3779b97f4a7c15 ^ (stream + 1) * 0xd1342543de82ef95) & M64
        x, self.a = _splitmix(x)
        x, self.b = _splitmix(x)

    def next(self):
        s1, s0 = self.a, self.b
        r = (s0 + s1) & M64
        self.a = s0
        s1 ^= (s1 << 23) & M64
        self.b = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5)
        return r


class Task:
    def __init__(self, sim, fn, name):
        self.sim, self.fn, self.name = sim, fn, name
        self.done = False
        self.killed = False
        self.sleep_until = None
        self.cond = None
        self.deadline = None
        self.go = threading.Lock()
        self.go.acquire()
        self.thread = None
        self.local = {}


class Sim:
    """One simulated run."""
    STEP_CAP = 200000

    def __init__(self, seed, replay=None, trace=None):
        self.seed, self.replay = seed, replay
        self.rng = [Rng(seed, i) for i in range(3)]
        self.pos = [0, 0, 0]
        self.streams = [[], [], []]
        self.hash = 0x1234
        self.inter = 0x77
        self.steps = self.switches = 0
        self.now = 0.0
        self.fault_tab, self.counter_tab = {}, {}
        self.injected = 0
        self.trace_out = trace
        self.tasks = []
        self.cur = None
        self.root = threading.Lock()
        self.root.acquire()
        self.bad = None
        self.faults_on = True
        self.stopping = False

    # ------------------------------------------------------------- choices
    def mix(self, v):
        h = (self.hash ^ (v & M64)) * 0x9fb21c651e98df25 & M64
        self.hash = h ^ (h >> 32)

    def mix_str(self, s):
        for b in s.encode("utf-8", "surrogateescape"):
            self.hash = ((self.hash ^ b) * 0x100000001b3) & M64

    def draw(self, s, n):
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[s][self.pos[s]] if self.pos[s] < len(self.replay[s]) else 0
            self.pos[s] += 1
            v %= n
        else:
            v = ((self.rng[s].next() >> 32) * n) >> 32
        self.streams[s].append(v)
        self.mix(v + (s << 40))
        return v

    def op(self, n):
        return self.draw(OPS, n)

    def op_range(self, a, b):
        return a + self.draw(OPS, b - a + 1)

    def chance(self, num, den):
        """True with probability num/den; 0 (the minimised choice) is False."""
        return self.draw(OPS, den) >= den - num

    def pick(self, xs):
        return xs[self.draw(OPS, len(xs))]

    def fault(self, name, num, den):
        t = self.fault_tab.setdefault(name, [0, 0])
        t[0] += 1
        if not self.faults_on or self.draw(FAULT, den) < den - num:
            return False
        t[1] += 1
        self.injected += 1
        self.trace("fault", name)
        return True

    def count(self, name, n=1):
        self.counter_tab[name] = self.counter_tab.get(name, 0) + n

    def trace(self, *a):
        s = " ".join(str(x) for x in a)
        self.mix_str(s)
        if self.trace_out is not None:
            print("[%8.3f %s] %s" % (self.now, self.cur.name if self.cur else "-", s), file=self.trace_out, flush=True)

    def fail(self, cls, msg):
        # what the code under test wrote may be quoted in the message: anything
        raise Violation(cls, "".join(" " if c == "\n" else c if c.isprintable() and ord(c) < 127 else "?" for c in msg))

    # --------------------------------------------------------------- tasks
    def spawn(self, fn, name):
        t = Task(self, fn, name)
        self.tasks.append(t)
        t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
        t.thread.start()
        return t

    def _body(self, t):
        t.go.acquire()
        try:
            if not self.stopping and not t.killed:
                t.fn()
        except Killed:
            pass
        except Violation as v:
            if self.bad is None:
                self.bad = v
        except HarnessError as e:
            if not isinstance(self.bad, HarnessError):
                self.bad = e
        except BaseException as e:       # a bug of the harness itself
            import traceback
            if not isinstance(self.bad, HarnessError):
                self.bad = HarnessError("harness: " + "".join(traceback.format_exception(e))[-1500:])
        t.done = True
        self.root.release()

    def kill(self, t):
        t.killed = True

    def _switch(self):
        """Called by a task: gives the baton back, returns when it has it again."""
        t = self.cur
        self.root.release()
        t.go.acquire()
        if self.stopping or t.killed:
            raise Killed()

    def yield_(self):
        self._switch()

    def sleep(self, dt):
        self.cur.sleep_until = self.now + dt
        self._switch()

    def wait(self, cond, deadline=None):
        """Until cond holds, or the deadline is reached."""
        if not cond():
            self.cur.cond, self.cur.deadline = cond, deadline
            self._switch()

    def ready(self, t):
        if t.done:
            return False
        if t.killed:
            return True
        if t.sleep_until is not None:
            if t.sleep_until > self.now:
                return False
        if t.cond is not None:
            if not t.cond() and (t.deadline is None or t.deadline > self.now):
                return False
        return True

    def run_all(self, on_step=None):
        last = None
        while self.bad is None:
            live = [t for t in self.tasks if not t.done]
            if not live:
                break
            r = [t for t in live if self.ready(t)]
            if not r:
                w = [x for t in live for x in (t.sleep_until, t.deadline) if x is not None and x > self.now]
                if not w:
                    self.bad = Violation("no-progress", "every process waits: " + ", ".join(t.name for t in live))
                    break
                self.now = min(w)
                continue
            t = r[self.draw(SCHED, len(r))]
            self.steps += 1
            if self.steps > self.STEP_CAP:
                self.bad = Violation("no-progress", "the run does not end")
                break
            if t is not last:
                self.switches += 1
                self.inter = (self.inter * 0x100000001b3 ^ self.tasks.index(t)) & M64
            last = t
            self.cur = t
            t.sleep_until = t.cond = t.deadline = None
            t.go.release()
            self.root.acquire()
            self.cur = None
            if on_step and self.bad is None:
                try:
                    on_step()
                except (Violation, HarnessError) as v:
                    self.bad = v
        self.stop()
        if self.bad is not None:
            raise self.bad

    def stop(self):
        self.stopping = True
        for t in self.tasks:
            while not t.done:
                self.cur = t
                t.go.release()
                self.root.acquire()
        self.cur = None


def known_findings(pid):
    """The defects recorded for a property: class of the violation, and what its message matches."""
    out = []
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p, errors="backslashreplace"):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*?)/ ", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3))))
    return out


class Harness:
    name = ""
    props = {}          # id -> (run(sim, scratch), real, stub)

    def main(self, argv):
        o = {"seed0": 1, "stride": 1, "count": 10 ** 9, "time": 10.0, "min-budget": 30.0, "cpu-limit": 60}
        flags = set()
        i = 0
        while i < len(argv):
            a = argv[i]
            if a in ("-v", "--trace", "--list"):
                flags.add(a)
            elif a == "--minimise":
                o["min-in"], o["min-out"] = argv[i + 1], argv[i + 2]
                i += 2
            elif a.startswith("--") and i + 1 < len(argv):
                o[a[2:]] = argv[i + 1]
                i += 1
            else:
                print("bad option", a, file=sys.stderr)
                return 3
            i += 1
        if "--list" in flags:
            print("\n".join(self.props))
            return 0
        rin = None
        for k in ("min-in", "replay"):
            if k in o:
                rin = self.read_replay(o[k])
        pid = o.get("prop") or (rin and rin["property"])
        if pid not in self.props:
            print("no property", pid, file=sys.stderr)
            return 3
        self.pid = pid
        self.known = known_findings(pid)
        self.scratch = os.path.abspath(o["scratch"])
        os.makedirs(self.scratch, exist_ok=True)
        self.cpu_limit = int(o["cpu-limit"])
        self.faults, self.counters = {}, {}
        self.tot = dict(runs=0, steps=0, switches=0, vtime=0.0, nontrivial=0)
        self.hashes = set()
        sys.setswitchinterval(1e-4)
        tr = sys.stderr if flags & {"-v", "--trace"} else None
        if "replay" in o:
            s, cls, msg, sim = self.one(rin["seed"], rin["streams"], tr)
            same = s == "violation" and cls == rin["class"] and "%x" % sim.hash == rin["hash"]
            print("status %s\nclass %s\nhash %x\nmessage %s\nreproduced %s" % (s, cls, sim.hash, msg, "exactly" if same else "no"))
            return {"violation": 1, "ok": 0}.get(s, 2)
        if "min-in" in o:
            self.write_replay(o["min-out"], self.minimise(rin, float(o["min-budget"])))
            return 0
        return self.search(o, tr)

    # ------------------------------------------------------------ one run
    def one(self, seed, replay, trace=None):
        sim = Sim(seed, replay, trace)
        tid = threading.get_ident()
        hit = []

        def alarm(*_):
            hit.append(1)
            # stop the simulated process that does not give the baton back
            if sim.cur is not None:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(sim.cur.thread.ident), ctypes.py_object(Killed))
            sim.bad = Violation("no-progress-cpu", "a process ran for %d s without getting anywhere" % self.cpu_limit)
        old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, self.cpu_limit)
        cls = msg = ""
        try:
            self.props[self.pid][0](sim, self.scratch)
            st = "ok"
            if isinstance(sim.bad, Exception):
                raise sim.bad
        except Violation as v:
            st, cls, msg = "violation", v.cls, v.msg.replace("\n", " ")
            if any(c == cls and r.search(msg) for c, r in self.known):
                sim.count("runs that end in a known finding")
                st = "ok"
        except HarnessError as e:
            st, cls, msg = "error", "harness", str(e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if not sim.stopping:
                sim.stop()
        return st, cls, msg, sim

    def fold(self, sim):
        t = self.tot
        t["runs"] += 1
        t["steps"] += sim.steps
        t["switches"] += sim.switches
        t["vtime"] += sim.now
        if sim.switches > 1 or sim.injected:
            t["nontrivial"] += 1
            self.hashes.add(sim.hash)
        for k, (a, b) in sim.fault_tab.items():
            f = self.faults.setdefault(k, [0, 0])
            f[0] += a
            f[1] += b
        for k, v in sim.counter_tab.items():
            self.counters[k] = self.counters.get(k, 0) + v

    # ------------------------------------------------------------- search
    def search(self, o, tr):
        t0 = time.monotonic()
        seed0, stride, count, limit = int(o["seed0"]), int(o["stride"]), int(o["count"]), float(o["time"])
        rc, cls, msg, err = 0, "", "", ""
        k = 0
        while k < count and time.monotonic() - t0 < limit:
            seed = seed0 + k * stride
            k += 1
            st, c, m, sim = self.one(seed, None, tr)
            if st == "error":
                rc, err = 2, "%s: %s (seed %d)" % (c, m, seed)
                break
            if st == "violation":
                a = self.one(seed, sim.streams)
                b = self.one(seed, sim.streams)
                if a[0] == b[0] == "violation" and a[1] == b[1] == c and a[3].hash == b[3].hash:
                    cls, msg, rc = a[1], a[2], 1
                    self.write_replay(o["replay-out"], {"property": self.pid, "class": cls, "message": msg, "seed": seed, "hash": "%x" % a[3].hash, "streams": a[3].streams})
                    self.fold(sim)
                    break
                rc, err = 2, "a violation did not reproduce: %s: %s (seed %d; replays gave %s/%s)" % (c, m, seed, a[1], b[1])
                break
            self.fold(sim)
        out = {"runs": self.tot["runs"], "seconds": round(time.monotonic() - t0, 3), "batches": k, "steps": self.tot["steps"], "switches": self.tot["switches"], "preemptions": 0,
               "virtual_ns": int(self.tot["vtime"] * 1e9), "nontrivial": self.tot["nontrivial"], "faults": self.faults, "counters": self.counters,
               "real": self.props[self.pid][1], "stub": self.props[self.pid][2], "class": cls, "message": msg, "error": err}
        with open(o["out"], "w", errors="backslashreplace") as f:
            json.dump(out, f)
        with open(o["out"] + ".hashes", "wb") as f:
            for h in sorted(self.hashes):
                f.write(struct.pack("<Q", h))
        return rc

    # ------------------------------------------------------------- replays
    def write_replay(self, path, r):
        with open(path, "w", errors="backslashreplace") as f:
            f.write("# replay file of the deterministic simulator; run: check.py <property> --replay <this file>\n")
            f.write("property %s\nharness %s\nclass %s\nmessage %s\ncfg 0\nseed %d\nprefix 0\nseed0 %d\nstride 1\nhash %s\n" % (
                r["property"], self.name, r["class"], r["message"].replace("\n", " "), r["seed"], r["seed"], r["hash"]))
            for n, s in zip(("ops", "sched", "fault"), r["streams"]):
                f.write("%s %d%s\n" % (n, len(s), "".join(" %d" % v for v in s)))

    def read_replay(self, path):
        r = {"streams": [[], [], []]}
        for l in open(path, errors="backslashreplace"):
            l = l.rstrip("\n")
            if l.startswith("#") or " " not in l:
                continue
            k, v = l.split(" ", 1)
            if k in ("ops", "sched", "fault"):
                r["streams"][("ops", "sched", "fault").index(k)] = [int(x) for x in v.split()[1:]]
            else:
                r[k] = v
        r["seed"] = int(r["seed"])
        return r

    def minimise(self, r, budget):
        t0 = time.monotonic()

        def attempt(streams):
            st, c, m, sim = self.one(r["seed"], streams)
            if st != "violation" or c != r["class"]:
                return None
            out = [list(s) for s in sim.streams]
            for s in out:
                while s and s[-1] == 0:
                    s.pop()
            return dict(r, streams=out, message=m, hash="%x" % sim.hash)

        def weight(x):
            return sum(2 * len(s) + sum(v.bit_length() for v in s) for s in x["streams"])
        best = attempt(r["streams"])
        if best is None:
            return r
        progress = True

        def late():
            return time.monotonic() - t0 > budget

        def consider(streams):
            nonlocal best, progress
            c = attempt(streams)
            if c is not None and weight(c) < weight(best):
                best = c
                progress = True
                return True
            return False
        while progress and not late():
            progress = False
            for s in (SCHED, FAULT, OPS):
                def with_(x):
                    y = [list(q) for q in best["streams"]]
                    y[s] = x
                    return y
                if best["streams"][s]:
                    consider(with_([]))
                ln = max(1, len(best["streams"][s]) // 2)
                while ln >= 1 and not late():
                    for kind in (0, 1):
                        p = 0
                        while p < len(best["streams"][s]) and not late():
                            x = list(best["streams"][s])
                            e = min(len(x), p + ln)
                            if kind == 0:
                                if not any(x[p:e]):
                                    p = e
                                    continue
                                x[p:e] = [0] * (e - p)
                            else:
                                del x[p:e]
                            if not consider(with_(x)) or kind == 0:
                                p = e
                    ln //= 2
                p = 0
                while p < len(best["streams"][s]) and not late():
                    while p < len(best["streams"][s]) and best["streams"][s][p] > 1 and not late():
                        x = list(best["streams"][s])
                        x[p] //= 2
                        if not consider(with_(x)):
                            break
                    p += 1
        return best
