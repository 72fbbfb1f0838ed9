"""Replays behaviours of Plumbing.tla: builds the pipelines, makes their stages
take the steps of the behaviour one by one, and compares what every stage and
the calling program observe after each of them."""
import asyncio, errno, os, random, select, signal
import pieshell
from pieshell.pipeline.function import Function
from pieshell.pipeline.running import PipelineFailed
from drv import *

SPECIAL = ["", "a b", "å→𝄞 ß", "\r", "x\x0by", "\x1c\x1d", "\u2028z\x85", "%s", "'\"\\", " ", "\t", "-n", "\x01\x7f"]
SIZES = [1021, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 3000]

class Content:
    """Items are lines; what is in them is no concern of the specification."""
    def __init__(self, seed):
        self.rng, self.map = random.Random(seed), {}
    def __call__(self, item):
        item = tuple(item)
        if item not in self.map:
            r = self.rng.random()
            if r < .35: v = "%d.%d" % item
            elif r < .7: v = self.rng.choice(SPECIAL)
            elif r < .95:
                v = "%d.%d." % item
                v += "x" * (self.rng.choice(SIZES) - len(v))
            else: v = "→" * self.rng.choice([341, 342, 683, 1000])
            self.map[item] = v
        return self.map[item]

def parse(data, what):
    try: return data.decode("utf-8")
    except UnicodeDecodeError: return repr(data)

def brief(x):
    x = repr(x)
    return x if len(x) < 120 else "%s... (%d)" % (x[:80], len(x))


class Stage:
    """A function or iterator that does what it is told."""
    def __init__(self, i, kind):
        self.i, self.kind = i, kind
        self.todo, self.got = [], []
        self.calls = 0
    def function(self, how):
        st = self
        async def stage(stdin):
            st.calls += 1
            while True:
                if not st.todo:
                    yield None
                    continue
                c = st.todo.pop(0)
                if c[0] == "ask":
                    try:
                        st.got.append(("got", await stdin.__anext__()))
                    except StopAsyncIteration:
                        st.got.append(("eof",))
                elif c[0] == "write": yield c[1]
                elif c[0] == "finish": return
                elif c[0] == "fail": raise ValueError("stage fails")
        return stage
    def iterator(self, how):
        st = self
        def gen():
            while True:
                if not st.todo: yield None; continue
                c = st.todo.pop(0)
                if c[0] == "write": yield c[1]
                elif c[0] == "finish": return
                elif c[0] == "fail": raise ValueError("stage fails")
        async def agen():
            for x in gen():
                yield x
        class Iterable:
            def __iter__(self): return gen()
        return [gen, agen, Iterable][how % 3]()


class Run:
    def __init__(self, scn):
        self.scn, self.b = scn, scn["b"]
        self.w = self.b["w"]
        self.stages = {i + 1: s for i, s in enumerate(self.w["acc"]["st"])}
        self.rng = random.Random(scn["seed"])
        self.content = Content(scn["seed"])
        self.world = World()
        self.env = self.world.env()
        self.files, self.fds = {}, []
        self.py = {}
        self.next_stage = self.next_stream = 0
        self.res = Resources(self.world)

    # -- building ------------------------------------------------------

    def line(self, item): return self.content(item)

    def wrap(self, thing):
        return Function(self.env, thing)

    def expr(self, e, in_, out, bare=False):
        """The pipeline for an expression (same traversal as Wire)."""
        op = e["op"]
        if op == "cmd":
            args = []
            for x in e["args"]:
                self.next_stream += 1
                s = self.next_stream
                if x["op"] == "fn": args.append(self.fn(s, out, True))
                elif x["op"] == "gen": args.append(self.gen(s, True))
                else: args.append(self.expr(x, in_, s))
            self.next_stage += 1
            i = self.next_stage
            # keep streams and /dev/fd arguments apart from ordinary ones
            full = ["S%d" % i]
            for a in args:
                full.append(a)
            kw = {}
            if args and self.rng.random() < .3:
                kw["opt"] = full.pop()
            return self.env.actor(*full, **kw)
        if op == "fn": return self.fn(in_, out, bare)
        if op == "gen": return self.gen(out, bare)
        if op == "pipe":
            self.next_stream += 1
            s = self.next_stream
            # a function or iterator is turned into a stage by the operator
            # if the other side is a pipeline already
            a = self.expr(e["a"], in_, s, bare=self.is_pipeline(e["b"]))
            b = self.expr(e["b"], s, out, bare=self.is_pipeline(e["a"]))
            return a | b
        if op == "grp":
            a = self.expr(e["a"], in_, out)
            return a + self.expr(e["b"], in_, out)
        if op == "to":
            self.next_stream += 1
            s = self.next_stream
            p = self.expr(e["e"], in_, s)
            return p | self.outfile(s, e["e"])
        if op == "from":
            self.next_stream += 1
            s = self.next_stream
            p = self.expr(e["e"], s, out)
            return self.infile(s, e["k"], e["e"]) | p
        raise Machinery("unknown expression %r" % (e,))

    def is_pipeline(self, e):
        return e["op"] not in ("fn", "gen")

    def fn(self, in_, out, bare):
        self.next_stage += 1
        st = self.py[self.next_stage] = Stage(self.next_stage, "fn")
        f = st.function(0)
        return f if bare else self.wrap(f)

    def gen(self, out, bare):
        self.next_stage += 1
        st = self.py[self.next_stage] = Stage(self.next_stage, "gen")
        g = st.iterator(self.rng.randrange(3))
        return g if bare else self.wrap(g)

    def single(self, e):
        """Is only one stage connected to a redirect of e?  (Each stage opens
        the path of a redirect by itself.)"""
        return e["op"] in ("fn", "gen") or (e["op"] == "cmd" and not e["args"])

    def outfile(self, s, e):
        path = os.path.join(self.world.work, "out%d" % s)
        self.files[s] = path
        if self.scn.get("bypath") or (self.single(e) and self.rng.random() < .7):
            return path
        fd = os.open(path, os.O_WRONLY | os.O_CREAT)
        self.fds.append(fd)
        return pieshell.Redirect("stdout", fd, borrowed=True)

    def infile(self, s, k, e):
        path = os.path.join(self.world.work, "in%d" % s)
        with open(path, "w", newline="") as f:
            f.write("".join(self.line((100 + s, n + 1)) + "\n" for n in range(k)))
        if self.single(e) and self.rng.random() < .7:
            return path
        fd = os.open(path, os.O_RDONLY)
        self.fds.append(fd)
        return pieshell.Redirect("stdin", fd, borrowed=True)

    def start(self):
        self.running, self.iters, self.pending = {}, {}, {}
        self.proc, self.root_of = {}, {}
        built = []
        for r, (spec, root) in enumerate(zip(self.b["e"], self.w["roots"]), 1):
            self.next_stream += 1
            out = self.next_stream
            assert out == root["out"], "stream numbering"
            p = self.expr(spec["e"], 0, out)
            if root["mode"] == "wait":
                p = p | self.outfile(out, spec["e"])
            built.append((r, root, p))
        for r, root, p in built:
            if root["mode"] == "iter":
                self.iters[r] = p.__aiter__()
                self.running[r] = self.env.last_pipeline
            else:
                self.running[r] = p.run()
                self.pending[100 + r] = asyncio.ensure_future(
                    self.running[r].wait() if self.rng.random() < .5 else self.await_(self.running[r]))
            procs = self.running[r].processes
            n = root["last"] - root["first"] + 1
            if len(procs) != n:
                raise Mismatch("start", "%d stages started instead of %d" % (len(procs), n))
            for k in range(n):
                self.proc[root["first"] + k] = procs[k]
                self.root_of[root["first"] + k] = r
        self.actor = {}
        for i, s in self.stages.items():
            if s["kind"] == "cmd":
                self.actor[i] = self.world.actor("S%d" % i)
                a = self.actor[i]
                if len(self.world.by_tag["S%d" % i]) != 1:
                    raise Mismatch("start", "stage %d was started more than once" % i)
                args = [os.fsdecode(x) for x in a.argv[2:]]
                if len(args) != len(s["args"]):
                    raise Mismatch("start", "stage %d got arguments %r" % (i, args))
                a.sfd = {}
                if s["in"]: a.sfd[(s["in"], "r")] = 0
                a.sfd[(s["out"], "w")] = 1
                for arg, x in zip(args, s["args"]):
                    path = arg[len("--opt="):] if arg.startswith("--opt=") else arg
                    fd = int(path[len("/dev/fd/"):])
                    if fd not in a.fds:
                        raise Mismatch("start", "stage %d has no descriptor %s" % (i, path))
                    if self.rng.random() < .5:
                        # use the path, as an ordinary program would
                        r = a.call("O %d %s" % (os.O_RDONLY if x["dir"] == "r" else os.O_WRONLY, path.encode().hex()))
                        if not r or r[0] != "O":
                            raise Mismatch("start", "stage %d can not open %s: %s" % (i, path, r))
                        a.call("C %d" % fd)
                        fd = int(r.split()[1])
                    a.sfd[(x["s"], x["dir"])] = fd
                want = 3 + len(s["args"])
                if len(a.fds) != want:
                    soft("start", "stage %d started with descriptors %r instead of %d of them" % (
                        i, {k: v["path"] for k, v in a.fds.items()}, want))

    async def await_(self, r): return await r

    # -- steps ---------------------------------------------------------

    def fd(self, i, s, d):
        try: return self.actor[i].sfd[(s, d)]
        except KeyError: raise Machinery("stage %d has no %s of stream %d" % (i, d, s))

    def code(self, i): return [1, 2, 3, 77, 126, 127, 128, 255][(i + self.scn["seed"]) % 8]
    def sig(self, i): return [signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGSEGV, signal.SIGHUP,
                              signal.SIGPIPE, signal.SIGABRT, signal.SIGQUIT][(i + self.scn["seed"]) % 8]

    def end_cmd(self, i, how):
        a = self.actor[i]
        self.expect[i] = 0 if how == "ok" else self.code(i) if how == "code" else int(self.sig(i))
        if how == "kill" and (self.rng.random() < .5 or self.sig(i) == signal.SIGKILL):
            os.kill(a.pid, signal.SIGKILL)
            self.expect[i] = int(signal.SIGKILL)
        elif how == "kill": a.post("K %d" % self.sig(i))
        else: a.post("Q %d" % self.expect[i])

    def step(self, a):
        t, w = a["t"], self.world
        if t == "ask":
            x = a["x"]
            if x > 100:
                if x in self.iters or (x - 100) in self.iters:
                    self.pending[x] = asyncio.ensure_future(self.iters[x - 100].__anext__())
            else:
                self.py[x].todo.append(("ask",))
                self.asking.add(x)
        elif t in ("got", "eof"):
            x = a["x"]
            want = ("got", self.line(a["item"])) if t == "got" else ("eof",)
            if x > 100:
                task = self.pending[x]
                w.wait(task.done, "the output line %s" % brief(want[1]))
                del self.pending[x]
                try: got = ("got", task.result())
                except StopAsyncIteration: got = ("end without failure",)
                except PipelineFailed as e: got = ("end with failure",)
            else:
                w.wait(lambda: self.py[x].got or not self.proc[x].is_running,
                       "function %d to get %s" % (x, brief(want)))
                if not self.py[x].got:
                    raise Mismatch("status", "function %d ended: %r" % (x, self.proc[x].iohandler.exception))
                got = self.py[x].got.pop(0)
                self.asking.discard(x)
            if got != want:
                kind = "eof" if got[0] != want[0] else "data"
                raise Mismatch(kind, "%s got %s instead of %s" % (
                    "caller" if x > 100 else "function %d" % x, brief(got), brief(want)))
        elif t == "end":
            self.end(a)
        elif t == "read":
            r = self.actor[a["i"]].call("L %d" % self.fd(a["i"], a["s"], "r"))
            got = self.actor[a["i"]].data(r)
            want = self.line(a["item"]).encode() + b"\n"
            if got != want:
                raise Mismatch("data" if got else "eof", "stage %d read %s instead of %s" % (a["i"], brief(got), brief(want)))
        elif t == "write":
            i, text = a["i"], self.line(a["item"])
            if i in self.actor:
                r = self.actor[i].call("W %d %s" % (self.fd(i, a["s"], "w"), (text.encode() + b"\n").hex()))
                if r is None: raise Mismatch("status", "stage %d is gone" % i)
                if a["ok"] and r[0] != "W":
                    raise Mismatch("epipe", "stage %d could not write: %s" % (i, r))
                if not a["ok"] and r.split()[:2] != ["X", str(errno.EPIPE)]:
                    raise Mismatch("epipe", "stage %d wrote without anybody to read it: %s" % (i, r))
            else:
                self.py[i].todo.append(("write", text if self.rng.random() < .7 else text.encode()))
                w.wait(lambda: not self.py[i].todo, "function %d to write" % i)
                for n in range(4): turn()
        elif t == "closein":
            self.actor[a["i"]].call("C %d" % self.fd(a["i"], a["s"], "r"))
        elif t == "closeout":
            self.actor[a["i"]].call("C %d" % self.fd(a["i"], a["s"], "w"))
        elif t in ("finish", "fail"):
            i = a["i"]
            how = "ok" if t == "finish" else a["how"]
            if i in self.actor: self.end_cmd(i, how)
            else: self.py[i].todo.append((t,))
        elif t == "finishall":
            for i in a["all"]:
                self.end_cmd(i, "ok" if i not in a["bad"] else self.rng.choice(["code", "kill"]))
            pids = [self.actor[i].pid for i in a["all"]]
            w.wait(lambda: all(proc_state(p) in ("Z", "gone") for p in pids), "stages to end", kind="machinery", pump=False)
        else:
            raise Machinery("unknown step %r" % (a,))

    def end(self, a):
        x = a["x"]
        r = x - 100
        task = self.pending.pop(x)
        self.world.wait(task.done, "pipeline %d to end" % r)
        failed = []
        try:
            v = task.result()
            if r in self.iters:
                raise Mismatch("eof", "caller got %s instead of the end of the output" % brief(v))
        except StopAsyncIteration: pass
        except PipelineFailed as e:
            if e.pipeline is not self.running[r]:
                soft("status", "failure of pipeline %d reported for another one" % r)
            failed = sorted(i for i, p in self.proc.items() if p in e.pipeline.failed_processes)
            if not failed: soft("status", "pipeline %d failed, but no stage of it did" % r)
        want = sorted(a["failed"])
        if failed != want:
            soft("status", "pipeline %d: failed stages %r reported instead of %r" % (r, failed, want))
        if self.running[r].is_failed != bool(want):
            soft("status", "pipeline %d: is_failed is %r" % (r, self.running[r].is_failed))
        if self.running[r].is_running:
            soft("wait", "waiting for pipeline %d ended while it is running" % r)

    def observe(self, o, nxt):
        w = self.world
        want = {i: s for i, s in enumerate(o["st"], 1)}
        def status(i):
            p = self.proc[i]
            if p.is_running: return "run"
            return "fail" if p.is_failed else "ok"
        for i, s in want.items():
            if s != "run" and status(i) == "run":
                # the end of a stage has to be noticed
                if i in self.unnoticed: continue
                try: w.wait(lambda: status(i) != "run", "the end of stage %d to be noticed" % i, kind="status", timeout=5)
                except Mismatch as e:
                    self.unnoticed.add(i)
                    soft(e.kind, e.args[0])
        w.settle(2)
        for i, s in want.items():
            if status(i) != s:
                soft("status", "stage %d is %r instead of %r" % (i, status(i), s))
            if s != "run" and i in self.expect and self.proc[i].exit_code != self.expect[i]:
                soft("status", "stage %d: exit code %r instead of %r" % (i, self.proc[i].exit_code, self.expect[i]))
        for r in self.running:
            alive = any(want[i] == "run" for i in want if self.root_of[i] == r)
            if self.running[r].is_running != alive:
                soft("status", "pipeline %d: is_running is %r" % (r, self.running[r].is_running))
            listed = self.running[r] in self.env.running_pipelines
            if listed != alive:
                soft("res", "pipeline %d (running: %r) is%s listed as running" % (r, alive, "" if listed else " not"))
        files = set(self.w["acc"]["files"])
        srcs = set(x[0] for x in self.w["acc"]["srcs"])
        for x in o["in"]:
            if x["s"] in srcs:
                if x["v"] == "eof":
                    got = self.actor[x["i"]].data(self.actor[x["i"]].call("L %d" % self.fd(x["i"], x["s"], "r")))
                    if got: raise Mismatch("eof", "stage %d read %s instead of end of file" % (x["i"], brief(got)))
                continue
            last = [None]
            def see():
                r = self.actor[x["i"]].call("p %d %d" % (self.fd(x["i"], x["s"], "r"), select.POLLIN))
                if r is None: raise Mismatch("status", "stage %d is gone" % x["i"])
                rev, av = map(int, r.split()[1:])
                last[0] = "data" if av else "eof" if rev & select.POLLHUP else "none"
                return last[0] == x["v"]
            # what has been written may still be on its way if a function writes it
            w.wait(see, lambda: "stage %d to see %s on its input (stream %d); it sees %s" % (x["i"], x["v"], x["s"], last[0]),
                   kind="eof" if "eof" in (x["v"], last[0]) else "data", timeout=4)
        for x in o["out"]:
            if x["s"] in files: continue
            last = [None]
            def see():
                r = self.actor[x["i"]].call("p %d %d" % (self.fd(x["i"], x["s"], "w"), select.POLLOUT))
                if r is None: raise Mismatch("status", "stage %d is gone" % x["i"])
                last[0] = "err" if int(r.split()[1]) & select.POLLERR else "ok"
                return last[0] == x["v"]
            w.wait(see, lambda: "stage %d to see its output (stream %d) %s; it is %s" % (x["i"], x["s"], x["v"], last[0]),
                   kind="epipe", timeout=4)
        if nxt is None or nxt["t"] not in ("got", "eof", "end"):
            for x, task in self.pending.items():
                if task.done():
                    try: v = "got %s" % brief(task.result())
                    except StopAsyncIteration: v = "saw the end of the output"
                    except PipelineFailed: v = "saw a failure"
                    soft("wait" if x - 100 not in self.iters else "eof", "the caller of pipeline %d %s too early" % (x - 100, v))
            for x in self.asking:
                if self.py[x].got:
                    raise Mismatch("eof", "function %d got %s too early" % (x, brief(self.py[x].got[0])))

    def run(self):
        self.expect, self.asking, self.unnoticed = {}, set(), set()
        self.start()
        steps = self.b["steps"]
        for k, s in enumerate(steps):
            try:
                self.step(s["a"])
                self.observe(s["o"], steps[k + 1]["a"] if k + 1 < len(steps) else None)
            except Mismatch as e:
                e.step = k
                e.args = ("step %d (%s): %s" % (k + 1, s["a"], e.args[0]),)
                raise
        sink = self.b["sink"]
        for s, path in self.files.items():
            items = sink[str(s)] if isinstance(sink, dict) else sink[s - 1]
            want = "".join(self.line(x) + "\n" for x in items).encode()
            with open(path, "rb") as f: got = f.read()
            if got != want:
                soft("data", "file of stream %d contains %s instead of %s" % (s, brief(got), brief(want)))
        for i, st in self.py.items():
            if st.kind == "fn" and st.calls > 1:
                soft("start", "function %d was called %d times" % (i, st.calls))
        for fd in self.fds: os.close(fd)
        self.fds = []
        self.res.check(self.env)
        return len(steps)


def run(scn):
    r = Run(scn)
    try:
        n = r.run()
        return dict(ok=True, steps=n)
    finally:
        for fd in r.fds: os.close(fd)
        r.world.close()
