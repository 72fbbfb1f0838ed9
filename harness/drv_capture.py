"""Replays behaviours of Capture.tla."""
import asyncio, os, random, signal
import pieshell
from pieshell import redir
from pieshell.pipeline.function import Function
from pieshell.pipeline.running import PipelineFailed
from drv import *

class Boom(Exception): pass

class Run:
    def __init__(self, scn):
        self.rng = random.Random(scn["seed"])
        b = scn["b"]
        self.cfg, self.steps = b["cfg"], b["steps"]
        self.seed = scn["seed"]
        self.world = World()
        self.n = len(self.cfg["s"]["k"])

    def text(self, p):
        """What piece p looks like"""
        rng = random.Random(self.seed * 977 + p)
        body = rng.choice(["", "x", "a b\n", "\r\n", "\n\n", "åäö€\n", "no newline", "'\"\\", "%s %d", "\t", "𝄞"])
        if rng.random() < .08: body *= 4000
        return "<%d%s>" % (p, body)

    def sink(self, kind):
        return dict(STRING=redir.STRING, TMP=redir.TMP, NULL="/dev/null")[kind]

    def redirects(self, m):
        """m: descriptor -> sink"""
        res = []
        for fd, kind in sorted(m.items(), key=lambda x: self.rng.random()):
            if kind == "-": continue
            fd = int(fd)
            kw = {}
            if fd == 3 or self.rng.random() < .2: kw["flag"] = os.O_WRONLY | os.O_CREAT
            res.append(pieshell.Redirect(self.rng.choice([fd, {1: "stdout", 2: "stderr"}.get(fd, fd)]), self.sink(kind), **kw))
        return res

    def env_(self):
        reds = [pieshell.Redirect(0, 0, borrowed=True), pieshell.Redirect(1, 1, borrowed=True)] + self.redirects(dict(enum(self.cfg["e"])))
        default = {k: v for k, v in enum(self.cfg["e"]) if v != "-"} == {2: "STRING"}
        if default and self.rng.random() < .5: return self.world.env()
        env = self.world.env(redirects=redir.Redirects(*reds, defaults=False))
        return env

    def function(self, i):
        run = self
        async def stage(stdin):
            r = run.starting
            while True:
                q = run.queues[(r, i)]
                await run.more((r, i))
                x = q.pop(0)
                if x == "ok": return
                if x == "fail": raise Boom()
                yield x
        return stage
    async def more(self, key):
        while not self.queues[key]:
            await asyncio.sleep(0.0005)

    def build(self):
        st = []
        for i, k in enumerate(self.cfg["s"]["k"], 1):
            p = self.env.actor("S%d" % i) if k == "cmd" else Function(self.env, self.function(i))
            st.append(p)
        red = []
        for i, p in enumerate(st, 1):
            for r in self.redirects(dict(enum(self.cfg["i"][i - 1]))): p = p | r
            red.append(p)
        c = self.cfg["s"]["c"]
        if c == "one": return red[0]
        if c == "pipe2": return red[0] | red[1]
        if c == "pipe3": return red[0] | red[1] | red[2]
        if c == "grp": return red[0] + red[1]
        if c == "grp3": return red[0] + (red[1] + red[2])
        if c == "grppipe": return (red[0] + red[1]) | red[2]
        if c == "pipegrp": return red[0] + (red[1] | red[2])
        if c == "arg":
            p = st[1](red[0])
            for r in self.redirects(dict(enum(self.cfg["i"][1]))): p = p | r
            return p
        raise Machinery(c)

    def captured(self, a):
        return {(x["i"], x["fd"]): x for x in a["all"]}

    def run(self):
        w = self.world
        self.env = self.env_()
        p = self.build()
        text = repr(p) if self.rng.random() < .5 else None
        res = Resources(w)
        self.queues, self.runs, self.actors, self.kids = {}, {}, {}, {}
        self.kept, self.paths = {}, {}
        kinds = self.cfg["s"]["k"]
        for no, a in enumerate(self.steps):
            t, r, i = a["t"], a.get("r"), a.get("i")
            if t == "start":
                self.starting = r
                for k in range(1, self.n + 1): self.queues[(r, k)] = []
                self.runs[r] = q = p.run(self.redirects(dict(enum(self.cfg["l"]))))
                if len(q.processes) != self.n:
                    raise Mismatch("start", "%d processes instead of %d" % (len(q.processes), self.n), no)
                for k in range(1, self.n + 1):
                    if kinds[k - 1] == "cmd": self.actors[(r, k)] = w.of_pid(q.processes[k - 1].pid)
                w.settle(3)
            elif t in ("write", "cwrite"):
                data = self.text(a["p"]).encode()
                if kinds[i - 1] == "fn":
                    self.queues[(r, i)].append(self.rng.choice([data, data.decode()]))
                    w.wait(lambda: not self.queues[(r, i)], "function %d to go on" % i, step=no)
                    w.settle(3)
                else:
                    ac = (self.actors if t == "write" else self.kids)[(r, i)]
                    if data and self.rng.random() < .3 and len(data) > 3:
                        c = self.rng.randrange(1, len(data))
                        self.write(ac, a["fd"], data[:c]); self.write(ac, a["fd"], data[c:])
                    else: self.write(ac, a["fd"], data)
            elif t == "fork":
                tag = "C%d-%d" % (r, i)
                self.actors[(r, i)].call("F " + tag)
                self.kids[(r, i)] = w.actor(tag)
            elif t == "cend":
                self.kids[(r, i)].call("Q 0")
            elif t == "end":
                self.ended(r, i, a["how"])
            elif t == "look": self.look(r, a, no)
            elif t == "remove":
                before = set(os.listdir(w.tmp))
                mine = self.kept[r]
                if mine - before: raise Mismatch("capture", "files %s of run %d are gone" % (mine - before, r), no)
                self.runs[r].remove_output_files()
                gone = before - set(os.listdir(w.tmp))
                if gone != mine: raise Mismatch("capture", "removing the output files removed %s instead of %s" % (gone, mine), no)
        for ac in self.kids.values(): ac.post("Q 0")
        for r in self.runs:
            if r in self.kept:
                for x in self.kept[r]:
                    if os.path.exists(os.path.join(w.tmp, x)): os.unlink(os.path.join(w.tmp, x))
        res.check(self.env)
        if text is not None and text != repr(p): raise Mismatch("value", "%r became %r" % (text, repr(p)))
        return len(self.steps)

    def write(self, ac, fd, data):
        r = ac.call("W %d %s" % (fd, data.hex()))
        if r != "W %d" % len(data): raise Mismatch("capture", "writing to descriptor %d: %s" % (fd, r))

    def ended(self, r, i, how):
        w = self.world
        if self.cfg["s"]["k"][i - 1] == "fn":
            self.queues[(r, i)].append(how)
            w.wait(lambda: not self.queues[(r, i)], "function %d to end" % i)
        else:
            self.actors[(r, i)].call("Q %d" % (0 if how == "ok" else self.rng.choice([1, 77])))
        w.settle(self.rng.choice([0, 3, 8]))

    def look(self, r, a, no):
        w, q = self.world, self.runs[r]
        first = r not in self.kept
        if first:
            how = self.rng.choice(["wait", "await", "poll"])
            error = None
            if how == "poll":
                w.wait(lambda: not q.is_running, "run %d to end" % r, step=no)
                w.settle(4)
            else:
                async def aw(): return await q
                try: w.run(aw() if how == "await" else q.wait(), "run %d" % r)
                except PipelineFailed as e: error = str(e)
        want = self.captured(a)
        files = {}
        for k in range(1, self.n + 1):
            proc = q.processes[k - 1]
            content = dict(proc.output_content)
            wanted = {fd: self.expected(k, x) for (kk, fd), x in want.items() if kk == k and x["k"] == "STRING"}
            if content != wanted:
                raise Mismatch("capture", "run %d, process %d: captured %s instead of %s" % (r, k, brief(content), brief(wanted)), no)
            kept = {fd: x for (kk, fd), x in want.items() if kk == k and x["k"] == "TMP"}
            got = {fd: getattr(x, "path", x) for fd, x in proc.output_files.items()}
            if set(got) != set(kept):
                raise Mismatch("capture", "run %d, process %d: files for %s instead of %s" % (r, k, sorted(got), sorted(kept)), no)
            for fd, path in got.items():
                if path in files.values(): raise Mismatch("capture", "run %d: file %s for several descriptors" % (r, path), no)
                files[(k, fd)] = path
                if os.path.dirname(path) != w.tmp: raise Machinery("temporary file %s" % path)
                if not a["removed"]:
                    with open(path, "rb") as f: data = f.read()
                    exp = self.expected(k, kept[fd]).encode()
                    if data != exp:
                        raise Mismatch("capture", "run %d, process %d, descriptor %d: file contains %s instead of %s" % (r, k, fd, brief(data), brief(exp)), no)
        names = set(os.path.basename(x) for x in files.values())
        if first:
            if error is not None:
                for k in range(1, self.n + 1):
                    if q.processes[k - 1].is_failed and self.cfg["s"]["k"][k - 1] == "cmd":
                        for (kk, fd), x in want.items():
                            if kk == k and x["k"] == "STRING" and self.expected(k, x) not in error:
                                raise Mismatch("capture", "the failure does not show what process %d wrote" % k, no)
            for other in self.kept.values():
                if other & names: raise Mismatch("capture", "file of several runs: %s" % (other & names), no)
            self.kept[r] = names
        if a["removed"] and any(os.path.exists(x) for x in files.values()):
            raise Mismatch("capture", "removed files are still there", no)
        # those of the others
        if all(x in self.kept for x in self.runs):
            left = set(os.listdir(w.tmp)) - set().union(*self.kept.values())
            if left: raise Mismatch("capture", "temporary files left: %s" % left, no)

    def expected(self, k, x):
        nl = "\n" if self.cfg["s"]["k"][k - 1] == "fn" else ""
        return "".join(self.text(p) + nl for p in x["c"])

def enum(m):
    """A function as TLC writes it: a sequence or an object"""
    if isinstance(m, list): return [(i, x) for i, x in enumerate(m, 1)]
    return [(int(i), x) for i, x in m.items()]

def brief(x):
    s = repr(x)
    return s if len(s) < 500 else s[:500] + "..."

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally: r.world.close()
