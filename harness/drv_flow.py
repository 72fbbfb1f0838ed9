"""Runs chains of Flow.tla as they are, with a lot of data and several at once,
and compares what comes out with what the specification says."""
import asyncio, os, random
import pieshell
from pieshell.pipeline.function import Function
from pieshell.pipeline.running import PipelineFailed
from drv import *
from drv_plumbing import brief

class Chain:
    def __init__(self, world, env, d, seed, no):
        self.world, self.env, self.d, self.no = world, env, d, no
        self.rng = random.Random(seed)
        self.sizes = self.rng.choice([[0, 1, 20], [1], [100], [500, 1023, 1024, 1025], [4096, 70000], [0], [3, 200000, 5], [65536]])
        self.content = {}
        self.calls = {}

    def line(self, x):
        """The text of an item"""
        if x not in self.content:
            r = random.Random(x * 31 + self.no)
            size = r.choice(self.sizes)
            if self.d["n"] > 150: size = min(size, 2000)
            elif self.d["n"] > 20: size = min(size, 20000)
            s = "%d.%d%s" % (self.no, x, r.choice(["", "å", "\r", " ", "\x0b", "%s", "→\u2028"]))
            if size > len(s): s += r.choice("xyåö→") * (size - len(s))
            elif size == 0: s = ""
            self.content[x] = s
        return self.content[x]

    async def pause(self):
        if self.slow and self.rng.random() < .1:
            for n in range(self.rng.randrange(3)): await asyncio.sleep(0)

    def source(self):
        n = self.d["n"]
        lines = [self.line(k + 1) for k in range(n)]
        how = self.rng.choice(["cat", "file", "gen", "list", "agen", "fn", "arg", "argf"])
        path = os.path.join(self.world.work, "src%d" % self.no)
        with open(path, "w", newline="") as f: f.write("".join(l + "\n" for l in lines))
        chain = self
        async def agen():
            for l in lines:
                await chain.pause()
                yield l
        async def fn(stdin):
            for l in lines:
                await chain.pause()
                yield l.encode()
        if how == "cat": return self.env.cat(pieshell.R(path)), True
        if how == "file": return path, False
        if how == "gen": return (l for l in lines), False
        if how == "list": return list(lines), False
        if how == "agen": return agen(), False
        if how == "arg": return self.env.cat((l for l in lines)), True
        if how == "argf": return self.env.cat(self.env.cat(pieshell.R(path))), True
        return Function(self.env, fn), True

    def stage(self, i):
        k, m = self.d["st"][i]["k"], self.d["st"][i]["m"]
        extra = [self.line(1000000 * (i + 1) + j + 1) for j in range(m)] if k == "add" else []
        env, chain = self.env, self
        if self.form[i] == "cmd":
            if k == "copy": return env.cat
            if k == "dup": return env.sed("p")
            if k == "head": return env.head("-n", str(m))
            if k == "rev": return env.tac
            if k == "drop": return env.sed("d")
            if k == "none": return env.true
            if k == "skip": return env.tail("-n", "+%d" % (m + 1))
            if k == "add": return env.cat("-", (l for l in extra))
        async def fn(stdin):
            chain.calls[i] = chain.calls.get(i, 0) + 1
            store, count = [], 0
            if k == "none": return
            if k == "head" and m == 0: return
            async for x in stdin:
                await chain.pause()
                count += 1
                if k in ("copy", "head", "add"): yield x
                elif k == "dup": yield x; yield x
                elif k == "rev": store.append(x)
                elif k == "skip" and count > m: yield x
                if k == "head" and count >= m: return
            for x in reversed(store) if k == "rev" else extra: yield x
        return fn if self.form[i] == "barefn" else Function(env, fn)

    def build(self):
        n = len(self.d["st"])
        self.slow = self.rng.random() < .3
        self.form = [self.rng.choice(["cmd", "fn", "barefn"]) for k in range(n)]
        p, is_p = self.source()
        for i in range(n):
            f = self.form[i]
            if f == "barefn" and not is_p: self.form[i] = "fn"
            p = p | self.stage(i)
            is_p = True
        self.p = p
        self.how = self.rng.choice(["aiter", "aiter", "file", "string", "bytes", "wait"])
        self.want = [self.line(x) for x in self.d["out"]]

    async def run(self):
        how, w = self.how, self.world
        self.failed, self.running = False, None
        try:
            if how == "aiter":
                it = self.p.__aiter__()
                self.running = self.env.last_pipeline
                got = []
                async for x in it: got.append(x)
            elif how == "bytes":
                self.running = self.p.run([pieshell.Redirect("stdout", pieshell.PIPE)])
                got = b""
                async for x in self.running.iterbytes(): got += x
            else:
                path = os.path.join(w.work, "out%d" % self.no)
                p = self.p | (path if how != "string" else pieshell.Redirect("stdout", pieshell.STRING))
                self.running = r = p.run()
                if how == "wait": await r.wait()
                else: await r
        except PipelineFailed as e:
            self.failed = True
            if e.pipeline is not self.running: raise Mismatch("status", "chain %d: another pipeline failed" % self.no)
        if self.failed and how == "aiter": pass     # everything has been read before
        if how in ("file", "wait"):
            with open(path, "rb") as f: got = f.read()
        elif how == "string":
            got = self.running.processes[-1].output_content.get("stdout", self.running.processes[-1].output_content.get(1))
            if got is None: raise Mismatch("data", "chain %d (%s): %r" % (self.no, self.p_repr(), [(type(p).__name__, list(p.output_content)) for p in self.running.processes]))
            if got is not None: got = got.encode()
        if how == "aiter": got = "".join(x + "\n" for x in got).encode()
        self.check(got)

    def check(self, got):
        want = "".join(x + "\n" for x in self.want).encode()
        if got != want:
            k = 0
            while got is not None and k < min(len(got), len(want)) and got[k] == want[k]: k += 1
            raise Mismatch("data", "chain %d (%s, read by %s): %s bytes instead of %d, different from byte %d on" % (
                self.no, self.p_repr(), self.how, None if got is None else len(got), len(want), k))
        procs = self.running.processes
        if self.running.is_running: soft("wait", "chain %d: still running after its end" % self.no)
        may = self.d["maybreak"]
        if not any(may) and self.failed: soft("status", "chain %d: failed: %r" % (self.no, self.running.failed_processes))
        if self.failed != bool(self.running.failed_processes):
            soft("status", "chain %d: failure reported: %r, failed processes: %r" % (self.no, self.failed, self.running.failed_processes))
        for i, n in self.calls.items():
            if n != 1: soft("start", "chain %d: function %d called %d times" % (self.no, i, n))
        if not may[-1] and procs[-1].is_failed: soft("status", "chain %d: the last stage failed" % self.no)

    def p_repr(self):
        return "%d | %s" % (self.d["n"], " | ".join("%s %s %d" % (f, s["k"], s["m"]) for f, s in zip(self.form, self.d["st"])))


def run(scn):
    w = World()
    try:
        rng = random.Random(scn["seed"])
        env = w.env()
        envs = [env] + [w.env() for k in range(2)]
        res = Resources(w)
        chains = [Chain(w, rng.choice(envs), d, scn["seed"] * 100 + k, k) for k, d in enumerate(scn["chains"])]
        for c in chains: c.build()
        lanes = scn.get("lanes") or len(chains)
        async def lane(k):
            for c in chains[k::lanes]: await c.run()
        async def both():
            return await asyncio.gather(*[lane(k) for k in range(lanes)])
        t = asyncio.ensure_future(both(), loop=loop())
        try: w.wait(t.done, lambda: "the end of " + "; ".join("%s (%s)" % (c.p_repr(), c.how) for c in chains), timeout=40)
        finally: t.cancel()
        t.result()
        res.check(env)
        for e in envs:
            if e.running_pipelines: soft("res", "listed as running after its end: %r" % (e.running_pipelines,))
        return dict(ok=True, steps=len(chains))
    finally:
        w.close()
