"""Runs chains of FnKinds.tla as they are: stages of every kind, in every way a
program can be written as one, and compares what comes out with what the
specification says."""
import asyncio, collections, datetime, decimal, fractions, functools, os, pathlib, random, types
import pieshell
from pieshell.pipeline.function import Function
from pieshell.pipeline.running import PipelineFailed
from pieshell.pipeline.base import Pipeline
from pieshell.redir import Redirect
from drv import *

class Oops(Exception): pass
class Thing(object):
    def __str__(self): return "thing: å"
class Text(str): pass
class Whole(int): pass

BIG = "big" * 3000
VALUES = dict(a="a", b="bå  ", c="-c %s", uni="åäö€𝄞\ufeff", bytes="bytes å".encode(), empty="", ebytes=b"", zero=0, false=False, int=-42,
              float=1.5, tuple=(1, "x"), elist=[], dict={"k": None}, obj=Thing(), exc=ValueError("q"), strsub=Text("sub"), intsub=Whole(7),
              cr="x\ry\x85z\u2028w\x0b", path=pathlib.PurePosixPath("/x/y"), big=BIG, two="one\nand two", endnl="line\n", bnl=b"bytes\n\n", bad=b"\xff bad", none=None, ell=Ellipsis)
LINES = {k: (v if isinstance(v, bytes) else str(v).encode()) for k, v in VALUES.items()}
LINES.update(two1=b"one", two2=b"and two", endnl1=b"line", bnl1=b"bytes", end=b"end")

def text(id):
    """The line that an identifier of the specification stands for"""
    *tags, last = id.split(":")
    return b"".join(t.encode() + b":" for t in tags) + (LINES[last] if last in LINES else last.encode())

class Iterated:
    """Can be iterated, again and again"""
    def __init__(self, f): self.f = f
    def __iter__(self): return self.f()
class Old:
    """An iterator that is no generator"""
    def __init__(self, it): self.it = it
    def __iter__(self): return self
    def __next__(self): return next(self.it)
class AOld:
    def __init__(self, it): self.it = it
    def __aiter__(self): return self
    async def __anext__(self): return await self.it.__anext__()
class AIterated:
    def __init__(self, f): self.f = f
    def __aiter__(self): return self.f()

Pair = collections.namedtuple("Pair", "first second")
def frozen(x):
    """A value as it is now"""
    if isinstance(x, (list, tuple)): return type(x), [frozen(y) for y in x]
    if isinstance(x, dict): return type(x), [(k, frozen(v)) for k, v in x.items()], getattr(x, "default_factory", None)
    return type(x), repr(x)
def spoil(x):
    for y in list(x.values() if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else ()): spoil(y)
    if isinstance(x, list): x.append("spoilt"); x.reverse()
    elif isinstance(x, dict): x["spoilt"] = 1; x.pop("a", None)

class Methods:
    """Functions as methods"""
    def __init__(self, f): self.f = f

class Stage:
    def __init__(self, run, i, d):
        self.run, self.i, self.ops, self.kind = run, i, d["ops"], d["k"]
        self.rng = run.rng
        self.calls = []
        self.raised = []
        self.sleepy = self.rng.random() < .3
        values = [1, "x", None, [1, 2], {"a": "b"}, b"y", True, 1.5, {"a": [1, {}]}, [[], {"b": ["c"]}], Pair("l", [1]), (1, [2]), collections.defaultdict(list, a=[1]),
                  collections.OrderedDict(b=1, a=[2]), collections.Counter("aab"), decimal.Decimal("1.50"), fractions.Fraction(1, 3), datetime.date(2020, 2, 29), {1, 2}, frozenset("a"),
                  range(3), collections.deque([1]), decimal.Decimal, Methods, object(), len, "~", "*", "%(x)s", os.stat("/"), pathlib.Path("a/b"), Ellipsis, bytearray(b"z")]
        self.arg = tuple(self.rng.choice(values) for n in range(self.rng.choice([0, 0, 1, 2])))
        self.kw = {k: self.rng.choice(values) for k in self.rng.sample(["p", "q", "lines2", "cwd"], self.rng.choice([0, 0, 1]))}
        self.given = frozen((self.arg, self.kw))
    def oops(self):
        c = self.rng.choice([Oops, Oops, ValueError, KeyError, asyncio.CancelledError, asyncio.TimeoutError, BrokenPipeError, LookupError, EOFError])
        e = c("oops %d" % self.i)
        self.raised.append(e)
        return e
    def called(self, arg, kw):
        self.calls.append(frozen((arg, kw)))
        # What it is called with is its own: the next run gets what was written
        if self.rng.random() < .5: spoil([list(arg), kw])

    # -- what the program does, one way or the other --------------------------------

    def simple(self):
        for o in self.ops:
            if o["o"] == "put": yield VALUES[o["v"]]
            else: raise self.oops()
    async def pause(self):
        if self.sleepy and self.rng.random() < .3:
            await asyncio.sleep(self.rng.choice([0, 0, .001]))
    async def reading(self, lines):
        n, tag = 0, "r%d:" % (self.i + 1)
        for o in self.ops:
            k = o["o"]
            await self.pause()
            if k == "put": yield VALUES[o["v"]]
            elif k == "count": yield self.rng.choice([n, str(n), b"%d" % n])
            elif k == "raise": raise self.oops()
            elif k in ("rest", "drain"):
                if self.rng.random() < .5:
                    async for x in lines:
                        n += 1
                        await self.pause()
                        if k == "rest": yield tag + x
                else:
                    while True:
                        try: x = await lines.__anext__()
                        except StopAsyncIteration: break
                        n += 1
                        if k == "rest": yield (tag + x).encode()
            else:
                async for x in lines:
                    n += 1
                    if k == "read": yield tag + x
                    break
                else:
                    if k == "read": yield "end"

    # -- in all kinds of things -------------------------------------------------------

    def thing(self):
        """What is to be put into the pipeline, and what it is to be called with"""
        rng, k = self.rng, self.kind
        if k in ("src", "cat", "head"): return self.command()
        if k == "list":
            items = [VALUES[o["v"]] for o in self.ops]
            return rng.choice([lambda: items, lambda: tuple(items), lambda: Iterated(lambda: iter(items)), lambda: collections.deque(items),
                               lambda: Iterated(self.simple), lambda: collections.UserList(items), lambda: dict(enumerate(items)).values()])()
        if k == "iter": return rng.choice([lambda: self.simple(), lambda: Old(self.simple()), lambda: map(lambda x: x, self.simple()), lambda: (x for x in self.simple())])()
        async def asimple():
            for x in self.simple():
                await self.pause()
                yield x
        if k == "aiter": return rng.choice([lambda: asimple(), lambda: AOld(asimple()), lambda: AIterated(asimple)])()
        st = self
        if k == "gen":
            def f(lines, *arg, **kw):
                st.called(arg, kw)
                for x in st.simple(): yield x
        elif k == "one":
            def f(lines, *arg, **kw):
                st.called(arg, kw)
                for x in st.simple(): return x
        elif k == "ret":
            def f(lines, *arg, **kw):
                st.called(arg, kw)
                if not any(o["o"] == "raise" for o in st.ops):
                    items = list(st.simple())
                    return rng.choice([lambda: items, lambda: tuple(items), lambda: iter(items), lambda: st.simple(), lambda: Iterated(st.simple), lambda: map(lambda x: x, items)])()
                if len(st.ops) == 1 and rng.random() < .5: raise st.oops()
                return rng.choice([lambda: st.simple(), lambda: Old(st.simple())])()
        elif k == "reta":
            def f(lines, *arg, **kw):
                st.called(arg, kw)
                return rng.choice([lambda: st.reading(lines), lambda: AOld(st.reading(lines)), lambda: AIterated(lambda: st.reading(lines))])()
        elif k == "coro":
            async def f(lines, *arg, **kw):
                st.called(arg, kw)
                async for x in st.reading(lines): return x
        elif k == "agen":
            async def f(lines, *arg, **kw):
                st.called(arg, kw)
                async for x in st.reading(lines): yield x
        how = rng.randrange(5)
        if how == 0:
            # as a method
            m = Methods(f)
            def method(self, lines, *arg, **kw): return self.f(lines, *arg, **kw)
            f = types.MethodType(method, m)
        elif how == 1:
            class C:
                g = classmethod(lambda cls, lines, *arg, **kw: f(lines, *arg, **kw))
            return self.wrapped(C.g)
        elif how == 2:
            g = f
            @functools.wraps(g)
            def h(*arg, **kw): return g(*arg, **kw)
            f = h
        elif how == 3:
            g = f
            f = lambda *arg, **kw: g(*arg, **kw)
        return self.wrapped(f)
    def wrapped(self, f):
        self.function = True
        if self.arg or self.kw or self.rng.random() < .3: return Function(self.run.env, f, *self.arg, **self.kw)
        return f
    function = False

    def command(self):
        env, w = self.run.env, self.run.world
        if self.kind == "cat": return self.rng.choice([lambda: env.cat, lambda: env.cat("-"), lambda: env.sh("-c", "cat; exit 0")])()
        if self.kind == "head": return env.head("-n", "1")
        self.fails = any(o["o"] == "raise" for o in self.ops)
        self.path = os.path.join(w.work, "src%d" % self.i)
        with open(self.path, "wb") as f: f.write(b"".join(LINES[o["v"]] + b"\n" for o in self.ops if o["o"] == "put"))
        if not self.fails and self.rng.random() < .5: return env.cat(pieshell.R(self.path))
        return env.sh("-c", 'cat "$1"; exit %d' % self.fails, "sh", pieshell.R(self.path))


class Run:
    def __init__(self, scn):
        self.scn, self.b = scn, scn["b"]
        self.rng = random.Random(scn["seed"])
        self.world = World()
        self.env = self.world.env()
        self.res = Resources(self.world)
        self.stages = [Stage(self, i, d) for i, d in enumerate(self.b["chain"])]
        self.order = list(range(len(self.stages)))

    def build(self):
        rng, env, st = self.rng, self.env, self.stages
        things = [s.thing() for s in st]
        n = len(things)
        src = None
        if st[0].kind in ("gen", "one", "ret", "reta", "coro", "agen"):
            # it reads nothing
            empty = os.path.join(self.world.work, "empty")
            open(empty, "w").close()
            src = rng.choice([None, empty, "/dev/null", empty])
        first = 0
        if n > 1 and st[0].kind == "src" and st[1].function and not isinstance(things[1], Pipeline) and rng.random() < .3:
            # by way of an argument
            things[1] = env.sh("-c", 'cat "$1" > "$2" || exit 2; exit %d' % st[0].fails, "sh", pieshell.R(st[0].path), things[1])
            self.order[0:2] = [1, 0]
            first = 1
        def whole(lo, hi):
            if hi - lo == 1:
                t = things[lo]
                if lo == 0 and st[0].function:
                    if not isinstance(t, Pipeline): t = Function(env, t)
                    t = rng.choice([lambda: src | t, lambda: t < src, lambda: t | Redirect("stdin", src or "/dev/null")])()
                return t
            cut = rng.randrange(lo + 1, hi)
            a, b = whole(lo, cut), whole(cut, hi)
            if not isinstance(a, Pipeline) and not isinstance(b, Pipeline):
                if rng.random() < .5: a = Function(env, a)
                else: b = Function(env, b)
            return a | b
        p = whole(first, n)
        return p if isinstance(p, Pipeline) else Function(env, p)

    async def collect(self, p, res):
        async for x in p: res.append(x)

    def go(self, p, how):
        """Runs it, and returns what it gives, what it is once run, and whether it failed"""
        w, env = self.world, self.env
        lines, fails, r = None, None, None
        self.how = how
        bad = any(text(x).startswith(b"\xff") or b"\xff" in text(x) for x in self.b["out"])
        if bad and how in ("list", "aiter", "str", "string"): how = "bytes"
        out = os.path.join(w.work, "out")
        if how == "string": p = p | Redirect("stdout", pieshell.redir.STRING)
        elif how == "file": p = p | out
        elif how == "arg": p = env.cat(p); self.arg = 1
        try:
            if how == "list":
                lines = []
                for x in p: lines.append(x)
            elif how in ("aiter", "arg"):
                lines = []
                if bad:
                    data = b""
                    async def read():
                        nonlocal data
                        async for x in p.run([Redirect("stdout", pieshell.PIPE)]).iterbytes(): data += x
                    try: w.run(read(), "the pipeline to end")
                    finally: lines = data
                else: w.run(self.collect(p, lines), "the pipeline to end")
            elif how == "str": lines = str(p).encode()
            elif how == "bytes": lines = bytes(p)
            else: r = w.run(self.wait(p), "the pipeline to end")
        except PipelineFailed as e:
            fails, r = str(e), e.pipeline
        r = r or env.last_pipeline
        if how == "string":
            lines = b""
            for x in r.processes:
                c = x.output_content
                lines += c.get(1, c.get("stdout", "")).encode()
        elif how == "file":
            with open(out, "rb") as f: lines = f.read()
            os.unlink(out)
        if isinstance(lines, list): lines = "".join(x + "\n" for x in lines).encode()
        return lines, r, fails
    async def wait(self, p):
        if self.rng.random() < .5: return await p
        r = p.run() if self.rng.random() < .5 else ~p
        await r
        return r

    def check(self, lines, r, fails, no):
        b = self.b
        what = " (run %d by %s of %s)" % (no, self.how, [(s["k"], [o.get("v", o["o"]) for o in s["ops"]]) for s in b["chain"]])
        extra = len(r.processes) - len(self.order)
        if extra != self.arg: raise Mismatch("fn", "there are %s processes instead of %s%s" % (len(r.processes), len(self.order) + self.arg, what))
        procs = {i: r.processes[k] for k, i in enumerate(self.order)}
        if r.is_running: raise Mismatch("fn", "it is running after it has ended" + what)
        got = [i for i in procs if procs[i] in r.failed_processes]
        for i, s in enumerate(self.stages):
            if b["must"][i] and i not in got: raise Mismatch("fn", "stage %d did not fail%s" % (i + 1, what))
            if i in got and not b["must"][i] and not b["may"][i]: raise Mismatch("fn", "stage %d failed: %s%s" % (i + 1, getattr(procs[i].iohandler, "exception", "?"), what))
            if s.raised and i in got and not b["may"][i] and str(s.raised[-1]) not in fails:
                raise Mismatch("fn", "the failure does not tell what stage %d raised: %s%s" % (i + 1, fails, what))
            if s.function:
                if len(s.calls) != no: raise Mismatch("fn", "the function of stage %d was called %d times in %d runs%s" % (i + 1, len(s.calls), no, what))
                if s.calls[-1] != s.given: raise Mismatch("fn", "the function of stage %d was called with %s instead of %s%s" % (i + 1, s.calls[-1], s.given, what))
        if bool(got) != (fails is not None): raise Mismatch("fn", "it %s, but stages %s failed%s" % ("failed" if fails else "did not fail", got, what))
        want = b"".join(text(x) + b"\n" for x in b["out"])
        if lines is not None and lines != want: raise Mismatch("fn", "it gave %r instead of %r%s" % (lines[:300], want[:300], what))
    arg = 0

    def run(self):
        p = self.build()
        rng = self.rng
        ways = ["list", "aiter", "str", "bytes", "string", "file", "arg"]
        if rng.random() < .3: repr(p), p.__name__
        how = rng.choice(ways)
        self.check(*self.go(p, how), 1)
        if not any(s.kind in ("iter", "aiter") for s in self.stages) and rng.random() < .4:
            self.arg = 0
            self.check(*self.go(p, rng.choice(ways)), 2)
        self.res.check(self.env)
        return len(self.stages)

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally: r.world.close()
