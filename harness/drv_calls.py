"""Replays behaviours of Calls.tla."""
import asyncio, random, types
import pieshell
from drv import *

POS, KW = "abc", "kl"

class Run:
    def __init__(self, scn):
        self.rng = random.Random(scn["seed"])
        self.steps = scn["b"]["steps"]
        self.world = World()
        self.calls = []

    def define(self, sig):
        """The function, in a module of its own, decorated for two environments"""
        self.sig = sig
        params = ["self"] if sig["kind"] == "method" else []
        for i in range(sig["np"]):
            params.append(POS[i] + ("=[]" if i >= sig["np"] - sig["nd"] else ""))
            if sig["po"] == i + 1: params.append("/")
        if sig["rest"]: params.append("*rest")
        elif sig["nk"]: params.append("*")
        for i in range(sig["nk"]): params.append(KW[i] + ("=[]" if sig["kd"][i] else ""))
        if sig["more"]: params.append("**more")
        names = list(POS[:sig["np"]]) + list(KW[:sig["nk"]])
        body = ["nonlocal clo", "global glo", "clo += 1", "old, glo = glo, no()",
                "for v in (%s): v.append(no() - 1) if isinstance(v, list) else None" % "".join(x + "," for x in names),
                "res = dict(bound={%s}, rest=%s, more=%s, clo=clo, glo=old, cmd=type(some_command).__mro__)" % (
                    ", ".join("'%s': %s" % (x, x) for x in names), "rest" if sig["rest"] else "()", "more" if sig["more"] else "{}")]
        kind = sig["kind"]
        head = "async def" if kind in ("coroutine", "asyncgen") else "def"
        if kind == "coroutine": body.append("await sleep(0)")
        body.append(("yield" if kind in ("generator", "asyncgen") else "return") + " res")
        src = ["def outer():", "  clo = 0"]
        ind = "  "
        if kind == "method": src.append("  class C:"); ind = "    "
        src.append("%s%s fn(%s):" % (ind, head, ", ".join(params)))
        src += [ind + "  " + x for x in body]
        src += ["  def sibling():", "    nonlocal clo", "    clo += 10", "    return clo",
                "  return %s, sibling" % ("C" if kind == "method" else "fn")]
        self.glob = types.ModuleType("pv_calls").__dict__
        # some_command: what an ordinary function has as a global is what a decorated one has as well, but for its own
        self.glob.update(glo=0, no=lambda: self.no + 1, sleep=asyncio.sleep, some_command=None)
        exec("\n".join(src), self.glob)
        thing, self.sibling = self.glob["outer"]()
        w = self.world
        e1, e2 = w.env(), w.env(interactive=False)
        if kind == "method":
            orig = thing.fn
            class D(thing): fn = e1.pyshfunction(orig)
            class E(thing): fn = e2.pyshfunction(orig)
            self.fns = dict(fn=thing().fn, f1=D().fn, f2=E().fn)
        else:
            self.fns = dict(fn=thing, f1=e1.pyshfunction(thing), f2=e2.pyshfunction(thing))

    def call(self, f, arg, kw):
        kind, fn = self.sig["kind"], self.fns[f]
        if kind == "generator":
            r = list(fn(*arg, **kw)); assert len(r) == 1
            return r[0]
        if kind == "coroutine":
            return loop().run_until_complete(fn(*arg, **kw))
        if kind == "asyncgen":
            async def get(): return [x async for x in fn(*arg, **kw)]
            return loop().run_until_complete(get())[0]
        return fn(*arg, **kw)

    def run(self):
        n = -1
        for no, a in enumerate(self.steps):
            if a["t"] == "define": self.define(a["sig"]); continue
            n += 1
            self.no = n
            if a["t"] == "sibling":
                got = self.sibling()
                if got != a["clo"]: raise Mismatch("call", "variable of the enclosing function is %r for its sibling instead of %r" % (got, a["clo"]), no)
                continue
            arg = ["p%d" % (i + 1) for i in range(a["na"])]
            kw = {k: "n" + k for k in a["ks"]}
            what = "%s(%s)" % (a["f"], ", ".join(arg + ["%s=%s" % x for x in kw.items()]))
            try: got = self.call(a["f"], arg, kw)
            except TypeError as e:
                if not a["error"]: raise Mismatch("call", "%s of %s failed: %s" % (what, self.sig, e), no)
                continue
            if a["error"]: raise Mismatch("call", "%s of %s worked" % (what, self.sig), no)
            bound = a["bound"] or {}
            want = dict(bound={p: v if v != "d" else list(a["defaults"][p]) for p, v in bound.items()},
                        rest=tuple(arg[len(arg) - a["rest"]:] if a["rest"] else ()), more={k: kw[k] for k in a["more"]}, clo=a["clo"], glo=a["glo"])
            got.pop("cmd")
            if got != want: raise Mismatch("call", "%s of %s saw %s instead of %s" % (what, self.sig, got, want), no)
        return len(self.steps)

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally: r.world.close()
