"""Replays behaviours of Args.tla."""
import os, pathlib, random, shutil
import pieshell
from drv import *

class Run:
    def __init__(self, scn):
        self.rng = random.Random(scn["seed"])
        self.steps, self.vars = scn["b"]["steps"], scn["vars"]
        self.world = World()
        text = repr(self.steps)
        plain = "<HERE>" in text
        self.cwd = os.path.join(self.world.work, "here" if plain else self.rng.choice(["here", "w[e]ird *?", "a b", "~x", "%(V)s"]))
        os.mkdir(self.cwd)
        self.env = self.world.env(cwd=self.cwd, exports=self.vars)

    def s(self, chars):
        return "".join(HOME if c == "<HOME>" else self.cwd if c == "<HERE>" else "å" if c == "<U>" else c for c in chars)

    def files(self, a):
        shutil.rmtree(self.cwd); os.mkdir(self.cwd)
        for d in ("d", "dd", ".d"): os.mkdir(os.path.join(self.cwd, d))
        for x in a["top"]: self.touch(self.s(x))
        for x in a["sub"]: self.touch(os.path.join(self.s(x[0]), self.s(x[1])))
    def touch(self, name):
        with open(os.path.join(self.cwd, name), "w"): pass

    def build(self, args):
        """Some way of writing them, in that order"""
        rng, env = self.rng, self.env
        how = rng.randrange(4)
        if how == 0: cmd = env._("actor")
        elif how == 1: cmd = env._.actor
        else: cmd = env.actor
        pos, kw = [], {}
        def flush(cmd):
            if pos and kw and isinstance(pos[-1], dict) and rng.random() < .5:
                pos.append(dict(kw)); kw.clear()
            if pos or kw or rng.random() < .1:
                cmd = cmd(*pos, **kw)
                pos.clear(); kw.clear()
            return cmd
        for a in args:
            k, s = a["k"], self.s(a["s"])
            if k == "kw":
                name = "".join(a["n"]).replace("-", "_")
                if name in kw or rng.random() < .2: cmd = flush(cmd)
                v = a["v"]
                kw[name] = dict(true=True, false=False, int=7, zero=0, one=1, float=0.0, none=None, minus=-1, ebytes=b"", path=pathlib.PurePosixPath("/a"), num="True",
                                str=s, raw=pieshell.R(s), bytes=s.encode())[v]
                if rng.random() < .15: # written as a dictionary
                    pos.append(dict(kw)); kw.clear()
                continue
            if kw: cmd = flush(cmd)
            if k == "attr" and rng.random() < .8 and not hasattr(type(cmd), s):
                cmd = getattr(flush(cmd), s); continue
            if k == "neg":
                if rng.random() < .7: cmd = flush(cmd) - getattr(env, s)
                else: pos.append(-getattr(env, s))
                continue
            pos.append({"str": lambda: s, "attr": lambda: s, "raw": lambda: pieshell.R(s), "bytes": lambda: s.encode(),
                        "path": lambda: pathlib.PurePosixPath(s)}[k]())
            if rng.random() < .3: cmd = flush(cmd)
        return flush(cmd)

    def run(self):
        w, given, n, parts = self.world, [], 0, []
        cmd = None
        for no, a in enumerate(self.steps):
            if a["t"] == "files": self.files(a)
            elif a["t"] == "add": given.append(a["a"]); cmd = None
            else:
                if cmd is None: cmd = self.build(given)     # or the same once more
                if self.rng.random() < .3: repr(cmd)
                q = cmd.run()
                ac = w.of_pid(q.processes[0].pid)
                self.check([os.fsdecode(x) for x in ac.argv], a["w"], given, no)
                ac.call("Q 0")
                w.run(q.wait())
                n += 1
        return len(self.steps)

    def check(self, argv, want, given, no):
        pos = 1
        for i, alternatives in enumerate(want):
            exp = sorted(self.s(x) for x in alternatives)
            got = argv[pos:pos + len(exp)]
            if sorted(got) != exp:
                raise Mismatch("args", "argument %d (%r) became %r instead of %r; all: %r" % (i + 1, given[i], argv[pos:pos + len(exp)], exp, argv), no)
            pos += len(exp)
        if argv[:1] != ["actor"] or pos != len(argv):
            raise Mismatch("args", "arguments are %r; expected: %r" % (argv, want), no)

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally: r.world.close()
