"""Replays behaviours of Find.tla."""
import os, random, shutil, stat, sys
import pieshell
from pieshell.environ import EnvScope
from pieshell.pipeline.running import PipelineFailed
from drv import *

class Run:
    def __init__(self, scn):
        self.rng = rng = random.Random(scn["seed"])
        self.steps = scn["b"]["steps"]
        self.world = w = World(names=())
        self.saved = dict(os.environ)
        self.top = os.path.join(w.work, rng.choice(["top", "t op", "töp", "[t]op"]))
        os.mkdir(self.top)
        for d in ("p1", "p2", "w1", "w2", "w1/bin", "w2/bin"): os.mkdir(self.path(d))
        names = rng.sample(["prog", "pro_g", "Prog", "p", "prög", "pr-og", "pr.og", "prog2", "x1", "9p", "pr og"], 3)
        self.names = dict(x=names[0], y=names[1], z=names[2])
        # what is a builtin is one, whatever programs there are
        with open(self.path("p1/clear_dir_cache"), "w") as f: f.write("#!/bin/sh\necho wrong\n")
        os.chmod(self.path("p1/clear_dir_cache"), 0o755)
        os.environ["PATH"] = self.path("p1")
        self.envs, self.cmds = [], []

    def path(self, d): return os.path.join(self.top, d)
    def part(self, p): return p if p in ("", ".", "bin") else self.path(p)
    def value(self, p): return None if p == ["unset"] else ":".join(map(self.part, p))
    def exports(self, p):
        ex, v = dict(A="b"), self.value(p)
        if v is not None: ex["PATH"] = v
        return ex

    def put(self, d, x, k, ver):
        f = self.path(d + "/" + self.names[x])
        if os.path.islink(f) or os.path.isfile(f): os.unlink(f)
        elif os.path.isdir(f): os.rmdir(f)
        if k == "none": return
        if k == "dir": return os.mkdir(f)
        if k == "dangling": return os.symlink("nothing", f)
        real = f
        if k == "prog" and self.rng.random() < .2:
            real = self.path("real%d" % ver)
            os.symlink(real, f)
        with open(real, "w") as file: file.write("#!/bin/sh\nwhile read l; do :; done; echo '%s %s %d'\n" % (d, x, ver))
        os.chmod(real, 0o644 if k == "file" else 0o755)

    def make(self, s):
        env, rng = self.envs[s["e"] - 1], self.rng
        name = self.names[s["x"]]
        if s["w"] != "plain":
            name = (self.path("p1/") if s["w"] == "abs" else s["w"]) + name
            return env._(name) if rng.random() < .5 else getattr(env, name)
        how = rng.randrange(4)
        if how == 0: return env._(name)
        if how == 1: return EnvScope(env=env)[name]
        if how == 2 and name.isidentifier(): return eval(name, {}, EnvScope(env=env))
        return getattr(env, name)

    def run(self):
        w, rng = self.world, self.rng
        for no, a in enumerate(self.steps):
            t = a["t"]
            env = self.envs[a["e"] - 1] if "e" in a else None
            if t == "new":
                kw = dict(exports=self.exports(a["path"])) if a["own"] else {}
                self.envs.append(pieshell.Environment(cwd=self.path(a["cwd"]), interactive=False, **kw))
            elif t == "derive":
                self.envs.append(env(self.path(a["cwd"])) if rng.random() < .5 else env[self.path(a["cwd"])])
            elif t == "cd": +env.cd(self.path(a["cwd"]))
            elif t in ("path", "ospath"):
                ex, v = env._exports if env is not None else os.environ, self.value(a["path"])
                if v is None: ex.pop("PATH", None)
                elif env is not None and rng.random() < .5 and "PATH" in ex: EnvScope(env=env)["PATH"] = v
                else: ex["PATH"] = v
            elif t == "put": self.put(a["d"], a["x"], a["k"], a["ver"])
            elif t == "make": self.cmds.append((a["s"], [self.make(s) for s in a["s"]]))
            elif t == "run": self.start(a, no)
            elif t == "complete": self.complete(env, a, no)
            elif t == "clear": +env.clear_dir_cache
            else: raise Machinery(t)
        return len(self.steps)

    def start(self, a, no):
        stages, cmds = self.cmds[a["c"] - 1]
        want = ["%s %s %d" % (g["d"], s["x"], g["ver"]) if g["d"] else None for s, g in zip(stages, a["got"])]
        p = cmds[0] if len(cmds) == 1 else cmds[0] | cmds[1]
        r = p.run([pieshell.Redirect("stdout", pieshell.PIPE)])
        got = []
        async def collect():
            async for x in r: got.append(x)
        failed = False
        try: self.world.run(collect(), "%r to run" % p)
        except PipelineFailed: failed = True
        if failed != (None in want): raise Mismatch("find", "%r %s, it stands for %s" % (p, "failed" if failed else "did not fail", want), no)
        if got != ([want[-1]] if want[-1] else []): raise Mismatch("find", "%r ran %s instead of %s" % (p, got, want[-1]), no)
        for q, wanted in zip(r.processes, want):
            if q.is_failed != (wanted is None): raise Mismatch("find", "%r %s, it stands for %s" % (q, "failed" if q.is_failed else "did not fail", wanted), no)
            err = q.output_content.get(2, q.output_content.get("stderr")) or ""
            if wanted is None and not err.strip(): raise Mismatch("find", "%r stands for nothing, without a message" % q, no)

    def complete(self, env, a, no):
        got = set(dir(env) if self.rng.random() < .5 else EnvScope(env=env).keys())
        name = lambda xs: {self.names[x] for x in xs}
        must = name(a["must"]) | {"cd", "bg", "fg", "bashsource", "clear_dir_cache"}
        if not must <= got: raise Mismatch("find", "%r completes to nothing like %s" % (env, sorted(must - got)), no)
        bad = (got & set(self.names.values())) - name(a["may"])
        if bad: raise Mismatch("find", "%r completes to %s" % (env, sorted(bad)), no)

    def close(self):
        os.chdir("/")
        os.environ.clear(); os.environ.update(self.saved)
        self.world.close()

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally: r.close()
