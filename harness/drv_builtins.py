"""Replays behaviours of Builtins.tla."""
import collections, inspect, json, os, random, shutil, subprocess, sys
import pieshell
from pieshell.pipeline import BuiltinRegistry, Builtin
from pieshell.pipeline.running import PipelineFailed
from pieshell.environ import EnvScope
from drv import *

SCRIPTS = dict(
    emit1='printf "%s\\n" "$@"',
    mark1='while IFS= read -r l; do printf "%s.%s\\n" "$l" "$1"; done',
    bad1='while IFS= read -r l; do printf "%s\\n" "$l"; done; exit 3',
    var1='printf "B=%s\\n" "$B"',
    here1='cat here')
SOURCE = 'printf "%%s\\n" %s "$@"'
FILTER = 'IFS=,; a="%s$*"; while IFS= read -r l; do printf "%%s.%%s\\n" "$l" "$a"; done'

def words(arg):
    """what is written in the specification, of arguments"""
    res = []
    for a in arg:
        if isinstance(a, dict): res += ["--%s=%s" % x for x in a.items()]
        else: res.append(str(a))
    return res

class Run:
    def __init__(self, scn):
        self.rng = rng = random.Random(scn["seed"])
        self.steps = scn["b"]["steps"]
        self.world = w = World(names=())
        names = rng.sample(["magic", "my_cmd", "Light", "ls", "sort", "x", "_own", "own2", "run", "wait", "cmd", "mägic"], 4)
        self.names = dict(zip(("s1", "s2", "f1", "f2"), names))
        for n, text in SCRIPTS.items(): self.script(n, text)
        for x, name in self.names.items(): self.script(name, (SOURCE if x[0] == "s" else FILTER) % x)
        self.envs, self.pool, self.classes, self.others = {}, [], {}, {}
        for e in ("e1", "e2"):
            d = os.path.join(w.work, e)
            os.mkdir(d)
            with open(os.path.join(d, "here"), "w") as f: f.write("in %s\n" % e)
            self.envs[e] = w.env(cwd=d, exports=dict(B="v0"))
        self.log = os.path.join(w.dir, "log")
        self.out = os.path.join(w.dir, "out")
        self.saved = dict(BuiltinRegistry.builtins)

    def script(self, name, text):
        f = os.path.join(self.world.bin, name)
        with open(f, "w") as file: file.write("#!/bin/sh\n%s\n" % text)
        os.chmod(f, 0o755)

    def of(self, env):
        for e, x in self.envs.items():
            if x is env: return e
        return "another"

    def call(self, env, x, args):
        """one way or another of writing a command"""
        rng, name = self.rng, self.names.get(x, x)
        how = rng.randrange(3)
        if how == 0: c = env._(name)
        elif how == 1: c = EnvScope(env=env)[name]
        else: c = getattr(env, name)
        return self.more(c, args)

    def more(self, c, args):
        rng, args = self.rng, list(args)
        if rng.random() < .3 and not any(x.startswith("--") for x in args): return c(*args)
        for a in args:
            if a.startswith("--") and rng.random() < .5: c = c(**dict([a[2:].split("=")]))
            elif a.isidentifier() and rng.random() < .5: c = getattr(c, a)
            elif a.startswith("-") and a[1:].isidentifier() and rng.random() < .5: c = c - getattr(self.envs["e1"], a[1:])
            else: c = c(a)
        return c

    def define(self, x, body, no):
        """the Python that a name stands for"""
        run, d = self, "d%d" % no
        async def fn(stdin):
            async for l in stdin: yield "%s:%s" % (l, d)
        def pipeline(self):
            env, a = self._env, self._arg[1:]
            if body == "emit": return env.emit1(d, *a)
            if body == "two": return env.emit1(d) + env.emit1(d, *a)
            if body == "same":
                c = env.emit1(d, *a)
                return c + c
            if body == "items": return [d] + words(a) | env.mark1(d)
            if body == "gen": return [d] + words(a) | env.mark1(d) | fn
            if body == "var": return env.var1
            if body == "here": return env.here1
            if body == "setenv": return run.world.env(exports=dict(B=d)).var1
            if body == "nest": return run.call(env, "s2", [])(d, *a) | run.call(env, "f2", [d])
            if body == "mark": return env.mark1(d + ",".join(words(a)))
            if body == "pipe": return env.mark1(d) | env.mark1(",".join(words(a)))
            if body == "fn": return env.mark1(d) | fn
            if body == "mid": return env.mark1(d) | (pieshell.pipeline.Function(env, fn) | env.mark1(d))
            if body == "deep": return (env.mark1("1") | env.mark1("2")) | (env.mark1("3") | env.mark1(d))
            if body == "bad": return env.bad1
            if body == "nestf": return run.call(env, "f2", [])(d, *a) | env.mark1(d)
            raise Machinery(body)
        def _run(self, redirects, sess, indentation=""):
            with open(run.log, "a") as f:
                f.write(json.dumps([self._arg[0], no, run.of(self._env), words(self._arg[1:])]) + "\n")
            self._cmd = pipeline(self)
            return self._cmd._run(redirects, sess, indentation)
        name = self.names[x]
        d2 = dict(_run=_run, __doc__="one's own", __dir__=lambda self: ["light%d" % no, "dark"])
        named = self.rng.random() < .5
        d2["name"] = name if named else "something_else"
        base = Builtin
        if self.classes and self.rng.random() < .2: base = self.rng.choice(sorted(self.classes.items()))[1]
        cls = type("Own%d" % no, (base,), d2)
        self.classes[no] = cls
        if named: BuiltinRegistry.register(cls)
        else: BuiltinRegistry.register(cls, name)

        # it can have other names, too, that no program has
        if self.rng.random() < .4:
            other = self.rng.choice(["Another%d", "_alias%d", "xäx%d"]) % no
            BuiltinRegistry.register(cls, other)
            self.others[other] = cls

    def ran(self):
        try:
            with open(self.log) as f: res = [json.loads(l) for l in f]
        except FileNotFoundError: res = []
        open(self.log, "w").close()
        return res

    def check_ran(self, got, what, no):
        want = collections.Counter(json.dumps([self.names[x["x"]], x["id"], x["e"], x["args"]]) for g in got for x in g["runs"])
        have = collections.Counter(json.dumps(x) for x in self.ran())
        if want != have: soft("own", "%s: one's own that were run: %s too many, %s missing" % (what, list((have - want).elements())[:3], list((want - have).elements())[:3]), no)

    def run(self):
        w, rng = self.world, self.rng
        for no, a in enumerate(self.steps):
            t = a["t"]
            if t == "register": self.define(a["x"], a["b"], a["id"])
            elif t == "set":
                env = self.envs[a["e"]]
                if rng.random() < .5: env._exports["B"] = a["w"]
                else: EnvScope(env=env)["B"] = a["w"]
            elif t == "word": self.pool.append(self.call(self.envs[a["e"]], a["x"], a["args"]))
            elif t == "leaf":
                env = self.envs[a["e"]]
                self.pool.append([a["w"], "i"] if a["k"] == "items" else env.emit1(a["w"]) if a["k"] == "emit" else env.mark1(a["w"]))
            elif t == "more": self.pool.append(self.more(self.pool[a["i"] - 1], [a["w"]]))
            elif t == "combine":
                x, y = self.pool[a["i"] - 1], self.pool[a["j"] - 1]
                self.pool.append(x | y if a["op"] == "pipe" else x + y)
            elif t == "run": self.start(a, no)
            elif t == "together": self.together(a, no)
            elif t == "package": self.package(a)
            elif t == "process": self.process(a, no)
            elif t == "look": self.look(a, no)
            elif t == "complete":
                env = self.envs[a["e"]]
                +env.clear_dir_cache
                have = set(dir(env))
                missing = ({self.names[x] for x in a["names"]} | set(self.others)) - have
                if missing: soft("own", "%s are not completed to" % sorted(missing), no)
                for other, cls in self.others.items():
                    if type(getattr(env, other)) is not cls: soft("own", "%s is a %s" % (other, type(getattr(env, other))), no)
            else: raise Machinery(t)
            if t not in ("run", "together"): self.check_ran([], "%s" % t, no)
        return len(self.steps)

    def same(self, out, g, what, no):
        if sorted(out) != sorted(g["out"]): raise Mismatch("own", "%s: %r instead of %r" % (what, out, g["out"]), no)

    def codes(self, r, g, what, no):
        have = [p.exit_code for p in r.processes if hasattr(p, "exit_code")]
        if have != g["codes"]: soft("own", "%s: exit codes %r instead of %r" % (what, have, g["codes"]), no)

    def attempt(self, f, fails, what, no):
        try: res = f()
        except PipelineFailed as e:
            if not fails: raise Mismatch("own", "%s failed: %s" % (what, str(e)[-500:]), no)
            return None
        if fails: soft("own", "%s does not fail" % what, no)
        return res

    def file(self):
        self.nr = getattr(self, "nr", 0) + 1
        self.out = os.path.join(self.world.dir, "out%d" % self.nr)
        return pieshell.Redirect("stdout", self.out, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)

    def text(self):
        with open(self.out) as f: return f.read().splitlines()

    def start(self, a, no):
        w, g, m = self.world, a["got"][0], a["m"]
        p, fails = self.pool[g["i"] - 1], any(g["codes"])
        what = "step %d, %s (%s)" % (no, repr(p) if self.rng.random() < .5 else g["i"], m)
        if m == "list": out = self.attempt(lambda: list(p), fails, what, no)
        elif m == "str":
            out = self.attempt(lambda: str(p), fails, what, no)
            if out is not None: out = out.splitlines()
        elif m == "file":
            self.attempt((p | self.file()).run_interactive, fails, what, no)
            out = self.text()
        elif m == "wait":
            r = (p | self.file()).run()
            self.attempt(lambda: w.run(r.wait(), what), fails, what, no)
            self.codes(r, g, what, no)
            out = self.text()
        elif m == "each":
            r = p.run([pieshell.Redirect("stdout", pieshell.PIPE)])
            out = []
            async def collect():
                async for x in r: out.append(x)
            self.attempt(lambda: w.run(collect(), what), fails, what, no)
            self.codes(r, g, what, no)
        elif m == "arg":
            e = self.rng.choice(sorted(self.envs.items()))[1]
            out = self.attempt(lambda: list(e.cat(p)), fails, what, no)
        elif m == "into":
            # the standard input of something else comes from a file that it wrote
            self.attempt((p | self.file()).run_interactive, fails, what, no)
            out = list(self.out | self.envs["e1"].cat)
        elif m == "sub":
            e = self.rng.choice(sorted(self.envs.items()))[1]
            out = self.attempt(lambda: list(e.subshell(p)), fails, what, no)
        else: raise Machinery(m)
        if out is not None: self.same(out, g, what, no)
        self.check_ran([g], what, no)

    def together(self, a, no):
        w, outs, rs = self.world, [], []
        async def collect(r, out):
            try:
                async for x in r: out.append(x)
            except PipelineFailed: return True
            return False
        for g in a["got"]:
            out = []
            r = self.pool[g["i"] - 1].run([pieshell.Redirect("stdout", pieshell.PIPE)])
            rs.append(r); outs.append(out)
        import asyncio
        async def both():
            return await asyncio.gather(*[collect(r, out) for r, out in zip(rs, outs)])
        failed = w.run(both(), "two at once")
        for g, r, out, f in zip(a["got"], rs, outs, failed):
            what = "step %d, %s, one of two" % (no, g["i"])
            if f != any(g["codes"]): raise Mismatch("own", "%s %s" % (what, "fails" if f else "does not fail"), no)
            self.codes(r, g, what, no)
            self.same(out, g, what, no)
        self.check_ran(a["got"], "step %d, two at once" % no, no)

    def package(self, a):
        """installs something, or something else in its place"""
        name, d = self.names[a["x"]], "d%d" % a["id"]
        top = os.path.join(self.world.dir, "site", a["x"])
        shutil.rmtree(top, ignore_errors=True)
        if a["b"] == "program": return
        body = dict(emit="self._env.emit1(d, *a)", two="self._env.emit1(d) + self._env.emit1(d, *a)", items="[d] + words(a) | self._env.mark1(d)",
                    mark="self._env.mark1(d + ','.join(words(a)))", pipe="self._env.mark1(d) | self._env.mark1(','.join(words(a)))", bad="self._env.bad1")[a["b"]]
        info = os.path.join(top, "pk%s-%d.dist-info" % (a["x"], a["id"]))
        os.makedirs(info)
        with open(os.path.join(info, "METADATA"), "w") as f: f.write("Metadata-Version: 2.1\nName: pk%s\nVersion: %d\n" % (a["x"], a["id"]))
        with open(os.path.join(info, "entry_points.txt"), "w") as f: f.write("[pieshell.builtin]\n%s = mod%s:Mine\n" % (name, a["x"]))
        with open(os.path.join(top, "mod%s.py" % a["x"]), "w") as f:
            f.write("import pieshell\nd = %r\n%s\nclass Mine(pieshell.Builtin):\n    name = 'another'\n"
                    "    def _run(self, redirects, sess, indentation=''):\n        a = self._arg[1:]\n        self._cmd = %s\n"
                    "        return self._cmd._run(redirects, sess, indentation)\n" % (d, inspect.getsource(words), body))

    def process(self, a, no):
        """a process that starts now"""
        w = self.world
        site = [os.path.join(w.dir, "site", x) for x in self.names]
        code = ("import sys; sys.stdout, out = sys.stderr, sys.stdout; sys.path[:0] = %r\nimport pieshell, json\ne = pieshell.env(cwd=%r, exports=dict(PATH=%r), interactive=False)\n"
                "p = e._(%r)(*%r) | e._(%r)(*%r)\ntry: r = list(p)\nexcept pieshell.PipelineFailed: r = None\nout.write('=' + json.dumps(r) + chr(10))\n"
                % (site + [os.environ["VERIF_REPO"]], w.work, w.path, self.names[a["x"]], a["v"], self.names[a["y"]], a["w"]))
        r = subprocess.run([sys.executable, "-c", code], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        got = [l for l in r.stdout.decode().split("\n") if l.startswith("=")]
        if not got: raise Mismatch("crash", "a new process: %s" % r.stderr.decode()[-600:], no)
        got, want = json.loads(got[0][1:]), None if any(a["codes"]) else a["out"]
        if got != want and sorted(got or []) != sorted(want or []): raise Mismatch("own", "a new process: %r instead of %r" % (got, want), no)

    def look(self, a, no):
        p = self.pool[a["i"] - 1]
        repr(p)
        d = dir(p)
        if a["own"]:
            if "light%d" % a["id"] not in d: soft("own", "one's own completes to %s" % d[:5], no)
            if type(p) is not self.classes[a["id"]]: soft("own", "a %s instead of a %s" % (type(p), self.classes[a["id"]]), no)

    def close(self):
        BuiltinRegistry.builtins.clear()
        BuiltinRegistry.builtins.update(self.saved)
        self.world.close()

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally: r.close()
