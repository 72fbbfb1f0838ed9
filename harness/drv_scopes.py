"""Replays behaviours of Scopes.tla."""
import builtins, code, contextlib, importlib, io, os, random, sys, types
import pieshell
from pieshell.pipeline.base import Pipeline
from drv import *

NAMES = ("x", "y", "V", "len", "actor")
MODULE = '''
_runs.append("%(m)s%(p)s")
exports["y"] = "by-%(m)s%(p)s"
_readers = {}
%(readers)s
if _bad[0] == 1: raise RuntimeError("of the module")
elif _bad[0] == 2: {}["of the module"]
x = "set-%(m)s%(p)s"
'''
READER = '''
def _r_%(x)s(): return %(x)s
_readers["%(x)s"] = _r_%(x)s
def _w_%(x)s(value):
    global %(x)s
    %(x)s = value
def _a_%(x)s(value):
    global %(x)s
    %(x)s += value
def _d_%(x)s():
    global %(x)s
    del %(x)s
def _n_%(x)s(): return [(lambda: %(x)s)() for i in range(1)][0]
'''
READERS = "".join(READER % dict(x=x) for x in NAMES)
SHELLFN = '''
def %(f)s(_op, _value=None):
    global x, y, V, len, actor
    %(body)s
'''

class Run:
    def __init__(self, scn):
        self.rng = random.Random(scn["seed"])
        self.steps = scn["b"]["steps"]
        self.world = w = World()
        self.val = {"v1": "one", "v2": "two words\n\"'$%", "v3": "", "v4": "*"}
        self.no = 0
        self.ran = builtins._runs = []
        builtins._bad = [0]
        for d in ("sub", "other", "first", "last", "pkg", "first/pv_pkg", "last/pv_pkg", "pkg/pv_pkg"): os.mkdir(os.path.join(w.work, d))
        self.sh = pieshell.environ.envScope
        self.shenv = self.sh["env"]
        self.keep = dict(dict.items(self.sh)), dict(self.shenv._exports), self.shenv._cwd
        self.shenv._exports.clear()
        self.shenv._exports.update(self.exports())
        self.shenv._cd(w.work)
        self.mods, self.temps = {}, []
        at = {m: set(ps) for m, ps in scn["b"]["at"].items()}
        with open(os.path.join(w.work, "pkg", "pv_pkg", "__init__.py"), "w") as f:
            f.write("__path__ = [%r, %r, %r]" % (os.path.join(w.work, "first", "pv_pkg"), "", os.path.join(w.work, "last", "pv_pkg")))
        for m, ps in at.items():
            for p in ps: self.file(m, p, True)
        # not of the package
        for d in ("first", "last"):
            with open(os.path.join(w.work, d, "pv_m2.pysh"), "w") as f: f.write('_runs.append("m2elsewhere")')
        self.keep_path = list(sys.path)
        sys.path[:0] = [os.path.join(w.work, "first"), "", os.path.join(w.work, "last"), os.path.join(w.work, "pkg")]
        importlib.invalidate_caches()
        exec(READERS.replace("_readers", "_sh_readers"), self.shdict())
        # a decorated function of ordinary Python
        self.fenv = w.env(exports=self.exports())
        self.glob = types.ModuleType("pv_plain").__dict__
        self.glob.update(env=self.fenv)
        self.fns = {"f": self.functions(self.glob, "self_env"), "g": self.functions(self.sh, "env")}
    def file(self, m, p, there):
        """A file of a module, where the process is: wherever it can be"""
        w = self.world
        for d in ["", "sub", "other"] if p == "here" else [p if m == "m1" else p + "/pv_pkg"]:
            path = os.path.join(w.work, d, "pv_%s.pysh" % m)
            if not there: os.remove(path)
            else:
                with open(path, "w") as f: f.write(MODULE % dict(m=m, p=p, readers=READERS))
    def shdict(self):
        self.sh["_sh_readers"] = {}
        return self.sh
    def exports(self): return dict(PATH=self.world.path, V="exported", HOME=HOME)

    def functions(self, scope, env):
        """All that is done in a decorated function is done by one function, for they all have scopes of their own"""
        src = ["def fn(op, name, value=None, *, how='plain'):", "    global %s" % ", ".join(NAMES)]
        for x in NAMES:
            src += ["    if name == '%s':" % x,
                    "        if op == 'read': return %s if how == 'plain' else [(lambda: %s)() for i in range(1)][0]" % (x, x),
                    "        if op == 'assign': %s = value" % x,
                    "        if op == 'append': %s += value" % x,
                    "        if op == 'delete': del %s" % x]
        src += ["    if op == 'export': exports[name] = value",
                "    if op == 'unexport': del exports[name]",
                "    if op == 'cd': cd(value).run()",
                "    if op == 'echo': return actor(*value).run() if name is None else name(*value).run()"]
        src = "\n".join(src)
        if env == "env":
            exec("@env.pyshfunction\n" + src.replace("def fn", "def _fn"), scope)
            return dict.__getitem__(scope, "_fn")
        else:
            ns = scope
            exec(src, ns)
            return self.fenv.pyshfunction(ns.pop("fn"))

    def v(self, s):
        """A value as TLC writes it"""
        return "+".join(self.val.get(x, x) for x in s.split("+"))

    # -- doing things in scopes --------------------------------------------

    def top(self, scope, src, **kw):
        """As statements"""
        for k, v in kw.items(): dict.__setitem__(scope, "_t_" + k, v)
        how = self.rng.randrange(3)
        if how == 0: exec(src, scope)
        elif how == 1: exec(compile(src, "<x>", "single"), scope)
        else:
            console = code.InteractiveInterpreter(locals=scope)
            console.showtraceback = self.raise_
            console.runsource(src, "<x>", "exec")
        for k in kw: dict.pop(scope, "_t_" + k, None)
    def raise_(self): raise

    def do(self, s, op, x, value=None):
        rng = self.rng
        if s in ("f", "g"):
            fn = self.fns[s]
            if op in ("export", "unexport", "cd"): return fn(op, x, value)
            return fn(op, x, value)
        scope = self.sh if s == "sh" else self.mods[s]._scope
        mod = None if s == "sh" else self.mods[s]
        if op == "assign":
            how = rng.randrange(6)
            if how == 0: dict.__getitem__(scope, "_w_" + x)(value)
            elif how == 1 and mod is not None: setattr(mod, x, value)
            elif how == 2: self.top(scope, "for %s in [_t_v]: pass" % x, v=value)
            elif how == 3: scope[x] = value
            elif how == 4: self.top(scope, "%s, _t_q = _t_v, 1" % x, v=value); dict.pop(scope, "_t_q", None)
            else: self.top(scope, "%s = _t_v" % x, v=value)
        elif op == "append":
            if rng.random() < .5: dict.__getitem__(scope, "_a_" + x)(value)
            else: self.top(scope, "%s += _t_v" % x, v=value)
        elif op == "delete":
            if rng.random() < .5: dict.__getitem__(scope, "_d_" + x)()
            else: self.top(scope, "del %s" % x)
        elif op == "export":
            how = rng.randrange(3)
            if how == 0: self.top(scope, "exports[%r] = _t_v" % x, v=value)
            elif how == 1: self.top(scope, "exports.update({%r: _t_v})" % x, v=value)
            else: self.top(scope, "env._exports[%r] = _t_v" % x, v=value)
        elif op == "unexport":
            self.top(scope, ["del exports[%r]", "exports.pop(%r)"][rng.randrange(2)] % x)
        elif op == "cd":
            self.top(scope, ["cd(_t_v).run()", "+cd(_t_v)"][rng.randrange(2)], v=value)

    def read(self, s, x):
        rng = self.rng
        if s in ("f", "g"): return self.fns[s]("read", x, how=rng.choice(["plain", "nested"]))
        scope = self.sh if s == "sh" else self.mods[s]._scope
        how = rng.randrange(6)
        if how == 0: return dict.__getitem__(scope, "_r_" + x)()
        if how == 1: return dict.__getitem__(scope, "_n_" + x)()
        if how == 2: return scope[x]
        if how == 3 and s != "sh": return getattr(self.mods[s], x)
        if how == 4:
            out = []
            dict.__setitem__(scope, "_t_out", out)
            self.top(scope, "_t_out.append(%s)" % x)
            dict.pop(scope, "_t_out", None)
            return out[0]
        return eval(x, scope)

    def look(self, a, no):
        w, s = self.world, a["s"]
        for x, want in a["m"].items():
            got = self.read(s, x)
            self.same(x, got, want, s, no)
        if self.rng.random() < .5 or a["m"]["actor"] != "command": return
        can = [x for x in NAMES if a["e"][x] != "-"]
        args = [">%%(%s)s<" % x for x in can]
        if s in ("f", "g"): q = self.fns[s]("echo", None, args)
        else:
            scope = self.sh if s == "sh" else self.mods[s]._scope
            q = scope["actor"](*args).run()
        ac = w.of_pid(q.processes[0].pid)
        want = {x: self.v(a["ex"][x]) for x in NAMES if a["ex"][x] != "-"}
        got = {x: ac.env[x] for x in NAMES if x in ac.env}
        if got != want: raise Mismatch("scope", "a command run in %s gets variables %s instead of %s" % (s, got, want), no)
        cwd = os.path.join(w.work, {"top": "."}.get(a["cwd"], a["cwd"]))
        if os.path.realpath(ac.cwd) != os.path.realpath(cwd): raise Mismatch("scope", "a command run in %s runs in %s instead of %s" % (s, ac.cwd, cwd), no)
        argv = [os.fsdecode(x) for x in ac.argv[1:]]
        want = [">" + self.v(a["e"][x]) + "<" for x in can]
        if argv != want:
            raise Mismatch("scope", "variables expanded in %s to %r instead of %r" % (s, argv, want), no)
        ac.call("Q 0")
        w.wait(lambda: not q.is_running, "command to end")

    def same(self, x, got, want, s, no):
        if want == "builtin": ok = got is getattr(builtins, x, None)
        elif want == "command": ok = isinstance(got, Pipeline)
        else: ok = isinstance(got, str) and got == self.v(want)
        if not ok: raise Mismatch("scope", "%s means %s in %s instead of %s" % (x, "a pipeline" if isinstance(got, Pipeline) else repr(got), s, want), no)

    def run(self):
        w = self.world
        for no, a in enumerate(self.steps):
            t, s = a["t"], a.get("s")
            if t == "assign": self.do(s, "assign", a["x"], self.val[a["v"]])
            elif t == "append": self.do(s, "append", a["x"], "+" + self.val[a["v"]])
            elif t == "delete": self.do(s, "delete", a["x"])
            elif t == "export":
                if a["v"] != "-": self.do(s, "export", a["x"], self.val[a["v"]])
                elif a["x"] in self.envof(s)._exports: self.do(s, "unexport", a["x"])
            elif t == "global":
                if a["v"] == "-": self.glob.pop(a["x"], None)
                else: self.glob[a["x"]] = self.val[a["v"]]
            elif t == "cd":
                self.do(s, "cd", None, os.path.join(w.work, {"top": "."}.get(a["d"], a["d"])))
            elif t == "import":
                name = dict(m1="pv_m1", m2="pv_pkg.pv_m2")[a["m"]]
                builtins._bad[0] = a["bad"] and self.rng.randrange(1, 3)
                said = io.StringIO()
                try:
                    with contextlib.redirect_stderr(said): mod = self.imported(a["m"], name)
                except ImportError as e:
                    if a["ok"]: raise Mismatch("module", "%s is not found: %s" % (name, e), no)
                    continue
                finally: builtins._bad[0] = 0
                if not a["ok"]: raise Mismatch("module", "%s is imported, but there is none" % name, no)
                if ("of the module" in said.getvalue()) != a["bad"]: raise Mismatch("module", "imported %s, which %s, and it says %r" % (name, "fails" if a["bad"] else "does not fail", said.getvalue()[-500:]), no)
                if a["new"] and self.ran[-1:] != [a["m"] + a["from"]]: raise Mismatch("module", "importing %s ran %s instead of that of %s" % (name, self.ran[-1:], a["from"]), no)
                if a["m"] in self.mods and self.mods[a["m"]] is not mod: raise Mismatch("module", "another module when imported again", no)
                self.mods[a["m"]] = mod
            elif t == "file": self.file(a["m"], a["p"], a["there"])
            elif t in ("enter", "newenv"):
                kw = {} if a["d"] == "-" else dict(cwd=os.path.join(w.work, a["d"]))
                if t == "newenv": self.top(self.sh, "env = env(**_t_kw)" if self.rng.random() < .5 or not kw else "env = env[_t_kw['cwd']]", kw=kw)
                else:
                    self.top(self.sh, "_t_cm = env.temporary_env(env(**_t_kw)); _t_cm.__enter__()", kw=kw)
                    self.temps.append(dict.pop(self.sh, "_t_cm"))
            elif t == "leave":
                if a["why"] == "end": self.temps.pop().__exit__(None, None, None)
                else:
                    e = RuntimeError("of the statements inside")
                    try: r = self.temps.pop().__exit__(RuntimeError, e, None)
                    except RuntimeError as x:
                        if x is not e: raise
                    else:
                        if r: raise Mismatch("scope", "an exception disappeared in temporary_env", no)
            elif t == "look":
                self.look(a, no)
                if {m: len([r for r in self.ran if r.startswith(m)]) for m in a["ran"]} != a["ran"]: raise Mismatch("module", "modules were run %s instead of %s" % (self.ran, a["ran"]), no)
            # nothing of what there is of ours changes elsewhere
            for x in NAMES:
                if x in os.environ: raise Mismatch("scope", "%s became a variable of the calling process" % x, no)
        return len(self.steps)

    def imported(self, m, name):
        how = self.rng.randrange(3)
        if how == 0: return __import__(name, fromlist=["x"])
        if how == 1: return importlib.import_module(name)
        self.top(self.sh, "import pv_m1 as _t_mod" if m == "m1" else "from pv_pkg import pv_m2 as _t_mod")
        return dict.pop(self.sh, "_t_mod")

    def envof(self, s):
        return self.sh["env"] if s == "sh" else self.shenv if s == "g" else self.fenv if s == "f" else self.mods[s]._scope["env"]

    def close(self):
        d, e, c = self.keep
        for k in list(dict.keys(self.sh)): dict.pop(self.sh, k)
        for k, v in d.items(): dict.__setitem__(self.sh, k, v)
        self.shenv._exports.clear(); self.shenv._exports.update(e)
        self.shenv._cwd = c
        os.chdir("/")
        sys.path[:] = self.keep_path
        for m in ("pv_m1", "pv_pkg.pv_m2", "pv_pkg"): sys.modules.pop(m, None)
        del builtins._runs, builtins._bad
        self.world.close()

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally: r.close()
