"""Replays behaviours of Values.tla."""
import asyncio, code, collections, io, json, os, random, signal, sys, time, zlib
import pieshell
from pieshell.redir import Redirect
from pieshell.pipeline.running import RunningProcess, PipelineFailed
from pieshell.environ import EnvScope
from drv import *

LEAF = os.path.join(os.path.dirname(os.environ["VERIF_ACTOR"]), "leaf")
TAGS = ("s1", "s2", "s3", "f1", "f2", "f3")

HOSTS = {"host": [], "user@host": ["-p", "2222"], "example.org": ["-o", "ProxyCommand=nc host 'a b'", "-C"], "10.0.0.1": ["-x"], "-t": ["--"]}

class Oops(Exception): pass

class Run:
    def __init__(self, scn):
        self.rng = random.Random(scn["seed"])
        self.steps = scn["b"]["steps"]
        self.world = w = World(names=())
        for t in TAGS: os.link(LEAF, os.path.join(w.bin, t))
        self.own = []
        if not scn.get("contained") or '"w": "remote"' not in json.dumps(self.steps):
            for t in TAGS:
                if self.rng.random() < .2: self.builtin(t)
        # completions come from here
        os.symlink(os.path.join(os.path.dirname(pieshell.__file__), "resources", "get_completions"), os.path.join(w.bin, "get_completions"))
        self.logfile = os.path.join(w.dir, "log")
        open(self.logfile, "w").close()
        for f in ("x", "y"):
            with open(os.path.join(w.work, f), "w") as file: file.write("%s1\n%s2\n" % (f, f))
        self.fns = {t: self.function(t) for t in ("g1", "g2", "g3")}
        self.pool, self.terms, self.bg = [], [], []
        self.said, self.say, self.mess = [], 0, {}
        self.me = os.getpid()
        # the file that a remote shell reads at startup, and the programs to get there
        self.home = os.path.join(w.dir, "home")
        os.makedirs(os.path.join(self.home, ".config"))
        open(os.path.join(self.home, ".config", "pieshell"), "w").close()
        # each host insists on its options, and on nothing but those
        self.hosts = os.path.join(w.dir, "hosts")
        os.mkdir(self.hosts)
        for host, options in HOSTS.items():
            with open(os.path.join(self.hosts, host), "wb") as f: f.write(b"".join(os.fsencode(x) + b"\0" for x in options + [host]))
        for name, text in (("ssh", '[ $# -gt 1 ] || exit 97\nhost="${@: -2:1}"\nprintf "%%s\\0" "${@:1:$#-1}" | cmp -s - "%s/$host" || { echo "bad arguments: $*" >&2; exit 98; }\nexec bash -c "${@: -1}"\n' % self.hosts),
                           ("pieshell", "export PYTHONPATH=%s\nexec %s -m pieshell.shell \"$@\"\n" % (os.path.dirname(os.path.dirname(pieshell.__file__)), sys.executable))):
            with open(os.path.join(w.bin, name), "w") as f: f.write("#!/bin/bash\n" + text)
            os.chmod(os.path.join(w.bin, name), 0o755)
        self.texts = {}
        self.once, self.lists = {}, {}
        # commands and functions without an input get that of the shell
        self.keep = os.dup(0), os.dup(1)
        fd = os.open("/dev/null", os.O_RDONLY); os.dup2(fd, 0); os.close(fd)
        self.stdout = os.path.join(w.dir, "stdout")
        fd = os.open(self.stdout, os.O_WRONLY | os.O_CREAT | os.O_APPEND); os.dup2(fd, 1); os.close(fd)
        self.seen = 0
        self.oldout = sys.stdout
        if scn.get("contained"): sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(1), "wb"), write_through=False)

    def builtin(self, tag):
        """A builtin of the user that runs a program"""
        path = os.path.join(self.world.bin, tag)
        class Own(pieshell.Builtin):
            name = tag
            def _run(self, redirects, sess, indentation = ""):
                self._cmd = pieshell.Command(self._env, [path] + self._arg[1:])
                return self._cmd._run(redirects, sess, indentation)
        pieshell.BuiltinRegistry.register(Own)
        self.own.append(tag)
    def function(self, tag):
        async def fn(lines):
            with open(self.logfile, "a") as f: f.write(tag + " -\n")
            if os.getpid() != self.me: self.make_a_mess(lists=False) # they might be read here too
            yield tag
            async for line in lines: yield tag + ":" + line
            if tag.endswith("3"): raise Oops(tag)
        fn.__name__ = tag
        return fn

    # -- subshells -----------------------------------------------------------------

    def make_a_mess(self, lists=True):
        """Changes anything it can get hold of"""
        env = self.env
        env._exports["MESS"] = "1"
        env._exports.pop("LANG", None)
        os.environ["MESS"] = "1"
        env._cwd = "/"
        os.chdir("/")
        del self.pool[1:]
        if lists:
            for l in self.lists.values(): l.append("mess")
        asyncio.get_event_loop().call_later(0, lambda: None)
        env.last_pipeline = None
        env._bashfunctions["mess"] = "mess () { :; }"
        self.mess["mess"] = True
    def snapshot(self):
        env = self.env
        return dict(exports=dict(env._exports), environ=dict(os.environ), cwd=(env._cwd, os.getcwd()), pool=len(self.pool), mess=dict(self.mess),
                    lists={k: list(v) for k, v in self.lists.items()}, functions=dict(env._bashfunctions), running=0 if self.bg else len(env.running_pipelines),
                    loop=id(asyncio.get_event_loop()), signals=[signal.getsignal(x) for x in (signal.SIGINT, signal.SIGCHLD, signal.SIGTSTP, signal.SIGUSR1)])
    def contained(self, before, no):
        now = self.snapshot()
        bad = {k: (before[k], now[k]) for k in now if before[k] != now[k]}
        if bad: soft("contained", "the caller was changed: %s" % str(bad)[:600], no)
    def inside(self, a, no):
        env, rng, what = self.env, self.rng, a["what"]
        me = self
        def fn(action):
            async def f(lines):
                me.make_a_mess()
                action()
                return "x"
            return env.true | f
        script = os.path.join(self.world.work, "script.sh")
        def later(): 
            l = asyncio.get_event_loop()
            for k in range(3): l.call_soon(lambda: open(me.logfile, "a").write("late -\n"))
        def error(e):
            def f(): raise e
            return f
        if what == "cd": p = env.cd(self.world.bin)
        elif what == "export": p = fn(lambda: env._exports.update(A="b"))
        elif what == "raise": p = fn(error(Oops("x")))
        elif what == "exit": p = fn(error(SystemExit(3)))
        elif what == "kill": p = fn(lambda: os.kill(os.getpid(), 9))
        elif what == "interrupt": p = fn(error(KeyboardInterrupt()))
        elif what == "loop": p = fn(later)
        elif what == "source":
            with open(script, "w") as f: f.write("export MESS=1\nunset LANG\nf() { :; }\n")
            p = env.bashsource(script)
        elif what == "names": p = fn(lambda: globals().update(MESS=1))
        elif what == "fork": p = env.subshell(fn(later))
        else: raise Machinery(what)
        before, t = self.snapshot(), time.time()
        last = env.last_pipeline
        # what the caller is about to do happens once
        done = []
        log = os.path.join(self.world.dir, "calls")
        def call():
            with open(log, "a") as f: f.write("%d\n" % os.getpid())
        if rng.random() < .5: asyncio.get_event_loop().call_soon(call)
        else: asyncio.get_event_loop().call_later(.001, call)
        q = env.subshell(p)
        failed = False
        try:
            try:
                if rng.random() < .3: +q
                elif rng.random() < .5: self.world.run(q.run().wait(), "subshell to end")
                else: list(q)
            except PipelineFailed: failed = True
        finally:
            if os.getpid() != self.me: os._exit(77)
            with open(self.logfile, "a") as f: f.write("done -\n")
        with open(self.logfile) as f: self.dones = self.check_once("done", f.read().split("\n").count("done -"), self.dones + 1, no)
        self.world.wait(lambda: os.path.exists(log), "a callback to be called")
        with open(log) as f: d = f.read().split()
        os.unlink(log)
        if d != [str(self.me)]: soft("contained", "a callback was called in processes %s instead of in %s" % (d, self.me), no)
        self.shell_output()
        if failed != a["fails"]: soft("sub", "a subshell (%s) %s" % (what, "failed" if failed else "did not fail"), no)
        if "MESS" in globals(): soft("contained", "a global variable of the caller was changed", no)
        self.contained(before, no)
    dones = 0
    def check_once(self, what, got, want, no):
        if got != want: soft("contained", "code of the caller was run %d times instead of once" % (got - want + 1), no)
        return got

    # -- making things ---------------------------------------------------------

    def fresh(self, t):
        """The thing written anew"""
        k = t["k"]
        if k == "fn": return self.fns[t["tag"]]
        if k == "list": return self.lists.setdefault(json.dumps(t["items"]), list(t["items"]))
        if k == "once":
            if t["id"] not in self.once: self.once[t["id"]] = iter(list(t["items"]))
            return self.once[t["id"]]
        if k == "nil": return self.env.cd(".") if t["tag"] == "cd" else getattr(self.env, t["tag"])
        if k == "cmd": return getattr(self.env, t["tag"])(*[x["s"] if x["k"] == "str" else self.fresh(x) for x in t["args"]])
        if k == "pipe": return self.fresh(t["a"]) | self.fresh(t["b"])
        if k == "sum": return self.fresh(t["a"]) + self.fresh(t["b"])
        if k == "in": return self.path(t["file"]) | self.fresh(t["a"])
        if k == "sub": return self.wrap(self.fresh(t["a"]), t)
        if k == "out" and t["w"] == "null": return self.fresh(t["a"]) | "/dev/null"
        if k == "out": return self.fresh(t["a"]) | Redirect("stdout", dict(str=pieshell.redir.STRING, tmp=pieshell.redir.TMP)[t["w"]])
    def wrap(self, p, t):
        if t["w"] == "sub": return self.env.subshell(p)
        host = sorted(HOSTS)[zlib.crc32(json.dumps(t, sort_keys=True).encode()) % len(HOSTS)]
        return self.env.remote(*HOSTS[host], host, p)
    def make(self, a):
        rng, t = self.rng, a["t"]
        p = lambda x: self.pool[a[x] - 1]
        if t == "write": return self.fresh(a["term"])
        if t == "pipe":
            if rng.random() < .2 and not isinstance(p("i"), pieshell.pipeline.base.Pipeline): return p("j").__ror__(p("i"))
            return p("i") | p("j")
        if t == "sum": return p("i") + p("j")
        if t == "arg": return p("i")(p("j"))
        if t == "string":
            if a["s"].isalpha() and rng.random() < .4: return getattr(p("i"), a["s"])
            if a["s"].startswith("-") and rng.random() < .4: return p("i") - getattr(self.env, a["s"][1:])
            return p("i")(a["s"])
        if t == "in":
            f = self.path(a["file"])
            if a["file"] == "null" and rng.random() < .5: return None | p("i") if rng.random() < .5 else p("i") < None
            if rng.random() < .3: return p("i") < f
            if rng.random() < .3: return p("i") | Redirect("stdin", f)
            return f | p("i")
        if t == "wrap": return self.wrap(p("i"), a["term"])
        if t == "out" and a["w"] == "null":
            f = rng.choice([None, "/dev/null"])
            return p("i") > f if rng.random() < .5 else p("i") | f
        if t == "out":
            what = dict(str=pieshell.redir.STRING, tmp=pieshell.redir.TMP)[a["w"]]
            return p("i") | Redirect(rng.choice(["stdout", 1]), what)
    def path(self, f): return "/dev/null" if f == "null" else f
    def is_p(self, i): return self.terms[i]["k"] in ("cmd", "pipe", "sum", "in", "out", "sub", "nil")

    # -- looking at them ---------------------------------------------------------

    def check_texts(self, no, which=None):
        """What each is displayed as depends on what was written only"""
        for i, t in enumerate(self.terms):
            if not self.is_p(i) or (which is not None and i != which): continue
            key = json.dumps(t, sort_keys=True)
            text = repr(self.pool[i])
            old = self.texts.setdefault(key, text)
            if text != old: soft("text", "a pipeline was displayed as %r before, and is as %r now" % (old, text), no)
    def check_ran(self, want, no):
        with open(self.logfile) as f: ran = collections.Counter(x.split()[0] for x in f)
        got = {k: ran.get(k, 0) for k in want}
        if got != want: soft("ran", "stages were run %s instead of %s times" % ({k: v for k, v in got.items() if v != want[k]}, {k: v for k, v in want.items() if v != got[k]}), no)

    def show(self, i, no):
        v, rng = self.pool[i], self.rng
        text = self.texts[json.dumps(self.terms[i], sort_keys=True)]
        how = rng.randrange(7 if self.inter else 12)
        if how == 0: got = repr(v)
        elif how == 1: got = repr([v])[1:-1]
        elif how == 2: got = repr({"a": (v,)})[7:-3]
        elif how == 3: v.__name__; got = text
        elif how == 4: getattr(v, "some" if self.terms[i]["k"] == "cmd" else "a", None); got = text
        elif how == 5:
            got = text
            if rng.random() < .1 or self.terms[i]["k"] != "cmd":
                err, sys.stderr = sys.stderr, io.StringIO()
                try: dir(v)
                finally: sys.stderr = err
        elif how == 6: self.check_fresh(i, no); got = text
        elif how == 7: got = "%r" % (v,)
        elif how == 8: got = str([v])[1:-1]
        elif how == 9: got = "{!r}".format(v)
        elif how == 10: got = type(v).__repr__(v)
        elif how == 11:
            out = io.StringIO(); print((v, 1), file=out); got = out.getvalue()[1:-5]
        if got != text: soft("text", "a pipeline is displayed as %r instead of %r" % (got, text), no)
    def check_fresh(self, i, no):
        got, want = repr(self.pool[i]), repr(self.fresh(self.terms[i]))
        if got != want: soft("text", "a pipeline is displayed as %r, but written anew as %r" % (got, want), no)

    # -- running them --------------------------------------------------------------

    def shell_output(self):
        with open(self.stdout) as f:
            f.seek(self.seen)
            d = f.read()
        self.seen += len(d.encode())
        d = d.split("\n")[:-1] if d.endswith("\n") or not d else d.split("\n")
        self.said += [x for x in d if x.startswith("!say")]
        return [x for x in d if not x.startswith("!say")]
    def wait(self, r, fails, no):
        try: self.world.run(r.wait(), "pipeline to end")
        except PipelineFailed as e:
            if not fails: raise Mismatch("values", "a run failed: %s" % e, no)
            if e.pipeline is not r: raise Mismatch("values", "another pipeline was said to have failed", no)
        else:
            if fails: raise Mismatch("values", "a run of %s did not fail" % (fails,), no)
    def lines(self, f, fails, no):
        """What f gives before it fails, if it does"""
        res = []
        try:
            for x in f: res.append(x)
        except PipelineFailed as e:
            if not fails: raise Mismatch("values", "a run failed: %s" % e, no)
        else:
            if fails: raise Mismatch("values", "a run of %s did not fail" % (fails,), no)
        return res

    def start(self, i, w, o, no):
        v, fails = self.pool[i], o["fails"]
        env, piped = self.env, o["out"] == "pipe"
        r = None
        env.last_pipeline = None
        if w == "list": got = self.lines(iter(v), fails, no)
        elif w in ("str", "bytes"):
            try: got = str(v).split("\n")[:-1] if w == "str" else bytes(v).decode().split("\n")[:-1]
            except PipelineFailed as e:
                if not fails: raise Mismatch("values", "a run failed: %s" % e, no)
                got = None
            else:
                if fails: raise Mismatch("values", "a run of %s did not fail" % (fails,), no)
        elif w == "async":
            async def collect(res):
                async for x in v: res.append(x)
            got = []
            try: self.world.run(collect(got))
            except PipelineFailed as e:
                if not fails: raise Mismatch("values", "a run failed: %s" % e, no)
            else:
                if fails: raise Mismatch("values", "a run of %s did not fail" % (fails,), no)
        else:
            if w in ("plus", "await"):
                async def wait(): return await v
                try: r = +v if w == "plus" else self.world.run(wait())
                except PipelineFailed as e:
                    r = e.pipeline
                    if not fails: raise Mismatch("values", "a run failed: %s" % e, no)
                else:
                    if fails: raise Mismatch("values", "a run of %s did not fail" % (fails,), no)
            else:
                r = ~v if w == "tilde" else v & True if w == "and" else v.run()
                self.wait(r, fails, no)
            got = self.shell_output() if piped else None
        if r is not None and env.last_pipeline is not (r if o["order"] else None): soft("values", "last_pipeline is not the last pipeline", no)
        self.outcome(env.last_pipeline, got, o, no)

    def outcome(self, r, got, o, no):
        """What a run reports, of itself only"""
        if not o["order"]:
            if r is not None and r.processes: raise Mismatch("values", "a run of nothing has the processes %s" % r.processes, no)
            if got: raise Mismatch("values", "a run of nothing gave %s" % got, no)
            return
        if r is None: raise Mismatch("values", "there is no last_pipeline", no)
        self.last = r
        if r.is_running: raise Mismatch("values", "a run that ended is running", no)
        with open(self.logfile) as f: tags = dict(x.split()[::-1] for x in f)
        tag = lambda p: tags.get(str(p.pid), "sub")
        procs = [p for p in r.processes if isinstance(p, RunningProcess)]
        for p in procs:
            c = p.output_content.get(2, p.output_content.get("stderr"))
            if tag(p) == "sub" and c is not None: continue
            if c is None or c.split() != [tag(p), str(p.pid)]:
                raise Mismatch("values", "standard error of process %s was reported as %r" % (p.pid, c), no)
        want = [x for x in o["order"] if x in TAGS or x == "sub"]
        if [tag(p) for p in procs] != want or len(r.processes) != len(o["order"]):
            raise Mismatch("values", "the processes of a run are %s (of %s) instead of %s" % ([tag(p) for p in procs], len(r.processes), o["order"]), no)
        fails = [tag(p) if p in procs else p.iohandler.exception.args[0] for p in r.failed_processes]
        if fails != o["fails"]: raise Mismatch("values", "stages %s failed instead of %s" % (fails, o["fails"]), no)
        # (arguments are displayed without the processes in them)
        text = repr(r)
        for p in procs:
            if text.count(" as %s " % p.pid) > 1: raise Mismatch("values", "a run is displayed as %s, process %s twice" % (text, p.pid), no)
            if repr(p).count(" as %s " % p.pid) != 1: raise Mismatch("values", "process %s is displayed as %s" % (p.pid, repr(p)), no)
        if o["out"] == "null": got = None
        elif o["out"] != "pipe":
            got = []
            for p in r.processes:
                if o["out"] == "str": c = p.output_content.get(1, p.output_content.get("stdout"))
                else:
                    c = p.output_files.get(1, p.output_files.get("stdout"))
                    if c is not None:
                        with open(c.path) as f: c = f.read()
                if c is not None: got += c.split("\n")[:-1]
            if o["out"] == "tmp": r.remove_output_files()
        if got is None: return
        want = o["lines"]
        if o["mixed"]: got, want = sorted(got), sorted(want)
        if list(got) != list(want): raise Mismatch("values", "a run gave %s instead of %s" % (got, want), no)

    last = None
    def look(self, a, no):
        """A run, or part of it, is displayed"""
        r = self.last if a["b"] == 0 else self.bg[a["b"] - 1]
        if r is None: return
        it = dict(run=r, pipeline=r.pipeline, processes=r.processes, process=r.processes[-1:], failed=r.failed_processes,
                  all=dict(a=r, b=[r.pipeline, tuple(r.processes)]))[a["what"]]
        scope, lp = EnvScope(env=self.env), vars(self.env).get("last_pipeline")
        dict.__setitem__(scope, "it", it)
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            exec(compile("it", "<s>", "single"), scope)
            text = sys.stdout.getvalue()
        finally: sys.stdout = out
        import builtins
        builtins.__dict__.pop("_", None)
        if not text.strip(): soft("text", "a run was displayed as %r (%s)" % (text, a["what"]), no)
        if vars(self.env).get("last_pipeline") is not lp: soft("ran", "displaying a run (%s) ran something" % a["what"], no)

    def statement(self, i, o, no):
        scope = EnvScope(env=self.env)
        dict.__setitem__(scope, "it", self.pool[i])
        src = self.rng.choice(["it", "(it)", "[it][0]", "it if 1 else it", "it or None"])
        out, sys.stdout = sys.stdout, io.StringIO()
        self.env.last_pipeline = None
        try:
            try:
                if self.rng.random() < .5: exec(compile(src, "<s>", "single"), scope)
                else:
                    c = code.InteractiveInterpreter(locals=scope)
                    def again(*arg): raise
                    c.showtraceback = again
                    c.runsource(src)
            except PipelineFailed as e:
                if not self.inter or not o["fails"]: raise Mismatch("values", "a statement failed: %s" % e, no)
            else:
                if self.inter and o["fails"]: raise Mismatch("values", "a statement that runs %s did not fail" % o["fails"], no)
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = out
        import builtins
        builtins.__dict__.pop("_", None)
        if self.inter:
            if text.strip(): soft("text", "running a statement displayed %r" % text, no)
            self.outcome(self.env.last_pipeline, self.shell_output() if o["out"] == "pipe" else None, o, no)
        else:
            want = self.texts[json.dumps(self.terms[i], sort_keys=True)]
            if text != want + "\n": soft("text", "a statement displayed %r instead of %r" % (text, want), no)
            if self.env.last_pipeline is not None: soft("ran", "a statement not of an interactive shell ran a pipeline", no)

    def run(self):
        w = self.world
        for no, a in enumerate(self.steps):
            t = a["t"]
            if t == "cfg":
                self.inter = a["inter"]
                self.env = w.env(interactive=self.inter, exports=dict(PVLOG=self.logfile, HOME=self.home))
                self.res = Resources(w)
            elif "at" in a:
                v = self.make(a)
                if a["at"] > len(self.pool): self.pool.append(v); self.terms.append(a["term"])
                else: self.pool[a["at"] - 1], self.terms[a["at"] - 1] = v, a["term"]
                self.check_texts(no)
            elif t == "inside": self.inside(a, no)
            elif t == "say":
                self.say += 1
                sys.stdout.write("!say %d\n" % self.say)
                if self.rng.random() < .3: sys.stdout.flush()
            elif t == "show": self.show(a["i"] - 1, no)
            elif t == "look": self.look(a, no)
            elif t == "run":
                before = self.snapshot() if a["o"]["sub"] and not self.bg else None
                self.start(a["i"] - 1, a["w"], a["o"], no)
                if before: self.contained(before, no)
                self.check_texts(no)
            elif t == "statement":
                self.statement(a["i"] - 1, a["o"], no)
                self.check_texts(no)
            elif t == "background":
                i = a["i"] - 1
                v, piped = self.pool[i], self.piped(self.terms[i])
                self.bg.append(v.run([Redirect("stdout", pieshell.redir.PIPE)]) if piped else ~v)
                self.check_texts(no, i)
            elif t == "collect":
                r, o = self.bg.pop(a["b"] - 1), a["o"]
                if o["out"] == "pipe":
                    async def collect(res):
                        async for x in r: res.append(x)
                    got = []
                    try: w.run(collect(got))
                    except PipelineFailed as e:
                        if not o["fails"]: raise Mismatch("values", "a run failed: %s" % e, no)
                    else:
                        if o["fails"]: raise Mismatch("values", "a run of %s did not fail" % (o["fails"],), no)
                else: self.wait(r, o["fails"], no); got = None
                self.outcome(r, got, o, no)
            if "ran" in a and not self.bg: self.check_ran(a["ran"], no)
        if self.say:
            sys.stdout.flush()
            self.shell_output()
            if self.said != ["!say %d" % (k + 1) for k in range(self.say)]: soft("contained", "%s was printed instead of 1 to %d" % (self.said, self.say), no)
        return len(self.steps)
    def piped(self, t):
        return t["k"] != "out" and (t["k"] not in ("in", "pipe") or self.piped(t["a" if t["k"] == "in" else "b"]))

    def close(self):
        for t in self.own: pieshell.BuiltinRegistry.builtins.pop(t, None)
        for r in self.bg:
            try:
                for p in r.processes:
                    if isinstance(p, RunningProcess) and p.is_running: os.kill(p.pid, 9)
            except Exception: pass
        if sys.stdout is not self.oldout:
            sys.stdout.close()
            sys.stdout = self.oldout
        for fd in (0, 1): os.dup2(self.keep[fd], fd); os.close(self.keep[fd])
        self.world.close()

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally: r.close()
