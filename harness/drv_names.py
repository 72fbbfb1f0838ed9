"""Replays behaviours of Names.tla."""
import asyncio, os, random, re, sys, types
import psutil
import pieshell, pieshell.ps
from pieshell.pipeline.running import PipelineFailed, BaseRunningItem
from pieshell.pipeline.function import Function
from pieshell.ps import PstreeProcess
from drv import *

TEXT = {"A": "A", "B": "B", "ea": "\xe9", "ss": "\xdf", "ri": "\u65e5", "em": "\U0001f600", "ap": "\u2019", "_": "_", ".": ".", "-": "-", " ": " ",
        "/": "/", "'": "'", "dd": "--", "lt": "<", "gt": ">", "nl": "\n", "st": "*", "pc": "%"}
def text(t): return "".join(TEXT.get(s, s) for s in t)

GONE = []
HIDDEN, NONE = set(), set()

def stand_in():
    """What the system does not let us see"""
    exe, cmdline, children = psutil.Process.exe, psutil.Process.cmdline, psutil.Process.children
    def exe_(self):
        if self.pid in HIDDEN: raise psutil.AccessDenied(self.pid)
        return "" if self.pid in NONE else exe(self)
    def cmdline_(self): return [] if self.pid in NONE else cmdline(self)
    def children_(self, *arg, **kw): return children(self, *arg, **kw) + GONE
    psutil.Process.exe, psutil.Process.cmdline, psutil.Process.children = exe_, cmdline_, children_
stand_in()

class Run:
    def __init__(self, scn):
        self.rng = random.Random(scn["seed"])
        self.steps = scn["b"]["steps"]
        self.world = World()
        self.environ = self.world.env(interactive=self.rng.random() < .2)
        os.chdir(self.world.dir)
        self.res = Resources(self.world)
        self.stages, self.runs, self.jobs = [], [], []
        self.lists, self.events, self.fns = [], {}, {}
        self.pids, self.parents = {}, {}
        HIDDEN.clear(); NONE.clear()

    # -- pipelines ---------------------------------------------------------------

    def function(self, a, i):
        rng, name, key = self.rng, text(a["name"]), a["mod"]
        kind = rng.choice(["async", "gen", "coro"])
        me = self
        async def wait(): await me.events[i].wait()
        if kind == "async":
            async def fn(lines, *arg):
                yield "x"
                await wait()
        elif kind == "coro":
            async def fn(lines, *arg):
                await wait()
                return "x"
        else:
            def fn(lines, *arg): yield "x"
        fn.__name__ = name
        if key != "method":
            fn.__module__ = key
            return fn
        cls = self.fns.setdefault("cls", type("Things", (), {}))
        fn.__module__ = "m1"
        if kind == "async":
            async def method(self, lines, *arg):
                async for x in fn(lines, *arg): yield x
        elif kind == "coro":
            async def method(self, lines, *arg): return await fn(lines, *arg)
        else:
            def method(self, lines, *arg): yield from fn(lines, *arg)
        method.__name__, method.__module__ = name, "m1"
        return types.MethodType(method, cls())

    def build(self):
        rng, env, p = self.rng, self.environ, None
        for i, a in enumerate(self.stages):
            k = a["k"]
            if k == "cmd":
                words = [text(w) for w in a["words"]]
                path = os.path.join(self.world.bin, words[0])
                if not os.path.exists(path): self.world.install(words[0])
                c = env
                if rng.random() < .6:
                    for w in words: c = getattr(c, w)
                    args = []
                else: c, args = getattr(env, words[0]), words[1:]
                args += dict(glob=["f*"], plain=[rng.choice(["q w", "1", "x.y"])]).get(a["arg"], [])
                if a["arg"] == "in":
                    self.lists.append(["zz", "zz"])
                    args.append(self.lists[-1] if rng.random() < .7 else env._(os.path.join(self.world.bin, "actor"), "zz%d" % i))
                s = c("-1", *args, "t%d-" % i)
            elif k == "fn":
                s = self.function(a, i)
                if a["arg"]: s = Function(env, s, "some")
            elif k == "bare": s = env._(rng.choice([os.path.join(self.world.bin, "actor"), "actor", "../bin/actor"]), "-1", "zz", "t%d-" % i)
            else:
                self.lists.append(["zz%d" % i, "zz"])
                s = self.lists[-1]
            if p is None: p = s if isinstance(s, pieshell.Pipeline) else (env.actor("zz", "t-") | s)
            else: p = p | s
        return p

    def started(self, r):
        """Which of the processes is which"""
        ids, fns = {}, []
        for p in r.processes:
            try: pid = p.pid
            except AttributeError: fns.append(p); continue
            actor = self.world.of_pid(pid)
            m = re.match(r"t(\d+)-$", os.fsdecode(actor.argv[-1]))
            if m: ids[int(m.group(1))] = p
        self.world.settle(2)
        # functions and lists are in the order they are started
        order = []
        for i, a in enumerate(self.stages):
            if a["k"] in ("fn", "list"): order.append((i, a))
        fns = [p for p in fns if "zz', 'zz'" not in repr(p)]
        if len(fns) != len(order): raise Machinery("functions %s %s" % (fns, order))
        for (i, a), p in zip(order, fns):
            if a["k"] == "fn": ids[i] = p
        return ids

    def leaves(self, holder, names, isleaf, path=(), depth=0):
        if depth > 10: raise Mismatch("names", "the names below %s do not end" % (path,), self.no)
        res = []
        for name in names:
            if not name: raise Mismatch("names", "an empty name below %s" % (path,), self.no)
            v = getattr(holder, name)
            if isleaf(v): res.append((path + (name,), v))
            else: res += self.leaves(v, [x for x in dir(v) if not x.startswith("__")], isleaf, path + (name,), depth + 1)
        return res

    def compare(self, what, leaves, everything, names, same, ident):
        """everything: all of them; names: what they are called"""
        paths = [p for p, v in leaves]
        for x in everything:
            n = [p for p, v in leaves if same(v, x)]
            if len(n) != 1: raise Mismatch("names", "%s %s is reached through %s; there are %s" % (what, ident(x), n, paths), self.no)
        for e in names:
            got = [(p, v) for p, v in leaves if p[0] == e["key"]]
            want = [self.get(i) for i in e["ids"]]
            if len(got) != len(want) or not all(any(same(v, x) for p, v in got) for x in want):
                raise Mismatch("names", "%s leads to %s instead of %s" % (e["key"], [(p, ident(v)) for p, v in got], [ident(x) for x in want]), self.no)
            if len(want) == 1 and len(got[0][0]) != 1: raise Mismatch("names", "%s does not lead to %s directly, only %s" % (e["key"], ident(want[0]), got[0][0]), self.no)
            # what is further down is worth it
            for p, v in got:
                for k in range(1, len(p)):
                    if not [q for q, _ in got if q != p and q[:k] == p[:k]]: raise Mismatch("names", "%s is alone below %s" % (p, p[:k]), self.no)

    def look(self, a):
        for k, (r, ids) in enumerate(self.runs):
            listed = [x for x in dir(r) if x not in set(object.__dir__(r))]
            isleaf = lambda v: isinstance(v, BaseRunningItem)
            leaves = self.leaves(r, listed, isleaf)
            if len(leaves) != len(r.processes): raise Mismatch("names", "%d processes, but %s" % (len(r.processes), [p for p, v in leaves]), self.no)
            self.get = lambda i: ids[i - 1]
            self.compare("of run %d" % k, leaves, r.processes, a["names"], lambda x, y: x is y, lambda x: repr(x)[:80])
            for p, v in leaves:
                # a command that is not a word is found by its text
                if "zz" in "".join(p) or any(e["key"] == p[0] for e in a["names"]): continue
                if not (p[0].startswith("actor") or "bin_actor" in p[0] ): raise Mismatch("names", "%r is the name of %r" % (p, repr(v)[:100]), self.no)
            if k in self.seen:
                old = self.seen[k]
                new = {id(v): p for p, v in leaves}
                if old != new: raise Mismatch("names", "the names changed from %s to %s" % (sorted(old.values()), sorted(new.values())), self.no)
            self.seen[k] = {id(v): p for p, v in leaves}
    seen = None

    def end(self, i, k=0):
        if i in self.events: self.events[i].set()
        for act in list(self.world.actors):
            if not act.eof and act.argv and act.argv[-1] == b"t%d-" % i: self.quit(act)
        self.world.settle(4)
    def quit(self, act):
        act.post("Q %d" % self.rng.choice([0, 0, 3]))

    def other(self, what):
        w, env = self.world, self.environ
        if what == "cd":
            d = os.path.join(w.dir, "d%d" % self.rng.randrange(5))
            os.makedirs(d, exist_ok=True)
            w.run(self.await_(env.cd(d)), "cd")
        elif what == "files":
            for k in range(self.rng.randrange(1, 4)):
                f = os.path.join(env._cwd, "f%d" % self.rng.randrange(20))
                if os.path.exists(f): os.unlink(f)
                else: open(f, "w").close()
        elif what == "list":
            for l in self.lists: l.append("zz%d" % self.rng.randrange(100))
        elif what == "job": self.jobs.append(env.sleep("100").run() if self.rng.random() < .5 else (env.actor("job") | env.cat).run())
        elif what == "export": env._exports["XX"] = str(self.rng.random())
        elif what == "others": w.run(self.await_(env.true()), "true")
        elif what == "finish" and self.runs:
            for i in range(len(self.stages)): self.end(i)
            for act in list(w.actors):
                if not act.eof and act.argv and (act.argv[-1].startswith(b"zz") or act.argv[-1] == b"t-"): self.quit(act)
            r = self.runs[0][0]
            w.wait(lambda: not any(x[0].is_running for x in self.runs), "the runs to end")
    async def await_(self, p):
        try: await p
        except PipelineFailed: pass

    # -- processes -------------------------------------------------------------

    def spawn(self, a):
        w, rng = self.world, self.rng
        tag = "p%d" % a["id"]
        if a["par"] == 0:
            self.root = self.environ.actor(tag).run()
            actor = w.actor(tag)
        else:
            reply = self.pids[a["par"]].call("F q%d" % a["id"])
            pid = int(reply.split()[1])
            actor = w.of_pid(pid)
            exe = text(a["exe"])
            path = os.path.join(w.bin, exe)
            if not os.path.exists(path): w.install(exe)
            hx = lambda s: os.fsencode(s).hex() or "-"
            actor.post("X %s %s %s" % (hx(path), hx(text(a["arg0"])), hx(tag)))
            w.wait(lambda: w.by_pid.get(pid) is not actor and tag in w.by_tag, "process %d to become another one" % a["id"])
            actor = w.by_tag[tag][-1]
            if a["see"] == "hidden": HIDDEN.add(pid)
            if a["see"] == "none": NONE.add(pid)
        self.pids[a["id"]] = actor
        self.parents[a["id"]] = a["par"]
        self.state[a["id"]] = "live"
    state = None

    def tree(self, a):
        w, rng = self.world, self.rng
        me = self.pids[a["id"]]
        kids = [i for i, p in self.parents.items() if p == a["id"] and self.state[i] != "gone"]
        lost = None
        if a["late"]:
            pid = os.fork()
            if pid == 0: os._exit(0)
            lost = psutil.Process(pid)
            w.wait(lambda: proc_state(pid) in ("Z", "gone"), "a process to end")
            try: os.waitpid(pid, 0)
            except ChildProcessError: pass
            GONE.append(lost)
        try:
            top = PstreeProcess(me.pid)
            holders = [(top, dir(top))]
            if self.parents[a["id"]] == 0:
                r = self.root.processes[0]
                own = set(object.__dir__(r)) | set(dir(BaseRunningItem))
                if not own & {e["key"] for e in a["names"]} and not own & set(dir(top)):
                    holders.append((r, [x for x in dir(r) if x not in own]))
            else:
                # as it is found from further up
                up = PstreeProcess(self.pids[self.parents[a["id"]]].pid)
                for p, v in self.leaves(up, dir(up), lambda v: isinstance(v, PstreeProcess)):
                    if v.INFO.pid == me.pid: holders.append((v, dir(v)))
            for holder, listed in holders:
                leaves = self.leaves(holder, listed, lambda v: isinstance(v, PstreeProcess))
                if lost is None and len(leaves) != len(kids): raise Mismatch("names", "%d children, but %s" % (len(kids), [p for p, v in leaves]), self.no)
                if lost is not None:
                    # it might have a name, or might not
                    if any(lost.pid == v.INFO.pid and p[0] in [e["key"] for e in a["names"]] for p, v in leaves):
                        leaves = None
                if leaves is None: continue
                self.get = lambda i: self.pids[i].pid
                self.compare("child", leaves, [self.pids[i].pid for i in kids], a["names"], lambda x, y: (x if isinstance(x, int) else x.INFO.pid) == (y if isinstance(y, int) else y.INFO.pid),
                             lambda x: x if isinstance(x, int) else x.INFO.pid)
                for name in ("PARENT", "GROUP", "SESS"):
                    v = getattr(holder, name).INFO.pid
                    want = dict(PARENT=proc_ppid, GROUP=os.getpgid, SESS=os.getsid)[name](me.pid)
                    if v != want: raise Mismatch("names", "%s of %d is %d instead of %d" % (name, me.pid, v, want), self.no)
        finally: del GONE[:]

    def exit(self, i):
        act = self.pids[i]
        act.post("Q 0")
        self.world.wait(lambda: proc_state(act.pid) == "Z", "a process to end")
        self.state[i] = "dead"
    def reap(self, i):
        self.pids[self.parents[i]].call("Y %d" % self.pids[i].pid)
        self.state[i] = "gone"

    def run(self):
        w = self.world
        self.seen, self.state = {}, {}
        for no, a in enumerate(self.steps):
            self.no, t = no, a["t"]
            if t == "stage": self.stages.append(a)
            elif t == "run":
                for i in range(len(self.stages)): self.events.setdefault(i, asyncio.Event())
                if not self.runs: self.p = self.build()
                r = self.p.run()
                self.runs.append((r, self.started(r)))
            elif t == "end": self.end(a["i"] - 1)
            elif t == "else": self.other(a["what"])
            elif t == "look": self.look(a)
            elif t == "spawn": self.spawn(a)
            elif t == "exit": self.exit(a["id"])
            elif t == "reap": self.reap(a["id"])
            elif t == "tree": self.tree(a)
            else: raise Machinery(t)
        return len(self.steps)

    def close(self):
        # nobody stays behind
        for e in self.events.values(): e.set()
        for i, act in self.pids.items():
            try:
                if self.state[i] == "live": os.kill(act.pid, 9)
            except ProcessLookupError: pass
        for j in self.jobs:
            for p in j.processes:
                try: os.kill(p.pid, 9)
                except (ProcessLookupError, AttributeError): pass
        for i in range(5): turn()
        self.world.close()
        for i in range(5): turn()

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally: r.close()
