"""Replays behaviours of Environ.tla."""
import os, random, shutil
import pieshell
from pieshell import redir
from drv import *

class Run:
    def __init__(self, scn):
        self.rng = random.Random(scn["seed"])
        self.steps = scn["b"]["steps"]
        self.world = World()
        self.saved = dict(os.environ)
        self.top = os.path.join(self.world.work, self.rng.choice(["top", "t op", "[t]op", "~top", "töp"]))
        for p in ((), ("a",), ("a", "b"), ("c",), ("h",), ("h", "a")): os.mkdir(self.path(p))
        os.symlink("a/b", self.path(("l",)))
        # what there is, but cannot be gone to
        for p in (("nope",), ("a", "nope"), ("b",), ("h", "nope")):
            k = self.rng.randrange(5)
            if k < 2:
                with open(self.path(p), "w"): pass
                os.chmod(self.path(p), (0o644, 0o755)[k])
            elif k == 2: os.symlink("nowhere", self.path(p))
            elif k == 3: os.mkfifo(self.path(p), 0o777)
        os.environ["HOME"] = self.path(("h",))
        os.chdir(self.top)
        self.val = {"v1": "one", "v2": "two words\n\"'$", "v3": "", "v4": "=%=~*", "given": "given"}
        self.envs, self.cmds = [], []
        self.files = {0: "in", 1: "out", 2: "err"}
        self.given = []         # dictionaries handed over

    def path(self, p): return os.path.join(self.top, *p)

    def written(self, k, m):
        """The path of a move"""
        rel = "/".join(m)
        if k == "rel": return rel or "."
        if k == "home": return "~" + ("/" + rel if rel else "")
        return self.path(()) + ("/" + rel if rel else "")

    def exports(self): return dict(PATH=self.world.path, X="given", Y="given", Z="given")

    def new_env(self, a):
        kw = {}
        if a["own"]: kw["exports"] = self.exports()
        if a["moved"]: kw["cwd"] = self.written(a["k"], a["m"])
        if a["inter"] or self.rng.random() < .5: kw["interactive"] = a["inter"]
        return pieshell.Environment(**kw)

    def derive(self, a):
        e = self.envs[a["e"] - 1]
        kw, arg = {}, []
        if a["own"]: kw["exports"] = self.exports()
        if a["inter"] != "same": kw["interactive"] = a["inter"] == "yes"
        if a["red"]:
            kw["redirects"] = redir.Redirects(pieshell.Redirect(0, 0, borrowed=True), pieshell.Redirect(1, self.file(1)), pieshell.Redirect(2, redir.STRING), defaults=False)
        if a["moved"]:
            p = self.written(a["k"], a["m"])
            if not kw and self.rng.random() < .5: return e[p]
            if self.rng.random() < .5: arg = [p]
            else: kw["cwd"] = p
        return e(*arg, **kw)

    def file(self, fd): return os.path.join(self.world.work, self.files[fd])

    def cd(self, a):
        e = self.envs[a["e"] - 1]
        m, k = list(a["m"]), a["k"]
        p = self.written(k, m)
        how = self.rng.randrange(5)
        if how == 0: e._cd(p)
        elif how == 1: +e.cd(p)
        elif how == 2 and k == "home" and not m: +e.cd
        elif how == 2 and k == "rel" and m and "." not in m:
            c = e.cd
            for x in m: c = c(x) if x != ".." and self.rng.random() < .3 else getattr(c, "PARENT" if x == ".." else x)
            +c
        elif how == 3 and len(m) > 1: e.cd(self.written(k, m[:1]), *m[1:]).run()
        else: e.cd(p).run()

    def check_dir(self, p, a, no):
        got = os.getcwd()
        if got != self.path(p): raise Mismatch("env", "the calling process is in %s instead of %s after %s" % (got, self.path(p), brief(a)), no)

    def run(self):
        w = self.world
        for fd in (0, 1, 2):
            with open(self.file(fd), "w"): pass
        before = dict(os.environ)
        osex = {x: os.environ.get(x) for x in "XYZ"}
        for no, a in enumerate(self.steps):
            t = a["t"]
            if t in ("new", "derive", "cd"):
                try:
                    r = dict(new=self.new_env, derive=self.derive, cd=self.cd)[t](a)
                    ok = True
                except OSError as e:
                    ok, r = False, e
                if ok != a["ok"]: raise Mismatch("env", "%s %s: %r" % (brief(a), "fails" if a["ok"] else "succeeds", r), no)
                if ok and t != "cd": self.envs.append(r)
                self.check_dir(a["cwd"], a, no)
            elif t == "export":
                ex = self.envs[a["e"] - 1]._exports
                if a["v"] == "-": ex.pop(a["x"], None)
                else: ex[a["x"]] = self.val[a["v"]]
            elif t == "redirect":
                e, fd = self.envs[a["e"] - 1], a["fd"]
                to = None if a["to"] == "null" else self.file(fd) if a["to"] == "file" else ".here%d" % fd
                if fd == 0 and self.rng.random() < .7: to | e
                elif fd == 1 and self.rng.random() < .7: e | to
                else: e | pieshell.Redirect({0: "stdin", 1: "stdout", 2: "stderr"}[fd], "/dev/null" if to is None else to)
            elif t == "chdir": os.chdir(self.path(a["p"]))
            elif t == "setenv":
                if a["v"] == "-": os.environ.pop(a["x"], None)
                else: os.environ[a["x"]] = self.val[a["v"]]
            elif t == "rmdir": shutil.rmtree(self.path(a["p"]))
            elif t == "mkdir": os.mkdir(self.path(a["p"]))
            elif t == "make":
                e = [self.envs[i - 1] for i in a["e"]]
                s = [x.actor("S%d" % k) for k, x in enumerate(e, 1)]
                self.cmds.append(s[0] if a["c"] == "one" else s[0] | s[1] if a["c"] == "pipe" else s[0] + s[1] if a["c"] == "group" else s[1](s[0]))
            elif t == "look": self.look(a, no)
            elif t == "run": self.run_(a, no)
        for x in "XYZ": os.environ.pop(x, None); before.pop(x, None)
        if dict(os.environ) != before:
            raise Mismatch("env", "environment of the calling process changed: %s" % (set(os.environ.items()) ^ set(before.items())))
        return len(self.steps)

    def look(self, a, no):
        """what cd completes to"""
        e = self.envs[a["e"] - 1]
        if a["k"] == "rel" and not a["m"]: c = e.cd
        elif a["k"] == "rel" and "." not in a["m"] and self.rng.random() < .5:
            c = e.cd
            for x in a["m"]: c = getattr(c, "PARENT" if x == ".." else x)
        else: c = e.cd(self.written(a["k"], a["m"]))
        got = dir(c)
        have = {x for x in got if x in ("a", "b", "c", "h", "l", "nope")}
        if have != set(a["names"]): soft("env", "%s completes to %s instead of %s" % (brief(a), sorted(have), sorted(a["names"])), no)
        if not {"PARENT", "ROOT"} <= set(got): soft("env", "%s completes to %s" % (brief(a), got[:8]), no)

    def run_(self, a, no):
        w = self.world
        for g in a["g"]:        # a file to read from, where one is asked for
            if g["red"]["0"] == "here" and g["ok"]:
                with open(os.path.join(self.path(g["cwd"]), ".here0"), "w"): pass
        p = self.cmds[a["c"] - 1]
        q = p.run()
        got = {}
        for k, g in enumerate(a["g"]):
            proc = q.processes[k]
            if not g["ok"]:
                w.wait(lambda: not proc.is_running, "command in a directory that is gone to fail", kind="env", step=no)
                if not proc.is_failed: raise Mismatch("env", "command in a directory that is gone succeeds", no)
                continue
            ac = w.of_pid(proc.pid)
            if ac.cwd != self.path(g["cwd"]): raise Mismatch("env", "command runs in %s instead of %s" % (ac.cwd, self.path(g["cwd"])), no)
            ex = {x: self.val[v] for x, v in g["ex"].items() if v != "-"}
            got = {x: ac.env[x] for x in "XYZ" if x in ac.env}
            if got != ex: raise Mismatch("env", "command %d gets variables %s instead of %s" % (k + 1, got, ex), no)
            rest = {x: v for x, v in ac.env.items() if x not in ("X", "Y", "Z")}
            want = dict(PATH=w.path) if g["own"] else {x: v for x, v in os.environ.items() if x not in ("X", "Y", "Z")}
            if g["own"] and len(rest) > 1: want = None if not self.inherited(rest) else rest
            if rest != want: raise Mismatch("env", "command gets variables %s" % rest, no)
            for fd in (0, 1, 2):
                if a["how"] in ("pipe",) and (k, fd) in ((0, 1), (1, 0)): continue
                if a["how"] == "arg" and (k, fd) == (0, 1): continue
                to, f = g["red"][str(fd)], ac.fds.get(fd)
                path = f and f["path"]
                want = {"file": self.file(fd), "null": "/dev/null", "here": os.path.join(self.path(g["cwd"]), ".here%d" % fd)}.get(to)
                if to == "own":
                    if fd == 2:
                        if not f or not path.startswith(w.tmp + "/"): raise Mismatch("env", "descriptor 2 of the command is %s" % path, no)
                        continue
                    st = os.fstat(fd)
                    if not f or (f["dev"], f["ino"]) != (st.st_dev, st.st_ino): raise Mismatch("env", "descriptor %d of the command is %s" % (fd, path), no)
                elif path != want: raise Mismatch("env", "descriptor %d of the command is %s instead of %s" % (fd, path, want), no)
        for k, g in enumerate(a["g"]):
            if g["ok"]: w.of_pid(q.processes[k].pid).call("Q 0")
        w.wait(lambda: not q.is_running, "pipeline to end", step=no)

    def inherited(self, rest):
        """variables of an environment derived from one that uses those of the calling process"""
        return rest == {x: v for x, v in os.environ.items() if x not in ("X", "Y", "Z")}

    def close(self):
        os.chdir("/")
        os.environ.clear(); os.environ.update(self.saved)
        self.world.close()

def brief(a): return {k: v for k, v in a.items()}

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally: r.close()
