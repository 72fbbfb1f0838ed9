"""Replays behaviours of FdSetup.tla."""
import fcntl, os, pathlib, random, signal
import pieshell
from pieshell import redir
from pieshell.pipeline.running import PipelineFailed
from drv import *

FLAGS = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT, "rw": os.O_RDWR | os.O_CREAT,
         "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND, "t": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
         "e": os.O_WRONLY, "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}
SIZE = 4
def piece(x):
    """The bytes of a piece of a file"""
    b = x.encode().ljust(SIZE, b"_")
    return b[:SIZE]

class Run:
    def __init__(self, scn):
        self.rng = random.Random(scn["seed"])
        self.steps = scn["b"]["steps"]
        self.world = World()
        self.saved = []
        self.tmpfds = set()
        self.umask = self.rng.choice([0o22, 0, 0o77, 0o27])
        self.oldmask = os.umask(self.umask)

    # -- the calling process ---------------------------------------------

    def parent(self):
        """Files, and descriptors 0, 1, 2 and 100 to 103."""
        w = self.world
        self.cwd = os.path.join(w.dir, "there")
        os.mkdir(self.cwd)
        os.mkdir(os.path.join(self.cwd, "DIR"))
        for f in ("S0", "S1", "S2", "S3", "S4", "S5", "A", "B"):
            with open(self.path(f), "wb") as fp: fp.write(b"".join(piece(f + x) for x in "abc"))
        for k in (0, 1, 2): self.saved.append(fcntl.fcntl(k, 1030, 150))
        for fd, f, pos, fl in ((0, "S0", 0, os.O_RDONLY), (1, "S1", 1, os.O_WRONLY), (2, "S2", 0, os.O_WRONLY | os.O_APPEND),
                               (100, "S3", 1, os.O_RDWR), (102, "S4", 2, os.O_RDWR), (103, "S5", 0, os.O_RDONLY)):
            n = os.open(self.path(f), fl)
            os.lseek(n, pos * SIZE, os.SEEK_SET)
            os.dup2(n, fd, self.rng.random() < .5)
            if n != fd: os.close(n)
        os.dup2(100, 101, self.rng.random() < .5)
        # not redirected to, so nobody's business, inheritable or not
        n = os.open("/dev/null", os.O_RDONLY)
        os.dup2(n, 5 if not os.path.exists("/proc/self/fd/5") else 107, True)
        self.extra = 107 if os.path.exists("/proc/self/fd/107") else 5
        os.dup2(n, 108, False)
        os.close(n)

    def restore(self):
        for k, fd in enumerate(self.saved): os.dup2(fd, k); os.close(fd)
        for fd in (100, 101, 102, 103, 108, getattr(self, "extra", 108)):
            try: os.close(fd)
            except OSError: pass

    def path(self, f):
        return os.path.join(self.cwd, f)

    def named(self, f):
        """Some way of writing the path"""
        p = self.path("U/x" if f == "U" else f)
        if self.rng.random() < .5: p = os.path.relpath(p, self.cwd)
        return self.rng.choice([p, p, p, os.fsencode(p), pathlib.PurePosixPath(p)])

    def redirect(self, r):
        fd = r["fd"]
        name = {0: "stdin", 1: "stdout", 2: "stderr"}.get(fd, fd)
        fd = self.rng.choice([fd, name])
        default = {0: "r", 1: "w", 2: "w"}.get(r["fd"])
        if r["k"] == "none": return pieshell.Redirect(fd, None, os.O_RDONLY)
        if r["k"] == "fd":
            kw = dict(flag=self.rng.choice([os.O_RDONLY, os.O_WRONLY])) if default is None or self.rng.random() < .3 else {}
            return pieshell.Redirect(fd, r["s"], borrowed=r["b"], **kw)
        m = "r" if r["s"] == "PIPEr" else "w" if r["k"] == "special" else r["m"]
        kw = dict(flag=FLAGS[m]) if m != default or self.rng.random() < .3 else {}
        if r["k"] == "special":
            return pieshell.Redirect(fd, dict(PIPEr=redir.PIPE, PIPEw=redir.PIPE, TMP=redir.TMP, STRING=redir.STRING)[r["s"]], **kw)
        if r["k"] == "path" and (r["p"] != 0o777 or self.rng.random() < .3): kw["mode"] = r["p"]
        return pieshell.Redirect(fd, self.named(r["s"]), **kw)

    def short(self, p, r):
        """cmd | redirect, or the short form if there is one"""
        if r["k"] == "path" and (r["fd"], r["m"]) in ((0, "r"), (1, "w")) and r["p"] == 0o777 and self.rng.random() < .7:
            s = self.named(r["s"])
            if r["fd"] == 1: return p | s if self.rng.random() < .5 else p > s
            if isinstance(s, pathlib.PurePath) and self.rng.random() < .5: return p < s
            return s | p if self.rng.random() < .5 else p < s
        x = self.redirect(r)
        how = self.rng.randrange(3)
        if how == 0: return x | p
        return p | (redir.Redirects(x) if how == 1 and r["k"] != "none" else x)

    def start(self, adds):
        rng, w = self.rng, self.world
        by = dict(env=[], run=[], chain=[])
        for a in adds: by[a["l"]].append(a["r"])
        removed = any(r["k"] == "none" for r in by["run"])
        replace = not by["env"] and rng.random() < .5
        if replace:
            env = w.env(cwd=self.cwd)
        else:
            how = rng.randrange(3)
            reds = [self.redirect(r) for r in by["env"]]
            if how == 0: env = w.env(cwd=self.cwd, redirects=redir.Redirects(*reds))
            elif how == 1:
                env = w.env(cwd=self.cwd, redirects=redir.Redirects())
                for x in reds: env | x
            else:       # derived
                env = w.env(cwd=self.cwd, redirects=redir.Redirects(*reds))()
        self.env = env
        p = env.actor("X")
        for r in reversed(by["chain"]): p = self.short(p, r)
        reds = [self.redirect(r) for r in by["run"]]
        if replace: arg = redir.Redirects(*reds)
        else: arg = reds
        self.adds = adds
        self.inherited = set(open_fds())
        self.running = p.run(arg) if replace or reds else p.run()
        self.proc = self.running.processes[-1]

    # -- the behaviour -----------------------------------------------------

    def run(self):
        w = self.world
        self.parent()
        try:
            w.env()     # whatever is set up once
            self.res = Resources(w)
            adds = []
            for k, s in enumerate(self.steps):
                try:
                    if s["t"] == "add": adds.append(s)
                    else: getattr(self, "do_" + s["t"])(*([adds] if s["t"] == "start" else []), s)
                except Mismatch as e:
                    e.args = ("step %d (%s): %s" % (k + 1, s["t"], e.args[0]),)
                    raise
            return len(self.steps)
        finally:
            for fd in self.tmpfds:
                try: os.close(fd)
                except OSError: pass
            self.restore()

    def specials(self, s):
        return {x["fd"]: x["s"] for x in s}

    def do_start(self, adds, s):
        w = self.world
        self.start(adds)
        self.ok = s["ok"]
        par = set(s["par"])
        for fd in (0, 1, 2, 100, 101, 102, 103):
            if os.path.exists("/proc/self/fd/%d" % fd) != (fd in par):
                soft("fds", "descriptor %d of the caller is %s" % (fd, "closed" if fd in par else "still open"))
        if not s["ok"]: return
        self.actor = a = w.actor("X")
        want = {x["fd"]: x for x in s["tab"]}
        if set(a.fds) != set(want):
            raise Mismatch("fds", "the command has descriptors %s instead of %s" % (sorted((k, v["path"]) for k, v in a.fds.items()), sorted(want)))
        self.pipes = {}
        for fd, x in want.items():
            got, r = a.fds[fd], x["red"]
            special = r["s"] if r["k"] == "special" else None
            if special in ("PIPEr", "PIPEw"):
                other = self.proc.redirects.redirects[fd].pipe
                self.pipes[fd] = other
                self.tmpfds.add(other)
                st = os.fstat(other)
            elif special == "TMP": st = os.stat(self.proc.output_files[fd].path)
            elif special == "STRING": st = None
            else: st = os.stat(self.path(x["f"]))
            if st is not None and (got["dev"], got["ino"]) != (st.st_dev, st.st_ino):
                raise Mismatch("fds", "descriptor %d is %s instead of %s" % (fd, got["path"], x["f"] if special is None else special))
            if st is None and not got["path"].startswith(w.tmp):
                raise Mismatch("fds", "descriptor %d is %s instead of a temporary file" % (fd, got["path"]))
            acc = got["flags"] & 3
            if special is None or special.startswith("PIPE"):
                wacc = os.O_RDWR if x["r"] and x["w"] else os.O_RDONLY if x["r"] else os.O_WRONLY
                if acc != wacc: raise Mismatch("fds", "descriptor %d (%s) has flags %o" % (fd, got["path"], got["flags"]))
            elif acc == os.O_RDONLY: raise Mismatch("fds", "descriptor %d (%s) cannot be written to" % (fd, got["path"]))
            if bool(got["flags"] & os.O_APPEND) != x["a"]: raise Mismatch("fds", "descriptor %d (%s) has flags %o" % (fd, got["path"], got["flags"]))
            if special not in ("PIPEr", "PIPEw") and got["pos"] != x["pos"] * SIZE:
                raise Mismatch("fds", "descriptor %d (%s) starts at position %s instead of %d" % (fd, got["path"], got["pos"], x["pos"] * SIZE))
            if special == "PIPEr":
                os.write(other, piece("ga") + piece("gb"))
                os.close(other); self.tmpfds.discard(other)
        temps = [(a.fds[fd]["dev"], a.fds[fd]["ino"]) for fd, x in want.items() if x["red"]["k"] == "special"]
        if len(set(temps)) != len(temps): raise Mismatch("fds", "two redirections share one temporary file or pipe")
        bad = [x for x in a.signals if x[0] != signal.SIGTSTP]
        if bad: soft("fds", "signals ignored or blocked (number, ignored, blocked): %s" % (bad,))

    def do_write(self, s):
        r = self.actor.call("W %d %s" % (s["fd"], piece(s["p"]).hex()))
        want = "W %d" % SIZE if s["ok"] else "X 9 0"
        if r != want: raise Mismatch("fds", "writing to descriptor %d: %s instead of %s" % (s["fd"], r, want))

    def do_read(self, s):
        got, k = b"", s["k"] * SIZE
        r = self.actor.call("R %d %d" % (s["fd"], k))
        if not s["ok"]:
            # temporary files may be readable, too
            if r != "X 9" : raise Mismatch("fds", "reading from descriptor %d: %s instead of failing" % (s["fd"], r))
            return
        if r[0] != "D": raise Mismatch("fds", "reading from descriptor %d: %s" % (s["fd"], r))
        want = b"".join(piece(x) for x in s["got"])
        if bytes.fromhex(r[2:]) != want: raise Mismatch("fds", "descriptor %d: read %r instead of %r" % (s["fd"], bytes.fromhex(r[2:]), want))

    def do_parwrite(self, s):
        os.write(s["fd"], piece(s["p"]))

    def do_end(self, s):
        w, r = self.world, self.running
        if self.ok:
            code = self.rng.choice([0, 0, 3])
            self.actor.post("Q %d" % code)
        else: code = None
        async def wait():
            try: await r.wait()
            except PipelineFailed as e:
                return e
        e = w.run(wait(), "the pipeline to end", timeout=15)
        if bool(e) != (code != 0): raise Mismatch("status", "failure reported: %r" % (e,))
        if code is None:
            w.settle(4)
            if w.by_tag.get("X"): raise Mismatch("start", "the command was run although not everything can be redirected")
            if not self.proc.is_failed: raise Mismatch("status", "the command does not count as failed")
        elif self.proc.exit_code != code: raise Mismatch("status", "exit code %r instead of %d" % (self.proc.exit_code, code))
        content = self.proc.output_content
        for x in s["special"]:
            want = b"".join(piece(p) for p in x["c"])
            if x["s"] == "PIPEw":
                fd = self.pipes.get(x["fd"]) if self.ok else self.proc.redirects.redirects[x["fd"]].pipe
                self.tmpfds.add(fd)
                os.set_blocking(fd, False)
                got = b""
                try:
                    while True:
                        d = os.read(fd, 65536)
                        if not d: break
                        got += d
                except BlockingIOError: raise Mismatch("eof", "the pipe of descriptor %d is still open somewhere" % x["fd"])
            elif x["s"] == "STRING":
                got = content.get(x["fd"])
                if got is None: raise Mismatch("data", "no content of descriptor %d: %r" % (x["fd"], content))
                got = got.encode()
            elif x["s"] == "TMP":
                with open(self.proc.output_files[x["fd"]].path, "rb") as f: got = f.read()
            else:
                if not self.ok: self.tmpfds.add(self.proc.redirects.redirects[x["fd"]].pipe)
                continue
            if self.ok and got != want: raise Mismatch("data", "descriptor %d: %r instead of %r" % (x["fd"], got, want))
        if set(content) != set(x["fd"] for x in s["special"] if x["s"] == "STRING"):
            raise Mismatch("data", "content of descriptors %s" % sorted(content))
        r.remove_output_files()
        if self.ok:
            for x in s["files"]:
                f = x["f"]
                if f[0] == "T": continue
                with open(self.path(f), "rb") as fp: got = fp.read()
                want = b"".join(piece(p) for p in x["c"])
                if got != want: raise Mismatch("fds", "file %s contains %r instead of %r" % (f, got, want))
            for f in set(x["f"] for x in s["created"]):
                ps = set(x["p"] for x in s["created"] if x["f"] == f)     # (whichever comes first creates it)
                got = os.stat(self.path(f)).st_mode & 0o7777
                if got not in [p & ~self.umask for p in ps]:
                    raise Mismatch("fds", "file %s was created with permissions %o instead of %s" % (f, got, ["%o" % (p & ~self.umask) for p in ps]))
            if set(os.listdir(self.cwd)) - set(x["f"] for x in s["files"]) - {"DIR"}:
                raise Mismatch("fds", "files created: %s" % sorted(os.listdir(self.cwd)))
            if os.listdir(w.work): raise Mismatch("fds", "files created: %s" % os.listdir(w.work))
        said = set()
        for x in s["par"]:
            pos, want = os.lseek(x["fd"], 0, os.SEEK_CUR), x["pos"] * SIZE
            if pos == want: continue
            with open("/proc/self/fd/%d" % x["fd"], "rb") as f: message = f.read()[want:pos]
            # A command that could not be set up says so to whatever its stderr was by then
            if self.ok or b"Unable to execute" not in message: raise Mismatch("fds", "descriptor %d of the caller is at %d instead of %d, %r" % (x["fd"], pos, want, message))
            said.add((pos, message))
        if len(said) > 1: raise Mismatch("fds", "written to several descriptors: %s" % said)
        for fd in self.tmpfds: os.close(fd)
        self.tmpfds = set()
        have = set(x["fd"] for x in s["par"])
        for fd in (100, 101, 102, 103):
            if fd not in have: self.res.fds.pop(fd, None)
        self.res.check(self.env)


def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally:
        os.umask(r.oldmask)
        r.world.close()
