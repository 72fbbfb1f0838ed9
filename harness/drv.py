"""Runs one scenario against the real code.  Only the documented interface of
the code under test is used: everything observed is what a user can observe
(results, exceptions, descriptors, processes, files)."""
import asyncio, importlib, os, select, shutil, signal, socket, stat, sys, tempfile, time
import pieshell

DIR = os.environ["VERIF_DIR"]
WORK, TMP, BIN, HOME = (os.path.join(DIR, x) for x in ("work", "tmp", "bin", "home"))
POSITIVE = 15.0     # how long something that must happen may take


class Mismatch(Exception):
    """The code does not do what the specification says."""
    def __init__(self, kind, msg, step=None):
        Exception.__init__(self, msg)
        self.kind, self.step = kind, step

class Machinery(Exception):
    pass


KINDS = None        # the kinds of mismatches that matter; None: all
IGNORED = 0

def soft(kind, msg, step=None):
    """Something is wrong, but what follows can be checked all the same."""
    global IGNORED
    if KINDS is None or kind in KINDS: raise Mismatch(kind, msg, step)
    IGNORED += 1

def loop():
    return asyncio.get_event_loop()

def turn():
    """Lets the event loop handle what is ready, without blocking."""
    l = loop()
    l.call_soon(l.stop)
    l.run_forever()


class Actor:
    def __init__(self, world, sock):
        self.world, self.sock = world, sock
        self.buf = b""
        self.eof = False
        self.hello = None
        self.pid = None
        self.fds = {}
        self.argv, self.env, self.cwd, self.signals = [], {}, None, []
    def fileno(self): return self.sock.fileno()
    def receive(self):
        try:
            d = self.sock.recv(1 << 20)
        except BlockingIOError:
            return
        except ConnectionResetError:
            d = b""
        if not d: self.eof = True
        self.buf += d
        if self.hello is None and b"\n.\n" in self.buf:
            h, self.buf = self.buf.split(b"\n.\n", 1)
            self.parse(h)
    def parse(self, h):
        self.hello = h
        for line in h.split(b"\n"):
            t, _, r = line.partition(b" ")
            if t == b"H": self.pid, self.ppid = map(int, r.split())
            elif t == b"A": self.argv.append(bytes.fromhex(r.decode()))
            elif t == b"E":
                k, _, v = bytes.fromhex(r.decode()).partition(b"=")
                self.env[os.fsdecode(k)] = os.fsdecode(v)
            elif t == b"D": self.cwd = os.fsdecode(bytes.fromhex(r.decode()))
            elif t == b"F":
                p = r.split(b" ")
                self.fds[int(p[0])] = dict(flags=int(p[1]), dev=int(p[2]), ino=int(p[3]), mode=int(p[4], 8),
                                           pos=int(p[5]), path=os.fsdecode(bytes.fromhex(p[6].decode())))
            elif t == b"S": self.signals.append(tuple(map(int, r.split())))
        self.world.by_pid[self.pid] = self
        self.tag = os.fsdecode(self.argv[1]) if len(self.argv) > 1 else ""
        self.world.by_tag.setdefault(self.tag, []).append(self)
    def post(self, cmd):
        if isinstance(cmd, str): cmd = cmd.encode()
        data = cmd + b"\n"
        self.sock.setblocking(True)
        try: self.sock.sendall(data)
        except (BrokenPipeError, ConnectionResetError): self.eof = True
        finally: self.sock.setblocking(False)
    def ready(self):
        return b"\n" in self.buf
    def take(self):
        line, self.buf = self.buf.split(b"\n", 1)
        return line.decode()
    def call(self, cmd, pump=True, timeout=None, kind="hang"):
        """Tells the actor to do something and waits for the result."""
        self.post(cmd)
        self.world.wait(lambda: self.ready() or self.eof, "stage %s to do %r" % (self.tag, cmd[:40]),
                        kind=kind, pump=pump, timeout=timeout)
        if not self.ready(): return None
        return self.take()
    def data(self, reply):
        """bytes of a read reply"""
        if reply is None: raise Mismatch("status", "stage %s is gone" % self.tag)
        if reply[0] != "D": raise Mismatch("data", "stage %s: read failed: %s" % (self.tag, reply))
        return bytes.fromhex(reply[1:].strip())
    def state(self):
        return proc_state(self.pid)


def proc_state(pid):
    try:
        with open("/proc/%d/stat" % pid) as f: return f.read().rsplit(")", 1)[1].split()[0]
    except (FileNotFoundError, ProcessLookupError):
        return "gone"

def children(pid=None):
    """live and zombie children (pid, state, name)"""
    me, res = pid or os.getpid(), []
    for p in os.listdir("/proc"):
        if not p.isdigit(): continue
        try:
            with open("/proc/%s/stat" % p) as f: s = f.read()
        except (FileNotFoundError, ProcessLookupError):
            continue
        a, b = s.rsplit(")", 1)
        b = b.split()
        if int(b[1]) == me: res.append((int(p), b[0], a.split("(", 1)[1]))
    return res

def open_fds():
    res = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            res[int(fd)] = os.readlink("/proc/self/fd/" + fd)
        except FileNotFoundError:
            pass        # the one of listdir itself
    return res


class World:
    """A scratch directory with executables that are controlled stages."""
    def __init__(self, names=("actor", "dump"), cwd=True):
        self.dir = tempfile.mkdtemp(prefix="s", dir=DIR)
        self.bin = os.path.join(self.dir, "bin")
        self.tmp = os.path.join(self.dir, "tmp")
        self.work = os.path.join(self.dir, "work")
        for d in (self.bin, self.tmp, self.work): os.mkdir(d)
        for n in names: self.install(n)
        self.by_pid, self.by_tag, self.actors = {}, {}, []
        self.listen = socket.socket(socket.AF_UNIX)
        self.listen.bind(os.path.join(self.bin, "ctl.sock"))
        self.listen.listen(64)
        self.listen.setblocking(False)
        self.oldtmp = os.environ.get("TMPDIR")
        os.environ["TMPDIR"] = self.tmp
        tempfile.tempdir = None
        tempfile.gettempdir()
        os.chdir(self.work)
        self.path = self.bin + ":/usr/bin:/bin"
        self.oldpath = os.environ["PATH"]
        os.environ["PATH"] = self.path
        self.cleanups = []
    def install(self, name, dir=None):
        dst = os.path.join(dir or self.bin, name)
        try: os.link(os.environ["VERIF_ACTOR"], dst)
        except OSError: shutil.copy(os.environ["VERIF_ACTOR"], dst)
        return dst
    def env(self, **kw):
        exports = dict(PATH=self.path, HOME=HOME, LANG="C.UTF-8", LC_ALL="C.UTF-8", TMPDIR=self.tmp)
        exports.update(kw.pop("exports", {}))
        return pieshell.env(cwd=kw.pop("cwd", self.work), exports=exports,
                            interactive=kw.pop("interactive", False), **kw)

    # -- waiting -----------------------------------------------------

    def poll(self, ms=0):
        """Handles what actors say."""
        p = select.poll()
        p.register(self.listen.fileno(), select.POLLIN)
        m = {}
        for a in self.actors:
            if not a.eof:
                p.register(a.fileno(), select.POLLIN); m[a.fileno()] = a
        any_ = False
        for fd, ev in p.poll(ms):
            any_ = True
            if fd == self.listen.fileno():
                try:
                    s, _ = self.listen.accept()
                except BlockingIOError:
                    continue
                s.setblocking(False)
                self.actors.append(Actor(self, s))
            else:
                m[fd].receive()
        return any_
    def wait(self, cond, what, kind="hang", pump=True, timeout=None, step=None):
        """Runs the event loop until cond() holds."""
        timeout = timeout or POSITIVE
        end = None
        n = 0
        while True:
            self.poll(0)
            if pump: turn()
            if cond(): return
            n += 1
            if n > 20:
                if not self.poll(1):
                    pass
                if end is None: end = time.time() + timeout
                elif time.time() > end:
                    raise Mismatch(kind, "waited %ss for %s" % (timeout, what() if callable(what) else what), step)
    def settle(self, turns=6, pause=0.0005):
        """Gives things that should not happen a chance to happen."""
        for i in range(turns):
            self.poll(0); turn()
            time.sleep(pause)
        self.poll(0); turn()
    def run(self, coro, what="", kind="hang", timeout=None):
        """Runs a coroutine to its end while serving the actors."""
        t = asyncio.ensure_future(coro, loop=loop())
        self.wait(t.done, what, kind=kind, timeout=timeout)
        return t.result()
    def actor(self, tag, n=0):
        """The n:th process started with that tag."""
        def there():
            return len(self.by_tag.get(tag, [])) > n
        self.wait(there, "stage %s to start" % tag, kind="start")
        return self.by_tag[tag][n]
    def of_pid(self, pid, what=""):
        self.wait(lambda: pid in self.by_pid, "stage %s (pid %s) to start" % (what, pid), kind="start")
        return self.by_pid[pid]

    # -- cleaning up -----------------------------------------------------

    def disconnect(self):
        """Lets go of the actors without touching them."""
        for a in self.actors:
            a.sock.close()
        self.listen.close()
        self.actors = []

    def close(self, kill=True):
        for c in self.cleanups:
            try: c()
            except Exception: pass
        if kill:
            for a in self.actors:
                if a.pid:
                    try:
                        if proc_ppid(a.pid) is not None and not reaped(a.pid):
                            os.kill(a.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
        self.disconnect()
        os.chdir(WORK)
        os.environ["PATH"] = self.oldpath
        os.environ["TMPDIR"] = self.oldtmp
        tempfile.tempdir = None
        for i in range(5): turn()
        shutil.rmtree(self.dir, ignore_errors=True)


def proc_ppid(pid):
    try:
        with open("/proc/%d/stat" % pid) as f: return int(f.read().rsplit(")", 1)[1].split()[1])
    except (FileNotFoundError, ProcessLookupError):
        return None

def reaped(pid):
    return proc_ppid(pid) is None


class Resources:
    """What the calling process holds."""
    def __init__(self, world):
        self.world = world
        self.fds = open_fds()
        self.children = set(p for p, s, n in children())
        self.tmp = set(os.listdir(world.tmp))
        self.readers = watched()
    def check(self, env=None, keep_tmp=(), step=None, running=0):
        w = self.world
        socks = set(a.fileno() for a in w.actors)
        def state():
            fds = {fd: l for fd, l in open_fds().items() if fd not in socks}
            return (sorted(fds), [c for c in children() if c[0] not in self.children],
                    sorted(set(os.listdir(w.tmp)) - self.tmp - set(keep_tmp)),
                    watched(), len(env.running_pipelines) if env is not None else running)
        want = (sorted(self.fds), [], [], self.readers, running)
        try:
            w.wait(lambda: state() == want, "", timeout=3)
        except Mismatch:
            s = state()
            fds = {fd: l for fd, l in open_fds().items() if fd not in socks and fd not in self.fds}
            soft("res", "left behind: descriptors %s (missing %s), children %s, temporary files %s, "
                           "event sources %s instead of %s, running pipelines %s"
                           % (fds, sorted(set(self.fds) - set(s[0])), s[1], s[2], s[3], want[3], s[4]), step)

def watched():
    try:
        return len(loop()._selector.get_map())
    except Exception:
        return 0


def run(scn):
    mod = importlib.import_module("drv_" + scn["mod"])
    global KINDS
    KINDS = set(scn["kinds"]) if "kinds" in scn else None
    return mod.run(scn)
