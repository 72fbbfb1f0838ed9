"""Replays behaviours of Shell.tla: runs the shell itself, as a user would, at
a terminal, with a command line, or with files."""
import fcntl, os, pty, random, re, select, shutil, signal, struct, subprocess, sys, termios, time
from drv import *

ESC = re.compile(rb"\x1b\[[0-9;?]*[A-Za-z]|\x1b[=>]|\x1b\([AB0]")
READY = b"\x1b[?1l\x1b>"         # a line has been accepted
PROMPT = re.compile(r"(?:^|\n)(?:(?:\d+|[^@\n]+@[^:\n]+):([/~][^\n]*?) >>> )$")
KNOWN = ["CURRENT.pid == __import__('os').getpid()", "INIT.pid == 1", "issubclass(PipelineInterrupted, PipelineError)", "issubclass(PipelineSuspended, PipelineError)",
         "len({STRING, TMP, PIPE}) == 3", "isinstance(env, pieshell.Environment)", "R('%(x)s *').str == '%(x)s *'", "Redirect('stderr', PIPE).fd == 2", "isinstance(CURRENT, PstreeProcess)",
         "dir(USERS) is not None"]
JUNK = re.compile(r"^(\d+:ERROR:error:.*|Pipeline (canceled|suspended|failed): .*|.* as \d+.*|stderr content:.*|=+)$")

TOOL = """#!/bin/sh
[ "$1" = --help ] && exit 0     # that might happen
note() { printf '%%s|%%s|%%s|%%s\\n' "$(basename "$(/bin/pwd)")" "${V--}" "${W--}" "$1" >> "$VLOG"; }
%s
"""
TOOLS = dict(
    say='note "say $*"; printf "%s\\n" "$*"',
    up="note up; sed 's/.*/<&>/'",
    bad='note bad; exit 3',
    ask='note ask; IFS= read -r l; printf "got %s\\n" "$l"',
    hang='mkfifo "$VLOG.$$"; echo $$ >> "$VLOG.hangs"; note hang; exec 2> /dev/null; read l < "$VLOG.$$"; exit 0',
    x='note x; echo "I am x"',
    V='note V; echo "I am V"')

class Terminal:
    """A shell at a terminal"""
    def __init__(self, run, args, env):
        self.run = run
        master, slave = pty.openpty()
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", 50, 2000, 0, 0))
        t = termios.tcgetattr(slave)
        t[3] &= ~(termios.ECHO | termios.ECHOCTL)
        termios.tcsetattr(slave, termios.TCSANOW, t)
        self.fd = master
        name = os.ttyname(slave)
        def pre():
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
        self.proc = subprocess.Popen(args, env=env, cwd=run.home, stdin=slave, stdout=slave, stderr=slave, preexec_fn=pre)
        os.close(slave)
        self.buf = b""
    def poll(self, t):
        r, _, _ = select.select([self.fd], [], [], t)
        if not r: return False
        try: d = os.read(self.fd, 1 << 16)
        except OSError: d = b""
        self.buf += d
        return bool(d)
    def cooked(self):
        return termios.tcgetattr(self.fd)[3] & termios.ISIG
    def text(self):
        raw = self.buf
        if READY in raw: raw = raw.rsplit(READY, 1)[1]
        return ESC.sub(b"", raw).replace(b"\r", b"").decode("utf-8", "replace")
    def write(self, data):
        if isinstance(data, str): data = data.encode()
        while data: data = data[os.write(self.fd, data):]
    def prompt(self, lines, step, what, timeout=30):
        """Waits until so many more lines have been accepted and there is a prompt again."""
        end = time.time() + timeout
        while True:
            if self.buf.count(READY) >= lines:
                m = PROMPT.search(self.text())
                if self.text().endswith("\n... "):     # Some want an empty line after blocks
                    self.write("\n")
                    lines += 1
                if m and not self.poll(0):
                    out = self.text()[:m.start()]
                    self.buf = b""
                    return out, m[1]
            if not self.poll(0.05):
                if self.proc.poll() is not None: raise Mismatch("shell", "the shell ended: %r" % self.text()[-1500:], step)
                if time.time() > end: raise Mismatch("hang", "no prompt after %s: %r" % (what, self.buf[-1500:]), step)
    def close(self):
        try: self.proc.kill()
        except OSError: pass
        os.close(self.fd)
        self.proc.wait()

class Run:
    def __init__(self, scn):
        self.rng = random.Random(scn["seed"])
        self.steps = scn["b"]
        self.backend = os.environ["VERIF_BACKEND"]
        self.world = World(names=())
        self.home = os.path.join(self.world.dir, "h")
        for d in (self.home, self.dir("d1"), self.dir("d2")): os.mkdir(d)
        open(os.path.join(self.dir("d1"), "one.t"), "w").close()
        open(os.path.join(self.dir("d2"), "two.t"), "w").close()
        os.mkdir(os.path.join(self.home, ".config"))
        self.log = os.path.join(self.world.dir, "log")
        open(self.log, "w").close()
        open(self.log + ".hangs", "w").close()
        for name, body in TOOLS.items():
            p = os.path.join(self.world.bin, name)
            with open(p, "w") as f: f.write(TOOL % body)
            os.chmod(p, 0o755)
        self.env = dict(PATH=self.world.path, HOME=self.home, TMPDIR=self.world.tmp, LANG="C.UTF-8", LC_ALL="C.UTF-8", TERM="vt100", VLOG=self.log,
                        PYTHONPATH=os.environ["VERIF_REPO"], PYTHONDONTWRITEBYTECODE="1", PYTHONUNBUFFERED="1", PYTHONWARNINGS="ignore")
        if self.backend == "asyncio":
            d = os.path.join(self.world.dir, "nosig")
            os.mkdir(d)
            with open(os.path.join(d, "signalfd.py"), "w") as f: f.write("raise ImportError('not installed')\n")
            self.env["PYTHONPATH"] = d + ":" + self.env["PYTHONPATH"]
        self.seen = 0           # notes
        self.pids = []
        self.cwd = "h"
        self.term = None
        self.proc = None
        self.conf = None

    def dir(self, d): return self.home if d == "h" else os.path.join(self.home, d)

    # -- what statements look like -------------------------------------

    def word(self, w):
        t = w["w"] if w["k"] == "lit" else "v%%(%s)s" % w["n"] if w["k"] == "exp" else "*.t"
        return repr(t) if self.rng.random() < .5 else '"%s"' % t
    def expr(self, e):
        r, k = self.rng, e["k"]
        if k == "text": return repr(e["w"])
        if k == "num": return "3"
        if k == "none": return "None"
        if k == "name": return e["n"]
        if k == "prog":
            p = e["p"]
            args = ", ".join(map(self.word, p["words"]))
            s = ("env." if r.random() < .2 else "") + p["src"]
            if args or r.random() < .5: s += "(%s)" % args
            return s + " | up" * p["ups"]
        if k == "str": return "str(%s).strip()" % self.expr(e["e"])
        if k == "list": return "list(%s)" % self.expr(e["e"])
        if k == "run":
            s = self.expr(e["e"])
            return "(+(%s))" % s if r.random() < .5 else "(%s).run_interactive()" % s
        if k == "bg": return r.choice(["(~hang)", "hang.run()", "hang().run()"])
        if k == "call": return e["n"] + "()"
        if k in ("fg", "cont"):
            c = "fg" if k == "fg" else "bg"
            if e["n"]: return "%s(%s)" % (c, e["n"])
            return c if r.random() < .5 else c + "()"
        raise Machinery(k)
    def stmt(self, a, showing, file):
        """Lines"""
        r, f = self.rng, a["f"]
        if f == "expr": return [self.expr(a["e"])]
        if f == "for": return ["for i in (1, 2): " + self.expr(a["e"])]
        if f == "two": return [self.expr(a["e"]) + "; " + self.expr(a["g"])]
        if f == "set": return ["%s = %s" % (a["x"], self.expr(a["e"]))]
        if f == "def": return ["def %s(): %s%s" % (a["x"], "return " if a["ret"] else "", self.expr(a["e"]))]
        if f == "print": return ["print(%s)" % self.expr(a["e"])]
        if f == "export": return ['exports["%s"] = "%s"' % (a["x"], a["w"])]
        if f == "unexport": return ['del exports["%s"]' % a["x"]]
        if f == "del": return ["del " + a["x"]]
        if f == "cd":
            p = self.dir(a["d"])
            if r.random() < .5: p = os.path.relpath(p, self.dir(self.cwd))
            if showing: return ['cd("%s")' % p]
            return [r.choice(['cd("%s").run()', '(~cd("%s"))', '(+cd("%s"))', 'env._cd("%s")']) % p]
        if f == "err":
            if not file and r.random() < .3: return ["x = = 3"]
            return [r.choice(["1/0", "[][1]", "raise ValueError('no')", "{}['a']", "say.no.run_interactive(1, 2, 3)"])]
        if f == "try":
            how = "'other'"
            for c, w in (("PipelineError", "failed"), ("PipelineInterrupted", "interrupted"), ("PipelineSuspended", "stopped")): how = "('%s' if isinstance(ex, %s) else %s)" % (w, c, how)
            return ["try: " + self.expr(a["e"]), "except (Exception, KeyboardInterrupt) as ex: print('caught ' + %s)" % how]
        if f == "known": return ["print('yes' if %s else 'no')" % r.choice(KNOWN)]
        if f == "pass": return [r.choice(["pass", "# nothing", "None", "_i = 3", "()[0:0]" if not showing else "pass"])]
        raise Machinery(f)

    # -- what happens ------------------------------------------------------

    def notes(self):
        with open(self.log) as f: return f.read().split("\n")[:-1]
    def hangs(self):
        """Process ids of jobs; those started together register in any order."""
        with open(self.log + ".hangs") as f: new = [int(p) for p in f.read().split() if int(p) not in self.pids]
        self.pids += sorted(new)
        return self.pids
    def until(self, cond, what, kind, step, timeout=15):
        end = time.time() + timeout
        while not cond():
            if self.term: self.term.poll(0.01)
            else: time.sleep(0.005)
            if time.time() > end: raise Mismatch(kind, "waited for %s" % (what() if callable(what) else what), step)
    def ran(self, want, step):
        """Everything that has been started"""
        def now(): return sorted(self.notes()[self.seen:])
        want = sorted(w.strip() for w in want)
        try: self.until(lambda: len(now()) >= len(want), "", "ran", step)
        except Mismatch: pass
        got = [g.strip() for g in now()]
        if got != want: raise Mismatch("ran", "started %s instead of %s" % (got, want), step)
        self.seen += len(got)
    def job_state(self, j):
        pid = self.hangs()[j - 1]
        s = proc_state(pid)
        return {"gone": "gone", "Z": "gone", "T": "stopped", "t": "stopped", "X": "gone"}.get(s, "running")
    def jobs(self, want, step):
        for j, w in enumerate(want, 1):
            if w in ("done", "killed"): w = "gone"
            try: self.until(lambda: self.job_state(j) == w, "", "os", step, 5)
            except Mismatch: raise Mismatch("os", "job %d is %s instead of %s" % (j, self.job_state(j), w), step)
    def release(self, j, step):
        pid = self.hangs()[j - 1]
        def open_():
            try: self.fifo = os.open("%s.%d" % (self.log, pid), os.O_WRONLY | os.O_NONBLOCK); return True
            except OSError: return False
        self.until(open_, "job %d to wait" % j, "os", step)
        os.write(self.fifo, b"\n")
        os.close(self.fifo)

    def output(self, text, want, err, step, more_ok=False):
        """Compares what has been printed"""
        lines = [l for l in text.split("\n") if l.strip()]
        failed = False
        got = []
        for i, l in enumerate(lines):
            if l.startswith("Traceback (most recent call last)") or re.match(r'  File "<(console|expr)>", line', l):
                failed = True
                break
            got.append(l)
        want = list(want)
        why = "printed %r instead of %r" % (text[-1200:], want)
        interrupted = False
        for l in got:
            if want and self.matches(l, want[0]):
                interrupted = want[0] in ("(stopped)", "(interrupted)")
                want.pop(0)
            elif (interrupted or failed) and JUNK.match(l): pass
            else: raise Mismatch("shell", why + ": unexpected %r" % l, step)
        if want: raise Mismatch("shell", why, step)
        if failed != err: raise Mismatch("shell", "the statement %s: %r" % ("failed" if failed else "did not fail", text[-1500:]), step)
    def matches(self, l, w):
        if w == "(function)": return l.startswith("<function ")
        if w == "(stopped)": return re.search("ERROR:error:Suspended:", l)
        if w == "(interrupted)": return re.search("ERROR:error:Canceled:", l)
        if w.startswith("(pipeline) "): return re.match(r"%s\b.* as \d+" % w[11:], l)
        return l == w

    # -- sessions ------------------------------------------------------------

    def acts(self, a, step, base=0):
        """What the user does while a statement is being executed"""
        for x in a["acts"]:
            self.until(lambda: len(self.notes()) - self.seen - base >= x["after"], lambda: "%s to start, but only %s did" % (a["ran"], self.notes()[self.seen:]), "ran", step)
            if x["w"] == "line":
                (self.term.write if self.term else self.feed)("%d\n" % x["j"])
                continue
            # Give the shell time to go on to waiting
            idle = [0]
            def waiting():
                time.sleep(.02)
                ok = self.term.cooked() and proc_state(self.term.proc.pid) == "S"
                idle[0] = idle[0] + 1 if ok else 0
                return idle[0] > 4
            self.until(waiting, "the shell to wait", "hang", step)
            if x["w"] == "end": self.release(x["j"], step)
            elif x["w"] == "stop":
                self.term.write(b"\x1a")
                self.until(lambda: self.job_state(x["j"]) == "stopped", "job %s to stop" % x["j"], "os", step)
            elif x["w"] == "int":
                self.term.write(b"\x03")
                self.until(lambda: self.job_state(x["j"]) == "gone", "job %s to be interrupted" % x["j"], "os", step)

    def feed(self, text):
        self.proc.stdin.write(text.encode())
        self.proc.stdin.flush()

    def command(self, *args):
        return ["/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable, "-m", "pieshell.shell"] + list(args)

    def go(self):
        s0 = self.steps[0]
        conf = os.path.join(self.home, ".config", "pieshell")
        opts = []
        i = 1
        if s0["startup"] == "own":
            do = []
            while self.steps[i]["a"] == "do": do.append((i, self.steps[i])); i += 1
            i += 1
            text = self.script(do)
            with open(conf, "w") as f: f.write(text)
            self.startup = do
        else:
            self.startup = []
            how = s0["startup"]
            if how == "off":
                opts.append("--no-startup")
                if self.rng.random() < .5:
                    with open(conf, "w") as f: f.write("say('not me').run_interactive()\n")
            elif how == "empty": open(conf, "w").close()
            elif how == "default":
                if self.rng.random() < .5: os.rmdir(os.path.dirname(conf))
                self.conf = conf
            elif how == "locked":
                os.rmdir(os.path.dirname(conf))
                if self.rng.random() < .5: open(os.path.dirname(conf), "w").close()
                else: os.symlink("nowhere/at/all", os.path.dirname(conf))
        getattr(self, s0["kind"])(opts, i)
        if self.conf:
            with open(self.conf) as f, open(os.path.join(os.environ["VERIF_REPO"], "pieshell", "resources", "default_config.pysh")) as g:
                if f.read() != g.read(): raise Mismatch("shell", "the default startup file is not what was written")
        return i

    def script(self, do):
        """A file; says where it is"""
        text = ""
        for i, a in do:
            before = self.cwd
            lines = self.stmt(a["s"], False, True)
            text += "print('#%d', flush=True)\n" % i + "\n".join(lines) + "\n"
            self.cwd = a["cwd"]
        return text + "print('#end', flush=True)" + self.rng.choice(["", "\n", "\n\n"])

    def compare(self, out, files):
        """Compares the output of files"""
        for do in files:
            failed = False
            for i, a in do:
                if failed: continue
                if not out.startswith("#%d\n" % i): raise Mismatch("shell", "instead of statement %d (%s) there is %r" % (i, a["s"], out[:300]), i)
                out = out[len("#%d\n" % i):]
                part = re.match(r"(?:(?!#(?:\d+|end)\n).*(?:\n|$))*?(?=#(?:\d+|end)\n|\Z)", out)[0]
                if a["err"]:        # What comes next might not start with a mark
                    part = re.match(r"(?:\n*.+\n){%d}" % len(a["out"]), part)
                    part = part[0] if part else ""
                out = out[len(part):]
                self.output(part, a["out"], False, i)
                if a["err"]: failed = True
            if not failed:
                if not out.startswith("#end\n"): raise Mismatch("shell", "instead of the end of the file there is %r" % out[:300], do[-1][0] if do else 0)
                out = out[5:]
        return out

    def spawn(self, args, all_):
        lines = [str(x["j"]) for _, a in all_ for x in a["acts"] if x["w"] == "line"]
        inp = "".join(l + "\n" for l in lines) + self.rng.choice(["", "more\n"])
        outf, errf = (os.path.join(self.world.dir, n) for n in ("stdout", "stderr"))
        with open(outf, "wb") as o, open(errf, "wb") as e:
            self.proc = subprocess.Popen(self.command(*args), env=self.env, cwd=self.home, stdin=subprocess.PIPE, stdout=o, stderr=e)
            # Not all at once: they are read a character at a time, but we do not want to rely on it
            try: self.proc.communicate(inp.encode(), timeout=60)
            except subprocess.TimeoutExpired:
                raise Mismatch("hang", "the shell does not end: %s" % open(outf).read()[-500:])
        with open(outf, errors="replace") as o, open(errf, errors="replace") as e: return self.quiet(o.read()), e.read()

    def quiet(self, out):
        """Without what the asyncio variant says about itself"""
        return re.sub(r"\A(?:.*signalfd.*\n)*", "", out) if self.backend == "asyncio" else out

    def finish_files(self, files, extra, err):
        every = [x for do in files for x in do] + extra
        self.ran([r for _, a in every for r in a["ran"]], every[-1][0] if every else 0)
        want = sum(1 for _, a in every if a["err"])
        got = len(re.findall("^Traceback|^  File \"[^\"]*\", line \\d+\n.*\n.*\\^\n.*SyntaxError", err, re.MULTILINE))
        if bool(got) != bool(want): raise Mismatch("shell", "%d statements failed instead of %d: %r" % (got, want, err[-1500:]))

    def cmd(self, opts, i):
        a = self.steps[i]
        lines = self.stmt(a["s"], True, False)
        text = "\n".join(lines)
        out, err = self.spawn(opts + ["--cmd=" + text], self.startup + [(i, a)])
        if self.startup: out = self.compare(out, [self.startup])
        self.output(out, a["out"], False, i)
        self.finish_files([self.startup], [(i, a)], err)

    def files(self, opts, i):
        files, do = [], []
        for k in range(i, len(self.steps)):
            if self.steps[k]["a"] == "do": do.append((k, self.steps[k]))
            elif self.steps[k]["a"] == "go": files.append(do); do = []
        names = []
        for k, do in enumerate(files):
            n = os.path.join(self.world.work, self.rng.choice(["f%d.pysh", "f %d", "%d.py"]) % k)
            with open(n, "w") as f: f.write(self.script(do))
            names.append(n)
        # another one, given several times
        marks = os.path.join(self.world.work, "marks")
        os.mkdir(marks)
        again = os.path.join(self.world.work, "again.pysh")
        with open(again, "w") as f: f.write("__import__('tempfile').mkdtemp(dir=%r)" % marks)
        times = self.rng.choice([0, 0, 1, 2, 3])
        for k in range(times): names.insert(self.rng.randrange(len(names) + 1), again)
        out, err = self.spawn(opts + names, self.startup + [x for do in files for x in do])
        if len(os.listdir(marks)) != times: raise Mismatch("shell", "a file given %d times is executed %d times" % (times, len(os.listdir(marks))))
        rest = self.compare(out, ([self.startup] if self.startup else []) + files)
        if rest.strip(): raise Mismatch("shell", "more output: %r" % rest[:300])
        self.finish_files([self.startup] + files, [], err)

    def console(self, opts, i):
        self.term = Terminal(self, self.command(*opts), self.env)
        text = ""
        base = 0
        for k, a in self.startup:
            self.acts(a, k, base)
            base += len(a["ran"])
        end = time.time() + 60
        while not PROMPT.search(self.term.text()):
            if not self.term.poll(.05):
                if self.term.proc.poll() is not None: raise Mismatch("shell", "the shell ended: %r" % self.term.text()[-1500:])
                if time.time() > end: raise Mismatch("hang", "no prompt: %r" % self.term.text()[-1500:])
        text = self.term.text()
        m = PROMPT.search(text)
        if self.startup:
            # Without failures, they would be between the lines
            if not any(a["err"] for k, a in self.startup):
                text = text[text.index("#"):]
                self.compare(text[:text.index("PieShell ")], [self.startup])
            self.cwd = self.startup[-1][1]["cwd"]
            self.ran([r for _, a in self.startup for r in a["ran"]], 0)
            self.jobs(self.startup[-1][1]["jobs"], 0)
        self.at(m[1], self.cwd, i - 1)
        self.term.buf = b""
        for k in range(i, len(self.steps)):
            a = self.steps[k]
            if a["a"] == "do":
                lines = self.stmt(a["s"], True, False)
                self.term.write("\n".join(lines) + "\n")
                n = len(lines)
                self.until(lambda: self.term.buf.count(READY) >= n, "the line to be read", "hang", k)
                self.acts(a, k)
                out, cwd = self.term.prompt(n, k, lines)
                self.output(out, a["out"], a["err"], k)
                self.ran(a["ran"], k)
                self.jobs(a["jobs"], k)
                self.cwd = a["cwd"]
                self.at(cwd, a["cwd"], k)
            elif a["a"] == "end":
                self.release(a["j"], k)
                self.until(lambda: self.job_state(a["j"]) == "gone", "job to end", "os", k)
            elif a["a"] == "type":
                text = self.expr(a["e"])
                if a["how"] == "tab":
                    text = self.rng.choice([text + ".", text, text[:-1], text.split("(")[0], "str(" + text, text + " | ", text + ".ru"])
                    self.term.write(text + "\t" * self.rng.randint(1, 2) + "\x15\n")
                    n = 1
                else:
                    self.term.write(text + "\x03")
                    n = 0
                    self.until(lambda: "KeyboardInterrupt" in self.term.text(), "the interrupt", "hang", k)
                out, cwd = self.term.prompt(n, k, "typing", 60)
                self.ran([], k)
                self.at(cwd, self.cwd, k)
            elif a["a"] == "go": break
        self.term.write("exit()\n" if self.rng.random() < .5 else "\x04")
        def ended():
            self.term.poll(0)
            return self.term.proc.poll() is not None
        self.until(ended, "the shell to end", "hang", len(self.steps) - 1)
        self.ran([], len(self.steps) - 1)

    def at(self, got, want, step):
        if got[:1] == "~": got = self.home + got[1:]
        if os.path.realpath(got) != os.path.realpath(self.dir(want)): raise Mismatch("shell", "is in %s instead of %s" % (got, want), step)

    def close(self):
        if self.term: self.term.close()
        elif self.proc and self.proc.poll() is None:
            self.proc.kill(); self.proc.wait()
        # They are hung up with their terminal; just in case
        for pid in self.hangs():
            try: os.close(os.open("%s.%d" % (self.log, pid), os.O_WRONLY | os.O_NONBLOCK))
            except OSError: pass
        self.world.close()

def run(scn):
    r = Run(scn)
    try:
        r.go()
        return dict(ok=True, steps=len(r.steps))
    finally:
        r.close()
