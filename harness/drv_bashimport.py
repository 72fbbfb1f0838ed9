"""Replays behaviours of BashImport.tla."""
import asyncio, os, random, shlex
import pieshell
from pieshell.pipeline.running import PipelineFailed
from pieshell.redir import Redirect
from drv import *
from drv_bashimport_chars import CHARS

SCRIPTS = ["a.sh", "with space.sh", "quo'te.sh", 'dq".sh', "do$HOME.sh", "`tick`.sh", "semi;colon", "amp&.sh", "new\nline.sh", "å日.sh", "back\\slash", "(par).sh", "-dash.sh", "per%cent", "#hash", "!bang", "~tilde", "{a,b}"]
REFERENCE = {}

def symbol(s): return CHARS[s[:-1]].upper() if s[-1] == "^" else CHARS[s[:-1]].lower() if s[-1] == "_" else CHARS[s]
def text(v): return "".join(symbol(s) for s in v)
def chunk(s):
    return s if isinstance(s, bytes) else os.fsencode(s)

class Run:
    def __init__(self, scn):
        self.rng = random.Random(scn["seed"])
        self.steps = scn["b"]["steps"]
        self.world = World()
        self.home = os.path.join(self.world.dir, "home")
        os.mkdir(self.home)
        self.envs = {e: self.world.env(exports=dict(HOME=self.home, TERM="dumb"), interactive=self.rng.random() < .2) for e in ("e1", "e2")}
        os.chdir(self.world.dir)
        self.before = dict(os.environ)
        self.start = set(os.environ)
        self.res = Resources(self.world)

    def quoted(self, v):
        """A way to write that value in a script"""
        raw = os.fsencode(text(v))
        how = self.rng.randrange(4)
        def plain(c): return 32 <= c < 127
        if how == 0: return b"'" + raw.replace(b"'", b"'\\''") + b"'"
        if how == 1: return b"$'" + b"".join(b"\\%03o" % c if not (48 <= c < 58 or 97 <= c < 123) else bytes([c]) for c in raw) + b"'"
        if how == 2: return b'"' + b"".join(b"\\" + bytes([c]) if c in b'"\\$`' else bytes([c]) for c in raw) + b'"' if b"!" not in raw else self.quoted(v)
        if raw and all(plain(c) for c in raw): return b"".join(b"\\" + bytes([c]) if not (48 <= c < 58 or 97 <= c < 123) else bytes([c]) for c in raw)
        return b"'" + raw.replace(b"'", b"'\"'\"'") + b"'"

    def command(self, a, arrays):
        rng, c = self.rng, a["c"]
        x = a["x"].encode() if "x" in a else None
        v = self.quoted(a["v"]) if "v" in a else None
        if c == "export": return rng.choice([b"export %s=%s", b"declare -x %s=%s", b"typeset -x -g %s=%s", b"export -- %s=%s", b"t() { declare -gx %s=%s; }; t; unset -f t"]) % (x, v)
        if c == "set": return rng.choice([b"%s=%s", b"{ %s=%s; }", b"declare %s=%s", b"printf -v %s %%s %s"]) % (x, v)
        if c == "append": return b"%s+=%s" % (x, v)
        if c == "local": return rng.choice([b"t() { local %s=%s; }; t; unset -f t", b"( export %s=%s )", b"t() { local -x %s=%s; }; t; unset -f t"]) % (x, v)
        if c == "env": return b"%s=%s true" % (x, v)
        if c == "copy": return b'export %s="$%s"' % (x, a["y"].encode())
        if c == "mark": return rng.choice([b"export %s", b"declare -x %s"]) % x
        if c == "unmark": return rng.choice([b"export -n %s", b"declare +x %s"]) % x
        if c == "unset": return b"unset %s" % x
        if c == "readonly": return rng.choice([b"readonly %s", b"declare -r %s"]) % x
        if c == "lower": return b"declare -l %s" % x
        if c == "upper": return b"declare -u %s" % x
        if c == "array":
            arrays.append(x)
            return rng.choice([b"declare -ax zz%d=(a 'b c' $'d\\ne' '\"'); unset %s", b"declare -Ax zz%d=([k]='v)' [\"l m\"]='declare -x A=\"q\"'); unset %s",
                               b"declare -ix zz%d=5; unset %s", b"zf%d() { cat <<'EOF'\ndeclare -x A=\"nasty\"\nEOF\n}; export -f zf1 2>/dev/null; unset %s"]) % (len(arrays), x)
        if c == "say":
            if a["w"] == 1: return b"printf '%%s\\n' %s" % v
            return b"printf '%%s\\n' %s >&2" % v
        if c == "noise":
            k = a["k"]
            return dict(ifs=rng.choice([b"IFS=/", b"IFS=0123456789", b"IFS=", b"IFS=fd"]), nounset=b"set -u", noclobber=b"set -C", noglob=b"set -f", debug=b"trap 'echo dbg' DEBUG",
                        exit=b"trap 'echo bye' EXIT", xtrace=b"set -x", declare=b"declare() { echo haha; }; export() { builtin export \"$@\"; }",
                        function=rng.choice([b"f1() { echo \"a\nb\"; }", b"f2() { cat <<'EOF'\ndeclare -x A=\"nasty\"\nEOF\n}", b"f3() { declare -x A=\"nasty\"; }; export -f f3"]),
                        cd=b"cd /", alias=b"alias declare='echo x'; shopt -s expand_aliases", posix=b"shopt -u progcomp", stdin=b"cat >/dev/null </dev/null", args=b"set -- a b",
                        job=b"sleep 0 & disown", extglob=b"shopt -s nullglob extglob dotglob", path=b"hash -r", err=b"trap 'echo err >&2' ERR", lc=b"unset LC_ALL LANG", umask=b"umask 077")[k]
        raise Machinery(c)

    def scripts(self, cmds):
        """The files for these commands"""
        files, lines, arrays = [], [], []
        # after this one, the words we use would mean something else
        last = [a for a in cmds if a["c"] == "noise" and a["k"] in ("declare", "alias", "extglob", "noglob", "nounset")][:1]
        for i, a in enumerate(cmds):
            if a["c"] == "noise" and a["k"] in ("declare", "alias", "extglob", "noglob", "nounset"): continue
            if last and a["c"] in ("return", "exit") and not any(b["c"] in ("return", "exit") for b in cmds[i + 1:]):
                lines.append(self.command(last.pop(), arrays))
                last = []
            if a["c"] == "return":
                k = a["k"]
                if k == "return": lines += [b"return %d" % self.rng.randrange(3), b"export A=nasty"]
                elif k == "false": lines.append(b"false")
                elif k == "syntax": lines.append(b"if ; then")
                files.append(lines); lines = []
            elif a["c"] == "exit":
                files.append(lines + [b"exit %d" % a["k"]]); lines = []
            else: lines.append(self.command(a, arrays))
        res = []
        for lines in files:
            name = self.rng.choice(SCRIPTS)
            while any(r[0] == name for r in res): name = self.rng.choice(SCRIPTS)
            data = b"\n".join(lines) + (b"\n" if self.rng.random() < .8 else b"")
            with open(os.path.join(self.world.work, name), "wb") as f: f.write(data)
            res.append((name, data))
        return res

    def argument(self, name):
        rng, w = self.rng, self.world
        r = rng.random()
        special = any(c in name for c in "~*?[%")
        path = (w.work + "/%s" if self.absolute else rng.choice(["%s", "./%s", w.work + "/%s"])) % name
        return pieshell.R(path) if r < .4 or special else path

    def source(self, cmds, a, no):
        w, env = self.world, self.envs[a["e"]]
        files = self.scripts(cmds)
        if len(files) < self.count:
            for k in range(self.count - len(files)): files.append(("never%d.sh" % k, b"export A=nasty B=nasty\n"))
            for n, d in files:
                with open(os.path.join(w.work, n), "wb") as f: f.write(d)
        self.absolute = any(a.get("k") == "cd" for a in cmds)
        p = env.bashsource(*[self.argument(n) for n, d in files])
        what = " (%s, environment %s)" % ([d[:300] for n, d in files], {k: v[:60] for k, v in env._exports.items() if k in "ABC"})
        failed, out = None, None
        how = self.rng.choice(["list", "wait", "await"])
        try:
            if how == "list":
                async def read():
                    data = b""
                    async for x in p.run([Redirect("stdout", pieshell.PIPE)]).iterbytes(): data += x
                    return data
                out = w.run(read(), "the pipeline to end")
            else:
                p = p | Redirect("stdout", "/dev/null")
                async def wait():
                    if how == "await": await p
                    else: await p.run().wait()
                w.run(wait(), "the pipeline to end")
        except PipelineFailed as e: failed = e
        if bool(failed) != bool(a["status"]): raise Mismatch("source", "it %s%s" % ("failed: %s" % str(failed)[:1500] if failed else "did not fail", what), no)
        if out is not None and not set(a["noise"]) & {"debug", "exit", "xtrace"}:
            want = b"".join(os.fsencode(text(v)) + b"\n" for v in a["out"])
            if out != want: raise Mismatch("source", "the output was %r instead of %r%s" % (out[-500:], want[-500:], what), no)
        self.compare(a, what, no)

    def compare(self, a, what, no):
        for e, env in self.envs.items():
            got = env._exports
            for x, v in a["envs"][e].items():
                if not v["has"]:
                    if x in got: raise Mismatch("source", "%s of %s is %r, but there should be none%s" % (x, e, got[x], what), no)
                elif x not in got: raise Mismatch("source", "%s has no %s, which should be %r%s" % (e, x, text(v["v"])[:500], what), no)
                elif os.fsencode(got[x]) != os.fsencode(text(v["v"])):
                    raise Mismatch("source", "%s of %s is %r instead of %r%s" % (x, e, got[x][-300:], text(v["v"])[-300:], what), no)
            extra = set(got) - set(a["envs"][e]) - self.reference() - {"zz%d" % k for k in range(9)}
            if extra: raise Mismatch("source", "variables %s out of nowhere%s" % ({x: got[x] for x in extra}, what), no)
            for z in got:
                if z.startswith("zz") and got[z] != "5": raise Mismatch("source", "an array became a variable: %s" % got[z], no)
        if dict(os.environ) != self.before: raise Mismatch("source", "variables of the calling process changed%s" % what, no)
        if self.rng.random() < .3:
            # commands get them
            e = self.rng.choice(["e1", "e2"])
            async def read():
                data = b""
                async for x in self.envs[e].env("-0").run([Redirect("stdout", pieshell.PIPE)]).iterbytes(): data += x
                return data
            got = dict(x.split(b"=", 1) for x in self.world.run(read(), "the command to end").split(b"\0") if b"=" in x)
            for x, v in a["envs"][e].items():
                if got.get(x.encode()) != (os.fsencode(text(v["v"])) if v["has"] else None):
                    raise Mismatch("source", "a command of %s gets %s as %r%s" % (e, x, got.get(x.encode()), what), no)

    def reference(self):
        """Variables that a login shell has anyway"""
        if not REFERENCE:
            import subprocess
            r = subprocess.run(["bash", "-l", "-i", "-c", "env -0"], env=dict(PATH=self.world.path, HOME=self.home, TERM="dumb", LANG="C.UTF-8"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
            REFERENCE.update({os.fsdecode(x.split(b"=", 1)[0]): 1 for x in r.stdout.split(b"\0") if x})
        return set(REFERENCE) | {"PATH", "HOME", "LANG", "LC_ALL", "TMPDIR", "TERM", "OLDPWD", "PWD", "SHLVL", "_"}

    def run(self):
        cmds = []
        for no, a in enumerate(self.steps):
            if a["t"] == "export":
                env = self.envs[a["e"]]
                if self.rng.random() < .5: env._exports[a["x"]] = text(a["v"])
                else: pieshell.environ.EnvScope(env=env)["exports"][a["x"]] = text(a["v"])
            elif a["t"] == "start": cmds = []; self.count = a["k"]
            elif a["t"] == "cmd": cmds.append(a)
            elif a["t"] == "elsewhere":
                for x, v in a["proc"].items():
                    if v["has"]: os.environ[x] = text(v["v"])
                    else: os.environ.pop(x, None)
                self.before = dict(os.environ)
            elif a["t"] == "import": self.source(cmds, a, no)
        self.res.check(None)
        return len(self.steps)

def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally:
        for x in [x for x in os.environ if x not in r.start]: del os.environ[x]
        r.world.close()
