"""Machinery shared by all checks: building, running TLC, replaying scenarios
on the real code in worker processes, verdicts and evidence."""
import atexit, hashlib, itertools, json, os, queue, random, re, resource, shutil
import signal, socket, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The machinery itself failed (not a verdict about the code)."""


class Ctx:
    """One run of one check."""
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="pv%s-" % prop.lower(), dir="/tmp")
        os.chmod(self.scratch, 0o755)
        atexit.register(self.cleanup)
        self.states = self.transitions = self.traces = self.steps = 0
        self.inconclusive = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.failures = []      # confirmed (scenario, failure)
        self.known_hits = []
        self.rng = random.Random(seed)
        self._build()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def _build(self):
        with open(os.path.join(self.scratch, "build.log"), "w") as log:
            for x in ("actor", "leaf"):
                r = subprocess.run(["gcc", "-O1", "-w", "-o", os.path.join(self.scratch, x),
                                    os.path.join(HERE, x + ".c")], stdout=log, stderr=log)
                if r.returncode:
                    raise CheckError("cannot compile the %s" % x)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
            # generates the ignored version.py etc. the package needs
            subprocess.run([PY, "setup.py", "-q", "egg_info"], cwd=REPO, env=env,
                           stdout=log, stderr=log, timeout=300)

    # -- TLC -----------------------------------------------------------

    def tlc(self, module, cfg, constants=None, simulate=None, label=None, procs=6, **kw):
        """Runs TLC on spec/<module>.tla with the given config text and
        returns (records printed as "@X json", statistics)."""
        if not simulate or simulate < 200:
            return self.tlc1(module, cfg, constants, simulate, label=label, **kw)
        # simulation uses one core only, so there are several
        t, res = time.time(), [None] * procs
        def one(k):
            try: res[k] = self.tlc1(module, cfg, constants, (simulate + procs - 1) // procs, label=label,
                                    seed=self.seed * 100 + k, quiet=True, **kw)
            except Exception as e: res[k] = e
        ts = [threading.Thread(target=one, args=(k,)) for k in range(procs)]
        for x in ts: x.start()
        for x in ts: x.join()
        for r in res:
            if isinstance(r, Exception): raise r
        st = dict(res[0][1], wall=round(time.time() - t, 1))
        for f in ("generated", "distinct", "records"): st[f] = sum(r[1][f] for r in res)
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.parts.append(st)
        return [x for r in res for x in r[0]], st

    def tlc1(self, module, cfg, constants=None, simulate=None, depth=100, workers=None,
             timeout=600, heap="3g", label=None, expect_ok=True, seed=None, quiet=False):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        name = "MC"
        with open(os.path.join(d, "MC.tla"), "w") as f:
            f.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
            for i, (k, v) in enumerate((constants or {}).items()):
                f.write("mc_%s == %s\n" % (k, v))
            f.write("====\n")
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write(cfg + "\n")
            for k in (constants or {}):
                f.write("CONSTANT %s <- mc_%s\n" % (k, k))
        cmd = ["java", "-XX:+UseSerialGC" if simulate else "-XX:+UseParallelGC", "-Xmx" + ("1g" if simulate else heap), "-Xss64m", "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers or (1 if simulate else NCPU))]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed if seed is None else seed)]
        else:
            cmd += ["-fpmem", ".1"]
        cmd += ["-config", "MC.cfg", "MC.tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % (label or module))
        records, rest = [], []
        for line in r.stdout.decode("utf-8", "replace").split("\n"):
            if line.startswith('"@'):
                s = json.loads(line)
                records.append((s[1], s[3:]))
            else:
                rest.append(line)
        text = "\n".join(rest)
        ok = r.returncode == 0
        st = dict(module=label or module, generated=0, distinct=0, wall=round(time.time() - t, 1),
                  records=len(records), mode="simulate" if simulate else "exhaustive")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            st["generated"], st["distinct"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", text)
        if m:
            st["generated"] = st["distinct"] = int(m.group(1))
        st["ok"] = ok
        if expect_ok:
            if not ok:
                noise = ("Parsing file", "Semantic processing", "Linting", "Starting", "TLC2", "Running")
                text = "\n".join(l for l in rest if not l.startswith(noise))
                sys.stdout.write(text[-6000:] + "\n")
                raise CheckError("TLC failed on %s (exit %s)" % (label or module, r.returncode))
            if not quiet:
                self.states += st["distinct"]
                self.transitions += st["generated"]
                self.parts.append(st)
        else:
            st["text"] = text
        shutil.rmtree(d, ignore_errors=True)
        return records, st

    # -- replaying -----------------------------------------------------

    def replay(self, scenarios, kinds=None, budget=None, backends=("signalfd",), procs=NCPU,
               timeout=45, stop_after=2, label="", all_kinds=False, sample=2):
        """Runs each scenario (a dict with "mod") on the real code; collects
        confirmed failures of the given kinds."""
        if self.failures and len(self.failures) >= stop_after:
            return
        scenarios = list(scenarios)
        for i, s in enumerate(scenarios):
            s.setdefault("backend", backends[i % len(backends)])
            if kinds is not None: s.setdefault("kinds", sorted(kinds))
        for s in scenarios[:sample]:
            self.samples.append(s)
        pool = Pool(self, procs, timeout)
        t = time.time()
        done, failed, steps = pool.run(scenarios, kinds, budget, stop_after)
        self.traces += done
        self.steps += steps
        self.parts.append(dict(replay=label, scenarios=len(scenarios), replayed=done, steps=steps,
                               inconclusive=pool.inconclusive, wall=round(time.time() - t, 1)))
        self.inconclusive += pool.inconclusive
        known = load_known(self.prop)
        for s, r in failed:
            k = match_known(known, s, r)
            if k: self.known_hits.append(k)
            else: self.failures.append((s, r))

    # -- verdict ---------------------------------------------------------

    def finish(self, extra=None):
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        violations = 0
        lines = []
        for scn, fail in self.failures:
            violations += 1
            path = os.path.join(VERIF, "evidence", "replays", "%s-%d.json" % (self.prop, violations))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, scenario=scn, failure=fail), f, indent=1)
            print("--- %s: %s" % (self.prop, fail.get("msg", fail))[:3000])
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, path))
        for k in sorted(set(self.known_hits)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, steps_compared=self.steps,
                   inconclusive=self.inconclusive,
                   samples=[shorten(s) for s in self.samples[:6]], parts=self.parts)
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=violations)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d states, %d transitions, %d behaviours replayed on the code (%d steps), %d inconclusive, %d violations, %.1fs"
              % (self.prop, self.states, self.transitions, self.traces, self.steps, self.inconclusive,
                 violations, time.time() - self.t0))
        for line in lines:
            print(line)
        return 1 if violations else 0


def shorten(x, n=3000):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f) if k.get("property") == prop and k.get("status") == "known"]


def match_known(known, scn, fail):
    for k in known:
        if k.get("scenario_key") is not None and k["scenario_key"] == scn.get("key"):
            if re.search(k.get("message", ""), fail.get("msg", "")):
                return k["what"]
    return None


class Worker:
    """One process running real code."""
    def __init__(self, ctx, no, backend):
        self.ctx, self.backend = ctx, backend
        self.dir = tempfile.mkdtemp(prefix="w%d-" % no, dir=ctx.scratch)
        for sub in ("work", "home", "tmp", "bin"):
            os.mkdir(os.path.join(self.dir, sub))
        os.chmod(os.path.join(self.dir, "tmp"), 0o777)
        a, b = socket.socketpair()
        self.sock = a
        env = dict(PATH=os.path.join(self.dir, "bin") + ":/usr/local/bin:/usr/bin:/bin",
                   HOME=os.path.join(self.dir, "home"), TMPDIR=os.path.join(self.dir, "tmp"),
                   LANG="C.UTF-8", LC_ALL="C.UTF-8", TERM="dumb", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", VERIF_ACTOR=os.path.join(ctx.scratch, "actor"),
                   VERIF_DIR=self.dir, VERIF_SOCK=str(b.fileno()), VERIF_BACKEND=backend,
                   VERIF_HARNESS=HERE, VERIF_REPO=REPO)
        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_NOFILE, (256, 256))
            hard = resource.getrlimit(resource.RLIMIT_CORE)[1]
            resource.setrlimit(resource.RLIMIT_CORE, (0, 8 << 20 if hard == resource.RLIM_INFINITY else min(hard, 8 << 20)))
            os.umask(0o022)
            # Whatever the one who runs the checks ignores
            for signo in range(1, 32):
                if signo not in (signal.SIGKILL, signal.SIGSTOP): signal.signal(signo, signal.SIG_DFL)
            signal.pthread_sigmask(signal.SIG_SETMASK, [])
        self.log = open(os.path.join(self.dir, "log"), "w")
        self.proc = subprocess.Popen([PY, os.path.join(HERE, "driver.py")], env=env,
                                     stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
                                     cwd=os.path.join(self.dir, "work"), pass_fds=(b.fileno(),),
                                     preexec_fn=pre)
        b.close()
        self.buf = b""

    def call(self, msg, timeout):
        try:
            self.sock.sendall(json.dumps(msg).encode() + b"\n")
            self.sock.settimeout(timeout)
            while b"\n" not in self.buf:
                d = self.sock.recv(1 << 16)
                if not d:
                    return dict(ok=False, kind="crash", msg="worker died: " + self.tail())
                self.buf += d
        except socket.timeout:
            return dict(ok=False, kind="hang", msg="no answer within %ss: %s" % (timeout, self.tail()))
        except OSError as e:
            return dict(ok=False, kind="crash", msg="worker died: %s %s" % (e, self.tail()))
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def tail(self):
        try:
            with open(os.path.join(self.dir, "log"), errors="replace") as f:
                return f.read()[-1500:]
        except OSError:
            return ""

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.sock.close()
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Pool:
    def __init__(self, ctx, procs, timeout):
        self.ctx, self.procs, self.timeout = ctx, procs, timeout
        self.inconclusive = 0
        self.lock = threading.Lock()

    def run(self, scenarios, kinds, budget, stop_after):
        todo = {}
        for s in scenarios:
            todo.setdefault(s["backend"], queue.Queue()).put(s)
        names = sorted(todo)
        deadline = time.time() + budget if budget else None
        failed, counts, errors = [], [0, 0], []
        suspects = []
        relevant = lambda r: not r.get("ok") and (kinds is None or r.get("kind") in kinds)

        def work(no):
            w = None
            ran = 0
            try:
                while True:
                    if deadline and time.time() > deadline: break
                    with self.lock:
                        if len(failed) + len(suspects) >= max(6, 2 * stop_after): break
                    s = None
                    for k in range(len(names)):     # as few changes of backend as possible
                        try: s = todo[names[(no + k) % len(names)]].get_nowait(); break
                        except queue.Empty: continue
                    if s is None: break
                    if w is not None and w.backend != s["backend"]:
                        w.kill(); w = None
                    if w is None:
                        w = Worker(self.ctx, no, s["backend"]); ran = 0
                    r = w.call(s, self.timeout)
                    ran += 1
                    if r.get("ok"):
                        with self.lock:
                            counts[0] += 1; counts[1] += r.get("steps", 1)
                        if ran > 150:
                            w.kill(); w = None
                        continue
                    w.kill(); w = None
                    if r.get("kind") == "machinery":
                        with self.lock: errors.append(r)
                        break
                    if not relevant(r):
                        with self.lock: self.inconclusive += 1
                        continue
                    with self.lock: suspects.append((s, r))
            except Exception:
                with self.lock: errors.append(dict(msg=traceback.format_exc()))
            finally:
                if w is not None: w.kill()
        # keep scenarios for one backend together
        threads = [threading.Thread(target=work, args=(i,)) for i in range(self.procs)]
        for t in threads: t.start()
        for t in threads: t.join()
        if errors:
            raise CheckError("harness error: " + str(errors[0].get("msg")))
        # A failure counts only when it can be reproduced in a fresh, otherwise idle process.
        for s, r in suspects:
            if len(failed) >= stop_after or (failed and time.time() - self.ctx.t0 > 200): break
            for attempt in range(3):
                w = Worker(self.ctx, 99, s["backend"])
                try:
                    r2 = w.call(s, self.timeout * 1.3)
                finally:
                    w.kill()
                if relevant(r2):
                    failed.append((s, r2))
                    break
            else:
                self.inconclusive += 1
                self.ctx.parts.append(dict(not_reproduced=r.get("msg", "")[:500]))
        return counts[0], failed, counts[1]


# -- state graphs ----------------------------------------------------------

class Graph:
    """Labelled transitions printed by TLC as {"s":..,"a":..,"t":..}."""
    def __init__(self, records, tag="E"):
        self.ids, self.states, self.out = {}, [], []
        self.nedges = 0
        seen = set()
        for t, text in records:
            if t != tag or text in seen: continue
            seen.add(text)
            e = json.loads(text)
            s, d = self.id(e["s"]), self.id(e["t"])
            self.out[s].append((e["a"], d)); self.nedges += 1
        targets = set(d for o in self.out for _, d in o)
        self.inits = [i for i in range(len(self.states)) if i not in targets]

    def id(self, st):
        k = json.dumps(st, sort_keys=True)
        if k not in self.ids:
            self.ids[k] = len(self.states); self.states.append(st); self.out.append([])
        return self.ids[k]

    def cover(self, rng, maxlen=60, limit=None, inits=None, complete=None):
        """Paths from initial states that together take every edge."""
        todo = [list(range(len(o))) for o in self.out]
        for l in todo: rng.shuffle(l)
        nleft = self.nedges
        inits = list(inits if inits is not None else self.inits) or [0]
        paths = []
        while nleft and (limit is None or len(paths) < limit):
            progress = False
            for init in inits:
                cur, path, new = init, [], 0
                while len(path) < maxlen:
                    if todo[cur]:
                        k = todo[cur].pop(); nleft -= 1; new += 1
                    else:
                        nxt = self._toward(cur, todo, maxlen - len(path))
                        if nxt is None: break
                        for kk in nxt[:-1]:
                            a, d = self.out[cur][kk]; path.append((a, d)); cur = d
                        k = nxt[-1]
                    a, d = self.out[cur][k]; path.append((a, d)); cur = d
                if new:
                    # run on to a terminal state
                    while self.out[cur] and len(path) < 3 * maxlen:
                        a, d = rng.choice(self.out[cur])
                        path.append((a, d)); cur = d
                    paths.append((init, path)); progress = True
                if limit is not None and len(paths) >= limit: break
            if not progress: break
        return paths

    def _toward(self, start, todo, bound):
        """Shortest edge sequence from start to a state with edges to do."""
        seen, frontier = {start}, [(start, ())]
        for _ in range(bound):
            nxt = []
            for st, p in frontier:
                for k, (a, d) in enumerate(self.out[st]):
                    if d in seen: continue
                    if todo[d]: return list(p) + [k]
                    seen.add(d); nxt.append((d, p + (k,)))
            if not nxt: return None
            frontier = nxt
        return None


def main(checks):
    """check.py <property> [--tier T] [--replay file]"""
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(2))
    try:
        ctx = Ctx(a.prop, a.tier, seed)
        if a.replay:
            with open(a.replay) as f: s = json.load(f)["scenario"]
            w = Worker(ctx, 0, s.get("backend", "signalfd"))
            try: print(json.dumps(w.call(s, 120), indent=1)); print(w.tail())
            finally: w.kill()
            return 0
        extra = checks[a.prop](ctx)
        rc = ctx.finish(extra)
    except CheckError as e:
        print("ERROR of the check itself: %s" % e)
        rc = 2
    sys.stdout.flush()
    return rc
