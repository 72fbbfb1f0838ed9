"""Replays behaviours of Jobs.tla: stages end, are stopped and continued, tasks
wait, Ctrl-Z and Ctrl-C are pressed, exactly when the behaviour says so
relative to the turns of the event loop."""
import asyncio, os, random, signal, time
import pieshell
from pieshell.pipeline.function import Function
from pieshell.pipeline.running import PipelineFailed, PipelineInterrupted, PipelineSuspended
from drv import *
from drv_plumbing import Stage

real_kill = os.kill
NOW = {"start", "nothing", "die", "dieall", "signal", "stopall", "suspend", "resume"}    # the shell gets no chance to notice anything

class Run:
    def __init__(self, scn):
        self.scn, self.b = scn, scn["b"]
        self.rng = random.Random(scn["seed"])
        self.world = World()
        self.env = self.world.env(interactive=True)
        self.pl = self.b["pl"]
        self.kind, self.root, self.members = {}, {}, {}
        i = 0
        for r, stages in enumerate(self.pl, 1):
            self.members[r] = []
            for k in stages:
                i += 1
                self.kind[i], self.root[i] = k, r
                self.members[r].append(i)
        self.py = {i: Stage(i, "fn") for i, k in self.kind.items() if k == "fn"}
        self.pipes = {r: self.build(r) for r in self.members}
        self.res = Resources(self.world)
        self.running, self.proc, self.pid = {}, {}, {}
        self.tasks, self.results = {}, {}
        self.badkill = []
        self.fg_done = self.fg_error = None
        self.codes = {}

    def build(self, r):
        p = None
        for i in self.members[r]:
            k = self.kind[i]
            s = (self.env.actor("J%d" % i) if k == "cmd" else
                 getattr(self.env, "no_such_command_%d" % i) if k == "bad" else
                 Function(self.env, self.py[i].function(0)))
            if p is None: p = s
            elif self.rng.random() < .5: p = p + s
            else: p = p | s
        return p

    # -- the shell must only signal what is there --------------------------

    def kill(self, pid, sig):
        if proc_ppid(pid) != os.getpid() and pid != os.getpid():
            self.badkill.append((pid, sig))
            return
        return real_kill(pid, sig)

    # -- steps without any turn of the event loop -------------------------------

    def began(self, r, running):
        self.running[r] = running
        procs = running.processes
        if len(procs) != len(self.members[r]):
            raise Mismatch("status", "pipeline %d has %d processes instead of %d" % (r, len(procs), len(self.members[r])))
        for i, p in zip(self.members[r], procs): self.proc[i] = p
        for i in self.members[r]:
            if self.kind[i] != "fn": self.pid[i] = self.proc[i].pid

    def now(self, a):
        t = a["t"]
        if t == "start":
            p = self.pipes[a["r"]]
            self.began(a["r"], [lambda: p.run(), lambda: ~p][self.rng.randrange(2)]())
        elif t == "die":
            i, how = a["i"], a["how"]
            if self.kind[i] == "fn":
                self.py[i].todo.append(("finish",) if how == "ok" else ("fail",))
            elif how == "kill": real_kill(self.pid[i], signal.SIGKILL)
            else:
                self.world.by_pid[self.pid[i]].post("Q %d" % (0 if how == "ok" else 1 + i % 3))
        elif t == "signal":
            st = self.os_state(a["i"])
            real_kill(self.pid[a["i"]], signal.SIGSTOP if st == "run" else signal.SIGCONT)
        elif t in ("dieall", "stopall"):
            do = [(i, how) for i, how in enumerate(a["all"], 1) if how != "no"]
            self.rng.shuffle(do)
            for i, how in do:
                self.now(dict(t="signal", i=i) if how == "signal" else dict(t="die", i=i, how=how))
        elif t == "nothing":
            before = len(self.env.running_pipelines)
            p = getattr(self.env, a["k"])
            if self.rng.random() < .3: p = p()
            try: p.run()
            except PipelineFailed: raise Mismatch("os", "%s ran something, though there is nothing to continue" % a["k"])
            except Exception as e:
                if not str(e): raise Mismatch("os", "%s does not say that there is nothing to continue" % a["k"])
            else: raise Mismatch("os", "%s does not say that there is nothing to continue" % a["k"])
            if len(self.env.running_pipelines) != before: raise Mismatch("os", "%s runs something, though there is nothing to continue" % a["k"])
        elif t == "suspend":
            self.running[a["r"]].suspend()
        elif t == "resume":
            if a["k"] == "restart": self.running[a["r"]].restart()
            elif a["k"] == "bg": self.do_bg(self.env.bg)
            else: self.do_bg(self.env.bg(self.running[a["r"]]))
    def do_bg(self, p):
        p.run()

    def os_state(self, i):
        if i not in self.pid: return "none"
        s = proc_state(self.pid[i])
        return {"T": "stop", "t": "stop", "Z": "zombie", "X": "gone", "gone": "gone"}.get(s, "run")

    def check_os(self, o, a, strict=True):
        """The processes are as they should be; this takes no turn."""
        for i, want in enumerate(o["os"], 1):
            if self.kind[i] == "fn" or want == "none": continue
            if self.os_state(i) != want:
                end = time.time() + POSITIVE
                while self.os_state(i) != want:
                    if time.time() > end or (want == "run" and self.os_state(i) in ("zombie", "gone")) \
                            or self.os_state(i) == "gone":
                        raise Mismatch("os", "process %d is %s instead of %s" % (i, self.os_state(i), want))
                    self.world.poll(1)

    def check_alive(self):
        """Everybody who starts a stage waits until it reports."""
        for i, pid in self.pid.items():
            if self.kind[i] == "cmd" and pid not in self.world.by_pid:
                end = time.time() + POSITIVE
                while pid not in self.world.by_pid:
                    self.world.poll(2)
                    if time.time() > end: raise Mismatch("start", "stage %d did not start" % i)

    # -- steps with turns (inside a running loop) ---------------------------------

    async def turns(self, n=8):
        for k in range(n):
            self.world.poll(0)
            await asyncio.sleep(0)

    async def until(self, cond, what, kind):
        end = None
        while not cond():
            await self.turns(2)
            if cond(): return
            if end is None: end = time.time() + POSITIVE
            elif time.time() > end: raise Mismatch(kind, "waited for " + (what() if callable(what) else what))
            self.world.poll(1)

    async def later(self, a):
        t = a["t"]
        if t == "turn": pass
        elif t == "wait":
            r = self.running[a["r"]]
            async def obj(): return await r
            self.tasks[a["w"]] = asyncio.ensure_future(r.wait() if a["k"] == "wait" else obj())
            self.what[a["w"]] = a["r"]
            await self.turns(3)
        elif t == "run" and a["k"] == "await":
            p = self.pipes[a["r"]]
            async def run(): return await p
            self.tasks[a["w"]] = asyncio.ensure_future(run())
            self.what[a["w"]] = a["r"]
            await self.turns(1)
            if self.tasks[a["w"]].done() and self.tasks[a["w"]].exception() is not None:
                if not isinstance(self.tasks[a["w"]].exception(), PipelineFailed): self.tasks[a["w"]].result()
            self.began(a["r"], self.env.last_pipeline)
        elif t == "cancel":
            self.tasks[a["w"]].cancel()
        elif t == "ctrlz":
            real_kill(os.getpid(), signal.SIGTSTP)
        elif t == "ctrlc":
            asyncio.get_event_loop().call_soon(real_kill, os.getpid(), signal.SIGINT)
        await self.turns()

    def seen(self, i):
        return i in self.proc and not self.proc[i].is_running

    def result(self, w):
        if w in self.results: return self.results[w]
        t = self.tasks[w]
        if not t.done(): return "pend"
        if t.cancelled(): return "cancel"
        try: v = t.result()
        except PipelineFailed as e: return self.failure(e, w)
        except PipelineSuspended as e:
            if e.pipeline is not self.running[self.what[w]]:
                raise Mismatch("os", "another pipeline was reported to be suspended")
            return "susp"
        except PipelineInterrupted: return "int"
        return "ok"

    def failure(self, e, w):
        if w not in self.fgs and e.pipeline is not self.running[self.what[w]]:
            raise Mismatch("status", "wait %d: failure of another pipeline reported" % w)
        self.failed[w] = [i for i, p in self.proc.items() if p in e.pipeline.failed_processes]
        if w not in self.fgs:
            want = [i for i in self.members[self.what[w]] if self.codes.get(i)]
            if self.failed[w] != want:
                raise Mismatch("status", "wait %d: failed stages %r reported instead of %r" % (w, self.failed[w], want))
        if not str(e):
            raise Mismatch("status", "wait %d: no description of the failure" % w)
        # It tells about those that failed, and about nobody else
        text, whole = str(e), repr(e.pipeline)
        for i, p in self.proc.items():
            if self.kind[i] == "fn" or w in self.fgs: continue
            name = " as %s " % p.pid
            more = text.count(name) - whole.count(name)
            if (more > 0) != (i in self.failed[w]):
                soft("status", "wait %d: stages %s failed, but stage %d is described %d times: %s" % (w, self.failed[w], i, more, text[-400:]))
        return "fail"

    def pairs(self, o, now):
        """What the shell should know, and what it knows."""
        for i, s in enumerate(o["seen"], 1):
            yield "status", "stage %d: end noticed" % i, s, self.seen(i), s
        for i, s in enumerate(o["os"], 1):
            if not now and i in self.proc and self.kind[i] != "fn" and (o["seen"][i - 1] or s in ("run", "stop")):
                # What is displayed of it
                text = repr(self.proc[i]).split("\n")[0]
                code = o["code"][i - 1]
                got = "ended" if "exit_code=%s" % code in text else "stopped" if "status=" in text else "running" if "exit_code=" not in text else text
                want = {"run": "running", "stop": "stopped"}.get(s, "ended")
                if want == "ended" and self.kind[i] == "bad" and "exit_code=" in text: continue
                yield "status", "stage %d, displayed as %s" % (i, text), want, got, True
        for r, s in enumerate(o["run"], 1):
            if r in self.running:
                yield "status", "pipeline %d: is_running" % r, s, self.running[r].is_running, not s
                yield "status", "pipeline %d: listed as running" % r, s, self.running[r] in self.env.running_pipelines, not s
        for w, res in enumerate(o["ws"], 1):
            if w == o["fgw"]: continue
            if w not in self.tasks and w not in self.results: continue  # in the foreground; checked when it returns
            got = self.result(w)
            yield ("os" if "susp" in res or got == "susp" else "wait"), "outcome of wait %d (for pipeline %d)" % (w, self.what[w]), \
                "/".join(sorted(res)), got if got not in res else "/".join(sorted(res)), res != ["pend"]

    def check_shell(self, o, now=False):
        """now: what happened since the last turn might not be known"""
        for kind, what, want, got, positive in self.pairs(o, now):
            if want != got: return kind, "%s: %s instead of %s" % (what, got, want), positive
        return None

    def check_codes(self, o):
        for i, s in enumerate(o["seen"], 1):
            if s:
                c = o["code"][i - 1]
                if self.kind[i] == "fn": got = 9 if self.proc[i].is_failed else 0; c = 9 if c else 0
                else:
                    got = self.proc[i].exit_code
                    if self.proc[i].is_failed != bool(c):
                        soft("status", "stage %d with exit status %d: is_failed is %r" % (i, c, self.proc[i].is_failed))
                    if self.kind[i] == "bad": got = c if got else 0
                if got != c: soft("status", "stage %d: exit status %r instead of %r" % (i, got, c))
        for r in self.running:
            if not o["run"][r - 1]:
                if self.running[r].running_processes: soft("status", "pipeline %d ended, and %s run" % (r, self.running[r].running_processes))
                bad = any(o["code"][i - 1] for i in self.members[r])
                if self.running[r].is_failed != bad: soft("status", "pipeline %d: is_failed is %r" % (r, not bad))
                want = [i for i in self.members[r] if o["code"][i - 1]]
                got = [i for i in self.members[r] if self.proc[i] in self.running[r].failed_processes]
                if want != got: soft("status", "pipeline %d: failed processes %r instead of %r" % (r, got, want))
        if self.badkill:
            soft("os", "signal sent to a process that is not (or no longer) a child: %r" % (self.badkill,))

    def learn(self, o):
        for i, c in enumerate(o["code"], 1):
            if c: self.codes[i] = c

    def observe_now(self, o, a):
        self.learn(o)
        self.check_alive()
        self.check_os(o, a)
        bad = self.check_shell(o, True)
        if bad and bad[0] is not None: soft(bad[0], bad[1])
        self.check_codes(o)

    async def observe(self, o, a):
        self.learn(o)
        self.check_alive()
        def fine(): return self.check_shell(o) is None
        end = None
        while True:
            bad = self.check_shell(o)
            if bad is None: break
            await self.turns(4)
            self.world.poll(1)
            if end is None: end = time.time() + (POSITIVE if bad[2] else 1)
            elif time.time() > end:
                soft(bad[0], bad[1])
                break
        await self.turns(4)
        bad = self.check_shell(o)
        if bad: soft(bad[0], bad[1])
        self.check_os(o, a)
        self.check_codes(o)

    # -- the whole behaviour ---------------------------------------------------------

    def at(self, k, f, *args):
        try: return f(*args)
        except Mismatch as e:
            self.locate(k, e); raise
    def locate(self, k, e):
        if not e.args[0].startswith("step "):
            e.args = ("step %d (%s): %s" % (k + 1, self.steps[k]["a"], e.args[0]),)
            e.step = k

    async def script(self, k):
        """Steps after k while something runs in the foreground."""
        try:
            first = k
            while True:
                s = self.steps[k]
                if k > first:
                    if s["a"]["t"] in NOW: self.now(s["a"])
                    else: await self.later(s["a"])
                elif s["a"]["t"] == "run":
                    self.began(s["a"]["r"], self.env.last_pipeline)
                if s["o"]["fgw"] == 0: break
                if s["a"]["t"] in NOW and k > first: self.observe_now(s["o"], s["a"])
                else: await self.observe(s["o"], s["a"])
                k += 1
            self.last_step = k
            await self.until(lambda: self.fg_done, "the foreground pipeline to return (after step %d)" % (k + 1), "wait")
        except Mismatch as e:
            self.locate(k, e)
            self.fg_error = e
            asyncio.get_event_loop().stop()
        except Exception as e:
            self.fg_error = e
            asyncio.get_event_loop().stop()

    def foreground(self, k):
        a = self.steps[k]["a"]
        w = a["w"]
        self.what[w] = a["r"]
        self.last_step = None
        self.fg_done, self.fg_error = False, None
        l = loop()
        t = l.create_task(self.script(k))
        if a["t"] == "run": p = self.pipes[a["r"]]
        else:
            self.fgs.add(w)
            p = self.env.fg if a["k"] == "fg" else self.env.fg(self.running[a["r"]])
        err = None
        try:
            try:
                if self.rng.random() < .5: p.run_interactive()
                else: +p
                res = "ok"
            except PipelineFailed as e: res = "fail"; err = e
            except PipelineSuspended: res = "susp"
            except PipelineInterrupted as e:
                res = "int"
                if a["t"] == "run" and e.pipeline is not self.running[a["r"]]:
                    raise Mismatch("os", "another pipeline was reported to be interrupted")
            except RuntimeError:
                if self.fg_error: raise self.fg_error
                raise
            except KeyboardInterrupt:
                res = "KeyboardInterrupt"
        finally:
            self.fg_done = True
        if self.last_step is None and not self.fg_error:
            # let the script notice what it was waiting for
            for n in range(50):
                if self.last_step is not None or self.fg_error or t.done(): break
                turn()
            if self.last_step is None:
                t.cancel(); turn()
                raise Mismatch("wait", "the foreground pipeline of step %d returned too early (%s)" % (k + 1, res))
        l.run_until_complete(t)
        if self.fg_error: raise self.fg_error
        self.results[w] = "pend"
        k = self.last_step
        if err is not None: self.learn(self.steps[k]["o"]); res = self.at(k, self.failure, err, w)
        self.results[w] = res
        self.at(k, lambda: l.run_until_complete(self.observe(self.steps[k]["o"], self.steps[k]["a"])))
        return k

    def run(self):
        self.steps = self.b["steps"]
        self.what, self.fgs, self.failed = {}, set(), {}
        l = loop()
        os.kill = self.kill
        self.world.cleanups.append(lambda: setattr(os, "kill", real_kill))
        k = 0
        while k < len(self.steps):
            s = self.steps[k]
            a = s["a"]
            if a["t"] == "fg" or (a["t"] == "run" and a["k"] == "pos"):
                k = self.foreground(k)
            elif a["t"] in NOW:
                self.at(k, self.now, a)
                self.at(k, self.observe_now, s["o"], a)
            else:
                self.at(k, lambda: l.run_until_complete(self.later(a)))
                self.at(k, lambda: l.run_until_complete(self.observe(s["o"], a)))
            k += 1
        self.res.check(self.env)
        return len(self.steps)


def run(scn):
    r = Run(scn)
    try:
        return dict(ok=True, steps=r.run())
    finally:
        os.kill = real_kill
        for t in r.tasks.values():
            if not t.done(): t.cancel()
        r.world.close()
