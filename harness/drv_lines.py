"""Replays behaviours of Lines.tla: a stage writes text in the chunks of the
behaviour, and the reader asks for it when the behaviour says so."""
import asyncio, os, random, threading, time
import pieshell
from pieshell.pipeline.function import Function
from drv import *
from drv_plumbing import Stage, brief

ENDS = ["\r", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029", "\r\r"]
CHARS = ["å", "€", "→", "𝄞", "\ufeff", "\u0301", "\U0010ffff", "\xa0"]
TEXT = ["a", "%", " ", "\\", "'", '"', "{}", "-", "$x", "\t", "0", "\x01", "~", "*", "abc"]

class Symbols:
    """What the symbols of one behaviour stand for; the n:th symbol always the same."""
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.k = 0
        self.rest = b""
    def chunk(self, ch):
        return b"".join(self.one(s) for s in ch)
    def one(self, s):
        r = self.rng
        if s == "n": return b"\n"
        if s == "x": return r.choice(TEXT).encode()
        if s == "r": return r.choice(ENDS).encode()
        if s == "z": return b"\0"
        if s == "i": return r.choice([b"\xff", b"\x80", b"\xc3", b"\xed\xa0\x80"])
        if s == "B": return b"b" * (r.choice([512, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9000])
                                    - r.choice([0, 0, 1, 2]))
        if s == "u":
            b = r.choice(CHARS).encode()
            k = r.randrange(1, len(b))
            self.rest = b[k:]
            return b[:k]
        if s == "v":
            b, self.rest = self.rest, b""
            return b
        raise Machinery("symbol %r" % (s,))


class Run:
    def __init__(self, scn):
        self.scn, self.b = scn, scn["b"]
        self.rng = random.Random(scn["seed"])
        self.w, self.r = self.b["c"]["w"], self.b["c"]["r"]
        self.world = World()
        self.env = self.world.env()
        self.res = Resources(self.world)
        self.sym = Symbols(scn["seed"])

    def source(self):
        if self.w == "cmd": return self.env.actor("W")
        self.st = Stage(1, "fn")
        return Function(self.env, self.st.function(0) if self.rng.random() < .5 else self.st.iterator(self.rng.randrange(3)))

    def write(self, data):
        if self.w == "cmd":
            self.actor.call("W 1 " + data.hex())
        else:
            try: text = data.decode("utf-8") if self.rng.random() < .6 else data
            except UnicodeDecodeError: text = data
            self.st.todo.append(("write", text))
            self.world.wait(lambda: not self.st.todo, "the function to write")

    def close(self):
        if self.w == "cmd":
            if self.rng.random() < .5: self.actor.call("C 1")
            else: self.actor.post("Q 0")
            self.ending = True
        else: self.st.todo.append(("finish",))

    def run(self):
        w, steps = self.world, self.b["steps"]
        # what the symbols stand for is fixed by the order in which they are written
        chunks = [self.sym.chunk(s["a"]["ch"]) for s in steps if s["a"]["t"] == "write"]
        text = b"".join(c + (b"\n" if self.w == "fn" else b"") for c in chunks)
        if self.r == "sync": return self.sync(chunks, text)
        p = self.source()
        src = None
        if self.r == "fn":
            rd = Stage(2, "fn")
            p = p | Function(self.env, rd.function(0))
            src = p.__aiter__()
        elif self.r == "iter": it = p.__aiter__()
        else: it = p.run([pieshell.Redirect("stdout", pieshell.PIPE)]).iterbytes()
        running = self.env.last_pipeline
        if self.w == "cmd": self.actor = w.actor("W")
        pos, pending, got, k = 0, None, b"", 0
        held = None         # what came just before giving up
        troubles = []
        loop().set_exception_handler(lambda l, c: troubles.append(c) if "handle" in c else None)
        for n, s in enumerate(steps):
            a = s["a"]
            try:
                if a["t"] == "write":
                    self.write(chunks[k]); k += 1
                elif a["t"] == "close":
                    self.close()
                elif a["t"] == "ask":
                    if self.r == "fn": rd.todo.append(("ask",))
                    else: pending, held = held or asyncio.ensure_future(it.__anext__()), None
                elif a["t"] == "giveup":
                    if not pending.done():
                        pending.cancel()
                        w.wait(pending.done, "the reader to give up")
                    if not pending.cancelled(): held = pending
                    pending = None
                    if self.rng.random() < .3: w.settle(2)
                elif a["t"] == "got":
                    end = text.find(b"\n", pos)
                    want = text[pos:] if end < 0 else text[pos:end]
                    pos = len(text) if end < 0 else end + 1
                    v = self.result(rd if self.r == "fn" else pending, running)
                    if v != ("got", want.decode()):
                        raise Mismatch("data" if v[0] == "got" else "eof", "reader got %s instead of %s" % (brief(v), brief(want.decode())))
                    pending = None
                elif a["t"] == "bytes":
                    want = sum(len(c) for c in chunks[:k]) + (k if self.w == "fn" else 0)
                    while len(got) < want:
                        v = self.result(pending, running)
                        if v[0] != "got": raise Mismatch("eof", "reader got %s after %d of %d bytes" % (v[0], len(got), len(text)))
                        got += v[1]
                        if got != text[:len(got)]:
                            raise Mismatch("data", "reader got %s instead of %s" % (brief(got), brief(text[:len(got)])))
                        pending = asyncio.ensure_future(it.__anext__())
                elif a["t"] == "end":
                    if self.w == "cmd": self.actor.post("Q 0")
                    v = self.result(rd if self.r == "fn" else pending, running)
                    while v == ("got", b""):        # pieces have no meaning
                        pending = asyncio.ensure_future(it.__anext__())
                        v = self.result(pending, running)
                    if v != ("eof",): raise Mismatch("eof", "reader got %s instead of the end" % brief(v))
                    pending = None
                if troubles: raise Mismatch("data", "an error in the event loop: %s" % brief({k: str(v) for k, v in troubles[0].items()}))
                self.observe(s, steps[n + 1] if n + 1 < len(steps) else None, rd if self.r == "fn" else pending)
            except Mismatch as e:
                e.args = ("step %d (%s): %s" % (n + 1, a, e.args[0]),)
                raise
        if self.w == "cmd": self.actor.post("Q 0")
        if self.r == "fn":
            rd.todo.append(("finish",))
            async def rest(): return [x async for x in src]
            if w.run(rest(), "the pipeline to end") != []: raise Mismatch("data", "output out of nowhere")
        if self.r == "bytes" and got != text:
            raise Mismatch("data", "reader got %d of %d bytes" % (len(got), len(text)))
        w.wait(lambda: not running.is_running, "the pipeline to end")
        self.res.check(self.env)
        return len(steps)

    def result(self, x, running):
        w = self.world
        if isinstance(x, Stage):
            w.wait(lambda: x.got or not running.processes[1].is_running, "the function to get something")
            if not x.got: raise Mismatch("status", "the reading function ended: %r" % (running.processes[1].iohandler.exception,))
            return x.got.pop(0)
        w.wait(x.done, "the reader to get something")
        try: return "got", x.result()
        except StopAsyncIteration: return "eof",

    def observe(self, s, nxt, x):
        if nxt is None or nxt["a"]["t"] in ("got", "bytes", "end", "giveup"): return
        self.world.settle(2)
        early = (x.got if isinstance(x, Stage) else x is not None and x.done())
        if s["o"]["asked"] and early:
            raise Mismatch("eof", "the reader got %s too early" % brief(x.got[0] if isinstance(x, Stage) else self.result(x, None)))

    def sync(self, chunks, text):
        form = self.rng.choice(["list", "for", "str", "bytes"])
        p = self.source()
        w = self.world
        if self.w == "fn":
            for c in chunks: self.st.todo.append(("write", c))
            self.st.todo.append(("finish",))
        else:
            def feed():
                end = time.time() + POSITIVE
                while "W" not in w.by_tag and time.time() < end: w.poll(5)
                if "W" not in w.by_tag: return
                a = w.by_tag["W"][0]
                for c in chunks: a.post("W 1 " + c.hex())
                a.post("Q 0")
            t = threading.Thread(target=feed)
            t.start()
        try:
            if form == "list": got = list(p)
            elif form == "for":
                got = []
                for x in p: got.append(x)
            elif form == "str": got = str(p)
            else: got = bytes(p)
        finally:
            if self.w == "cmd": t.join()
        lines = text.split(b"\n")
        if not lines[-1]: lines.pop()
        want = {"list": [l.decode() for l in lines], "for": [l.decode() for l in lines], "str": text.decode(), "bytes": text}[form]
        if got != want: raise Mismatch("data", "%s: %s instead of %s" % (form, brief(got), brief(want)))
        self.res.check(self.env)
        return len(self.b["steps"])


def run(scn):
    r = Run(scn)
    try: return dict(ok=True, steps=r.run())
    finally:
        loop().set_exception_handler(None)
        r.world.close()
