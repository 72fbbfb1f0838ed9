#!/usr/bin/env python3
"""check.py <property>: decides one property; see DESIGN.md."""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

CHECKS = {}
def check(name):
    def register(f):
        CHECKS[name] = f
        return f
    return register

BROKEN = {"crash", "exception", "hang"}     # breaks whatever was to be shown
BOTH = ("signalfd", "asyncio")

def scaled(ctx, quick, thorough): return thorough if ctx.thorough else quick

# -- Plumbing.tla -----------------------------------------------------------

PLUMB_INV = "INVARIANTS QueueOK NoHang EndOK NothingHeld"

def plumbing(ctx, progs, n, kinds, budget, backends=BOTH, maxitems=3, minlen=15, label="plumbing"):
    recs, st = ctx.tlc("Plumbing", "INIT Init\nNEXT Next\n%s Emit\nCHECK_DEADLOCK FALSE" % PLUMB_INV,
                       dict(Programs=progs, MaxItems=str(maxitems), Rec="TRUE", MinLen=str(minlen)), simulate=n,
                       label="Plumbing (behaviours)")
    scn = [dict(mod="plumbing", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=backends, label=label)

def deep(ctx, n=60, sizes=(4, 4, 5), mode=None):
    """Random pipelines of more stages"""
    rng = random.Random(ctx.seed * 31 + 7)
    def expr(k):
        if k == 1: return rng.choice(["Cmd", "Cmd", "Cmd", "Fn", "Fn", "Gen"])
        if rng.random() < .15:
            cut = rng.randrange(k)
            if 0 < cut < k - 1: return "CmdA(<<%s, %s>>)" % (expr(cut), expr(k - 1 - cut))
            return "CmdA(<<%s>>)" % expr(k - 1)
        cut = rng.randrange(1, k)
        return "%s(%s, %s)" % (rng.choice(["Pipe", "Pipe", "Grp"]), expr(cut), expr(k - cut))
    return "SelectSeq(<<%s>>, LAMBDA x : WellFormed(WireProgram(x)))" % ", ".join(
        "<<%s(%s)>>" % (mode or rng.choice(["Iter", "Iter", "Wait"]), expr(rng.choice(sizes))) for k in range(n * 3))

DEEPEST = "<<<<Iter(Pipe(Cmd, Pipe(Cmd, Pipe(Cmd, Cmd))))>>, <<Iter(Pipe(Cmd, Pipe(Fn, Pipe(Cmd, Fn))))>>, <<Iter(Pipe(Gen, Pipe(Cmd, Grp(Cmd, Cmd))))>>, <<Iter(Pipe(Grp(Cmd, Pipe(Cmd, Cmd)), Pipe(Cmd, Cmd)))>>, <<Wait(Pipe(Pipe(Pipe(Cmd, Fn), Cmd), Cmd))>>, <<Iter(Grp(Pipe(Cmd, Pipe(Cmd, Cmd)), Pipe(Pipe(Cmd, Cmd), Fn)))>>>>"

def plumbing_model(ctx, progs, maxitems=1):
    """exhaustively: every order of everything"""
    ctx.tlc("Plumbing", "INIT Init\nNEXT NextD\n%s" % PLUMB_INV,
            dict(Programs=progs, MaxItems=str(maxitems), Rec="FALSE", MinLen="0"), label="Plumbing (all orders)")

# -- Jobs.tla -----------------------------------------------------------------

JOBS_INV = "INVARIANTS WaitOK NoneForgotten"
JOBS = [["cmd"], ["cmd", "cmd"], ["cmd", "fn"], ["bad", "cmd"], ["cmd", "cmd", "cmd"], ["fn", "cmd"]]

def tla(x):
    if isinstance(x, str): return json.dumps(x)
    if isinstance(x, bool): return "TRUE" if x else "FALSE"
    if isinstance(x, int): return str(x)
    return "<<" + ", ".join(map(tla, x)) + ">>"

def jobs(ctx, n, kinds, budget, configs, maxwait=4, minlen=15, label="jobs"):
    recs, st = ctx.tlc("Jobs", "INIT Init\nNEXT Next\n%s Emit\nCHECK_DEADLOCK FALSE" % JOBS_INV,
                       dict(Configs=tla(configs), MaxWait=str(maxwait), Rec="TRUE", MinLen=str(minlen)), simulate=n,
                       label="Jobs (behaviours)")
    scn = [dict(mod="jobs", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label=label)

def jobs_model(ctx):
    for configs, maxwait in scaled(ctx,
            [([[["cmd", "cmd"]], [["cmd"], ["cmd"]]], 2), ([[["cmd", "fn"], ["bad", "cmd"]]], 1)],
            [([[["cmd", "cmd"]], [["cmd"], ["cmd"]]], 3), ([[["cmd", "fn"], ["bad", "cmd"]]], 2),
             ([[["cmd", "cmd", "cmd"]]], 3)]):
        ctx.tlc("Jobs", "SPECIFICATION Spec\n%s\nPROPERTIES Noticed OnlyThat SuspendStopsAll ResumeContinuesAll\n"
                "CHECK_DEADLOCK FALSE" % JOBS_INV,
                dict(Configs=tla(configs), MaxWait=str(maxwait), Rec="FALSE", MinLen="0"), label="Jobs (all orders)", timeout=3000, heap="12g")

SINGLE = [[j] for j in JOBS]
PAIRS = [[a, b] for a in JOBS for b in JOBS]
CROWDS = [[["cmd"] * 12], [["cmd"] * 9, ["cmd", "cmd"]], [["cmd", "fn"] * 5], [["cmd"] * 4, ["cmd"] * 3, ["cmd", "fn", "cmd"]], [["cmd"] * 5 + ["bad"] + ["cmd"] * 5]]

# -- Lines.tla ------------------------------------------------------------------

LINES_INV = "INVARIANTS Complete LinesAreLines AllAtEnd"
LINES = "<<%s>>" % ", ".join('[w |-> "%s", r |-> "%s"]' % (w, r) for w in ("cmd", "fn") for r in ("iter", "fn", "bytes", "sync"))

def lines(ctx, n, kinds, budget):
    ctx.tlc("Lines", "INIT Init\nNEXT NextD\n" + LINES_INV,
            dict(Configs=LINES, MaxLen=scaled(ctx, "4", "5"), MaxChunk=scaled(ctx, "2", "3"), Rec="FALSE", MinLen="0"),
            label="Lines (all texts, all chunks)")
    recs, st = ctx.tlc("Lines", "INIT Init\nNEXT Next\n%s Emit\nCHECK_DEADLOCK FALSE" % LINES_INV,
                       dict(Configs=LINES, MaxLen="30", MaxChunk="4", Rec="TRUE", MinLen="6"), simulate=n, label="Lines (behaviours)")
    scn = [dict(mod="lines", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="lines")

# -- Flow.tla -------------------------------------------------------------------

FLOW = ["copy", "dup", "head", "rev", "drop", "none", "skip", "add"]

def flow(ctx, n, kinds, budget, together=(1, 1, 2, 3), lanes=None, label="flow"):
    def rec(x): return "[n |-> %d, st |-> <<%s>>]" % (x["n"], ", ".join('[k |-> "%s", m |-> %d]' % (s["k"], s["m"]) for s in x["st"]))
    def seq(xs): return "<<" + ", ".join(map(rec, xs)) + ">>"
    shapes = [(a,) for a in FLOW] + [(a, b) for a in FLOW for b in FLOW]
    if ctx.thorough: shapes += [(a, b, c) for a in FLOW for b in FLOW for c in FLOW]
    small = [dict(n=m, st=[dict(k=k, m=1) for k in ks]) for m in (0, 2) for ks in shapes]
    rng = random.Random(ctx.seed)
    if lanes: small = small[:1]
    big = [dict(n=rng.choice([0, 1, 2, 7, 40, 300] if not lanes else [0, 1, 2, 2, 7]),
                st=[dict(k=rng.choice(FLOW[:1] * 4 + FLOW), m=rng.choice([0, 1, 2, 10])) for k in range(rng.choice([1, 1, 2, 2, 3, 4] if not lanes else [1, 1, 2]))])
           for i in range(n)]
    told = 0
    for k in range(0, n, 1500):
        recs, st = ctx.tlc("Flow", "SPECIFICATION Spec\nINVARIANTS SameResult InOrder BrokenOnlyIf\nPROPERTY Terminates",
                           dict(Chains=seq(small if k == 0 else small[:1]), Cap=scaled(ctx, "1", "2"), Wanted=seq(big[k:k + 1500])),
                           label="Flow (all interleavings)")
        for t, x in recs:
            x = json.loads(x)
            big[k + x["w"] - 1].update(out=x["out"], maybreak=x["maybreak"]); told += 1
    scn, i = [], 0
    while i < len(big):
        k = rng.choice(together)
        scn.append(dict(mod="flow", chains=big[i:i + k], seed=ctx.seed * 7919 + i, lanes=lanes)); i += k
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label=label)

# -- FdSetup.tla ------------------------------------------------------------------

FD_INV = "INVARIANTS AlgoOK Exactly OwnKept NotRun"
ALL_INTS, ALL_PATHS, SPECIALS = "{0, 1, 2, 100, 101, 102, 103, 104}", '{"A", "B", "N", "NX", "M", "U", "DIR"}', '{"TMP", "STRING", "PIPEr", "PIPEw"}'

def fdsetup_model(ctx):
    """all combinations of some redirections of colliding descriptors, made in any order"""
    for targets, ints, paths, m in scaled(ctx,
            [("{0, 1, 100}", "{0, 100, 101, 104}", '{"A"}', 3)],
            [("{0, 1, 3, 100, 101}", "{0, 1, 100, 101, 104}", '{"A"}', 3), ("{0, 1, 2, 100}", "{0, 1, 100}", '{}', 4)]):
        ctx.tlc("FdSetup", "INIT Init\nNEXT NextD\n" + FD_INV,
                dict(Targets=targets, Ints=ints, Paths=paths, Specials='{}', Perms='{511}', MaxRed=str(m), MaxIO="0", Rec="FALSE", MinLen="0",
                     Levels='<<"run">>'), label="FdSetup (all combinations)", timeout=3000)
    ctx.tlc("FdSetup", "INIT Init\nNEXT NextD\n" + FD_INV,
            dict(Targets="{1, 100}", Ints="{100, 104}", Paths='{"A", "U"}', Specials=SPECIALS, Perms='{511}', MaxRed="2", MaxIO=scaled(ctx, "1", "2"),
                 Rec="FALSE", MinLen="0", Levels='<<"env", "run", "chain">>'), label="FdSetup (levels, reading and writing)", timeout=3000)

def fdsetup(ctx, n, kinds, budget):
    recs, st = ctx.tlc("FdSetup", "INIT Init\nNEXT Next\n%s Emit\nCHECK_DEADLOCK FALSE" % FD_INV,
                       dict(Targets="{0, 1, 2, 3, 9, 100, 101}", Ints=ALL_INTS, Paths=ALL_PATHS, Specials=SPECIALS, Perms='{511, 384, 416, 438, 493}', MaxRed="5", MaxIO="8",
                            Rec="TRUE", MinLen="4", Levels='<<"env", "run", "chain">>'), simulate=n, label="FdSetup (behaviours)")
    scn = [dict(mod="fdsetup", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="fdsetup")

# -- Capture.tla ------------------------------------------------------------------

CAP_INV = "INVARIANTS OwnSink Once AllThere"
def shape(c, ks, o): return '[c |-> "%s", k |-> <<%s>>, o |-> {%s}]' % (c, ", ".join('"%s"' % k for k in ks), ", ".join(map(str, o)))
CAP_SHAPES = "{%s}" % ", ".join([shape("one", ["cmd"], [1]), shape("one", ["fn"], [1])]
    + [shape(c, ks, o) for c, o, n in (("pipe2", [2], 2), ("grp", [1, 2], 2), ("arg", [2], 2)) for ks in (("cmd", "cmd"), ("fn", "cmd"), ("cmd", "fn"))
       if not (c == "arg" and ks[1] == "fn")]
    + [shape(c, ks, o) for c, o in (("pipe3", [3]), ("grp3", [1, 2, 3]), ("grppipe", [3]), ("pipegrp", [1, 3])) for ks in (("cmd", "cmd", "cmd"), ("cmd", "fn", "cmd"))])

def capture(ctx, n, kinds, budget):
    for s, runs, writes in ((shape("one", ["cmd"], [1]), "2", scaled(ctx, "2", "3")), (shape("grp", ["cmd", "fn"], [1, 2]), "1", scaled(ctx, "2", "3"))):
        ctx.tlc("Capture", "INIT Init\nNEXT NextD\n%s Told\nPROPERTY ToldOnce\nCHECK_DEADLOCK FALSE" % CAP_INV,
                dict(Shapes="{%s}" % s, MaxRuns=runs, MaxWrites=writes, MaxLook="2", Rec="FALSE"), label="Capture (all orders)")
    recs, st = ctx.tlc("Capture", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                       dict(Shapes=CAP_SHAPES, MaxRuns="3", MaxWrites="14", MaxLook="6", Rec="TRUE"), simulate=n, label="Capture (behaviours)")
    scn = [dict(mod="capture", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="capture")

# -- Args.tla ---------------------------------------------------------------------

def chars(s): return "<<%s>>" % ", ".join(json.dumps(c if c.isascii() else "<U>") for c in s)
def charset(xs): return "{%s}" % ", ".join(map(chars, xs))
def elem(x): return ('[k |-> "var", c |-> <<>>, v |-> "%s"]' % x[1] if x[0] == "$" else '[k |-> "pct", c |-> <<>>, v |-> ""]' if x == "%%"
                     else '[k |-> "lit", c |-> %s, v |-> ""]' % (x if x[0] == "<" else chars(x)))
ARG_VARS = dict(V="val", P="a*", T="~", S="x  y", E="", W="%(V)s", Q="[b]", N="l1\nl2")
ARGS = dict(Tops=charset(["a", "b", "ab", "ba", "abc", "a.b", ".a", ".b", "A", "a b", "*", "[a]", "a[", "?", "-a", "b]", "å", "~a", "a_b", "_"]),
            Dirs=charset(["d", "dd", ".d"]), Subs=charset(["a", "b", "ab", ".a", "*", "c d"]),
            Vars="(%s)" % " @@ ".join('"%s" :> %s' % (k, chars(v)) for k, v in ARG_VARS.items()),
            Home='"<HOME>"', Here='"<HERE>"',
            Elems="{%s}" % ", ".join(elem(x) for x in ["a", "b", "A", "abc", ".", " ", "*", "*", "?", "[ab]", "[!a]", "[a-c]", "[]a]", "[", "]", "d/", "*/", ".d/", "a/",
                                                       "$V", "$P", "$T", "$S", "$E", "$W", "$Q", "$N", "%%", "'", '"', "\\", "\n", "å", "$(x)".replace("$", "`"), "=", "~",
                                                       "_", "_", "a_b", "{a}", "a$HOME", "a${V}", "\t", "#", ";", "|", "&", "(", ")", "!", "^", "a<b", ">", ",", "+", "@", ":", "\r"]),
            Heads="{%s}" % ", ".join(elem(x) for x in ["a", "d/", "./", "-", "--", "~/", "~", "*", "?", "$V", "$P", "$T", "$E", "%%", "<<>>", '<<"<HERE>", "/">>', "../zz"]))
ARG_INV = "INVARIANTS NoneDropped OnlyFiles RawKept"

def args(ctx, n, kinds, budget):
    small = dict(ARGS, Tops=charset(["a", "*", ".a"]), Dirs=charset(["d"]), Subs=charset(["b"]),
                 Elems="{%s}" % ", ".join(map(elem, ["a", "*", "[", "]", "$P", "d/", "?"])), Heads="{%s}" % ", ".join(map(elem, ["<<>>", "~/", "./", "a"])))
    ctx.tlc("Args", "INIT Init\nNEXT Next\n%s\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE" % ARG_INV,
            dict(small, MaxArgs="1", MaxLen=scaled(ctx, "2", "3"), MaxRuns="0", Rec="FALSE"), label="Args (all strings, all files)")
    recs, st = ctx.tlc("Args", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                       dict(ARGS, MaxArgs="7", MaxLen="5", MaxRuns="3", Rec="TRUE"), simulate=n, label="Args (behaviours)")
    scn = [dict(mod="args", b=json.loads(x), vars=ARG_VARS, seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="args")

# -- Environ.tla ------------------------------------------------------------------

def environ(ctx, n, kinds, budget):
    moves = '{<<>>, <<"a">>, <<"c">>, <<"a", "b">>, <<"l">>, <<"l", "..">>, <<"..">>, <<"..", "c">>, <<"..", "..">>, <<"nope">>, <<"a", "nope">>, <<".", "a">>, <<"b">>, <<"..", "a", "b">>}'
    ctx.tlc("Environ", "INIT Init\nNEXT Next\nPROPERTIES Isolated Derived OwnProcess\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE",
            dict(MaxEnvs="2", MaxCmds="0", Names='{"X"}', Values='{"v1"}', Moves='{<<"a">>, <<"..">>, <<"nope">>}', Steps=scaled(ctx, "3", "4"), Rec="FALSE", MinRuns="0"),
            label="Environ (all orders)")
    recs, st = ctx.tlc("Environ", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                       dict(MaxEnvs="6", MaxCmds="6", Names='{"X", "Y", "Z"}', Values='{"v1", "v2", "v3", "v4"}', Moves=moves, Steps="60", Rec="TRUE", MinRuns="6"),
                       simulate=n, label="Environ (behaviours)")
    scn = [dict(mod="environ", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="environ")

# -- Find.tla ---------------------------------------------------------------------

def paths(xs): return "{%s}" % ", ".join("<<%s>>" % ", ".join('"%s"' % y for y in x) for x in xs)
PATHS = [["p1"], ["p2"], ["p1", "p2"], ["p2", "p1"], ["bin"], ["bin", "p1"], ["p1", "bin"], [""], ["p2", ""], [".", "p2"], ["nope", "p1"], ["nope"], ["p1", "p1", "bin", "p2", ""]]

def find(ctx, n, kinds, budget):
    ctx.tlc("Find", "INIT Init\nNEXT Next\nINVARIANTS Honest Completes\nPROPERTIES Apart\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE",
            dict(Names='{"x"}', Paths=paths(PATHS[2:6:3]), MaxEnvs="1", MaxCmds="1", Steps=scaled(ctx, "3", "4"), Rec="FALSE"), label="Find (all orders)")
    recs, st = ctx.tlc("Find", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                       dict(Names='{"x", "y", "z"}', Paths=paths(PATHS), MaxEnvs="4", MaxCmds="8", Steps="60", Rec="TRUE"), simulate=n, label="Find (behaviours)")
    scn = [dict(mod="find", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="find")

# -- Builtins.tla -----------------------------------------------------------------

def builtins(ctx, n, kinds, budget):
    ctx.tlc("Builtins", "INIT Init\nNEXT Next\nINVARIANTS Stands Fails\nPROPERTIES Settled Apart\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE",
            dict(Words='{"a"}', Modes='{"list"}', Size="2", MaxPool="2", Steps=scaled(ctx, "4", "5"), Rec="FALSE"), label="Builtins (all orders)")
    recs, st = ctx.tlc("Builtins", "INIT Init\nNEXT Next\nINVARIANTS Done\nCHECK_DEADLOCK FALSE",
                       dict(Words='{"a", "bc", "-x", "d e", "--k=v"}', Modes='{"list", "str", "file", "wait", "each", "arg", "into", "sub"}', Size="5", MaxPool="14", Steps="45", Rec="TRUE"),
                       simulate=n, label="Builtins (behaviours)")
    scn = [dict(mod="builtins", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="builtins")

# -- Scopes.tla -------------------------------------------------------------------

def scopes(ctx, n, kinds, budget):
    ctx.tlc("Scopes", "INIT Init\nNEXT Next\nINVARIANT RunOnce\nPROPERTIES ReadBack NoMore Apart FoundFirst\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE",
            dict(Names='{"x", "y", "V"}', Values='{"v1"}', Builtins='{}', Modules='{"m1"}', Temps="1", Steps=scaled(ctx, "4", "5"), Rec="FALSE"), label="Scopes (all orders)")
    recs, st = ctx.tlc("Scopes", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                       dict(Names='{"x", "y", "V", "len", "actor"}', Values='{"v1", "v2", "v3", "v4"}', Builtins='{"len"}', Modules='{"m1", "m2"}', Temps="4", Steps="60", Rec="TRUE"),
                       simulate=n, label="Scopes (behaviours)")
    scn = [dict(mod="scopes", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="scopes")

# -- Calls.tla --------------------------------------------------------------------

KINDS = '{"plain", "method", "generator", "coroutine", "asyncgen"}'
def calls(ctx, n, kinds, budget):
    ctx.tlc("Calls", "INIT Init\nNEXT Next\nINVARIANTS TypeOK OnlyOnce\nPROPERTY Apart\nCONSTRAINT Limit\nCHECK_DEADLOCK FALSE",
            dict(MaxPos="2", MaxKw="1", Kinds='{"plain"}', Steps=scaled(ctx, "1", "2"), Rec="FALSE"), label="Calls (all calls)")
    recs, st = ctx.tlc("Calls", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                       dict(MaxPos="3", MaxKw="2", Kinds=KINDS, Steps="16", Rec="TRUE"), simulate=n, label="Calls (behaviours)")
    scn = [dict(mod="calls", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="calls")

# -- Values.tla -------------------------------------------------------------------

def values(ctx, n, kinds, budget, inter="{TRUE, FALSE}", wraps="{}"):
    ctx.tlc("Values", "INIT Init\nNEXT Next\nINVARIANTS Fresh Shape\nPROPERTIES OnlyRuns Values OneAtATime\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE",
            dict(Srcs='{"s1"}', Flts='{"f1"}', Fns='{"g1"}', Nils="{}", Strs='{"a"}', Lists='{<<"l">>}', Files='{"x"}', Size="2", MaxLeaves="3", MaxBg="1", Wraps='{"sub"}' if wraps != "{}" else wraps,
                 Inter='{TRUE}', Steps=scaled(ctx, "4", "5"), Rec="FALSE"), label="Values (all orders)")
    recs, st = ctx.tlc("Values", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                       dict(Srcs='{"s1", "s2", "s3"}', Flts='{"f1", "f2", "f3"}', Fns='{"g1", "g2", "g3"}', Nils='{"cd", "clear_dir_cache"}', Strs='{"a", "b", "-c", "d e"}', Lists='{<<"l">>, <<"l", "m", "n">>, <<>>}',
                            Files='{"x", "y", "null"}', Size="6", MaxLeaves="6", MaxBg="3", Wraps=wraps, Inter=inter, Steps="40", Rec="TRUE"), simulate=n, label="Values (behaviours)")
    scn = [dict(mod="values", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    for x in scn: x["contained"] = wraps != "{}"
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="values")

# -- FnKinds.tla -----------------------------------------------------------------

PLAIN_VALUES = '{"a", "b", "uni", "zero", "none"}'
FN_VALUES = ["a", "b", "c", "uni", "bytes", "empty", "ebytes", "zero", "false", "int", "float", "tuple", "elist", "dict", "obj", "exc", "strsub",
             "intsub", "cr", "path", "big", "two", "endnl", "bnl", "bad", "none", "ell", "none"]

def fnkinds(ctx, n, kinds, budget):
    cfg = dict(Chains="Few \\o %s" % scaled(ctx, "FewMore(1)", "FewMore(2)"), Values='{"a"}', MaxOps="3", MaxStages="3", Cap="1", Rec="FALSE")
    ctx.tlc("FnKinds", "SPECIFICATION Spec\nINVARIANTS Outcome OwnFault\nPROPERTIES Ending", cfg, label="FnKinds (all orders)")
    recs, st = ctx.tlc("FnKinds", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                       dict(Chains="<<>>", Values="{%s}" % ", ".join(map(json.dumps, FN_VALUES)), MaxOps="5", MaxStages="5", Cap="1", Rec="TRUE"), simulate=n, label="FnKinds (behaviours)")
    scn = [dict(mod="fnkinds", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, label="fnkinds")

# -- BashImport.tla ----------------------------------------------------------------

NOISES = ["ifs", "nounset", "noclobber", "noglob", "debug", "exit", "xtrace", "declare", "function", "cd", "alias", "posix", "stdin", "args", "job", "extglob", "path", "err", "lc", "umask"]

def bashimport(ctx, n, kinds, budget):
    props = "PROPERTIES OnlyItsOwn NotTheProcess Exactly NeverLost\nCHECK_DEADLOCK FALSE"
    ctx.tlc("BashImport", "INIT Init\nNEXT Next\nINVARIANTS Sane\n" + props,
            dict(Names='{"A", "B"}', Symbols='{"x", "X"}', MaxValue="1", MaxCmds=scaled(ctx, "2", "3"), MaxScripts=scaled(ctx, "1", "2"), Noises="{}", Steps=scaled(ctx, "1", "1"), Rec="FALSE"), label="BashImport (all scripts)")
    import drv_bashimport_chars
    recs, st = ctx.tlc("BashImport", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                       dict(Names='{"A", "B", "C", "a_1"}', Symbols="{%s}" % ", ".join(map(json.dumps, drv_bashimport_chars.CHARS)), MaxValue="5", MaxCmds="5", MaxScripts="3",
                            Noises="{%s}" % ", ".join(map(json.dumps, NOISES)), Steps="4", Rec="TRUE"), simulate=n, label="BashImport (behaviours)")
    scn = [dict(mod="bashimport", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, label="bashimport")

# -- Names.tla -------------------------------------------------------------------

def tlaset(x): return "{%s}" % ", ".join(map(tlaset, x)) if isinstance(x, list) else "<<%s>>" % ", ".join('"%s"' % y for y in x)
WORDS = [("a",), ("A",), ("b",), ("a", "b"), ("a", "B"), ("c",)]
FN_NAMES = [("a",), ("a", "_", "b"), ("_", "a"), ("a", "1"), ("ea",), ("a", "_", "_", "B"), ("_",), ("ri", "a"), ("lt", "a", "gt"), ("ss",), ("c",), ("n", "1")]
EXES = [("a",), ("A",), ("a", "-", "b"), ("a", ".", "b"), ("a", " ", "b"), ("1", "a"), ("n", "1", "a"), ("_",), ("ea",), ("ri",), ("em",), ("ap", "a"), ("a", "'", "b"),
        ("p", "i", "d"), ("n", "a", "m", "e"), ("e", "x", "e"), ("a", "nl", "b"), ("dd", "a"), ("2", "_"), ("pc",), ("c",)]
ARG0S = [(), ("a",), ("/", "a"), ("a", "/", "b"), ("-", "a"), ("a", "/"), ("a", " ", "b"), ("em",), ("c",), ("1",), ("ri", "/", "ri"), ("c", "/", "A"), ("st",)]

def names(ctx, n, kinds, budget):
    cfg = "INIT Init\nNEXT Next\nINVARIANTS Reached Written\nPROPERTIES Stable\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE"
    ctx.tlc("Names", cfg, dict(Words=tlaset(WORDS[:2]), FnNames=tlaset([FN_NAMES[0], FN_NAMES[9]]), ExeNames="{}", Arg0s="{}", MaxStages=scaled(ctx, "2", "3"), MaxProcs="0", Mode='"pipe"', Steps="2", Rec="FALSE"),
            label="Names (all pipelines)")
    ctx.tlc("Names", cfg, dict(Words="{}", FnNames="{}", ExeNames=tlaset([EXES[k] for k in (0, 1)]), Arg0s=tlaset([ARG0S[k] for k in (0, 4)]), MaxStages="0", MaxProcs="4", Mode='"tree"', Steps=scaled(ctx, "4", "5"), Rec="FALSE"),
            label="Names (all process trees)")
    scn = []
    for mode, k in (("pipe", n), ("tree", n)):
        recs, st = ctx.tlc("Names", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                           dict(Words=tlaset(WORDS), FnNames=tlaset(FN_NAMES), ExeNames=tlaset(EXES), Arg0s=tlaset(ARG0S), MaxStages="6", MaxProcs="9", Mode='"%s"' % mode, Steps="12" if mode == "pipe" else "30", Rec="TRUE"),
                           simulate=k, label="Names (%s behaviours)" % mode)
        scn += [dict(mod="names", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    ctx.replay(scn, kinds=kinds, budget=budget, label="names")

# -- Shell.tla -------------------------------------------------------------------

SHELL_INV = "INVARIANTS NotUnasked Once Twice LastKnown Files"

def shell(ctx, n, kinds, budget, sessions='{"console", "cmd", "files"}'):
    ctx.tlc("Shell", "INIT Init\nNEXT Next\n%s\nPROPERTIES JobsAlone Failed\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE" % SHELL_INV,
            dict(Sessions='{"console", "cmd", "files"}', Words='{"a"}', Vars='{"x"}', Exps='{"V", "W"}', Dirs='{"h", "d1"}', MaxJobs="1", Steps=scaled(ctx, "1", "2"), Rec="FALSE"), label="Shell (all sessions)")
    scn = []
    for kind, k in (("console", n), ("files", n // 3), ("cmd", n // 3)):
        if '"%s"' % kind not in sessions: continue
        recs, st = ctx.tlc("Shell", "INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE",
                           dict(Sessions='{"%s"}' % kind, Words='{"a", "b", "c"}', Vars='{"x", "y", "f"}', Exps='{"V", "W"}', Dirs='{"h", "d1", "d2"}', MaxJobs="4", Steps="22" if kind == "console" else "14", Rec="TRUE"),
                           simulate=k, label="Shell (%s)" % kind)
        scn += [dict(mod="shell", b=json.loads(x), seed=ctx.seed * 1000003 + i) for i, (t, x) in enumerate(recs)]
    random.Random(ctx.seed).shuffle(scn)
    ctx.replay(scn, kinds=kinds, budget=budget, backends=BOTH, timeout=150, label="shell")

# -- several stages and one file (see known_findings.json) ---------------------------

def shared_files(ctx, kinds):
    for key, prog in (("group-to-path", "Wait(Grp(Cmd, Cmd))"), ("group-fn-to-path", "Wait(Grp(Gen, Cmd))"),
                      ("fnarg-to-path", "Wait(CmdA(<<Fn>>))")):
        recs, st = ctx.tlc("Plumbing", "INIT Init\nNEXT Next\n%s Emit\nCHECK_DEADLOCK FALSE" % PLUMB_INV,
                           dict(Programs="<< <<%s>> >>" % prog, MaxItems="2", Rec="TRUE", MinLen="5"), simulate=30, label="Plumbing (one file)")
        scn = [dict(mod="plumbing", b=json.loads(x), seed=i, key=key, bypath=True) for i, (t, x) in enumerate(recs[:6])]
        ctx.replay(scn, kinds=kinds, budget=20, stop_after=1, label=key)

# -- the checks ----------------------------------------------------------------

@check("P01")
def p01(ctx):
    kinds = {"data"} | BROKEN
    plumbing_model(ctx, "Typical", 1)
    lines(ctx, scaled(ctx, 2500, 30000), kinds | {"eof"}, scaled(ctx, 15, 200))
    flow(ctx, scaled(ctx, 500, 6000), kinds, scaled(ctx, 18, 300))
    shared_files(ctx, kinds)
    plumbing(ctx, "Typical \\o WithFiles \\o WithArgs \\o AllPrograms(2, \"iter\") \\o AllPrograms(3, \"iter\")",
             scaled(ctx, 1500, 20000), kinds, scaled(ctx, 18, 300))

@check("P02")
def p02(ctx):
    plumbing_model(ctx, "Typical \\o WithFiles" if not ctx.thorough else "Typical \\o WithFiles \\o WithArgs \\o AllPrograms(2, \"iter\")", 1)
    kinds = {"eof", "epipe"} | BROKEN
    plumbing(ctx, "Typical \\o WithFiles \\o WithArgs \\o AllPrograms(2, \"iter\") \\o AllPrograms(3, \"iter\")",
             scaled(ctx, 1800, 30000), kinds, scaled(ctx, 25, 400))
    plumbing(ctx, DEEPEST + " \\o " + deep(ctx), scaled(ctx, 700, 15000), kinds, scaled(ctx, 15, 300), minlen=30, maxitems=2, label="plumbing (deep)")
    flow(ctx, scaled(ctx, 300, 4000), kinds, scaled(ctx, 12, 200))

@check("P03")
def p03(ctx):
    kinds = {"wait", "status"} | BROKEN
    jobs_model(ctx)
    jobs(ctx, scaled(ctx, 1500, 20000), kinds, scaled(ctx, 17, 300), SINGLE + PAIRS)
    jobs(ctx, scaled(ctx, 150, 2500), kinds, scaled(ctx, 10, 150), CROWDS, label="jobs (crowds)")
    plumbing(ctx, "Typical \\o WithFiles \\o WithArgs \\o AllPrograms(2, \"iter\") \\o AllPrograms(2, \"wait\") \\o AllPrograms(3, \"wait\")",
             scaled(ctx, 1500, 20000), kinds, scaled(ctx, 25, 300))

@check("P04")
def p04(ctx):
    kinds = {"fds", "start", "status", "eof"} | BROKEN
    fdsetup_model(ctx)
    fdsetup(ctx, scaled(ctx, 2500, 40000), kinds, scaled(ctx, 30, 500))

@check("P05")
def p05(ctx):
    kinds = {"res"} | BROKEN
    plumbing_model(ctx, "Typical", 1)
    plumbing(ctx, "Typical \\o WithFiles \\o WithArgs \\o AllPrograms(2, \"iter\") \\o AllPrograms(3, \"iter\") \\o AllPrograms(2, \"wait\")",
             scaled(ctx, 2000, 30000), kinds, scaled(ctx, 30, 400))
    jobs(ctx, scaled(ctx, 600, 8000), kinds, scaled(ctx, 10, 150), SINGLE + PAIRS)

@check("P06")
def p06(ctx):
    kinds = {"capture", "start"} | BROKEN
    capture(ctx, scaled(ctx, 2500, 40000), kinds, scaled(ctx, 30, 500))

@check("P07")
def p07(ctx):
    kinds = {"os", "wait", "status"} | BROKEN
    jobs_model(ctx)
    jobs(ctx, scaled(ctx, 2500, 40000), kinds, scaled(ctx, 30, 600), SINGLE + PAIRS)
    jobs(ctx, scaled(ctx, 150, 2500), kinds, scaled(ctx, 8, 150), CROWDS, label="jobs (crowds)")
    shell(ctx, scaled(ctx, 150, 2500), kinds | {"shell"}, scaled(ctx, 25, 300), '{"console"}')

@check("P08")
def p08(ctx):
    kinds = {"values", "text"} | BROKEN
    values(ctx, scaled(ctx, 2000, 30000), kinds, scaled(ctx, 35, 500))

@check("P09")
def p09(ctx):
    kinds = {"env", "start"} | BROKEN
    environ(ctx, scaled(ctx, 2500, 40000), kinds, scaled(ctx, 30, 400))

@check("P10")
def p10(ctx):
    kinds = {"args", "start"} | BROKEN
    args(ctx, scaled(ctx, 3000, 50000), kinds, scaled(ctx, 30, 400))

@check("P11")
def p11(ctx):
    kinds = {"scope", "start"} | BROKEN
    scopes(ctx, scaled(ctx, 2500, 40000), kinds, scaled(ctx, 30, 400))

@check("P12")
def p12(ctx):
    plumbing_model(ctx, "SubSeq(WithArgs, 1, 5)", 1)
    kinds = {"data", "eof", "epipe", "status", "start"} | BROKEN
    plumbing(ctx, "WithArgs", scaled(ctx, 2500, 30000), kinds, scaled(ctx, 45, 500))

@check("P13")
def p13(ctx):
    kinds = {"fn", "status", "data"} | BROKEN
    fnkinds(ctx, scaled(ctx, 2500, 40000), kinds, scaled(ctx, 35, 500))

@check("P14")
def p14(ctx):
    kinds = {"source", "status", "res"} | BROKEN
    bashimport(ctx, scaled(ctx, 1200, 20000), kinds, scaled(ctx, 40, 500))

@check("P17")
def p17(ctx):
    kinds = {"names"} | BROKEN
    names(ctx, scaled(ctx, 1200, 20000), kinds, scaled(ctx, 45, 500))

@check("P15")
def p15(ctx):
    kinds = {"values", "sub", "contained", "ran"} | BROKEN
    values(ctx, scaled(ctx, 900, 12000), kinds, scaled(ctx, 50, 600), wraps='{"sub", "remote"}')

@check("P16")
def p16(ctx):
    kinds = {"data", "eof", "epipe", "status", "wait", "start"} | BROKEN
    plumbing_model(ctx, scaled(ctx, "SubSeq(Several, 1, 4)", "Several"), 1)
    plumbing(ctx, "Several \\o AllPairs(2)", scaled(ctx, 1400, 30000), kinds, scaled(ctx, 18, 400))
    jobs(ctx, scaled(ctx, 800, 10000), kinds | {"os"}, scaled(ctx, 12, 200), PAIRS, maxwait=5)
    flow(ctx, scaled(ctx, 300, 4000), kinds, scaled(ctx, 12, 200), together=(3, 4, 6))
    flow(ctx, scaled(ctx, 1500, 15000), kinds, scaled(ctx, 15, 200), together=(50,), lanes=5, label="flow (one after another)")

@check("P18")
def p18(ctx):
    kinds = {"ran", "text"} | BROKEN
    values(ctx, scaled(ctx, 2000, 30000), kinds, scaled(ctx, 35, 500))
    shell(ctx, scaled(ctx, 150, 2500), kinds | {"shell"}, scaled(ctx, 25, 300), '{"console", "cmd"}')

@check("P19")
def p19(ctx):
    kinds = {"scope", "module", "call", "start"} | BROKEN
    calls(ctx, scaled(ctx, 2000, 20000), kinds, scaled(ctx, 15, 200))
    scopes(ctx, scaled(ctx, 1500, 20000), kinds, scaled(ctx, 20, 300))

@check("P20")
def p20(ctx):
    shell(ctx, scaled(ctx, 300, 5000), {"ran", "shell", "os"} | BROKEN, scaled(ctx, 60, 700))

@check("P21")
def p21(ctx):
    find(ctx, scaled(ctx, 900, 15000), {"find"} | BROKEN, scaled(ctx, 25, 400))

@check("P22")
def p22(ctx):
    builtins(ctx, scaled(ctx, 400, 8000), {"own"} | BROKEN, scaled(ctx, 30, 400))

if __name__ == "__main__":
    sys.exit(vlib.main(CHECKS))
