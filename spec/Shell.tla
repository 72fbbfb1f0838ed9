------------------------------- MODULE Shell -------------------------------
(***************************************************************************)
(* Sessions of the shell: a startup file, then statements typed at a       *)
(* terminal, given on the command line, or read from files one after       *)
(* another.  A statement typed or given on the command line whose value is *)
(* a pipeline runs it, once, with the input and output of the shell.       *)
(* Anything else only runs when asked to.  At the terminal, what waits for *)
(* a pipeline can be told to stop (Ctrl-Z) or interrupted (Ctrl-C).        *)
(*                                                                         *)
(* Everything that happens is a function of the statement and the state    *)
(* of the shell, see Exec.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sessions,   \* kinds of sessions
          Words,      \* of commands
          Vars, Exps, \* names of variables, and of those that can be exported
          Dirs,       \* directories
          MaxJobs, Steps, Rec

VARIABLES now,        \* what has been done last
          kind,       \* of session
          part,       \* what is being run: "startup", "main1", "main2", "end"
          skip,       \* the rest of this file, as a statement failed
          st, n, h
vars == <<now, kind, part, skip, st, n, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h

Names == Vars \cup Exps
Unset == [t |-> "unset"]
NoValue == [t |-> "none"]
Text(w) == [t |-> "text", w |-> w]

(* The state of the shell: what names mean, what is exported, where it is; *)
(* what has been started, in order; what has been printed; whether the     *)
(* statement failed; pipelines still around, the last of them; what the    *)
(* user is going to do whenever something waits; lines read so far;        *)
(* whether this makes sense at all (we do not say what nonsense does); and *)
(* what the user has done while it was being executed                      *)
Start == [vars |-> [x \in Names |-> Unset], exps |-> [x \in Exps |-> "-"], cwd |-> "h", ran |-> <<>>, out |-> <<>>,
          err |-> FALSE, why |-> "", jobs |-> <<>>, last |-> 0, ev |-> <<>>, lines |-> 0, ok |-> TRUE, acts |-> <<>>]

Means(x, s) == IF s.vars[x] # Unset THEN s.vars[x]
               ELSE IF x \in Exps /\ s.exps[x] # "-" THEN Text(s.exps[x])
               ELSE [t |-> "pipe", p |-> [src |-> x, words |-> <<>>, ups |-> 0]]
Nonsense(s) == [s EXCEPT !.ok = FALSE]
FailAs(why, s) == [s EXCEPT !.err = TRUE, !.why = why]
Fail(s) == FailAs("other", s)
Live(s) == {j \in 1..Len(s.jobs) : s.jobs[j] \in {"running", "stopped"}}

---------------------------------------------------------------------------
(* What words become: as they are, with a variable in them, what matches *)
Match == [h |-> "*.t", d1 |-> "./one.t", d2 |-> "./two.t"]
TextOf(v) == IF v.t = "num" THEN "3" ELSE v.w
Word(w, s) == CASE w.k = "lit" -> w.w
                [] w.k = "exp" -> "v" \o TextOf(Means(w.n, s))
                [] w.k = "glob" -> Match[s.cwd]
WordOk(w, s) == w.k = "exp" => Means(w.n, s).t \in {"text", "num"}
RECURSIVE Join(_, _), Wrap(_, _), UpsRan(_, _, _)
Join(ws, s) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN Word(ws[1], s) ELSE Word(ws[1], s) \o " " \o Join(Tail(ws), s)
Wrap(w, k) == IF k = 0 THEN w ELSE Wrap("<" \o w \o ">", k - 1)
(* every stage notes where it is and what it has been given *)
Note(s, what) == s.cwd \o "|" \o s.exps["V"] \o "|" \o s.exps["W"] \o "|" \o what
UpsRan(s, k, r) == IF k = 0 THEN r ELSE UpsRan(s, k - 1, Append(r, Note(s, "up")))
Ran(s, p) == [s EXCEPT !.ran = UpsRan(s, p.ups, Append(@, Note(s, p.src \o (IF p.words = <<>> THEN "" ELSE " " \o Join(p.words, s)))))]

(* Runs a pipeline and waits for it.  Gives the state, what it has written *)
(* and whether it ended well ("ok"), or not ("failed", "stopped",          *)
(* "interrupted")                                                          *)
Fg(s, j) ==   \* something we wait for that only ends when told to
  IF s.ev = <<>> THEN [s |-> Nonsense(s), o |-> <<"">>, r |-> "ok"]
  ELSE LET e == s.ev[1] t == [s EXCEPT !.ev = Tail(@), !.acts = Append(@, [w |-> e, j |-> j, after |-> Len(s.ran)])] IN
    CASE e = "end"  -> [s |-> [t EXCEPT !.jobs[j] = "done", !.last = 0], o |-> <<>>, r |-> "ok"]
      [] e = "stop" -> [s |-> [t EXCEPT !.jobs[j] = "stopped", !.last = j], o |-> <<>>, r |-> "stopped"]
      [] e = "int"  -> [s |-> IF Live(s) = {j} THEN [t EXCEPT !.jobs[j] = "killed", !.last = 0] ELSE Nonsense(s), o |-> <<>>, r |-> "interrupted"]
Run(p, s0, fg) ==
  IF ~\A i \in 1..Len(p.words) : WordOk(p.words[i], s0) THEN [s |-> Nonsense(s0), o |-> <<"">>, r |-> "ok"]
  ELSE LET s == [Ran(s0, p) EXCEPT !.last = 0] IN
    CASE p.src = "say" -> [s |-> s, o |-> <<Wrap(Join(p.words, s0), p.ups)>>, r |-> "ok"]
      [] p.src = "bad" -> [s |-> s, o |-> <<>>, r |-> "failed"]
      [] p.src = "ask" -> [s |-> [s EXCEPT !.acts = Append(@, [w |-> "line", j |-> s.lines, after |-> Len(s.ran)]), !.lines = @ + 1], o |-> <<Wrap("got " \o ToString(s.lines), p.ups)>>, r |-> "ok"]
      [] p.src = "hang" -> IF fg /\ Len(s.jobs) < MaxJobs
                           THEN Fg([s EXCEPT !.jobs = Append(@, "running")], Len(s.jobs) + 1)
                           ELSE [s |-> Nonsense(s), o |-> <<"">>, r |-> "ok"]
      [] p.src \in {"x", "V"} -> [s |-> s, o |-> <<"I am " \o p.src>>, r |-> "ok"]        \* there are commands with these names
      [] OTHER -> [s |-> [s EXCEPT !.ran = s0.ran], o |-> <<>>, r |-> "failed"]              \* but not with others

Put(s, o) == [s EXCEPT !.out = @ \o o]

---------------------------------------------------------------------------
(* Expressions: gives the state and the value *)
RECURSIVE Eval(_, _)
Eval(e, s) ==
  CASE e.k = "text" -> [s |-> s, v |-> Text(e.w)]
    [] e.k = "num"  -> [s |-> s, v |-> [t |-> "num"]]
    [] e.k = "none" -> [s |-> s, v |-> NoValue]
    [] e.k = "prog" -> [s |-> s, v |-> [t |-> "pipe", p |-> e.p]]
    [] e.k = "name" -> [s |-> s, v |-> Means(e.n, s)]
    [] e.k = "str"  -> LET a == Eval(e.e, s) IN
         IF a.s.err \/ ~a.s.ok THEN a
         ELSE IF a.v.t # "pipe" \/ a.v.p.src = "hang" THEN [s |-> Nonsense(a.s), v |-> NoValue]
         ELSE LET r == Run(a.v.p, a.s, FALSE) IN IF r.r # "ok" THEN [s |-> FailAs(r.r, r.s), v |-> NoValue] ELSE [s |-> r.s, v |-> Text(r.o[1])]
    [] e.k = "list"  -> LET a == Eval(e.e, s) IN
         IF a.s.err \/ ~a.s.ok THEN a
         ELSE IF a.v.t # "pipe" \/ a.v.p.src = "hang" THEN [s |-> Nonsense(a.s), v |-> NoValue]
         ELSE LET r == Run(a.v.p, a.s, FALSE) IN IF r.r # "ok" THEN [s |-> FailAs(r.r, r.s), v |-> NoValue] ELSE [s |-> r.s, v |-> [t |-> "list", w |-> r.o[1]]]
    [] e.k = "run"  -> LET a == Eval(e.e, s) IN            \* in the foreground, explicitly
         IF a.s.err \/ ~a.s.ok THEN a
         ELSE IF a.v.t # "pipe" THEN [s |-> Nonsense(a.s), v |-> NoValue]
         ELSE LET r == Run(a.v.p, a.s, TRUE) IN IF r.r # "ok" THEN [s |-> FailAs(r.r, Put(r.s, r.o)), v |-> NoValue] ELSE [s |-> Put(r.s, r.o), v |-> [t |-> "result", src |-> a.v.p.src]]
    [] e.k = "bg"   -> IF Len(s.jobs) >= MaxJobs THEN [s |-> Nonsense(s), v |-> NoValue]      \* hang(..).run()
                       ELSE [s |-> [Ran(s, [src |-> "hang", words |-> <<>>, ups |-> 0]) EXCEPT !.jobs = Append(@, "running"), !.last = Len(s.jobs) + 1],
                             v |-> [t |-> "job", j |-> Len(s.jobs) + 1]]
    [] e.k \in {"fg", "cont"} -> LET j == IF e.n = "" THEN s.last ELSE IF s.vars[e.n].t = "job" THEN s.vars[e.n].j ELSE 0 IN
         IF j = 0 \/ j \notin Live(s) THEN [s |-> Nonsense(s), v |-> NoValue] ELSE [s |-> s, v |-> [t |-> e.k, j |-> j]]
    [] e.k = "call" -> IF s.vars[e.n].t # "fn" THEN [s |-> Nonsense(s), v |-> NoValue]
                       ELSE LET a == Eval(s.vars[e.n].e, s) IN IF s.vars[e.n].ret THEN a ELSE [a EXCEPT !.v = NoValue]

(* What is shown of a value: pipelines run *)
Show(v, s) ==
  CASE v.t = "none" -> s
    [] v.t = "text" -> Put(s, <<"'" \o v.w \o "'">>)
    [] v.t = "num"  -> Put(s, <<"3">>)
    [] v.t = "list" -> Put(s, <<"['" \o v.w \o "']">>)
    [] v.t = "fn"   -> Put(s, <<"(function)">>)
    [] v.t = "job"  -> Put(s, <<"(pipeline) hang">>)
    [] v.t = "result" -> Put(s, <<"(pipeline) " \o v.src>>)
    [] v.t = "pipe" -> LET r == Run(v.p, s, TRUE) IN
                       IF r.r = "failed" THEN FailAs("failed", Put(r.s, r.o))
                       ELSE IF r.r = "ok" THEN Put(r.s, r.o)
                       ELSE Put(r.s, r.o \o <<"(" \o r.r \o ")">>)
    [] v.t = "fg"   -> LET r == Fg([s EXCEPT !.jobs[v.j] = "running"], v.j) IN
                       IF r.r = "ok" THEN r.s ELSE Put(r.s, <<"(" \o r.r \o ")">>)
    [] v.t = "cont" -> [s EXCEPT !.jobs[v.j] = "running"]

(* Statements *)
RECURSIVE Times(_, _, _, _)
One(e, s, show) == LET a == Eval(e, s) IN IF a.s.err \/ ~a.s.ok \/ ~show THEN a.s ELSE Show(a.v, a.s)
Times(k, e, s, show) == IF k = 0 \/ s.err \/ ~s.ok THEN s ELSE Times(k - 1, e, One(e, s, show), show)
Assign(x, v, s) == IF x \in Exps /\ s.exps[x] # "-"
                   THEN IF v.t = "text" THEN [s EXCEPT !.exps[x] = v.w, !.vars[x] = Unset] ELSE Nonsense(s)
                   ELSE [s EXCEPT !.vars[x] = v]
Settable == {"text", "num", "pipe", "list", "fn", "job"}
Exec(a, s, show) ==
  CASE a.f = "expr" -> One(a.e, s, show)
    [] a.f = "for"  -> Times(2, a.e, s, show)
    [] a.f = "two"  -> LET b == One(a.e, s, show) IN IF b.err \/ ~b.ok THEN b ELSE One(a.g, b, show)
    [] a.f = "set"  -> LET b == Eval(a.e, s) IN IF b.s.err \/ ~b.s.ok THEN b.s ELSE IF b.v.t \notin Settable THEN Nonsense(s) ELSE Assign(a.x, b.v, b.s)
    [] a.f = "def"  -> IF a.x \in Exps \/ a.e.k = "call" THEN Nonsense(s) ELSE Assign(a.x, [t |-> "fn", e |-> a.e, ret |-> a.ret], s)
    [] a.f = "print" -> LET b == Eval(a.e, s) IN IF b.s.err \/ ~b.s.ok THEN b.s ELSE IF b.v.t # "text" THEN Nonsense(s) ELSE Put(b.s, <<b.v.w>>)
    [] a.f = "export" -> [s EXCEPT !.exps[a.x] = a.w]
    [] a.f = "unexport" -> IF s.exps[a.x] = "-" THEN Fail(s) ELSE [s EXCEPT !.exps[a.x] = "-"]
    [] a.f = "del" -> IF s.vars[a.x] = Unset THEN Nonsense(s) ELSE [s EXCEPT !.vars[a.x] = Unset]
    [] a.f = "cd" -> IF a.d = "nowhere" THEN Fail(s) ELSE [s EXCEPT !.cwd = a.d]
    [] a.f = "err" -> Fail(s)
    [] a.f = "try" -> LET b == One(a.e, s, show) IN IF b.err THEN [Put(b, <<"caught " \o b.why>>) EXCEPT !.err = FALSE] ELSE b
    [] a.f = "known" -> Put(s, <<"yes">>)       \* what is there from the beginning
    [] a.f = "pass" -> s

---------------------------------------------------------------------------
ToWord(w) == {[k |-> "lit", w |-> w]}
AllWords == {[k |-> "lit", w |-> w] : w \in Words} \cup {[k |-> "exp", n |-> x] : x \in Names} \cup {[k |-> "glob"]}
Prog(src, ws, u) == [k |-> "prog", p |-> [src |-> src, words |-> ws, ups |-> u]]
Says(dummy) == IF Rec THEN {Prog("say", [i \in 1..RandomElement({1, 1, 2, 3}) |-> RandomElement(AllWords)], RandomElement({0, 0, 1, 2}))}
               ELSE {Prog("say", <<w>>, u) : w \in AllWords, u \in {0}}
Blocking == IF kind = "console" THEN {"ask", "hang"} ELSE {"ask"}
Progs(dummy) == IF Rec THEN LET c == RandomElement(1..10) IN
                   IF c <= 6 THEN Says(0) ELSE IF c = 7 THEN {Prog("bad", <<>>, RandomElement({0, 1}))} ELSE IF c = 8 THEN {Prog("ask", <<>>, RandomElement({0, 0, 1}))}
                   ELSE IF kind = "console" THEN {Prog("hang", <<>>, 0)} ELSE Says(0)
                ELSE Says(0) \cup {Prog("bad", <<>>, 0)} \cup {Prog(b, <<>>, 0) : b \in Blocking}
Plain(dummy) == IF Rec THEN LET c == RandomElement(1..3) IN IF c = 1 THEN {[k |-> "text", w |-> RandomElement(Words)]} ELSE IF c = 2 THEN {[k |-> "name", n |-> RandomElement(Names)]} ELSE Progs(0)
                ELSE {[k |-> "text", w |-> w] : w \in Words} \cup {[k |-> "name", n |-> x] : x \in Names} \cup Progs(0)
Known == {x \in Vars : st.vars[x].t = "job" /\ st.vars[x].j \in Live(st)} \cup (IF st.last \in Live(st) THEN {""} ELSE {})
Functions == {x \in Vars : st.vars[x].t = "fn"}
Jobbing(dummy) == IF kind # "console" THEN Progs(0)
                  ELSE IF Rec THEN IF Known = {} THEN Progs(0) ELSE {[k |-> RandomElement(IF st.last # 0 THEN {"fg", "cont"} ELSE {"fg"}), n |-> RandomElement(Known)]}
                  ELSE {[k |-> c, n |-> x] : c \in {"fg", "cont"}, x \in Vars \cup {""}}
Exprs(dummy) ==
  IF Rec THEN LET c == RandomElement(1..16) IN
     IF c <= 4 THEN Progs(0)
     ELSE IF c <= 6 THEN Plain(0)
     ELSE IF c = 7 THEN {[k |-> "str", e |-> RandomElement(Progs(0))]}
     ELSE IF c = 8 THEN {[k |-> RandomElement({"str", "list"}), e |-> RandomElement(Plain(0))]}
     ELSE IF c = 9 THEN {[k |-> RandomElement({"num", "none"})]}
     ELSE IF c <= 11 THEN IF Functions # {} THEN {[k |-> "call", n |-> RandomElement(Functions)]} ELSE Progs(0)
     ELSE IF c = 12 THEN {[k |-> "run", e |-> RandomElement(Plain(0))]}
     ELSE IF c = 13 /\ kind = "console" THEN {[k |-> "bg"]}
     ELSE IF c = 14 THEN {[k |-> "name", n |-> RandomElement(Names)]}
     ELSE Jobbing(0)
  ELSE Plain(0) \cup {[k |-> c, e |-> e] : c \in {"str", "run"}, e \in Progs(0)} \cup {[k |-> "call", n |-> x] : x \in Vars} \cup (IF kind = "console" THEN {[k |-> "bg"]} ELSE {}) \cup Jobbing(0)
Stmts(dummy) ==
  IF Rec THEN LET c == RandomElement(1..24) IN
     IF c <= 9 THEN {[f |-> "expr", e |-> RandomElement(Exprs(0))]}
     ELSE IF c = 10 THEN {[f |-> "for", e |-> RandomElement(Exprs(0))]}
     ELSE IF c = 11 THEN {[f |-> "two", e |-> RandomElement(Exprs(0)), g |-> RandomElement(Exprs(0))]}
     ELSE IF c <= 14 THEN {[f |-> "set", x |-> RandomElement(Names), e |-> RandomElement(Exprs(0))]}
     ELSE IF c <= 16 THEN {[f |-> "def", x |-> RandomElement(Vars), e |-> RandomElement(Exprs(0)), ret |-> RandomElement({TRUE, TRUE, FALSE})]}
     ELSE IF c = 17 THEN {[f |-> "print", e |-> RandomElement(Exprs(0))]}
     ELSE IF c = 18 THEN {[f |-> "export", x |-> RandomElement(Exps), w |-> RandomElement(Words)]}
     ELSE IF c = 19 THEN {[f |-> "unexport", x |-> RandomElement(Exps)]}
     ELSE IF c = 20 THEN {[f |-> "del", x |-> RandomElement(Names)]}
     ELSE IF c <= 22 THEN {[f |-> "cd", d |-> RandomElement(Dirs \cup {"nowhere"})]}
     ELSE IF c = 23 THEN {[f |-> RandomElement({"err", "known"})]}
     ELSE {[f |-> "try", e |-> RandomElement(Exprs(0))]}
  ELSE {[f |-> "expr", e |-> e] : e \in Exprs(0)} \cup {[f |-> "set", x |-> x, e |-> e] : x \in Names, e \in Exprs(0)} \cup {[f |-> "def", x |-> x, e |-> e, ret |-> TRUE] : x \in Vars, e \in Exprs(0)}
       \cup {[f |-> "export", x |-> x, w |-> w] : x \in Exps, w \in Words} \cup {[f |-> "unexport", x |-> x] : x \in Exps} \cup {[f |-> "cd", d |-> d] : d \in Dirs \cup {"nowhere"}} \cup {[f |-> "err"], [f |-> "known"]} \cup {[f |-> "try", e |-> e] : e \in Exprs(0)}
       \cup {[f |-> "two", e |-> e, g |-> Prog("bad", <<>>, 0)] : e \in Says(0)} \cup {[f |-> "for", e |-> e] : e \in Progs(0)}
Events == {"end", "stop", "int"}
Supplies(dummy) == IF Rec THEN {[i \in 1..6 |-> RandomElement(Events)]} ELSE {<<a, b>> : a \in Events, b \in {"end"}}

---------------------------------------------------------------------------
(* Without a startup file of its own, the shell writes the default one, if *)
(* it can, and executes that.  It changes nothing of what we describe.     *)
OtherStartups == {"off", "empty", "default", "locked"}
Parts(k) == CASE k = "console" -> {"startup", "main1"} [] k = "cmd" -> {"startup", "main1"} [] k = "files" -> {"startup", "main1", "main2"}
Init == /\ kind \in Sessions
        /\ part \in {"startup", "main1"}
        /\ skip = FALSE /\ st = Start /\ n = 0
        /\ now = [f |-> "pass"]
        /\ h = IF Rec THEN <<[a |-> "session", kind |-> kind, startup |-> IF part = "startup" THEN "own" ELSE RandomElement(OtherStartups)]>> ELSE <<>>

Showing == part # "startup" /\ kind \in {"console", "cmd"}
Fresh(s) == [s EXCEPT !.ran = <<>>, !.out = <<>>, !.err = FALSE, !.why = "", !.ev = <<>>, !.acts = <<>>]
(* A statement is executed; the rest of a file that failed is not. *)
Do == /\ part # "end"
      /\ \E a1 \in Stmts(0), a2 \in IF Rec THEN Stmts(0) ELSE {0}, a3 \in IF Rec THEN Stmts(0) ELSE {0}, ev \in Supplies(0) :
           LET s == [Fresh(st) EXCEPT !.ev = ev]
               a == IF ~Rec \/ Exec(a1, s, Showing).ok THEN a1 ELSE IF Exec(a2, s, Showing).ok THEN a2 ELSE a3
               r == IF skip THEN Fresh(st) ELSE Exec(a, s, Showing)
               b == IF r.ok THEN a ELSE [f |-> "pass"]
               t == IF r.ok THEN r ELSE s IN
           /\ (~Rec => r.ok)
           /\ st' = [t EXCEPT !.ev = <<>>]
           /\ now' = IF skip THEN [f |-> "pass"] ELSE b
           /\ skip' = (skip \/ (t.err /\ (part = "startup" \/ kind = "files")))
           /\ Log([a |-> "do", s |-> b, part |-> part, skip |-> skip, acts |-> t.acts, ran |-> t.ran, out |-> t.out, err |-> t.err, cwd |-> t.cwd, jobs |-> t.jobs])
      /\ n' = n + 1
      /\ IF kind = "cmd" /\ part = "main1" THEN part' = "end" ELSE part' = part
      /\ UNCHANGED kind
(* The next file *)
Go == /\ part # "end"
      /\ (part = "main1" /\ kind = "cmd") => FALSE
      /\ n >= (IF part = "startup" THEN 1 ELSE 4)
      /\ (Rec /\ kind = "console" /\ part = "main1") => (n >= Steps)
      /\ part' = CASE part = "startup" -> "main1" [] part = "main1" /\ kind = "files" -> "main2" [] OTHER -> "end"
      /\ skip' = FALSE /\ now' = [f |-> "pass"]
      /\ st' = Fresh(st)
      /\ Log([a |-> "go", part |-> part'])
      /\ n' = n + 1
      /\ UNCHANGED kind
AtPrompt == kind = "console" /\ part = "main1"
(* A pipeline in the background ends *)
End == /\ AtPrompt
       /\ \E j \in 1..Len(st.jobs) :
            /\ st.jobs[j] = "running"
            /\ ~Rec \/ RandomElement(1..3) = 1
            /\ st' = [Fresh(st) EXCEPT !.jobs[j] = "done"]
            /\ Log([a |-> "end", j |-> j])
       /\ n' = n + 1
       /\ now' = [f |-> "pass"]
       /\ UNCHANGED <<kind, part, skip>>
(* Completing a line, and throwing it away: nothing happens *)
Type == /\ AtPrompt /\ Rec /\ RandomElement(1..14) = 1
        /\ LET e == RandomElement(Exprs(0)) IN Log([a |-> "type", e |-> e, how |-> RandomElement({"tab", "tab", "interrupt"})])
        /\ n' = n + 1
        /\ st' = Fresh(st)
        /\ now' = [f |-> "pass"]
       /\ UNCHANGED <<kind, part, skip>>
Next == Do \/ Go \/ End \/ Type
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Does an expression say to run something; is its value something that runs *)
RECURSIVE Asks(_), Writes(_)
Asks(e) == CASE e.k \in {"str", "list", "run", "bg"} -> TRUE
             [] e.k = "call" -> TRUE                           \* maybe; see Body
             [] OTHER -> FALSE
Writes(e) == e.k \in {"prog", "name"}
(* Nothing runs unless asked to: defining and assigning what has only been *)
(* written does not, nor does anything in a file that is only a value      *)
Unasked == CASE now.f = "set" -> ~Asks(now.e)
             [] now.f \in {"def", "export", "unexport", "del", "cd", "err", "pass"} -> TRUE
             [] now.f \in {"expr", "for", "try"} -> ~Showing /\ ~Asks(now.e)
             [] OTHER -> FALSE
NotUnasked == Unasked => st.ran = <<>>
(* What is asked for runs exactly once: a pipeline typed in, a pipeline that is a name's value *)
Sources == SelectSeq(st.ran, LAMBDA r : r # Note(st, "up"))
Once == (now.f = "expr" /\ Showing /\ Writes(now.e) /\ now.e.k = "prog") => Len(Sources) = 1 /\ Len(st.ran) = 1 + now.e.p.ups
Twice == (now.f = "for" /\ Showing /\ now.e.k = "prog" /\ ~st.err) => Len(Sources) = 2
(* What stopped can be brought back *)
LastKnown == st.last # 0 => st.last \in Live(st) \/ st.jobs[st.last] = "done"
(* Jobs only change in the foreground, when told to, or end by themselves *)
JobsAlone == [][\A j \in 1..Len(st.jobs) : st'.jobs[j] # st.jobs[j] =>
                  \/ \E i \in 1..Len(st'.acts) : st'.acts[i].j = j /\ st'.acts[i].w \in {"stop", "int", "end"}
                  \/ st.jobs[j] = "stopped" /\ st'.jobs[j] = "running"
                  \/ now' = [f |-> "pass"] /\ st.jobs[j] = "running" /\ st'.jobs[j] = "done"]_vars
(* A file goes on until a statement fails; the next one starts all the same *)
Files == skip => kind = "files" \/ part = "startup"
Failed == [][(skip /\ part' = part) => (skip' /\ st'.ran = <<>> /\ st'.vars = st.vars /\ st'.exps = st.exps)]_vars
Bound == n <= Steps
Emit == (Rec /\ part = "end") => PrintT("@T " \o ToJson(h))
=============================================================================
