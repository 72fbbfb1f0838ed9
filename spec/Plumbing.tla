------------------------------ MODULE Plumbing ------------------------------
(***************************************************************************)
(* How the stages of pipelines are connected, and what each of them, and   *)
(* the program that runs the pipelines, observes while the stages read,    *)
(* write, close, finish, fail and die in any order.                        *)
(*                                                                         *)
(* A program is a sequence of pipelines ("roots") running at the same      *)
(* time.  A pipeline is an expression (see Exprs); Wire computes from it   *)
(* the stages and the streams between them.  This is the meaning of the    *)
(* operators |, + and of pipelines and functions as arguments.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Programs,     \* sequence of programs
          MaxItems,     \* how many items a stage may write
          Rec,          \* record the behaviour in h (for replaying it)
          MinLen        \* rough minimal length of recorded behaviours

VARIABLES p,            \* index of the program
          q,            \* stream -> sequence of items in it
          rd, wr,       \* stream -> holders that may still read / write it
          st,           \* stage -> "run", "ok", "fail"
          n,            \* stage -> items written
          want,         \* holder -> is it waiting for input?
          pres,         \* root -> "run", "end": has iterating/waiting returned?
          sink,         \* stream -> items written to that file (only for files)
          h             \* what happened (if Rec)

vars == <<p, q, rd, wr, st, n, want, pres, sink, h>>

---------------------------------------------------------------------------
(* Expressions *)

Cmd         == [op |-> "cmd", args |-> <<>>]
CmdA(args)  == [op |-> "cmd", args |-> args]      \* with pipes as arguments
Fn          == [op |-> "fn"]                      \* function: reads and writes
Gen         == [op |-> "gen"]                     \* iterator: only writes
Pipe(a, b)  == [op |-> "pipe", a |-> a, b |-> b]
Grp(a, b)   == [op |-> "grp", a |-> a, b |-> b]
To(e)       == [op |-> "to", e |-> e]             \* e, output to a new file
From(e, k)  == [op |-> "from", e |-> e, k |-> k]  \* e, input from a file of k items

Iter(e) == [e |-> e, mode |-> "iter"]     \* iterated over by the caller
Wait(e) == [e |-> e, mode |-> "wait"]     \* output to a file, waited for

(* acc: st - stages so far, ns - number of streams so far, files - streams   *)
(* that are output files, srcs - {<<stream, k>>}: input files                 *)
RECURSIVE Wire(_, _, _, _), WireArgs(_, _, _, _, _)

AddStage(acc, s) == [acc EXCEPT !.st = Append(@, s)]

Wire(e, in, out, acc) ==
  CASE e.op = "cmd" ->
         LET r == WireArgs(e.args, in, out, acc, <<>>)
         IN AddStage(r.acc, [kind |-> "cmd", in |-> in, out |-> out, args |-> r.args])
    [] e.op = "fn"  -> AddStage(acc, [kind |-> "fn", in |-> in, out |-> out, args |-> <<>>])
    [] e.op = "gen" -> AddStage(acc, [kind |-> "gen", in |-> 0, out |-> out, args |-> <<>>])
    [] e.op = "pipe" ->
         LET s == acc.ns + 1
         IN Wire(e.b, s, out, Wire(e.a, in, s, [acc EXCEPT !.ns = s]))
    [] e.op = "grp" -> Wire(e.b, in, out, Wire(e.a, in, out, acc))
    [] e.op = "to" ->
         LET s == acc.ns + 1
         IN Wire(e.e, in, s, [acc EXCEPT !.ns = s, !.files = @ \cup {s}])
    [] e.op = "from" ->
         LET s == acc.ns + 1
         IN Wire(e.e, s, out, [acc EXCEPT !.ns = s, !.srcs = @ \cup {<<s, e.k>>}])

WireArgs(args, in, out, acc, done) ==
  IF args = <<>> THEN [acc |-> acc, args |-> done]
  ELSE LET x == Head(args)
           s == acc.ns + 1
           a1 == [acc EXCEPT !.ns = s]
       IN IF x.op = "fn"
          THEN \* a function argument reads what the command writes to it
               WireArgs(Tail(args), in, out,
                        AddStage(a1, [kind |-> "fn", in |-> s, out |-> out, args |-> <<>>]),
                        Append(done, [dir |-> "w", s |-> s]))
          ELSE WireArgs(Tail(args), in, out, Wire(x, in, s, a1),
                        Append(done, [dir |-> "r", s |-> s]))

(* The roots: each gets an output stream of its own. *)
RECURSIVE WireRoots(_, _, _)
WireRoots(roots, acc, done) ==
  IF roots = <<>> THEN [acc |-> acc, roots |-> done]
  ELSE LET r == Head(roots)
           s == acc.ns + 1
           a1 == [acc EXCEPT !.ns = s, !.files = IF r.mode = "wait" THEN @ \cup {s} ELSE @]
           a2 == Wire(r.e, 0, s, a1)
       IN WireRoots(Tail(roots), a2,
                    Append(done, [mode |-> r.mode, out |-> s,
                                  first |-> Len(acc.st) + 1, last |-> Len(a2.st)]))

---------------------------------------------------------------------------
(* All programs of one pipeline with n stages, iterated over or waited for.  *)
RECURSIVE Exprs(_)
Exprs(size) ==
  IF size = 1 THEN {Cmd, Fn, Gen}
  ELSE UNION {{Pipe(a, b) : a \in Exprs(k), b \in Exprs(size - k)} : k \in 1..(size - 1)}
       \cup UNION {{Grp(a, b) : a \in Exprs(k), b \in Exprs(size - k)} : k \in 1..(size - 1)}
       \cup {CmdA(<<a>>) : a \in Exprs(size - 1)}
       \cup UNION {{CmdA(<<a, b>>) : a \in Exprs(k), b \in Exprs(size - 1 - k)} : k \in 1..(size - 2)}

(* Every stream has somebody at both ends, and functions (which read ahead)  *)
(* share their input with nobody.                                            *)
WellFormed(w) ==
  LET ins(s)  == {i \in DOMAIN w.acc.st : w.acc.st[i].in = s
                   \/ \E k \in DOMAIN w.acc.st[i].args : w.acc.st[i].args[k] = [dir |-> "r", s |-> s]}
      outs(s) == {i \in DOMAIN w.acc.st : w.acc.st[i].out = s
                   \/ \E k \in DOMAIN w.acc.st[i].args : w.acc.st[i].args[k] = [dir |-> "w", s |-> s]}
  IN \A s \in 1..w.acc.ns :
       /\ outs(s) # {} \/ \E x \in w.acc.srcs : x[1] = s
       /\ ins(s) # {} \/ s \in w.acc.files \/ \E r \in DOMAIN w.roots : w.roots[r].out = s
       /\ (\E i \in ins(s) : w.acc.st[i].kind = "fn") => Cardinality(ins(s)) = 1

WireProgram(roots) == WireRoots(roots, [st |-> <<>>, ns |-> 0, files |-> {}, srcs |-> {}], <<>>)

AllPrograms(size, mode) ==
  SetToSeq({x \in {<<[e |-> e, mode |-> mode]>> : e \in Exprs(size)} : WellFormed(WireProgram(x))})

(* Pairs of pipelines running at the same time. *)
AllPairs(size) ==
  SetToSeq({x \in {<<[e |-> a, mode |-> m], [e |-> b, mode |-> "iter"]>> :
                       a \in Exprs(size), b \in Exprs(size), m \in {"iter", "wait"}} : WellFormed(WireProgram(x))})

(* Typical ones, and ones with files. *)
Typical == <<
  <<Iter(Cmd)>>, <<Iter(Pipe(Cmd, Cmd))>>, <<Iter(Pipe(Cmd, Fn))>>, <<Iter(Pipe(Gen, Cmd))>>,
  <<Iter(Pipe(Fn, Cmd))>>, <<Iter(Pipe(Gen, Pipe(Fn, Cmd)))>>, <<Iter(Pipe(Pipe(Cmd, Fn), Fn))>>,
  <<Iter(Pipe(Cmd, Pipe(Cmd, Cmd)))>>, <<Iter(Pipe(Pipe(Cmd, Cmd), Pipe(Cmd, Cmd)))>>,
  <<Iter(Grp(Cmd, Cmd))>>, <<Iter(Pipe(Grp(Cmd, Gen), Cmd))>>, <<Iter(Pipe(Cmd, Grp(Cmd, Cmd)))>>,
  <<Iter(Pipe(Grp(Fn, Cmd), Fn))>>, <<Iter(Grp(Cmd, Grp(Cmd, Cmd)))>>,
  <<Wait(Cmd)>>, <<Wait(Pipe(Cmd, Fn))>>, <<Wait(Pipe(Cmd, Cmd))>>, <<Wait(Grp(Cmd, Fn))>> >>

WithArgs == <<
  <<Iter(CmdA(<<Cmd>>))>>, <<Iter(CmdA(<<Fn>>))>>, <<Iter(CmdA(<<Gen>>))>>, <<Iter(CmdA(<<Cmd, Fn, Gen>>))>>,
  <<Iter(CmdA(<<Fn, Fn>>))>>, <<Iter(CmdA(<<Cmd, Cmd, Cmd>>))>>,
  <<Iter(CmdA(<<Pipe(Gen, Cmd), Fn>>))>>, <<Iter(Pipe(Cmd, CmdA(<<Cmd, Fn>>)))>>,
  <<Iter(CmdA(<<CmdA(<<Fn>>)>>))>>, <<Iter(CmdA(<<Grp(Cmd, Gen)>>))>>, <<Iter(CmdA(<<CmdA(<<CmdA(<<Cmd>>)>>)>>))>>,
  <<Iter(Pipe(CmdA(<<Fn, Cmd>>), Cmd))>>, <<Iter(Pipe(CmdA(<<Gen>>), CmdA(<<Gen>>)))>>,
  <<Iter(Pipe(CmdA(<<Fn>>), Pipe(Fn, CmdA(<<Fn>>))))>>, <<Iter(Grp(CmdA(<<Cmd>>), CmdA(<<Fn>>)))>>,
  <<Wait(CmdA(<<Fn, From(Cmd, 1)>>))>>, <<Wait(CmdA(<<Grp(To(Cmd), Cmd), From(Fn, 2)>>))>> >>

WithFiles == <<
  <<Wait(Pipe(From(Cmd, 2), Fn))>>, <<Iter(From(Grp(Cmd, Cmd), 3))>>, <<Iter(Grp(To(Cmd), Pipe(Cmd, Cmd)))>>,
  <<Iter(Pipe(From(Fn, 2), Cmd))>>, <<Iter(Grp(Cmd, From(Pipe(Cmd, To(Cmd)), 2)))>>, <<Iter(Pipe(Grp(Cmd, To(Cmd)), Fn))>>, <<Wait(From(Cmd, 3))>>,
  <<Wait(From(Fn, 3))>>, <<Iter(Grp(To(Grp(Cmd, Fn)), From(Cmd, 1)))>> >>

Several == <<
  <<Iter(Pipe(Cmd, Cmd)), Wait(Cmd)>>, <<Iter(Pipe(Gen, Fn)), Iter(Pipe(Cmd, Fn))>>,
  <<Wait(Pipe(Gen, Fn)), Iter(Grp(Cmd, Gen))>>, <<Iter(CmdA(<<Fn>>)), Iter(CmdA(<<Cmd>>))>>,
  <<Wait(Cmd), Wait(Cmd), Iter(Cmd)>>, <<Iter(Pipe(Cmd, Fn)), Iter(Cmd), Wait(Pipe(Fn, Cmd))>> >>

---------------------------------------------------------------------------
Wired == [i \in 1..Len(Programs) |->
            WireProgram(Programs[i])]

W        == Wired[p]
Stages   == 1..Len(W.acc.st)
Streams  == 1..W.acc.ns
Roots    == 1..Len(W.roots)
S(i)     == W.acc.st[i]
Parent(r) == 100 + r
Holders  == Stages \cup {Parent(r) : r \in Roots}
FileHolder == 200
Members(r) == W.roots[r].first..W.roots[r].last
RootOf(i) == CHOOSE r \in Roots : i \in Members(r)
Ins(i)   == ({S(i).in} \ {0}) \cup {S(i).args[k].s : k \in {k \in DOMAIN S(i).args : S(i).args[k].dir = "r"}}
Outs(i)  == {S(i).out} \cup {S(i).args[k].s : k \in {k \in DOMAIN S(i).args : S(i).args[k].dir = "w"}}

---------------------------------------------------------------------------
Init ==
  /\ p \in 1..Len(Programs)
  /\ q = [s \in Streams |->
            IF \E x \in W.acc.srcs : x[1] = s
            THEN [k \in 1..(CHOOSE x \in W.acc.srcs : x[1] = s)[2] |-> <<100 + s, k>>]
            ELSE <<>>]
  /\ rd = [s \in Streams |-> {i \in Stages : s \in Ins(i)}
                             \cup {Parent(r) : r \in {r \in Roots : W.roots[r].out = s /\ W.roots[r].mode = "iter"}}
                             \cup (IF s \in W.acc.files THEN {FileHolder} ELSE {})]
  /\ wr = [s \in Streams |-> {i \in Stages : s \in Outs(i)}]
  /\ st = [i \in Stages |-> "run"]
  /\ n = [i \in Stages |-> 0]
  /\ want = [x \in Holders |-> x > 100 /\ W.roots[x - 100].mode = "wait"]
  /\ pres = [r \in Roots |-> "run"]
  /\ sink = [s \in W.acc.files |-> <<>>]
  /\ h = <<>>


Ended(r) == \A i \in Members(r) : st[i] # "run"
Failed(r) == {i \in Members(r) : st[i] = "fail"}

(* What can be seen of the current state: status of each stage, what each   *)
(* running command finds when it polls the streams it holds.                *)
Obs(st_, q_, rd_, wr_, pres_) ==
  [st |-> st_,
   in |-> {[i |-> i, s |-> s, v |-> IF q_[s] # <<>> THEN "data" ELSE IF wr_[s] = {} THEN "eof" ELSE "none"] :
             <<i, s>> \in {<<i, s>> \in Stages \X Streams : S(i).kind = "cmd" /\ st_[i] = "run" /\ i \in rd_[s]}},
   out |-> {[i |-> i, s |-> s, v |-> IF rd_[s] = {} THEN "err" ELSE "ok"] :
             <<i, s>> \in {<<i, s>> \in Stages \X Streams : S(i).kind = "cmd" /\ st_[i] = "run" /\ i \in wr_[s]}},
   pres |-> pres_]

Log(a) == h' = IF Rec THEN Append(h, [a |-> a, o |-> Obs(st', q', rd', wr', pres')]) ELSE h

Release(i, how) ==
  /\ st' = [st EXCEPT ![i] = how]
  /\ rd' = [s \in Streams |-> rd[s] \ {i}]
  /\ wr' = [s \in Streams |-> wr[s] \ {i}]

(***************************************************************************)
(* Input is delivered to whoever waits for it as soon as there is some.    *)
(***************************************************************************)
CanDeliver(x) ==
  /\ want[x]
  /\ IF x < 100 THEN (IF S(x).in = 0 THEN TRUE ELSE q[S(x).in] # <<>> \/ wr[S(x).in] = {})
     ELSE LET r == x - 100 IN
          IF W.roots[r].mode = "iter" /\ q[W.roots[r].out] # <<>> THEN TRUE
          ELSE Ended(r)

Urgent == \E x \in Holders : CanDeliver(x)

Deliver ==
  \E x \in Holders :
    /\ CanDeliver(x)
    /\ want' = [want EXCEPT ![x] = FALSE]
    /\ LET s == IF x < 100 THEN S(x).in ELSE W.roots[x - 100].out
           item == s # 0 /\ (x < 100 \/ W.roots[x - 100].mode = "iter") /\ q[s] # <<>>
       IN /\ q' = IF item THEN [q EXCEPT ![s] = Tail(@)] ELSE q
          /\ pres' = IF x > 100 /\ ~item THEN [pres EXCEPT ![x - 100] = "end"] ELSE pres
          /\ UNCHANGED <<p, rd, wr, st, n, sink>>
          /\ Log(IF item THEN [t |-> "got", x |-> x, item |-> Head(q[s])]
                 ELSE IF x < 100 THEN [t |-> "eof", x |-> x]
                 ELSE [t |-> "end", x |-> x, failed |-> Failed(x - 100)])

Ask ==
  /\ ~Urgent
  /\ \E x \in Holders :
       /\ ~want[x]
       /\ IF x < 100 THEN S(x).kind = "fn" /\ st[x] = "run"
          ELSE pres[x - 100] = "run"
       /\ want' = [want EXCEPT ![x] = TRUE]
       /\ UNCHANGED <<p, q, rd, wr, st, n, pres, sink>>
       /\ Log([t |-> "ask", x |-> x])

(* A command reads one item of one of its inputs. *)
Read ==
  /\ ~Urgent
  /\ \E i \in Stages, s \in Streams :
       /\ S(i).kind = "cmd" /\ st[i] = "run" /\ i \in rd[s] /\ q[s] # <<>>
       /\ q' = [q EXCEPT ![s] = Tail(@)]
       /\ UNCHANGED <<p, rd, wr, st, n, want, pres, sink>>
       /\ Log([t |-> "read", i |-> i, s |-> s, item |-> Head(q[s])])

(* A stage writes one item; without readers a command gets an error, a     *)
(* function or iterator fails.                                             *)
Write ==
  /\ ~Urgent
  /\ \E i \in Stages, s \in Streams :
       /\ st[i] = "run" /\ i \in wr[s] /\ n[i] < MaxItems /\ ~want[i]
       /\ n' = [n EXCEPT ![i] = @ + 1]
       /\ IF rd[s] # {}
          THEN /\ q' = IF s \in W.acc.files THEN q ELSE [q EXCEPT ![s] = Append(@, <<i, n[i] + 1>>)]
               /\ sink' = IF s \in W.acc.files THEN [sink EXCEPT ![s] = Append(@, <<i, n[i] + 1>>)] ELSE sink
               /\ UNCHANGED <<rd, wr, st>>
          ELSE /\ IF S(i).kind = "cmd" THEN UNCHANGED <<rd, wr, st>> ELSE Release(i, "fail")
               /\ UNCHANGED <<q, sink>>
       /\ UNCHANGED <<p, want, pres>>
       /\ Log([t |-> "write", i |-> i, s |-> s, item |-> <<i, n[i] + 1>>, ok |-> rd[s] # {}])

(* A command closes one of its inputs or outputs. *)
Close ==
  /\ ~Urgent
  /\ \E i \in Stages, s \in Streams :
       /\ S(i).kind = "cmd" /\ st[i] = "run"
       /\ UNCHANGED <<p, q, st, n, want, pres, sink>>
       /\ \/ /\ i \in rd[s] /\ rd' = [rd EXCEPT ![s] = @ \ {i}] /\ UNCHANGED wr
             /\ Log([t |-> "closein", i |-> i, s |-> s])
          \/ /\ i \in wr[s] /\ wr' = [wr EXCEPT ![s] = @ \ {i}] /\ UNCHANGED rd
             /\ Log([t |-> "closeout", i |-> i, s |-> s])

(* Recorded behaviours should not end too early. *)
MayEnd == (Rec /\ Len(h) < MinLen) => RandomElement(1..8) = 1

Finish ==
  /\ ~Urgent /\ MayEnd
  /\ \E i \in Stages :
       /\ st[i] = "run" /\ ~want[i]
       /\ Release(i, "ok")
       /\ UNCHANGED <<p, q, n, want, pres, sink>>
       /\ Log([t |-> "finish", i |-> i])

Fail ==
  /\ ~Urgent /\ MayEnd
  /\ \E i \in Stages, how \in {"code", "kill"} :
       /\ st[i] = "run" /\ ~want[i]
       /\ how = "kill" => S(i).kind = "cmd"
       /\ Release(i, "fail")
       /\ UNCHANGED <<p, q, n, want, pres, sink>>
       /\ Log([t |-> "fail", i |-> i, how |-> how])

(* Several commands end before the program that runs them notices. *)
FinishAll ==
  /\ ~Urgent /\ MayEnd
  /\ LET all == {i \in Stages : st[i] = "run" /\ S(i).kind = "cmd"}
     IN /\ Cardinality(all) > 1
        /\ \E bad \in SUBSET all :
             /\ st' = [i \in Stages |-> IF i \in bad THEN "fail" ELSE IF i \in all THEN "ok" ELSE st[i]]
             /\ rd' = [s \in Streams |-> rd[s] \ all]
             /\ wr' = [s \in Streams |-> wr[s] \ all]
             /\ UNCHANGED <<p, q, n, want, pres, sink>>
             /\ Log([t |-> "finishall", all |-> all, bad |-> bad])

Done == \A r \in Roots : pres[r] = "end"

Next == Deliver \/ Ask \/ Read \/ Write \/ Close \/ Finish \/ Fail \/ FinishAll

(* For the deadlock check: some step is possible until all have ended. *)
NextD == Next \/ (Done /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver) /\ WF_vars(Ask)
             /\ WF_vars(Finish) /\ WF_vars(Read)

---------------------------------------------------------------------------
(* Properties of the design *)

(* P01: a stream is a queue: its content is what was written and not yet    *)
(* read, in the order written, each item once.                             *)
QueueOK ==
  \A s \in Streams : \A a, b \in DOMAIN q[s] :
    (a < b /\ q[s][a][1] = q[s][b][1]) => q[s][a][2] < q[s][b][2]

(* P02: no stage waits for input that can never come: if nobody feeds it,   *)
(* its input has ended.                                                     *)
NoHang ==
  \A x \in Holders : (want[x] /\ ~CanDeliver(x)) =>
     IF x < 100 THEN \E i \in Stages : st[i] = "run" /\ i \in wr[S(x).in]
     ELSE \E i \in Members(x - 100) : st[i] = "run"

(* P03 *)
EndOK == \A r \in Roots : pres[r] = "end" => Ended(r)

(* P05: when everything has ended nobody holds any end of any stream. *)
NothingHeld == Done => \A s \in Streams : wr[s] = {} /\ rd[s] \subseteq ({FileHolder} \cup {Parent(r) : r \in Roots})

Terminates == <>Done

---------------------------------------------------------------------------
(* Recording behaviours for replay: at the end, and only there. *)
Emit == (Rec /\ Done) =>
          PrintT("@T " \o ToJson([p |-> p, e |-> Programs[p], w |-> W, steps |-> h,
                                  sink |-> [s \in DOMAIN sink |-> sink[s]]]))
=============================================================================
