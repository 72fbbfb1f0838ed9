-------------------------------- MODULE Jobs --------------------------------
(***************************************************************************)
(* Pipelines as jobs: their stages end, in any order and any number of them*)
(* before the shell gets to notice (Turn), are stopped and continued by the*)
(* shell or by somebody else, while any number of tasks wait for them, one *)
(* possibly in the foreground, and Ctrl-Z and Ctrl-C are pressed.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Configs,     \* sequence of configurations: pipelines of stages of kinds cmd, bad, fn
          MaxWait,     \* how many waits there may be
          Rec, MinLen

VARIABLES c,           \* index of the configuration
          started,     \* pipeline -> was it started?
          os,          \* stage -> "none", "run", "stop", "zombie" (has ended), "gone"
          code,        \* stage -> exit status once ended
          seen,        \* stage -> has the shell noticed that it ended?
          susp,        \* pipeline -> suspended (by the shell) and not resumed
          told,        \* pipeline -> its waiters have to be told so
          ws,          \* the waits: [r |-> pipeline, k |-> kind, res |-> "pend" or result(s)]
          fgw,         \* index of the wait in the foreground, or 0
          last,        \* last_pipeline (0: none)
          h

vars == <<c, started, os, code, seen, susp, told, ws, fgw, last, h>>

Pl       == Configs[c]
Pipes    == 1..Len(Pl)
NStages  == LET RECURSIVE sum(_)
                sum(k) == IF k = 0 THEN 0 ELSE Len(Pl[k]) + sum(k - 1)
            IN sum(Len(Pl))
Offset(r) == LET RECURSIVE sum(_)
                 sum(k) == IF k = 0 THEN 0 ELSE Len(Pl[k]) + sum(k - 1)
             IN sum(r - 1)
Stages   == 1..NStages
Members(r) == (Offset(r) + 1)..(Offset(r) + Len(Pl[r]))
RootOf(i) == CHOOSE r \in Pipes : i \in Members(r)
Kind(i)  == Pl[RootOf(i)][i - Offset(RootOf(i))]

Init ==
  /\ c \in 1..Len(Configs)
  /\ started = [r \in Pipes |-> FALSE]
  /\ os = [i \in Stages |-> "none"]
  /\ code = [i \in Stages |-> 0]
  /\ seen = [i \in Stages |-> FALSE]
  /\ susp = [r \in Pipes |-> FALSE]
  /\ told = [r \in Pipes |-> FALSE]
  /\ ws = <<>> /\ fgw = 0 /\ last = 0 /\ h = <<>>

---------------------------------------------------------------------------
EndedIn(r, seen_) == started[r] /\ \A i \in Members(r) : seen_[i]
Running(r) == started[r] /\ \E i \in Members(r) : ~seen[i]
Result(r)  == IF \E i \in Members(r) : code[i] # 0 THEN "fail" ELSE "ok"
(* After Ctrl-C during fg, what fg waited for is still waited for. *)
HiddenOn(r) == \E w \in DOMAIN ws : ws[w].r = r /\ ws[w].k = "fg" /\ ws[w].res = {"int"}
Hidden == \E r \in Pipes : HiddenOn(r)
Pending    == {w \in DOMAIN ws : ws[w].res = {"pend"}}

Obs == [os |-> os', seen |-> seen', code |-> [i \in Stages |-> IF seen'[i] THEN code'[i] ELSE 0],
        run |-> [r \in Pipes |-> started'[r] /\ \E i \in Members(r) : ~seen'[i]],
        ws |-> [w \in DOMAIN ws' |-> ws'[w].res], fgw |-> fgw', last |-> last']

Log(a) == h' = IF Rec THEN Append(h, [a |-> a, o |-> Obs]) ELSE h

Stopped(r, os_) == [i \in Stages |-> IF i \in Members(r) /\ os_[i] = "run" /\ Kind(i) # "fn" THEN "stop" ELSE os_[i]]
Resumed(r, os_) == [i \in Stages |-> IF i \in Members(r) /\ os_[i] = "stop" THEN "run" ELSE os_[i]]

(* The shell notices everything that has happened.  os_, susp_, told_, ws_,  *)
(* code_ are the values just before that.                                    *)
TurnFrom(os_, susp_, told_, ws_, code_) ==
  LET seen1 == [i \in Stages |-> seen[i] \/ os_[i] = "zombie"]
      start1(r) == os_[Offset(r) + 1] # "none"
      ended(r) == start1(r) /\ \A i \in Members(r) : seen1[i]
      final(r) == IF \E i \in Members(r) : code_[i] # 0 THEN "fail" ELSE "ok"
      ws1 == [w \in DOMAIN ws_ |->
                IF ws_[w].res # {"pend"} THEN ws_[w]
                ELSE LET r == ws_[w].r IN
                     IF told_[r] /\ susp_[r]
                     THEN [ws_[w] EXCEPT !.res = IF ended(r) THEN {"susp", final(r)} ELSE {"susp"}]
                     ELSE IF ended(r) THEN [ws_[w] EXCEPT !.res = {final(r)}]
                     ELSE ws_[w]]
      reported == {r \in Pipes : \E w \in DOMAIN ws_ : ws_[w].r = r /\ ws_[w].res = {"pend"} /\ "susp" \in ws1[w].res}
  IN /\ seen' = seen1
     /\ os' = [i \in Stages |-> IF os_[i] = "zombie" THEN "gone"
                                ELSE IF RootOf(i) \in reported /\ os_[i] = "run" /\ Kind(i) # "fn" THEN "stop"
                                ELSE os_[i]]
     /\ ws' = ws1
     /\ told' = [r \in Pipes |-> FALSE]
     /\ susp' = susp_
     /\ code' = code_
     /\ fgw' = IF fgw # 0 /\ ws1[fgw].res # {"pend"} THEN 0 ELSE fgw
     /\ last' = IF fgw # 0 /\ ws_[fgw].k = "fg" /\ "susp" \in ws1[fgw].res
                THEN (IF ws1[fgw].res = {"susp"} THEN ws_[fgw].r ELSE 0) ELSE last

Turn ==
  /\ \/ \E i \in Stages : os[i] = "zombie"
     \/ \E r \in Pipes : told[r]
  /\ TurnFrom(os, susp, told, ws, code)
  /\ UNCHANGED <<c, started>>
  /\ Log([t |-> "turn"])

(* Starting a pipeline.  What can not be executed ends by itself at once. *)
Begin(r, os_) == [i \in Stages |-> IF i \notin Members(r) THEN os_[i]
                                   ELSE IF Kind(i) = "bad" THEN "zombie" ELSE "run"]
BeginCode(r) == [i \in Stages |-> IF i \in Members(r) /\ Kind(i) = "bad" THEN 2 ELSE code[i]]

Start ==
  /\ \E r \in Pipes :
       /\ ~started[r]
       /\ started' = [started EXCEPT ![r] = TRUE]
       /\ os' = Begin(r, os) /\ code' = BeginCode(r)
       /\ last' = r
       /\ UNCHANGED <<c, seen, susp, told, ws, fgw>>
       /\ Log([t |-> "start", r |-> r])

(* There is nothing to continue: that is said, and nothing is run *)
Nothing ==
  /\ \A r \in Pipes : ~started[r]
  /\ \E k \in {"fg", "bg"} :
       /\ UNCHANGED <<c, started, os, code, seen, susp, told, ws, fgw, last>>
       /\ Log([t |-> "nothing", k |-> k])

(* Running it in the foreground *)
Run ==
  /\ fgw = 0 /\ Len(ws) < MaxWait /\ \A r \in Pipes : ~told[r]
  /\ \E r \in Pipes, k \in {"pos", "await"} :
       /\ ~started[r]
       /\ started' = [started EXCEPT ![r] = TRUE]
       /\ last' = r
       /\ LET ws1 == Append(ws, [r |-> r, k |-> k, res |-> {"pend"}])
              fg1 == IF k = "pos" THEN Len(ws1) ELSE 0
          IN /\ os' = [i \in Stages |-> IF os[i] = "zombie" \/ Begin(r, os)[i] = "zombie" THEN "gone" ELSE Begin(r, os)[i]]
             /\ code' = BeginCode(r)
             /\ seen' = [i \in Stages |-> seen[i] \/ Begin(r, os)[i] = "zombie"]
             /\ LET done(x) == \A i \in Members(x) : seen'[i]
                    fin(x) == IF \E i \in Members(x) : code'[i] # 0 THEN "fail" ELSE "ok"
                IN /\ ws' = [w \in DOMAIN ws1 |-> IF ws1[w].res = {"pend"} /\ done(ws1[w].r)
                                                  THEN [ws1[w] EXCEPT !.res = {fin(ws1[w].r)}] ELSE ws1[w]]
                   /\ fgw' = IF fg1 # 0 /\ ws'[fg1].res = {"pend"} THEN fg1 ELSE 0
             /\ Log([t |-> "run", r |-> r, k |-> k, w |-> Len(ws1)])
       /\ UNCHANGED <<c, susp, told>>

(* Stages end: by themselves, or killed. *)
Die ==
  \E i \in Stages, how \in {"ok", "code", "kill"} :
    /\ os[i] \in {"run", "stop"}
    /\ os[i] = "stop" => how = "kill"
    /\ Kind(i) = "fn" => how # "kill"
    /\ os' = [os EXCEPT ![i] = "zombie"]
    /\ code' = [code EXCEPT ![i] = CASE how = "ok" -> 0 [] how = "code" -> 1 + (i % 3) [] how = "kill" -> 9]
    /\ UNCHANGED <<c, started, seen, susp, told, ws, fgw, last>>
    /\ Log([t |-> "die", i |-> i, how |-> how])

(* Somebody else stops or continues a stage. *)
Signal ==
  \E i \in Stages :
    /\ Kind(i) = "cmd" /\ os[i] \in {"run", "stop"}
    /\ ~told[RootOf(i)]
    /\ os' = [os EXCEPT ![i] = IF @ = "run" THEN "stop" ELSE "run"]
    /\ UNCHANGED <<c, started, code, seen, susp, told, ws, fgw, last>>
    /\ Log([t |-> "signal", i |-> i])

(* ... or many of them at once, before the shell gets to see any of it. *)
Living == {i \in Stages : os[i] \in {"run", "stop"}}
MassHow(i) == IF os[i] = "stop" THEN "kill" ELSE IF i % 2 = 0 THEN "ok" ELSE "code"
DieAll ==
  /\ Cardinality(Living) > 2
  /\ os' = [i \in Stages |-> IF i \in Living THEN "zombie" ELSE os[i]]
  /\ code' = [i \in Stages |-> IF i \notin Living THEN code[i]
                               ELSE CASE MassHow(i) = "ok" -> 0 [] MassHow(i) = "code" -> 1 + (i % 3) [] MassHow(i) = "kill" -> 9]
  /\ UNCHANGED <<c, started, seen, susp, told, ws, fgw, last>>
  /\ Log([t |-> "dieall", all |-> [i \in Stages |-> IF i \in Living THEN MassHow(i) ELSE "no"]])

StopAll ==
  /\ Cardinality({i \in Living : Kind(i) = "cmd"}) > 2
  /\ \A r \in Pipes : ~told[r]
  /\ os' = [i \in Stages |-> IF i \in Living /\ Kind(i) = "cmd" THEN "stop" ELSE os[i]]
  /\ os' # os
  /\ UNCHANGED <<c, started, code, seen, susp, told, ws, fgw, last>>
  /\ Log([t |-> "stopall", all |-> [i \in Stages |-> IF i \in Living /\ Kind(i) = "cmd" /\ os[i] = "run" THEN "signal" ELSE "no"]])

(* A task starts to wait, which resumes the pipeline. *)
Wait ==
  /\ Len(ws) < MaxWait
  /\ \A r \in Pipes : ~told[r]
  /\ \E r \in Pipes, k \in {"wait", "obj"} :
       /\ started[r]
       /\ TurnFrom(Resumed(r, os), [susp EXCEPT ![r] = FALSE], told,
                   Append(ws, [r |-> r, k |-> k, res |-> {"pend"}]), code)
       /\ UNCHANGED <<c, started>>
       /\ Log([t |-> "wait", r |-> r, k |-> k, w |-> Len(ws) + 1])

(* fg waits in the foreground for the last or a given pipeline. *)
Fg ==
  /\ fgw = 0 /\ Len(ws) < MaxWait /\ \A r \in Pipes : ~told[r]
  /\ \E r \in Pipes, k \in {"fg", "fgarg"} :
       /\ started[r] /\ (k = "fg" => last = r /\ ~Hidden)
       /\ LET ws1 == Append(ws, [r |-> r, k |-> "fg", res |-> {"pend"}])
              os1 == Resumed(r, os)
              seen1 == [i \in Stages |-> seen[i] \/ os1[i] = "zombie"]
              done(x) == \A i \in Members(x) : seen1[i]
              fin(x) == IF \E i \in Members(x) : code[i] # 0 THEN "fail" ELSE "ok"
          IN /\ seen' = seen1
             /\ os' = [i \in Stages |-> IF os1[i] = "zombie" THEN "gone" ELSE os1[i]]
             /\ ws' = [w \in DOMAIN ws1 |-> IF ws1[w].res = {"pend"} /\ started[ws1[w].r] /\ done(ws1[w].r)
                                            THEN [ws1[w] EXCEPT !.res = {fin(ws1[w].r)}] ELSE ws1[w]]
             /\ fgw' = IF ws'[Len(ws1)].res = {"pend"} THEN Len(ws1) ELSE 0
       /\ susp' = [susp EXCEPT ![r] = FALSE]
       /\ last' = 0     \* the fg itself, until it is suspended (see CtrlZ)
       /\ UNCHANGED <<c, started, code, told>>
       /\ Log([t |-> "fg", r |-> r, k |-> k, w |-> Len(ws) + 1])

(* Cancelling one waiting task *)
Cancel ==
  \E w \in Pending :
    /\ w # fgw
    /\ \A r \in Pipes : ~told[r]
    /\ TurnFrom(os, susp, told, [ws EXCEPT ![w].res = {"cancel"}], code)
    /\ UNCHANGED <<c, started>>
    /\ Log([t |-> "cancel", w |-> w])

(* last_pipeline.suspend(), restart() and bg *)
Suspend ==
  \E r \in Pipes :
    /\ started[r] /\ ~EndedIn(r, seen) /\ ~told[r]
    /\ os' = Stopped(r, os)
    /\ susp' = [susp EXCEPT ![r] = TRUE]
    /\ told' = [told EXCEPT ![r] = HiddenOn(r) \/ \E w \in Pending : ws[w].r = r]
    /\ UNCHANGED <<c, started, code, seen, ws, fgw, last>>
    /\ Log([t |-> "suspend", r |-> r])

Resume ==
  \E r \in Pipes, k \in {"restart", "bg", "bgarg"} :
    /\ started[r] /\ ~told[r]
    /\ k = "bg" => last = r /\ ~Hidden
    /\ os' = Resumed(r, os)
    /\ susp' = [susp EXCEPT ![r] = FALSE]
    /\ UNCHANGED <<c, started, code, seen, told, ws, fgw, last>>
    /\ Log([t |-> "resume", r |-> r, k |-> k])

(* Ctrl-Z concerns the pipeline waited for (here: the only one), if any. *)
CtrlZ ==
  /\ Cardinality(Pending) <= 1
  /\ \A r \in Pipes : ~told[r]
  /\ \E i \in Stages : os[i] = "run"
  /\ ~Hidden
  /\ IF Pending = {} THEN TurnFrom(os, susp, told, ws, code)
     ELSE LET r == ws[CHOOSE x \in Pending : TRUE].r
          IN TurnFrom(os, [susp EXCEPT ![r] = TRUE], [told EXCEPT ![r] = TRUE], ws, code)
  /\ UNCHANGED <<c, started>>
  /\ Log([t |-> "ctrlz"])

(* Ctrl-C ends the waiting in the foreground; the stages are not concerned  *)
(* (they get a signal of their own from the terminal).                      *)
CtrlC ==
  /\ fgw # 0 /\ \A r \in Pipes : ~told[r]
  /\ \A i \in Stages : os[i] # "zombie"
  /\ ws' = [ws EXCEPT ![fgw].res = {"int"}]
  /\ fgw' = 0
  /\ UNCHANGED <<c, started, os, code, seen, susp, told, last>>
  /\ Log([t |-> "ctrlc"])

Done == (\A r \in Pipes : started[r]) /\ (\A i \in Stages : seen[i]) /\ Pending = {} /\ (\A r \in Pipes : ~told[r])

MayEnd == (Rec /\ Len(h) < MinLen) => RandomElement(1..3) = 1

(* a recorded behaviour goes on until everything has ended *)
Go == ~(Rec /\ Done /\ Len(h) >= MinLen)

Next == \/ Go /\ Turn
        \/ Go /\ Start
        \/ Go /\ Nothing
        \/ Go /\ Run
        \/ Go /\ MayEnd /\ Die
        \/ Go /\ MayEnd /\ DieAll
        \/ Go /\ Signal
        \/ Go /\ StopAll
        \/ Go /\ Wait
        \/ Go /\ Fg
        \/ Go /\ Cancel
        \/ Go /\ Suspend
        \/ Go /\ Resume
        \/ Go /\ CtrlZ
        \/ Go /\ CtrlC

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* P03: waiting ends with the outcome of the pipeline, and only then. *)
WaitOK ==
  \A w \in DOMAIN ws : \A x \in ws[w].res :
    x \in {"ok", "fail"} => (EndedIn(ws[w].r, seen) \/ told[ws[w].r]) /\ x = Result(ws[w].r)

(* ... and always does when everything has been noticed. *)
NoneForgotten ==
  \A w \in Pending : \E i \in Members(ws[w].r) : ~seen[i]

(* The shell forgets nobody: what has ended is noticed in the next turn. *)
Noticed == [][Turn => \A i \in Stages : os[i] = "zombie" => seen'[i]]_vars

(* P07: shell actions on one pipeline concern no other. *)
OnlyThat ==
  [][\A r, x \in Pipes : (susp'[r] # susp[r] /\ x # r) =>
       /\ susp'[x] = susp[x]
       /\ \A i \in Members(x) : os'[i] = os[i] \/ (os[i] = "zombie" /\ os'[i] = "gone")
                               \/ (os[i] = "none" /\ started'[x])]_vars

SuspendStopsAll ==
  [][\A r \in Pipes : susp'[r] /\ ~susp[r] => \A i \in Members(r) : os'[i] # "run" \/ Kind(i) = "fn"]_vars

ResumeContinuesAll ==
  [][\A r \in Pipes : susp[r] /\ ~susp'[r] => \A i \in Members(r) : os'[i] # "stop"]_vars

Emit == (Rec /\ Done /\ Len(h) >= MinLen) => PrintT("@T " \o ToJson([pl |-> Pl, steps |-> h]))
=============================================================================
