----------------------------- MODULE BashImport -----------------------------
(***************************************************************************)
(* Sourcing scripts: a shell starts with the variables of an environment,  *)
(* does what the scripts say, one after another, and every variable that   *)
(* is exported when the last of them has ended gets the value it has then  *)
(* in the environment.                                                     *)
(*                                                                         *)
(* Values are sequences of symbols; the driver knows what characters they  *)
(* stand for.  x and X are the same letter in lower and upper case.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Randomization, TLC, Json

CONSTANTS Names, Symbols, MaxValue, MaxCmds, MaxScripts, Noises, Steps, Rec

VARIABLES envs,     \* the exports of each environment
          sh,       \* the shell that is running
          proc,     \* the variables of the calling process itself, that don't matter
          n, h
vars == <<envs, sh, proc, n, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h
Unset == [v |-> <<>>, set |-> FALSE, x |-> FALSE, r |-> FALSE, c |-> ""]      \* value, has one, exported, read-only, case
None == [on |-> FALSE]
E == {"e1", "e2"}

RECURSIVE RandomN(_, _)
RandomN(S, k) == IF k = 0 THEN <<>> ELSE Append(RandomN(S, k - 1), RandomElement(S))
AllValues == UNION {[1..k -> Symbols] : k \in 0..MaxValue}
Value(k) == IF Rec THEN {RandomN(Symbols, RandomElement(0..MaxValue))} ELSE AllValues

(* Lower and upper case; for the longer texts with letters, named after them *)
Lettered == {"w", "hd", "br", "nl", "lk", "lf", "ll"}
Lower == [s \in {"X"} \cup UNION {{l, l \o "^"} : l \in Lettered} |-> IF s = "X" THEN "x" ELSE CHOOSE t \in {l \o "_" : l \in Lettered} : \E l \in Lettered : t = l \o "_" /\ s \in {l, l \o "^"}]
Upper == [s \in {"x"} \cup UNION {{l, l \o "_"} : l \in Lettered} |-> IF s = "x" THEN "X" ELSE CHOOSE t \in {l \o "^" : l \in Lettered} : \E l \in Lettered : t = l \o "^" /\ s \in {l, l \o "_"}]
Mapped(f, s) == IF s \in DOMAIN f THEN f[s] ELSE s
Cased(var, v) == [i \in 1..Len(v) |-> IF var.c = "l" THEN Mapped(Lower, v[i]) ELSE IF var.c = "u" THEN Mapped(Upper, v[i]) ELSE v[i]]
Var(name) == sh.vars[name]
Running == sh.on /\ sh.ph = "run"

Init == envs = [e \in E |-> [x \in {} |-> <<>>]] /\ sh = None /\ proc = [x \in {} |-> <<>>] /\ n = 0 /\ h = <<>>

(* the environment is told of a variable otherwise *)
Export ==
  /\ ~sh.on /\ n < Steps
  /\ \E e \in Pick(E) : \E x \in Pick(Names) : \E v \in Value(n) :
       /\ envs' = [envs EXCEPT ![e] = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN v ELSE @[y]]]
       /\ n' = n + 1 /\ Log([t |-> "export", e |-> e, x |-> x, v |-> v])
  /\ UNCHANGED <<sh, proc>>

Start ==
  /\ ~sh.on /\ n < Steps
  /\ \E e \in Pick(E) : \E k \in Pick(0..MaxScripts) :
       /\ sh' = [on |-> TRUE, e |-> e, ph |-> IF k = 0 THEN "end" ELSE "run", left |-> k, cmds |-> 0, out |-> <<>>, noise |-> {}, status |-> 0, told |-> FALSE,
                 vars |-> [x \in Names |-> IF x \in DOMAIN envs[e] THEN [v |-> envs[e][x], set |-> TRUE, x |-> TRUE, r |-> FALSE, c |-> ""] ELSE Unset]]
       /\ n' = n + 1 /\ Log([t |-> "start", e |-> e, k |-> k])
  /\ UNCHANGED <<envs, proc>>

(* One command of the script *)
Cmd(a) == /\ Log([t |-> "cmd"] @@ a) /\ UNCHANGED <<envs, proc, n>>
Put(x, var) == sh' = [sh EXCEPT !.vars[x] = var, !.cmds = @ + 1]
MayDo == Running /\ sh.cmds < MaxCmds
Assign ==
  /\ MayDo
  /\ \E how \in Pick({"export", "set", "append", "local", "env"}) : \E x \in Pick(Names) : \E v \in Value(n) :
       LET o == Var(x) IN
       IF how = "export" THEN
         /\ ~o.r \/ (o.x /\ o.set)
         /\ Put(x, IF o.r THEN o ELSE [o EXCEPT !.v = Cased(o, v), !.set = TRUE, !.x = TRUE])      \* (refused if read-only)
         /\ Cmd([c |-> "export", x |-> x, v |-> v])
       ELSE IF how = "set" THEN ~o.r /\ Put(x, [o EXCEPT !.v = Cased(o, v), !.set = TRUE]) /\ Cmd([c |-> "set", x |-> x, v |-> v])
       ELSE IF how = "append" THEN ~o.r /\ Put(x, [o EXCEPT !.v = Cased(o, @ \o v), !.set = TRUE]) /\ Cmd([c |-> "append", x |-> x, v |-> v])
       ELSE IF how = "local" THEN ~o.r /\ Put(x, o) /\ Cmd([c |-> "local", x |-> x, v |-> v])        \* in a function, or in a subshell
       ELSE ~o.r /\ Put(x, o) /\ Cmd([c |-> "env", x |-> x, v |-> v])                                \* for one command
Copy ==
  /\ MayDo
  /\ \E x \in Pick(Names) : \E y \in Pick(Names) :
       /\ Var(y).set /\ ~Var(x).r
       /\ Put(x, [Var(x) EXCEPT !.v = Cased(Var(x), Var(y).v), !.set = TRUE, !.x = TRUE])
       /\ Cmd([c |-> "copy", x |-> x, y |-> y])
Change ==
  /\ MayDo
  /\ \E x \in Pick(Names) : \E what \in Pick({"mark", "unmark", "unset", "readonly", "lower", "upper", "array"}) :
       LET o == Var(x) IN
       /\ what \in {"unset", "lower", "upper", "array"} => ~o.r
       /\ what = "array" => ~o.set /\ ~o.x /\ o.c = ""
       /\ Put(x, CASE what = "mark" -> [o EXCEPT !.x = TRUE]
                   [] what = "unmark" -> [o EXCEPT !.x = FALSE]
                   [] what = "unset" -> Unset
                   [] what = "readonly" -> [o EXCEPT !.r = TRUE]
                   [] what = "lower" -> [o EXCEPT !.c = "l"]           \* from the next assignment on
                   [] what = "upper" -> [o EXCEPT !.c = "u"]
                   [] what = "array" -> Unset)                          \* made and exported, and unset at the end: see the driver
       /\ Cmd([c |-> what, x |-> x])
Say ==
  /\ MayDo
  /\ \E v \in Value(n) : \E where \in Pick({1, 2}) :
       /\ sh' = [sh EXCEPT !.cmds = @ + 1, !.out = IF where = 1 THEN Append(@, v) ELSE @]
       /\ Cmd([c |-> "say", v |-> v, w |-> where])
Noise ==
  /\ MayDo /\ Noises # {}
  /\ \E k \in Pick(Noises) :
       /\ sh' = [sh EXCEPT !.cmds = @ + 1, !.noise = @ \cup {k}]
       /\ Cmd([c |-> "noise", k |-> k])

Return ==
  /\ Running
  /\ \E k \in Pick({"end", "end", "return", "false", "syntax"}) :
       /\ sh' = [sh EXCEPT !.left = @ - 1, !.ph = IF sh.left = 1 THEN "end" ELSE "run", !.cmds = 0]
       /\ Cmd([c |-> "return", k |-> k])
Exit ==
  /\ MayDo /\ (Rec => RandomElement(1..12) = 1)
  /\ \E k \in Pick({0, 3}) :
       /\ sh' = [sh EXCEPT !.ph = "gone", !.status = k]
       /\ Cmd([c |-> "exit", k |-> k])

Exported == {x \in Names : Var(x).x /\ Var(x).set}
Imported == IF sh.ph = "gone" THEN envs
            ELSE [envs EXCEPT ![sh.e] = [y \in DOMAIN @ \cup Exported |-> IF y \in Exported THEN Var(y).v ELSE @[y]]]
Import ==
  /\ sh.on /\ sh.ph \in {"end", "gone"}
  /\ envs' = Imported
  /\ sh' = None
  /\ Log([t |-> "import", e |-> sh.e, envs |-> [e \in E |-> [x \in Names |-> IF x \in DOMAIN Imported[e] THEN [has |-> TRUE, v |-> Imported[e][x]] ELSE [has |-> FALSE]]],
          out |-> sh.out, noise |-> sh.noise, status |-> sh.status, gone |-> sh.ph = "gone"])
  /\ n' = n /\ UNCHANGED proc

(* The calling process happens to have some of those variables, with the same values *)
Elsewhere ==
  /\ sh.on /\ sh.ph \in {"end", "gone"} /\ ~sh.told
  /\ \E S \in IF Rec THEN {RandomSubset(RandomElement(0..Cardinality(Exported)), Exported)} ELSE {{}, Exported} :
       /\ proc' = [x \in S |-> Var(x).v]
       /\ Log([t |-> "elsewhere", proc |-> [x \in Names |-> IF x \in S THEN [has |-> TRUE, v |-> Var(x).v] ELSE [has |-> FALSE]]])
  /\ sh' = [sh EXCEPT !.told = TRUE] /\ UNCHANGED <<envs, n>>

Next == Export \/ Start \/ Assign \/ Assign \/ Assign \/ Copy \/ Change \/ Change \/ Say \/ Noise \/ Return \/ Exit \/ Import \/ Elsewhere
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Nothing but sourcing and exporting changes an environment, and only its own *)
OnlyItsOwn == [][\A e \in E : envs'[e] # envs[e] /\ sh.on => e = sh.e]_vars
(* ... not the process *)
NotTheProcess == [][envs' # envs => proc' = proc]_vars
(* the shell's last word *)
Exactly == [][sh.on /\ ~sh'.on /\ sh.ph = "end" => \A x \in Names : Var(x).x /\ Var(x).set => envs'[sh.e][x] = Var(x).v]_vars
NeverLost == [][\A e \in E : DOMAIN envs[e] \subseteq DOMAIN envs'[e]]_vars
Sane == sh.on => \A x \in Names : (Var(x).c = "l" => TRUE) /\ (Var(x).set \/ Var(x).v = <<>>)

Emit == (Rec /\ ~sh.on /\ n = Steps) => PrintT("@T " \o ToJson([steps |-> h]))
=============================================================================
