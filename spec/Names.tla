------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names of processes.  The processes of a run, and the children of any    *)
(* process, are found through a tree of names.  The first name comes from  *)
(* the command; those that share it are told apart further down.  A name   *)
(* depends on nothing but the process: not on others having ended, on the  *)
(* directory, or on what else goes on.                                     *)
(*                                                                         *)
(* Texts are sequences of symbols; see the driver for what they stand for. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Words,      \* words of commands: letters only
          FnNames,    \* names of functions: symbols of any kind
          ExeNames,   \* names of executables
          Arg0s,      \* what processes are called by whoever started them
          MaxStages, MaxProcs, Mode, Steps, Rec

VARIABLES stages,     \* of the pipeline
          running,    \* it has been started; how often
          procs,      \* process tree: a function from ids to records
          n, h
vars == <<stages, running, procs, n, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h

---------------------------------------------------------------------------
(* From texts to names: small letters, digits, and single underscores      *)
(* between words.  "_" in a sequence of symbols is anything else.          *)
Plain(s) == CASE s \in {"a", "b", "c", "p", "i", "d", "n", "m", "e", "k", "x"} -> <<s>>
              [] s = "A" -> <<"a">> [] s = "B" -> <<"b">>
              [] s = "1" -> <<"1">> [] s = "2" -> <<"2">>
              [] s = "ea" -> <<"e">>                    \* e with an accent
              [] s = "ss" -> <<"s", "s">>               \* a German sharp s
              [] s = "ri" -> <<"r", "i", "_">>          \* a Japanese character
              [] s = "em" -> <<>>                       \* an emoji
              [] s = "ap" -> <<>>                       \* a typographic apostrophe
              [] OTHER -> <<"_">>                       \* underscores, dots, dashes, blanks, slashes, quotes, ...
RECURSIVE Flat(_), Squeeze(_), Text(_)
Flat(t) == IF t = <<>> THEN <<>> ELSE Plain(t[1]) \o Flat(Tail(t))
Squeeze(t) == IF t = <<>> THEN <<>> ELSE IF t[1] = "_" /\ (Len(t) = 1 \/ t[2] = "_") THEN Squeeze(Tail(t)) ELSE <<t[1]>> \o Squeeze(Tail(t))
Text(t) == IF t = <<>> THEN "" ELSE t[1] \o Text(Tail(t))
Slug(t) == LET f == Squeeze(Flat(t)) IN LET g == IF f # <<>> /\ f[1] = "_" THEN Tail(f) ELSE f IN
           Text(IF g = <<>> \/ g[1] \in {"1", "2"} THEN <<"n">> \o g ELSE g)

RECURSIVE Last(_, _), Join(_, _)
(* what comes after the last one of these symbols *)
Last(t, sep) == IF \E i \in 1..Len(t) : t[i] = sep THEN LET i == CHOOSE i \in 1..Len(t) : t[i] = sep /\ \A j \in (i + 1)..Len(t) : t[j] # sep IN SubSeq(t, i + 1, Len(t)) ELSE t
Join(ws, sep) == IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<sep>> \o Join(Tail(ws), sep)

---------------------------------------------------------------------------
(* Stages: commands (of words, or anything else), functions, lists *)
StageKey(i, level) ==
  LET s == stages[i] IN
  CASE s.k = "cmd" -> IF level = 0 THEN Slug(s.words[1])
                      ELSE IF level = 1 /\ Len(s.words) > 1 THEN Slug(Join(s.words, "."))
                      ELSE "process " \o ToString(i)
    [] s.k = "fn"  -> IF level = 0 THEN Slug(s.name)
                      ELSE IF level = 1 THEN "module " \o s.mod \o Slug(s.name)
                      ELSE IF level = 2 THEN "text " \o s.mod \o Slug(s.name)
                      ELSE "function " \o ToString(i)
    [] OTHER       -> "other " \o ToString(i)
StageIds == 1..Len(stages)

(* Processes: what is executed, under which name, and what is known of it:  *)
(* hidden: of another user; none: by no one; dead: it has not been reaped   *)
ProcKey(p, level) ==
  LET r == procs[p] IN
  CASE level = 0 -> Slug(IF r.st = "dead" \/ r.see = "none" THEN r.exe
                         ELSE IF r.see = "hidden" THEN (IF Last(r.arg0, "/") = <<>> THEN r.exe ELSE Last(r.arg0, "/"))
                         ELSE r.exe)
    [] level = 1 -> "exe " \o (IF r.see = "all" /\ r.st = "live" THEN "/" ELSE "") \o Slug(r.exe)
    [] level = 2 -> "line " \o (IF r.see # "none" /\ r.st = "live" THEN Slug(r.arg0) ELSE Slug(r.exe))
    [] OTHER -> "pid " \o ToString(p)
Children(p) == {q \in DOMAIN procs : procs[q].par = p /\ procs[q].st # "gone"}
Live == {p \in DOMAIN procs : procs[p].st = "live"}

(* A tree of names over a set of ids: a process below a name if it is the   *)
(* only one with it, otherwise a tree with the next level of names          *)
Key(kind, p, level) == IF kind = "stage" THEN StageKey(p, level) ELSE ProcKey(p, level)
RECURSIVE Paths(_, _, _, _)
(* the names that lead to p *)
Paths(p, ids, level, kind) ==
  LET same == {q \in ids : Key(kind, q, level) = Key(kind, p, level)} IN
  IF same = {p} THEN <<Key(kind, p, level)>> ELSE <<Key(kind, p, level)>> \o Paths(p, same, level + 1, kind)
StagePath(i) == Paths(i, StageIds, 0, "stage")
ProcPath(p) == Paths(p, Children(procs[p].par), 0, "proc")

---------------------------------------------------------------------------
Init == stages = <<>> /\ running = 0 /\ procs = [p \in {} |-> 0] /\ n = 0 /\ h = <<>>

Stage ==
  /\ Mode = "pipe" /\ running = 0 /\ Len(stages) < MaxStages
  /\ \E k \in Pick({"cmd", "fn", "bare", "list"}) :
     \/ /\ k = "cmd"
        /\ \E l \in Pick(1..3) : \E w \in Pick(Words) : \E v \in Pick(Words) : \E u \in Pick(Words) : \E arg \in Pick({"", "glob", "plain", "in"}) :
             LET s == [k |-> "cmd", words |-> SubSeq(<<w, v, u>>, 1, l), arg |-> arg] IN
             stages' = Append(stages, s) /\ Log([t |-> "stage"] @@ s)
     \/ /\ k = "fn"
        /\ \E f \in Pick(FnNames) : \E m \in Pick({"m1", "m2", "method"}) : \E arg \in Pick({"", "plain"}) :
             LET s == [k |-> "fn", name |-> f, mod |-> m, arg |-> arg] IN
             stages' = Append(stages, s) /\ Log([t |-> "stage"] @@ s)
     \/ /\ k \in {"bare", "list"}
        /\ LET s == [k |-> k] IN stages' = Append(stages, s) /\ Log([t |-> "stage"] @@ s)
  /\ UNCHANGED <<running, procs, n>>
Run ==
  /\ Mode = "pipe" /\ stages # <<>> /\ running < 2 /\ n < Steps
  /\ running = 0 => (Rec => Len(stages) >= MaxStages \div 2)
  /\ running' = running + 1
  /\ n' = n + 1 /\ Log([t |-> "run"]) /\ UNCHANGED <<stages, procs>>
(* One of a run is told to end *)
End ==
  /\ running > 0 /\ n < Steps
  /\ \E i \in Pick(StageIds) : n' = n + 1 /\ Log([t |-> "end", i |-> i])
  /\ UNCHANGED <<stages, running, procs>>
(* Something that has nothing to do with it *)
Else ==
  /\ running > 0 /\ n < Steps
  /\ \E what \in Pick({"cd", "files", "list", "job", "export", "others", "finish"}) : n' = n + 1 /\ Log([t |-> "else", what |-> what])
  /\ UNCHANGED <<stages, running, procs>>

First(ids, kind, key) == {p \in ids : Key(kind, p, 0) = key}
Names(ids, kind) == {[key |-> key, ids |-> First(ids, kind, key)] : key \in {Key(kind, p, 0) : p \in ids}}
Look ==
  /\ running > 0 /\ n < Steps
  /\ n' = n + 1
  /\ Log([t |-> "look", names |-> Names({i \in StageIds : stages[i].k \in {"cmd", "fn"}}, "stage")])
  /\ UNCHANGED <<stages, running, procs>>

(* -- the system's processes ---------------------------------------------- *)
NewId == Cardinality(DOMAIN procs) + 1
Spawn ==
  /\ Mode = "tree" /\ NewId <= MaxProcs /\ n < Steps
  /\ \E par \in Pick(Live \cup (IF procs = [p \in {} |-> 0] THEN {0} ELSE {})) : \E e \in Pick(ExeNames) : \E a \in Pick(Arg0s) : \E see \in Pick({"all", "hidden", "none"}) :
       LET r == [par |-> par, exe |-> e, arg0 |-> a, see |-> IF par = 0 THEN "all" ELSE see, st |-> "live"] IN
       /\ procs' = procs @@ (NewId :> r)
       /\ n' = n + 1 /\ Log([t |-> "spawn", id |-> NewId] @@ r)
  /\ UNCHANGED <<stages, running>>
Exit ==
  /\ Mode = "tree" /\ n < Steps
  /\ \E p \in Pick({0} \cup {p \in Live : procs[p].par # 0 /\ \A q \in DOMAIN procs : procs[q].par = p => procs[q].st = "gone"}) :
       /\ p # 0
       /\ procs' = [procs EXCEPT ![p].st = "dead"]
       /\ n' = n + 1 /\ Log([t |-> "exit", id |-> p])
  /\ UNCHANGED <<stages, running>>
Reap ==
  /\ Mode = "tree" /\ n < Steps
  /\ \E p \in Pick({0} \cup {p \in DOMAIN procs : procs[p].st = "dead"}) :
       /\ p # 0
       /\ procs' = [procs EXCEPT ![p].st = "gone"]
       /\ n' = n + 1 /\ Log([t |-> "reap", id |-> p])
  /\ UNCHANGED <<stages, running>>
Tree ==
  /\ Mode = "tree" /\ n < Steps
  /\ \E p \in Pick({0} \cup Live) :
       /\ p # 0
       /\ n' = n + 1 /\ Log([t |-> "tree", id |-> p, names |-> Names(Children(p), "proc"), late |-> RandomElement({TRUE, FALSE})])
  /\ UNCHANGED <<stages, running, procs>>

Next == Stage \/ Run \/ End \/ Else \/ Look \/ Look \/ Spawn \/ Spawn \/ Exit \/ Reap \/ Tree
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* No names lead to two, nor to one and further on to another *)
Distinct(ids, Path(_)) == \A p, q \in ids : p # q => ~IsPrefix(Path(p), Path(q))
(* A name no other has leads there directly, others share all but the last *)
Direct(ids, Path(_), kind) == \A p \in ids : LET path == Path(p) IN
  /\ (\A q \in ids \ {p} : Key(kind, q, 0) # Key(kind, p, 0)) => Len(path) = 1
  /\ Len(path) > 1 => \E q \in ids \ {p} : IsPrefix(SubSeq(path, 1, Len(path) - 1), Path(q))
Reached == /\ Distinct(StageIds, StagePath) /\ Direct(StageIds, StagePath, "stage")
           /\ \A r \in {0} \cup DOMAIN procs : Distinct(Children(r), ProcPath) /\ Direct(Children(r), ProcPath, "proc")
(* What happens to others does not change the name, only what it must be told apart from *)
Stable == [][\A p \in Live : p \in DOMAIN procs' /\ procs'[p] = procs[p] => LET old == ProcKey(p, 0) IN ProcKey(p, 0)' = old]_vars
(* Anyone can be written down *)
Written == \A p \in DOMAIN procs : ProcKey(p, 0) # ""

Bound == n <= Steps
Emit == (Rec /\ n = Steps) => PrintT("@T " \o ToJson([steps |-> h]))
=============================================================================
