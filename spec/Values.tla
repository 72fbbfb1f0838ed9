------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Pipelines are values.  There is a pool of things: commands, functions,  *)
(* lists, iterators, and pipelines made from them.  Making one from others *)
(* or showing one changes none of them and runs nothing; running one runs  *)
(* every stage in it once, with the outcome its text says, whatever was    *)
(* done with it, or anything sharing parts with it, before or meanwhile.   *)
(*                                                                         *)
(* Stages are pure.  A command writes a line with its name and arguments,  *)
(* what it reads from files given as arguments, and, if its name begins    *)
(* with f, every line of its input with its name before.  Functions work   *)
(* like the latter.  Those whose name ends with 3 fail in the end.         *)
(*                                                                         *)
(* A pipeline can be wrapped to run in a subshell or a remote shell: there *)
(* is one process in its place, that reads, writes and fails as it would,  *)
(* and whatever happens in there stays in there.                           *)
(*                                                                         *)
(* Builtins that start nothing are in the place of a command that reads    *)
(* and writes nothing, without being a stage of the run.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Srcs, Flts, Fns, Nils, Strs, Lists, Files, Size, MaxLeaves, MaxBg, Wraps, Inter, Steps, Rec

VARIABLES inter,    \* the environment is that of an interactive shell
          pool,     \* the things there are
          used,     \* iterators that have been read
          ids,      \* iterators made
          ran,      \* how often each stage was started
          bg,       \* runs not yet looked at
          last,     \* there has been one that has ended
          n, h
vars == <<inter, pool, used, ids, ran, bg, last, n, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h
Tags == Srcs \cup Flts \cup Fns
Failing == {"s3", "f3", "g3"}

---------------------------------------------------------------------------
RECURSIVE Leaves(_), Reads(_), Apart(_), OutOf(_), AllOnce(_), OnceIds(_), Order(_), Starts(_), HasGroup(_), Remotable(_), Depth(_), Fails(_)

IsP(t) == t.k \in {"cmd", "pipe", "sum", "in", "out", "sub", "nil"}
One == {"in", "out", "sub"}     \* made from one other
Leaves(t) == IF t.k \in {"pipe", "sum"} THEN Leaves(t.a) + Leaves(t.b)
             ELSE IF t.k \in One THEN Leaves(t.a)
             ELSE IF t.k = "cmd" THEN 1 + (IF t.args = <<>> THEN 0 ELSE
                  LET S[i \in 0..Len(t.args)] == IF i = 0 THEN 0 ELSE S[i - 1] + (IF t.args[i].k = "str" THEN 0 ELSE Leaves(t.args[i])) IN S[Len(t.args)])
             ELSE 1
(* it reads all of the input it is given *)
Reads(t) == IF t.k = "pipe" THEN Reads(t.a)
            ELSE IF t.k \in {"out", "sub"} THEN Reads(t.a)
            ELSE IF t.k = "cmd" THEN t.tag \in Flts
            ELSE t.k = "fn"
(* it reads nothing of the input it is given *)
Apart(t) == IF t.k \in {"pipe", "out", "sub"} THEN Apart(t.a)
            ELSE IF t.k = "sum" THEN Apart(t.a) /\ Apart(t.b)
            ELSE IF t.k = "cmd" THEN t.tag \in Srcs
            ELSE t.k \in {"in", "list", "once", "nil"}
OutOf(t) == IF t.k = "out" THEN t.w ELSE IF t.k = "in" THEN OutOf(t.a) ELSE IF t.k = "pipe" THEN OutOf(t.b) ELSE "pipe"
(* iterators in it *)
AllOnce(t) == IF t.k \in {"pipe", "sum"} THEN AllOnce(t.a) \cup AllOnce(t.b)
              ELSE IF t.k \in One THEN AllOnce(t.a)
              ELSE IF t.k = "cmd" THEN UNION {IF t.args[i].k = "str" THEN {} ELSE AllOnce(t.args[i]) : i \in 1..Len(t.args)}
              ELSE IF t.k = "once" THEN {t.id} ELSE {}
(* those it reads; inside a subshell that is another copy of it *)
OnceIds(t) == IF t.k \in {"pipe", "sum"} THEN OnceIds(t.a) \cup OnceIds(t.b)
              ELSE IF t.k \in {"in", "out"} THEN OnceIds(t.a)
              ELSE IF t.k = "cmd" THEN UNION {IF t.args[i].k = "str" THEN {} ELSE OnceIds(t.args[i]) : i \in 1..Len(t.args)}
              ELSE IF t.k = "once" THEN {t.id} ELSE {}
(* it can be sent elsewhere *)
Remotable(t) == IF t.k \in {"pipe", "sum"} THEN Remotable(t.a) /\ Remotable(t.b)
                ELSE IF t.k \in One THEN Remotable(t.a)
                ELSE IF t.k = "cmd" THEN \A i \in 1..Len(t.args) : t.args[i].k = "str" \/ Remotable(t.args[i])
                ELSE t.k \in {"list", "nil"}
Depth(t) == IF t.k \in {"pipe", "sum"} THEN IF Depth(t.a) > Depth(t.b) THEN Depth(t.a) ELSE Depth(t.b)
            ELSE IF t.k = "sub" THEN 1 + Depth(t.a)
            ELSE IF t.k \in One THEN Depth(t.a) ELSE IF t.k = "cmd" /\ t.args # <<>> THEN 
                 LET M[i \in 0..Len(t.args)] == IF i = 0 THEN 0 ELSE LET d == IF t.args[i].k = "str" THEN 0 ELSE Depth(t.args[i]) IN IF d > M[i - 1] THEN d ELSE M[i - 1] IN M[Len(t.args)]
            ELSE 0
HasGroup(t) == IF t.k = "pipe" THEN HasGroup(t.a) \/ HasGroup(t.b)
               ELSE IF t.k \in One THEN HasGroup(t.a)
               ELSE IF t.k = "cmd" THEN \E i \in 1..Len(t.args) : t.args[i].k # "str" /\ HasGroup(t.args[i])
               ELSE t.k = "sum"

(* the stages in the order they are listed *)
Order(t) == IF t.k \in {"pipe", "sum"} THEN Order(t.a) \o Order(t.b)
            ELSE IF t.k \in {"in", "out"} THEN Order(t.a)
            ELSE IF t.k = "sub" THEN <<"sub">>
            ELSE IF t.k = "cmd" THEN
                 LET S[i \in 0..Len(t.args)] == IF i = 0 THEN <<>> ELSE S[i - 1] \o (IF t.args[i].k = "str" THEN <<>> ELSE Order(t.args[i]))
                 IN S[Len(t.args)] \o <<t.tag>>
            ELSE IF t.k = "fn" THEN <<t.tag>> ELSE IF t.k = "nil" THEN <<>> ELSE <<"-">>
(* those started anywhere *)
Starts(t) == IF t.k \in {"pipe", "sum"} THEN Starts(t.a) \o Starts(t.b)
             ELSE IF t.k \in One THEN Starts(t.a)
             ELSE IF t.k = "cmd" THEN
                  LET S[i \in 0..Len(t.args)] == IF i = 0 THEN <<>> ELSE S[i - 1] \o (IF t.args[i].k = "str" THEN <<>> ELSE Starts(t.args[i]))
                  IN S[Len(t.args)] \o <<t.tag>>
             ELSE IF t.k = "fn" THEN <<t.tag>> ELSE <<"-">>
Count(t, x) == Cardinality({i \in 1..Len(Starts(t)) : Starts(t)[i] = x})

Pre(p, ls) == [i \in 1..Len(ls) |-> p \o ls[i]]
Content(f) == IF f = "null" THEN <<>> ELSE <<f \o "1", f \o "2">>
RECURSIVE Out(_, _, _)
Out(t, in, us) ==
  IF t.k = "pipe" THEN Out(t.b, Out(t.a, in, us), us)
  ELSE IF t.k = "sum" THEN Out(t.a, <<>>, us) \o Out(t.b, <<>>, us)
  ELSE IF t.k = "in" THEN Out(t.a, Content(t.file), us)
  ELSE IF t.k \in {"out", "sub"} THEN Out(t.a, in, us)
  ELSE IF t.k = "nil" THEN <<>>
  ELSE IF t.k = "list" THEN t.items
  ELSE IF t.k = "once" THEN IF t.id \in us THEN <<>> ELSE t.items
  ELSE IF t.k = "fn" THEN <<t.tag>> \o Pre(t.tag \o ":", in)
  ELSE LET A[i \in 0..Len(t.args)] == IF i = 0 THEN t.tag ELSE A[i - 1] \o " " \o (IF t.args[i].k = "str" THEN t.args[i].s ELSE "@")
           C[i \in 0..Len(t.args)] == IF i = 0 THEN <<>> ELSE C[i - 1] \o (IF t.args[i].k = "str" THEN <<>> ELSE Pre(t.tag \o "@", Out(t.args[i], <<>>, us)))
       IN <<A[Len(t.args)]>> \o C[Len(t.args)] \o (IF t.tag \in Flts THEN Pre(t.tag \o ":", in) ELSE <<>>)
(* the stages that fail; a subshell does if one in it does *)
Fails(t) == IF t.k \in {"pipe", "sum"} THEN Fails(t.a) \o Fails(t.b)
            ELSE IF t.k \in {"in", "out"} THEN Fails(t.a)
            ELSE IF t.k = "sub" THEN IF Fails(t.a) # <<>> THEN <<"sub">> ELSE <<>>
            ELSE IF t.k = "cmd" THEN
                 LET S[i \in 0..Len(t.args)] == IF i = 0 THEN <<>> ELSE S[i - 1] \o (IF t.args[i].k = "str" THEN <<>> ELSE Fails(t.args[i]))
                 IN S[Len(t.args)] \o (IF t.tag \in Failing THEN <<t.tag>> ELSE <<>>)
            ELSE IF t.k = "fn" /\ t.tag \in Failing THEN <<t.tag>> ELSE <<>>

---------------------------------------------------------------------------
Init == inter = FALSE /\ pool = <<>> /\ used = {} /\ ids = 0 /\ ran = [x \in Tags |-> 0] /\ bg = <<>> /\ last = FALSE /\ n = -1 /\ h = <<>>
Configure ==
  /\ n = -1 /\ \E b \in Pick(Inter) : inter' = b /\ Log([t |-> "cfg", inter |-> b])
  /\ n' = 0 /\ UNCHANGED <<pool, used, ids, ran, bg, last>>

Going == n >= 0 /\ n < Steps
Step(a) == n' = n + 1 /\ Log(a)
Same == UNCHANGED <<inter, used, ran, bg, last>>
(* the new thing, in a new place or instead of another *)
Put(t, a) ==
  /\ Leaves(t) <= MaxLeaves
  /\ \E at \in Pick(IF Len(pool) < Size THEN {Len(pool) + 1} ELSE 1..Size) :
       /\ pool' = [i \in 1..(IF at > Len(pool) THEN at ELSE Len(pool)) |-> IF i = at THEN t ELSE pool[i]]
       /\ Step([at |-> at, term |-> t] @@ a)

Write ==
  /\ Going /\ Same
  /\ \E kind \in Pick({"src", "flt", "fn", "list", "once"} \cup IF Nils = {} THEN {} ELSE {"nil"}) :
       \/ kind = "nil" /\ \E x \in Pick(Nils) : Put([k |-> "nil", tag |-> x], [t |-> "write"]) /\ ids' = ids
       \/ kind = "src" /\ \E x \in Pick(Srcs) : Put([k |-> "cmd", tag |-> x, args |-> <<>>], [t |-> "write"]) /\ ids' = ids
       \/ kind = "flt" /\ \E x \in Pick(Flts) : Put([k |-> "cmd", tag |-> x, args |-> <<>>], [t |-> "write"]) /\ ids' = ids
       \/ kind = "fn" /\ \E x \in Pick(Fns) : Put([k |-> "fn", tag |-> x], [t |-> "write"]) /\ ids' = ids
       \/ kind = "list" /\ \E l \in Pick(Lists) : Put([k |-> "list", items |-> l], [t |-> "write"]) /\ ids' = ids
       \/ kind = "once" /\ \E l \in Pick(Lists) : ids' = ids + 1 /\ Put([k |-> "once", id |-> ids + 1, items |-> l], [t |-> "write"])

Two(i, j) == AllOnce(pool[i]) \cap AllOnce(pool[j]) = {}
(* everything that can be made from two of the things *)
PipeOK(i, j) == /\ IsP(pool[i]) \/ IsP(pool[j])
                /\ Reads(pool[j]) /\ OutOf(pool[i]) = "pipe" /\ Two(i, j) /\ Leaves(pool[i]) + Leaves(pool[j]) <= MaxLeaves
SumOK(i, j) == IsP(pool[i]) /\ IsP(pool[j]) /\ Order(pool[i]) \o Order(pool[j]) # <<>> /\ OutOf(pool[i]) = "pipe" /\ OutOf(pool[j]) = "pipe" /\ Two(i, j) /\ Leaves(pool[i]) + Leaves(pool[j]) <= MaxLeaves
ArgOK(i, j) == /\ pool[i].k = "cmd" /\ Apart(pool[j]) /\ OutOf(pool[j]) = "pipe" /\ Two(i, j)
               /\ Leaves(pool[i]) + Leaves(pool[j]) <= MaxLeaves
Choose(P(_, _)) == {p \in (1..Len(pool)) \X (1..Len(pool)) : P(p[1], p[2])}

Join ==
  /\ Going /\ Same /\ ids' = ids /\ Choose(PipeOK) # {}
  /\ \E p \in Pick(Choose(PipeOK)) : Put([k |-> "pipe", a |-> pool[p[1]], b |-> pool[p[2]]], [t |-> "pipe", i |-> p[1], j |-> p[2]])
Sum ==
  /\ Going /\ Same /\ ids' = ids /\ Choose(SumOK) # {}
  /\ \E p \in Pick(Choose(SumOK)) : Put([k |-> "sum", a |-> pool[p[1]], b |-> pool[p[2]]], [t |-> "sum", i |-> p[1], j |-> p[2]])
ArgT ==
  /\ Going /\ Same /\ ids' = ids /\ Choose(ArgOK) # {}
  /\ \E p \in Pick(Choose(ArgOK)) : Put([pool[p[1]] EXCEPT !.args = Append(@, pool[p[2]])], [t |-> "arg", i |-> p[1], j |-> p[2]])
Cmds == {i \in 1..Len(pool) : pool[i].k = "cmd" /\ Len(pool[i].args) < 4}
ArgS ==
  /\ Going /\ Same /\ ids' = ids /\ Cmds # {}
  /\ \E i \in Pick(Cmds) : \E s \in Pick(Strs) :
       Put([pool[i] EXCEPT !.args = Append(@, [k |-> "str", s |-> s])], [t |-> "string", i |-> i, s |-> s])
ToRead == {i \in 1..Len(pool) : IsP(pool[i]) /\ Reads(pool[i])}
RedIn ==
  /\ Going /\ Same /\ ids' = ids /\ ToRead # {}
  /\ \E i \in Pick(ToRead) : \E f \in Pick(Files) : Put([k |-> "in", a |-> pool[i], file |-> f], [t |-> "in", i |-> i, file |-> f])
ToWrite == {i \in 1..Len(pool) : IsP(pool[i]) /\ pool[i].k # "nil" /\ OutOf(pool[i]) = "pipe"}
RedOut ==
  /\ Going /\ Same /\ ids' = ids /\ ToWrite # {}
  /\ \E i \in Pick(ToWrite) : \E w \in Pick({"str", "tmp", "null"}) : Put([k |-> "out", a |-> pool[i], w |-> w], [t |-> "out", i |-> i, w |-> w])

ToWrap == {i \in 1..Len(pool) : IsP(pool[i]) /\ OutOf(pool[i]) = "pipe" /\ Depth(pool[i]) < 2}
Wrap ==
  /\ Going /\ Wraps # {} /\ Same /\ ids' = ids /\ ToWrap # {}
  /\ \E i \in Pick(ToWrap) : \E w \in Pick(IF Remotable(pool[i]) THEN Wraps ELSE Wraps \ {"remote"}) :
       Put([k |-> "sub", a |-> pool[i], w |-> w], [t |-> "wrap", i |-> i, w |-> w])

Ps == {i \in 1..Len(pool) : IsP(pool[i])}
Show ==
  /\ Going /\ Ps # {}
  /\ \E i \in Pick(Ps) : Step([t |-> "show", i |-> i, ran |-> ran])
  /\ UNCHANGED <<inter, pool, used, ids, ran, bg, last>>

(* a run, or part of it, is the value of a statement: that runs nothing *)
Look ==
  /\ Going /\ (last \/ bg # <<>>)
  /\ \E b \in Pick((IF last THEN {0} ELSE {}) \cup 1..Len(bg)) : \E what \in Pick({"run", "pipeline", "processes", "process", "failed", "all"}) :
       Step([t |-> "look", b |-> b, what |-> what, ran |-> ran])
  /\ UNCHANGED <<inter, pool, used, ids, ran, bg, last>>

(* an iterator is read by one run at a time only *)
Free(i) == \A b \in 1..Len(bg) : AllOnce(pool[i]) \cap bg[b].once = {}
Ready == {i \in Ps : Free(i)}
Outcome(t) == [lines |-> Out(t, <<>>, used), order |-> Order(t), fails |-> Fails(t), mixed |-> HasGroup(t), out |-> OutOf(t), once |-> AllOnce(t), sub |-> Depth(t) > 0]
Started(t) == ran' = [x \in Tags |-> ran[x] + Count(t, x)]
Ways(t) == IF OutOf(t) = "pipe" THEN {"list", "str", "bytes", "plus", "tilde", "and", "await", "run", "async"} ELSE {"plus", "tilde", "and", "await", "run"}
Run ==
  /\ Going /\ Ready # {} /\ \E i \in Pick(Ready) :
       /\ Started(pool[i]) /\ used' = used \cup OnceIds(pool[i])
       /\ \E w \in Pick(Ways(pool[i])) :
            Step([t |-> "run", i |-> i, w |-> w, o |-> Outcome(pool[i]), ran |-> ran'])
  /\ last' = TRUE /\ UNCHANGED <<inter, pool, ids, bg>>
(* the value of a statement of a shell: runs if that is interactive *)
Statement ==
  /\ Going /\ Ready # {} /\ \E i \in Pick(Ready) :
       /\ IF inter THEN Started(pool[i]) /\ used' = used \cup OnceIds(pool[i]) ELSE UNCHANGED <<ran, used>>
       /\ Step([t |-> "statement", i |-> i, o |-> Outcome(pool[i]), ran |-> ran'])
  /\ last' = (last \/ inter) /\ UNCHANGED <<inter, pool, ids, bg>>
Background ==
  /\ Going /\ Len(bg) < MaxBg /\ Ready # {} /\ \E i \in Pick(Ready) :
       /\ bg' = Append(bg, Outcome(pool[i]))
       /\ Step([t |-> "background", i |-> i])
       /\ Started(pool[i]) /\ used' = used \cup OnceIds(pool[i])
  /\ UNCHANGED <<inter, pool, ids, last>>
Collect ==
  /\ Going /\ bg # <<>>
  /\ \E b \in Pick(1..Len(bg)) :
       /\ bg' = [x \in 1..(Len(bg) - 1) |-> IF x < b THEN bg[x] ELSE bg[x + 1]]
       /\ Step([t |-> "collect", b |-> b, o |-> bg[b], ran |-> ran])
  /\ last' = TRUE /\ UNCHANGED <<inter, pool, used, ids, ran>>

(* Things done in a subshell stay there *)
Inside ==
  /\ Going /\ Wraps # {}
  /\ \E what \in Pick({"cd", "export", "raise", "exit", "kill", "interrupt", "loop", "source", "names", "fork"}) :
       Step([t |-> "inside", what |-> what, fails |-> what \in {"raise", "exit", "kill", "interrupt"}, ran |-> ran])
  /\ UNCHANGED <<inter, pool, used, ids, ran, bg, last>>
(* the caller writes something, maybe without sending it off *)
Say ==
  /\ Going /\ Wraps # {} /\ Step([t |-> "say"])
  /\ UNCHANGED <<inter, pool, used, ids, ran, bg, last>>

Next == \/ Configure \/ Wrap \/ Wrap \/ Inside \/ Say
        \/ Write \/ Write \/ Join \/ Join \/ Sum \/ ArgT \/ ArgS \/ RedIn \/ RedOut
        \/ Show \/ Look \/ Run \/ Run \/ Statement \/ Background \/ Collect

---------------------------------------------------------------------------
(* what was started adds up: nothing runs but by being run *)
OnlyRuns == [][ran' # ran => \E i \in 1..Len(pool) : IsP(pool[i]) /\ \A x \in Tags : ran'[x] = ran[x] + Count(pool[i], x)]_vars
(* running changes no value; making one changes no other *)
Values == [][(ran' # ran \/ bg' # bg) => pool' = pool]_vars
OneAtATime == [][pool' # pool => Cardinality({i \in 1..Len(pool) : pool'[i] # pool[i]}) <= 1]_vars
(* a run is that of the value whatever happened before, but for iterators *)
Fresh == \A i \in 1..Len(pool) : OnceIds(pool[i]) = {} => Out(pool[i], <<>>, used) = Out(pool[i], <<>>, {})
(* every stage that does not fail leaves at least one line, its name *)
Shape == \A i \in 1..Len(pool) : IsP(pool[i]) => Len(Starts(pool[i])) = Leaves(pool[i])
Bound == n <= Steps

Emit == (Rec /\ n = Steps) => PrintT("@T " \o ToJson([steps |-> h]))
=============================================================================
