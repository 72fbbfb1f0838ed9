------------------------------- MODULE Builtins -------------------------------
(***************************************************************************)
(* Commands of one's own.  A name can be registered to stand for a piece   *)
(* of Python, that runs some pipeline in the place of the command.  What a *)
(* word stands for is settled when it is written; what the pipeline that   *)
(* it runs is made of is settled when it is run, with the arguments and    *)
(* the environment of the command.  Wherever a command can stand - in      *)
(* pipes and groups, within another one, as an argument, in a subshell, in *)
(* the background - one's own can stand, too, and means what its pipeline  *)
(* would have meant.                                                       *)
(*                                                                         *)
(* Sources (s1, s2) write lines, filters (f1, f2) read lines and write     *)
(* them.  Programs of the same names exist, for when nothing is            *)
(* registered.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Words, Modes, Size, MaxPool, Steps, Rec

VARIABLES reg,      \* what each name is registered as: a body, and which one it is
          val,      \* the variable of each environment
          pool,     \* expressions written so far
          pkg,      \* what packages that are installed have names stand for, in processes to come
          n, h
vars == <<reg, val, pool, pkg, n, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h

Sources == {"s1", "s2"}
Filters == {"f1", "f2"}
Names == Sources \cup Filters
Envs == {"e1", "e2"}
Program == [body |-> "program", id |-> 0]
D(d) == "d" \o ToString(d.id)

(* bodies *)
SourceBodies == IF ~Rec THEN {"two", "var"} ELSE {"emit", "two", "items", "var", "here", "setenv", "same", "gen"}
FilterBodies == IF ~Rec THEN {"pipe", "bad"} ELSE {"mark", "pipe", "fn", "mid", "bad", "deep"}
BodiesOf(x) == CASE x = "s1" -> SourceBodies \cup {"nest", "nest"} [] x = "s2" -> SourceBodies
                 [] x = "f1" -> FilterBodies \cup {"nestf"} [] x = "f2" -> FilterBodies

(* expressions: those that a body is made of use the same *)
Emit(ws) == [k |-> "emit", ws |-> ws]
Mark(w) == [k |-> "mark", w |-> w]
Fn(w) == [k |-> "fn", w |-> w]
Items(ws) == [k |-> "items", ws |-> ws]
Bad == [k |-> "bad"]
Var(e) == [k |-> "var", e |-> e]
Here(e) == [k |-> "here", e |-> e]
Const(w) == [k |-> "const", w |-> w]
Pipe(a, b) == [k |-> "pipe", a |-> a, b |-> b]
Grp(a, b) == [k |-> "group", a |-> a, b |-> b]
Call(x, d, e, args) == [k |-> "call", x |-> x, d |-> d, e |-> e, args |-> args]

RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN "" ELSE ws[1] \o (IF Len(ws) > 1 THEN "," ELSE "") \o Join(Tail(ws))

(* the pipeline that one's own runs: c is a call *)
Pipeline(c) ==
  LET d == D(c.d) IN
  CASE c.d.body = "emit" -> Emit(<<d>> \o c.args)
    [] c.d.body = "two" -> Grp(Emit(<<d>>), Emit(<<d>> \o c.args))
    [] c.d.body = "same" -> Grp(Emit(<<d>> \o c.args), Emit(<<d>> \o c.args))
    [] c.d.body = "items" -> Pipe(Items(<<d>> \o c.args), Mark(d))
    [] c.d.body = "gen" -> Pipe(Pipe(Items(<<d>> \o c.args), Mark(d)), Fn(d))
    [] c.d.body = "var" -> Var(c.e)
    [] c.d.body = "here" -> Here(c.e)
    [] c.d.body = "setenv" -> Const("B=" \o d)
    [] c.d.body = "nest" -> Pipe(Call("s2", reg["s2"], c.e, <<d>> \o c.args), Call("f2", reg["f2"], c.e, <<d>>))
    [] c.d.body = "mark" -> Mark(d \o Join(c.args))
    [] c.d.body = "pipe" -> Pipe(Mark(d), Mark(Join(c.args)))
    [] c.d.body = "fn" -> Pipe(Mark(d), Fn(d))
    [] c.d.body = "mid" -> Pipe(Mark(d), Pipe(Fn(d), Mark(d)))
    [] c.d.body = "deep" -> Pipe(Pipe(Mark("1"), Mark("2")), Pipe(Mark("3"), Mark(d)))
    [] c.d.body = "bad" -> Bad
    [] c.d.body = "nestf" -> Pipe(Call("f2", reg["f2"], c.e, <<d>> \o c.args), Mark(d))
    [] c.d.body = "program" -> IF c.x \in Sources THEN Emit(<<c.x>> \o c.args) ELSE Mark(c.x \o Join(c.args))

(* the lines that there are for some that are read *)
RECURSIVE Out(_, _)
Out(t, in) ==
  CASE t.k = "emit" -> t.ws
    [] t.k = "items" -> t.ws
    [] t.k = "mark" -> [i \in DOMAIN in |-> in[i] \o "." \o t.w]
    [] t.k = "fn" -> [i \in DOMAIN in |-> in[i] \o ":" \o t.w]
    [] t.k = "bad" -> in
    [] t.k = "var" -> <<"B=" \o val[t.e]>>
    [] t.k = "here" -> <<"in " \o t.e>>
    [] t.k = "const" -> <<t.w>>
    [] t.k = "pipe" -> Out(t.b, Out(t.a, in))
    [] t.k = "group" -> Out(t.a, in) \o Out(t.b, <<>>)
    [] t.k = "call" -> Out(Pipeline(t), in)

(* the parts it is made of, in order: how each exits *)
RECURSIVE Codes(_)
Codes(t) ==
  CASE t.k \in {"emit", "mark", "var", "here", "const", "items", "fn"} -> <<0>>
    [] t.k = "bad" -> <<3>>
    [] t.k \in {"pipe", "group"} -> Codes(t.a) \o Codes(t.b)
    [] t.k = "call" -> Codes(Pipeline(t))

(* one's own that get to run, in any order: with which arguments *)
RECURSIVE Runs(_)
Runs(t) ==
  CASE t.k \in {"pipe", "group"} -> Runs(t.a) \o Runs(t.b)
    [] t.k = "call" -> (IF t.d = Program THEN <<>> ELSE <<[x |-> t.x, id |-> t.d.id, e |-> t.e, args |-> t.args]>>) \o Runs(Pipeline(t))
    [] OTHER -> <<>>

RECURSIVE Count(_)
Count(t) == IF t.k \in {"pipe", "group"} THEN Count(t.a) + Count(t.b) ELSE 1
RECURSIVE IsSource(_)
IsSource(t) == CASE t.k = "pipe" -> IsSource(t.a)
                 [] t.k = "group" -> TRUE
                 [] t.k = "call" -> t.x \in Sources
                 [] OTHER -> t.k \in {"emit", "items"}

---------------------------------------------------------------------------
Init ==
  /\ reg = [x \in Names |-> Program]
  /\ val = [e \in Envs |-> "v0"]
  /\ pool = <<>> /\ pkg = [x \in Names |-> Program] /\ n = 0 /\ h = <<>>
Going == n < Steps
Step(a) == n' = n + 1 /\ Log(a)

Register ==
  /\ Going
  /\ \E x \in Pick(Names) : \E b \in Pick(BodiesOf(x)) :
       /\ reg' = [reg EXCEPT ![x] = [body |-> b, id |-> n + 1]]
       /\ Step([t |-> "register", x |-> x, b |-> b, id |-> n + 1])
  /\ UNCHANGED <<val, pool, pkg>>
Set ==
  /\ Going
  /\ \E e \in Pick(Envs) : \E w \in Pick(Words) : val' = [val EXCEPT ![e] = w] /\ Step([t |-> "set", e |-> e, w |-> w])
  /\ UNCHANGED <<reg, pool, pkg>>

Room == Going /\ Len(pool) < MaxPool
Add(t, a) == pool' = Append(pool, t) /\ Step(a) /\ UNCHANGED <<reg, val, pkg>>

Args == IF ~Rec THEN {<<>>} ELSE LET one == {<<>>} \cup {<<w>> : w \in Words} IN one \cup {<<v, w>> : v \in Words, w \in Words}
Word ==
  /\ Room
  /\ \E x \in Pick(Names) : \E e \in Pick(Envs) : \E a \in Pick(Args) :
       Add(Call(x, reg[x], e, a), [t |-> "word", x |-> x, e |-> e, args |-> a])
Leaf ==
  /\ Room
  /\ \E k \in Pick({"emit", "mark", "items"}) : \E w \in Pick(Words) : \E e \in Pick(Envs) :
       Add(CASE k = "emit" -> Emit(<<w>>) [] k = "mark" -> Mark(w) [] k = "items" -> Items(<<w, "i">>),
           [t |-> "leaf", k |-> k, w |-> w, e |-> e])
(* more arguments for one that was written *)
More ==
  /\ Room /\ \E i \in DOMAIN pool : pool[i].k = "call"
  /\ \E i \in Pick({j \in DOMAIN pool : pool[j].k = "call"}) : \E w \in Pick(Words) :
       Add([pool[i] EXCEPT !.args = Append(@, w)], [t |-> "more", i |-> i, w |-> w])
Real(t) == t.k # "items"
Combine ==
  /\ Room
  /\ \E op \in Pick(IF Rec /\ RandomElement(1..3) = 1 THEN {"group"} ELSE {"pipe"}) :
       \E i \in Pick({0} \cup DOMAIN pool) : \E j \in Pick({0} \cup DOMAIN pool) :
       /\ i # 0 /\ j # 0
       /\ Count(pool[i]) + Count(pool[j]) <= Size
       /\ Real(pool[j])
       /\ IF op = "group" THEN IsSource(pool[i]) /\ IsSource(pool[j]) /\ Real(pool[i]) ELSE ~IsSource(pool[j])
       /\ Add(IF op = "pipe" THEN Pipe(pool[i], pool[j]) ELSE Grp(pool[i], pool[j]), [t |-> "combine", op |-> op, i |-> i, j |-> j])

Ready == {i \in DOMAIN pool : IsSource(pool[i]) /\ Real(pool[i])}
Result(i) == [i |-> i, out |-> Out(pool[i], <<>>), codes |-> Codes(pool[i]), runs |-> Runs(pool[i])]
Run ==
  /\ Going /\ Ready # {}
  /\ \E i \in Pick(Ready) : \E m \in Pick(IF Rec /\ RandomElement(1..5) > 1 THEN Modes \ {"sub"} ELSE Modes) :
       Step([t |-> "run", m |-> m, got |-> <<Result(i)>>])
  /\ UNCHANGED <<reg, val, pool, pkg>>
Together ==
  /\ Going /\ Ready # {}
  /\ \E i \in Pick(Ready) : \E j \in Pick(Ready) :
       Step([t |-> "together", got |-> <<Result(i), Result(j)>>])
  /\ UNCHANGED <<reg, val, pool, pkg>>
(* looking at one does not run anything *)
Look ==
  /\ Going /\ pool # <<>>
  /\ \E i \in Pick(DOMAIN pool) : Step([t |-> "look", i |-> i, own |-> pool[i].k = "call" /\ pool[i].d # Program,
                                        id |-> IF pool[i].k = "call" THEN pool[i].d.id ELSE 0])
  /\ UNCHANGED <<reg, val, pool, pkg>>
Complete ==
  /\ Going
  /\ \E e \in Pick(Envs) : Step([t |-> "complete", e |-> e, names |-> Names])
  /\ UNCHANGED <<reg, val, pool, pkg>>

(* packages come and go; a process has those there are when it starts *)
Simple(x) == IF x \in Sources THEN {"emit", "two", "items", "program"} ELSE {"mark", "pipe", "bad", "program"}
Package ==
  /\ Going
  /\ \E x \in Pick(Names) : \E b \in Pick(Simple(x)) :
       /\ pkg' = [pkg EXCEPT ![x] = IF b = "program" THEN Program ELSE [body |-> b, id |-> n + 1]]
       /\ Step([t |-> "package", x |-> x, b |-> b, id |-> n + 1])
  /\ UNCHANGED <<reg, val, pool>>
Process ==
  /\ Going /\ ~(Rec /\ RandomElement(1..3) > 1)
  /\ \E x \in Pick(Sources) : \E y \in Pick(Filters) : \E v, w \in Pick(Args) :
       LET c == Pipe(Call(x, pkg[x], "e1", v), Call(y, pkg[y], "e1", w))
       IN Step([t |-> "process", x |-> x, y |-> y, v |-> v, w |-> w, out |-> Out(c, <<>>), codes |-> Codes(c)])
  /\ UNCHANGED <<reg, val, pool, pkg>>

Next == Package \/ Process \/ Register \/ Set \/ Word \/ Word \/ Leaf \/ More \/ Combine \/ Combine \/ Combine \/ Run \/ Run \/ Run \/ Together \/ Look \/ Complete

---------------------------------------------------------------------------
(* one's own means what its pipeline would have meant *)
Stands == \A i \in DOMAIN pool : pool[i].k = "call" =>
            Out(pool[i], <<"l">>) = Out(Pipeline(pool[i]), <<"l">>) /\ Codes(pool[i]) = Codes(Pipeline(pool[i]))
(* what was written stays what it was *)
Settled == [][\A i \in DOMAIN pool : pool'[i] = pool[i]]_vars
(* every part is accounted for; only one of one's own fails *)
Fails == \A i \in Ready : (\E c \in DOMAIN Codes(pool[i]) : Codes(pool[i])[c] # 0) =>
            \E r \in DOMAIN Runs(pool[i]) : Runs(pool[i])[r].id # 0
(* environments are apart *)
Apart == [][\A i \in DOMAIN pool : (pool[i].k = "call" /\ reg' = reg /\ val'[pool[i].e] = val[pool[i].e]) => Out(pool[i], <<>>)' = Out(pool[i], <<>>)]_vars
Bound == n <= Steps

Done == (Rec /\ n = Steps) => PrintT("@T " \o ToJson([steps |-> h]))
=============================================================================
