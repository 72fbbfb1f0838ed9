------------------------------- MODULE FnKinds -------------------------------
(***************************************************************************)
(* Functions and iterators of every kind as stages.  A stage, whatever its *)
(* kind, does the steps of its program one after another: it puts values,  *)
(* reads lines, raises.  What a kind cannot do does not occur in its       *)
(* program; but for that the kind makes no difference, and that is the     *)
(* point.                                                                  *)
(*                                                                         *)
(* Kinds: list, iter, aiter: something that can be iterated (again), an    *)
(* iterator, an async one; src: a command that prints lines; cat, head: a  *)
(* command that copies its input, or the first line of it; and functions:  *)
(* gen: a generator; one: returns a value; ret: returns something that can *)
(* be iterated; reta: something that can be iterated asynchronously; coro: *)
(* a coroutine that returns a value; agen: an async generator.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Chains,     \* the chains to look at (sequence), or <<>>: make them up
          Values, MaxOps, MaxStages, Cap, Rec

VARIABLES chain, st, ch, out, mode
vars == <<chain, st, ch, out, mode>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Sources == {"list", "iter", "aiter", "src"}
Functions == {"gen", "one", "ret", "reta", "coro", "agen"}
Commands == {"src", "cat", "head"}
Readers == {"reta", "agen", "coro", "cat", "head"}      \* can read what they are given

---------------------------------------------------------------------------
(* The lines a value becomes *)
Lines(v) == CASE v = "none" -> <<>>
              [] v = "two" -> <<"two1", "two2">>      \* text with a newline in it
              [] v = "endnl" -> <<"endnl1", "empty">>
              [] v = "bnl" -> <<"bnl1", "empty", "empty">>
              [] OTHER -> <<v>>
Bad(l) == l = "bad"                                    \* bytes that are not UTF-8
Tag(i) == "r" \o ToString(i) \o ":"

(* What one step of stage i does to what it has read and has to read:       *)
(* the lines it writes, how much it has read, and whether it raises         *)
Op(i, o, nread, in, end) ==
  LET one == IF nread < Len(in) THEN <<in[nread + 1]>> ELSE <<>> IN
  CASE o.o = "put"   -> [w |-> Lines(o.v), n |-> nread, x |-> FALSE]
    [] o.o = "count" -> [w |-> <<ToString(nread)>>, n |-> nread, x |-> FALSE]
    [] o.o = "raise" -> [w |-> <<>>, n |-> nread, x |-> TRUE]
    [] o.o \in {"read", "skip"} ->
         IF one = <<>> THEN [w |-> IF o.o = "read" THEN <<"end">> ELSE <<>>, n |-> nread, x |-> FALSE]
         ELSE IF Bad(one[1]) THEN [w |-> <<>>, n |-> nread + 1, x |-> TRUE]
         ELSE [w |-> IF o.o = "read" THEN <<Tag(i) \o one[1]>> ELSE <<>>, n |-> nread + 1, x |-> FALSE]
    [] o.o = "copy"  -> [w |-> one, n |-> nread + Len(one), x |-> FALSE]       \* one line, by a command

(* "rest": read and write until the end, "drain": read until the end *)
Loops(o) == o.o \in {"rest", "drain", "copyall"}
Single(o) == CASE o.o = "rest" -> [o |-> "read"] [] o.o = "drain" -> [o |-> "skip"] [] o.o = "copyall" -> [o |-> "copy"] [] OTHER -> o

(* What stage i writes, and whether it raises, if its input is in *)
RECURSIVE RunOps(_, _, _, _)
RunOps(i, ops, nread, in) ==
  IF ops = <<>> THEN [w |-> <<>>, x |-> FALSE, all |-> nread >= Len(in)]
  ELSE IF Loops(Head(ops)) /\ nread >= Len(in) THEN RunOps(i, Tail(ops), nread, in)
  ELSE LET r == Op(i, Single(Head(ops)), nread, in, TRUE) IN
       IF r.x THEN [w |-> r.w, x |-> TRUE, all |-> FALSE]
       ELSE LET m == RunOps(i, IF Loops(Head(ops)) THEN ops ELSE Tail(ops), r.n, in)
            IN [m EXCEPT !.w = r.w \o @]

RECURSIVE Denote(_, _)
Denote(c, i) == IF i = 0 THEN [w |-> <<>>, x |-> FALSE, all |-> TRUE] ELSE RunOps(i, c[i].ops, 0, Denote(c, i - 1).w)
ReadsToEnd(c, i) == \E k \in 1..Len(c[i].ops) : Loops(c[i].ops[k])
Must(c) == {i \in 1..Len(c) : Denote(c, i).x}
(* those that might find that nobody reads what they write *)
May(c) == {i \in 1..Len(c) : Denote(c, i).w # <<>> /\ \E j \in (i + 1)..Len(c) : Denote(c, j).x \/ ~ReadsToEnd(c, j)}

---------------------------------------------------------------------------
(* All the chains there could be *)
Put(v) == [o |-> "put", v |-> v]
Puts == {Put(v) : v \in Values}
Texts == {p \in Puts : p.v \in {"a", "b", "c", "uni", "empty", "cr", "two", "bad", "big", "endnl", "bnl"}}
Iterable == {"a", "b", "c", "uni", "bytes", "empty", "ebytes", "tuple", "elist", "dict", "strsub", "cr", "two", "bad", "big", "endnl", "bnl"}
ORaise == [o |-> "raise"]
RECURSIVE RandomN(_, _)
RandomN(S, k) == IF k = 0 THEN <<>> ELSE Append(RandomN(S, k - 1), RandomElement(S))
RandomSeq(S, lo, hi) == RandomN(S, RandomElement(lo..hi))
SomeEnd(dummy) == RandomSeq({ORaise}, 0, IF RandomElement(1..3) = 1 THEN 1 ELSE 0)
Ask == {[o |-> "read"], [o |-> "skip"], [o |-> "rest"], [o |-> "drain"], [o |-> "count"]}
Quiet == {[o |-> "skip"], [o |-> "drain"]}
(* (the value of random things is to be settled before it is used: hence the singletons) *)
Program(k) ==
  CASE k = "list" -> {RandomSeq(Puts, 0, MaxOps)}
    [] k \in {"iter", "aiter", "gen", "ret"} -> {RandomSeq(Puts, 0, MaxOps) \o SomeEnd(0)}
    [] k = "src" -> {RandomSeq(Texts, 0, MaxOps) \o SomeEnd(0)}
    [] k = "one" -> {RandomSeq(IF RandomElement(1..3) = 1 THEN {ORaise} ELSE {p \in Puts : p.v \notin Iterable}, 1, 1)}
    [] k = "coro" -> {RandomSeq(Quiet, 0, 2) \o RandomSeq(IF RandomElement(1..3) = 1 THEN {[o |-> "count"], ORaise} ELSE Puts, 1, 1)}
    [] k \in {"agen", "reta"} -> {RandomSeq(Ask \cup {Put(RandomElement(Values)), Put(RandomElement(Values)), Put(RandomElement(Values))}, 0, MaxOps)
                                  \o RandomSeq({[o |-> "rest"]}, 0, 1) \o SomeEnd(0)}
    [] k = "cat" -> {<<[o |-> "copyall"]>>}
    [] k = "head" -> {<<[o |-> "copy"]>>}
First == <<"agen", "reta", "src", "src", "list", "iter", "aiter", "gen", "one", "ret", "coro">>
Later == <<"agen", "agen", "agen", "reta", "reta", "coro", "coro", "cat", "cat", "head", "gen", "one", "ret">>

Init ==
  /\ mode = "new" /\ chain = <<>> /\ st = <<>> /\ ch = <<>> /\ out = <<>>
Ready(c) ==
  /\ chain' = c
  /\ st' = [i \in 1..Len(c) |-> [pc |-> 1, got |-> <<>>, w |-> <<>>, ph |-> "run"]]
  /\ ch' = [i \in 0..Len(c) |-> <<>>]
  /\ mode' = "run" /\ out' = <<>>
Configure ==
  /\ mode = "new"
  /\ IF ~Rec THEN \E i \in 1..Len(Chains) : Ready(Chains[i])
     ELSE \/ /\ Len(chain) < MaxStages
             /\ \E k \in Pick({i : i \in 1..Len(IF chain = <<>> THEN First ELSE Later)}) : LET kind == (IF chain = <<>> THEN First ELSE Later)[k] IN
                \E p \in Program(kind) : chain' = Append(chain, [k |-> kind, ops |-> p])
             /\ UNCHANGED <<st, ch, out, mode>>
          \/ chain # <<>> /\ RandomElement(1..2) = 1 /\ Ready(chain)

Ended(i) == IF i = 0 THEN TRUE ELSE st[i].ph # "run"
OpOf(i) == chain[i].ops[st[i].pc]
Idle(i) == st[i].ph = "run" /\ st[i].w = <<>>
NeedsInput(o) == o.o \in {"read", "skip", "copy", "rest", "drain", "copyall"}

(* it writes what it has to write, a line at a time *)
Write(i) ==
  /\ st[i].ph = "run" /\ st[i].w # <<>>
  /\ IF i < Len(chain) /\ Ended(i + 1) THEN st' = [st EXCEPT ![i].ph = "broken"] /\ ch' = ch
     ELSE /\ Len(ch[i]) < Cap
          /\ ch' = [ch EXCEPT ![i] = Append(@, Head(st[i].w))]
          /\ st' = [st EXCEPT ![i].w = Tail(@)]
  /\ UNCHANGED <<chain, out, mode>>
(* it does the next thing *)
Do(i) ==
  /\ Idle(i) /\ st[i].pc <= Len(chain[i].ops)
  /\ LET o == OpOf(i)
         line == NeedsInput(o) /\ ch[i - 1] # <<>>
         got == IF line THEN Append(st[i].got, Head(ch[i - 1])) ELSE st[i].got
         r == Op(i, Single(o), Len(st[i].got), got, TRUE)
     IN /\ NeedsInput(o) /\ ~line => Ended(i - 1)
        /\ ch' = IF line THEN [ch EXCEPT ![i - 1] = Tail(@)] ELSE ch
        /\ st' = [st EXCEPT ![i].got = got,
                            ![i].w = IF Loops(o) /\ ~line THEN <<>> ELSE r.w,
                            ![i].ph = IF r.x THEN "failed" ELSE "run",
                            ![i].pc = IF Loops(o) /\ line THEN @ ELSE @ + 1]
  /\ UNCHANGED <<chain, out, mode>>
Finish(i) ==
  /\ Idle(i) /\ st[i].pc > Len(chain[i].ops)
  /\ st' = [st EXCEPT ![i].ph = "done"]
  /\ UNCHANGED <<chain, ch, out, mode>>
Caller ==
  /\ ch[Len(chain)] # <<>>
  /\ out' = Append(out, Head(ch[Len(chain)]))
  /\ ch' = [ch EXCEPT ![Len(chain)] = Tail(@)]
  /\ UNCHANGED <<chain, st, mode>>

Over == mode = "run" /\ (\A i \in 1..Len(chain) : Ended(i)) /\ ch[Len(chain)] = <<>>
Next == Configure \/ (mode = "run" /\ (Caller \/ \E i \in 1..Len(chain) : Write(i) \/ Do(i) \/ Finish(i)))
NextD == Next \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][NextD]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Failed == {i \in 1..Len(chain) : st[i].ph \in {"failed", "broken"}}
Outcome == Over => /\ out = Denote(chain, Len(chain)).w
                   /\ Must(chain) \subseteq Failed /\ Failed \subseteq (Must(chain) \cup May(chain))
(* one that fails by itself, with nothing wrong after it, fails with what it raised *)
OwnFault == Over => \A i \in Must(chain) \ May(chain) : st[i].ph = "failed"
Ending == <>Over

Emit == (Rec /\ mode = "run" /\ \A i \in 1..Len(st) : st[i].pc = 1 /\ st[i].w = <<>> /\ st[i].ph = "run") =>
  PrintT("@T " \o ToJson([chain |-> chain, out |-> Denote(chain, Len(chain)).w, must |-> [i \in 1..Len(chain) |-> i \in Must(chain)],
                          may |-> [i \in 1..Len(chain) |-> i \in May(chain)]]))

---------------------------------------------------------------------------
(* Chains for all orders *)
S(k, ops) == [k |-> k, ops |-> ops]
O(o) == [o |-> o]
Few == << <<S("list", <<Put("a"), Put("none"), Put("two")>>), S("agen", <<O("read"), O("rest"), O("read")>>), S("cat", <<O("copyall")>>)>>,
          <<S("src", <<Put("a"), Put("b"), ORaise>>), S("agen", <<O("read"), ORaise>>), S("agen", <<O("rest"), O("count")>>)>>,
          <<S("iter", <<Put("a"), ORaise>>), S("coro", <<O("drain"), O("count")>>), S("head", <<O("copy")>>)>>,
          <<S("src", <<Put("a"), Put("bad"), Put("b")>>), S("agen", <<O("rest")>>), S("reta", <<O("skip"), Put("c"), O("rest")>>)>>,
          <<S("list", <<Put("a"), Put("b"), Put("c")>>), S("one", <<Put("a")>>), S("gen", <<Put("b"), Put("c"), ORaise>>)>>,
          <<S("gen", <<>>), S("agen", <<O("read"), O("read")>>), S("head", <<O("copy")>>), S("cat", <<O("copyall")>>)>> >>
(* ... and of three stages with programs of up to k steps *)
Some(k) == LET ops == {Put("a"), ORaise, O("read"), O("rest"), O("skip")} IN
           {S("agen", p) : p \in UNION {[1..m -> ops] : m \in 0..k}}
FewMore(k) == SetToSeq({<<x, y, z>> : x \in {S("iter", <<Put("a"), Put("b")>>), S("iter", <<Put("bad"), ORaise>>)}, y \in Some(k), z \in Some(k)})
=============================================================================
