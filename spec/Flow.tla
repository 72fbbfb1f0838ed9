-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Stages that run by themselves, as fast as they like, connected by pipes *)
(* of limited capacity: whatever the interleaving, what comes out is what  *)
(* the stages would produce one after another (Denote), and it always ends.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Chains,      \* sequence of [n |-> items of the source, st |-> sequence of [k |-> kind, m |-> number]]
          Cap,         \* capacity of a pipe
          Wanted       \* sequence of such chains, of any size, for which to tell the result

VARIABLES c, src, ch, st, out
vars == <<c, src, ch, st, out>>

C    == Chains[c]
K    == Len(C.st)
Kind(i) == C.st[i].k
M(i)    == C.st[i].m

(* copy; dup: everything twice; head: the first m, then stop; rev: everything *)
(* at the end, backwards; drop: read everything, say nothing; none: read      *)
(* nothing; skip: all but the first m; add: everything, then m more items     *)
Items(n) == [k \in 1..n |-> k]
Extra(i, m) == [k \in 1..m |-> 1000000 * i + k]
RECURSIVE Doubled(_)
Doubled(s) == IF s = <<>> THEN <<>> ELSE <<Head(s), Head(s)>> \o Doubled(Tail(s))
DoubledF(s) == [k \in 1..(2 * Len(s)) |-> s[(k + 1) \div 2]]
Reversed(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Min(a, b) == IF a < b THEN a ELSE b

Step(i, kind, m, s) ==
  CASE kind = "copy" -> s
    [] kind = "dup"  -> DoubledF(s)
    [] kind = "head" -> SubSeq(s, 1, Min(m, Len(s)))
    [] kind = "rev"  -> Reversed(s)
    [] kind = "drop" -> <<>>
    [] kind = "none" -> <<>>
    [] kind = "skip" -> SubSeq(s, m + 1, Len(s))
    [] kind = "add"  -> s \o Extra(i, m)

RECURSIVE DenoteTo(_, _)
DenoteTo(x, i) == IF i = 0 THEN Items(x.n) ELSE Step(i, x.st[i].k, x.st[i].m, DenoteTo(x, i - 1))
Denote(x) == DenoteTo(x, Len(x.st))

(* May stage i (0: the source) find that nobody reads what it writes?  It may   *)
(* if some stage after it stops early.                                         *)
MayBreak(x, i) == \E j \in (i + 1)..Len(x.st) : x.st[j].k \in {"head", "none"}

---------------------------------------------------------------------------
(* stage: [got |-> items taken, out |-> items to write, ph |-> run, last (writing the rest), done, broken] *)
Init ==
  /\ c \in 1..Len(Chains)
  /\ src = [left |-> Items(Chains[c].n), ph |-> "run"]
  /\ ch = [i \in 0..Len(Chains[c].st) |-> <<>>]
  /\ st = [i \in 1..Len(Chains[c].st) |-> [got |-> <<>>, out |-> <<>>, ph |-> "run"]]
  /\ out = <<>>

Ended(i) == IF i = 0 THEN src.ph # "run" ELSE st[i].ph \in {"done", "broken"}
ReaderGone(i) == i < K /\ Ended(i + 1)

Source ==
  /\ src.ph = "run"
  /\ IF src.left = <<>> THEN src' = [src EXCEPT !.ph = "done"] /\ ch' = ch
     ELSE IF ReaderGone(0) THEN src' = [src EXCEPT !.ph = "broken"] /\ ch' = ch
     ELSE /\ Len(ch[0]) < Cap
          /\ ch' = [ch EXCEPT ![0] = Append(@, Head(src.left))]
          /\ src' = [src EXCEPT !.left = Tail(@)]
  /\ UNCHANGED <<c, st, out>>

Put(i) ==
  /\ st[i].ph \in {"run", "last"} /\ st[i].out # <<>>
  /\ IF ReaderGone(i) THEN st' = [st EXCEPT ![i].ph = "broken"] /\ ch' = ch
     ELSE /\ Len(ch[i]) < Cap
          /\ ch' = [ch EXCEPT ![i] = Append(@, Head(st[i].out))]
          /\ st' = [st EXCEPT ![i].out = Tail(@)]
  /\ UNCHANGED <<c, src, out>>

Stops(i) == Kind(i) = "none" \/ (Kind(i) = "head" /\ Len(st[i].got) >= M(i))

Take(i) ==
  /\ st[i].ph = "run" /\ st[i].out = <<>> /\ ~Stops(i) /\ ch[i - 1] # <<>>
  /\ LET x == Head(ch[i - 1]) IN
     /\ ch' = [ch EXCEPT ![i - 1] = Tail(@)]
     /\ st' = [st EXCEPT ![i].got = Append(@, x),
                         ![i].out = CASE Kind(i) \in {"copy", "head", "add"} -> <<x>>
                                      [] Kind(i) = "dup" -> <<x, x>>
                                      [] Kind(i) \in {"rev", "drop"} -> <<>>
                                      [] Kind(i) = "skip" -> IF Len(st[i].got) < M(i) THEN <<>> ELSE <<x>>]
  /\ UNCHANGED <<c, src, out>>

AtEnd(i) ==
  /\ st[i].ph = "run" /\ st[i].out = <<>> /\ ~Stops(i) /\ ch[i - 1] = <<>> /\ Ended(i - 1)
  /\ st' = [st EXCEPT ![i].ph = "last",
                      ![i].out = CASE Kind(i) = "rev" -> Reversed(st[i].got)
                                   [] Kind(i) = "add" -> Extra(i, M(i))
                                   [] OTHER -> <<>>]
  /\ UNCHANGED <<c, src, ch, out>>

Finish(i) ==
  /\ st[i].out = <<>>
  /\ st[i].ph = "last" \/ (st[i].ph = "run" /\ Stops(i))
  /\ st' = [st EXCEPT ![i].ph = "done"]
  /\ UNCHANGED <<c, src, ch, out>>

Caller ==
  /\ ch[K] # <<>>
  /\ out' = Append(out, Head(ch[K]))
  /\ ch' = [ch EXCEPT ![K] = Tail(@)]
  /\ UNCHANGED <<c, src, st>>

Done == (\A i \in 0..K : Ended(i)) /\ ch[K] = <<>>

Next == Source \/ Caller \/ (\E i \in 1..K : Put(i) \/ Take(i) \/ AtEnd(i) \/ Finish(i))
NextD == Next \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][NextD]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
SameResult == Done => out = Denote(C)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
InOrder == IsPrefix(out, Denote(C))
BrokenOnlyIf == \A i \in 0..K : (IF i = 0 THEN src.ph ELSE st[i].ph) = "broken" => MayBreak(C, i)
Terminates == <>Done

Tell == \A w \in DOMAIN Wanted :
          PrintT("@F " \o ToJson([w |-> w, out |-> Denote(Wanted[w]),
                                  maybreak |-> [i \in 1..(Len(Wanted[w].st) + 1) |-> MayBreak(Wanted[w], i - 1)]]))
ASSUME Tell
=============================================================================
