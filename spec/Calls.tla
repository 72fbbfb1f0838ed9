------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Decorated shell functions are called as Python calls functions: what    *)
(* the parameters are bound to, which defaults are used (they are made     *)
(* once, when the function is defined), and variables of enclosing         *)
(* functions, which the function, the same function decorated for two      *)
(* environments, and its siblings share.  Global variables assigned in it  *)
(* stay in its own scope.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPos, MaxKw, Kinds, Steps, Rec

VARIABLES sig,      \* the signature, or nothing yet
          dflt,     \* of each parameter: the calls that got its default, which is a list they add to
          clo,      \* variable of the enclosing function
          glo,      \* of each scope: global variable assigned there
          n, h
vars == <<sig, dflt, clo, glo, n, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h
None == "-"
Fns == {"fn", "f1", "f2"}
Undefined == [np |-> -1]

Pos == <<"a", "b", "c">>
Kw == <<"k", "l">>
Names == {"a", "b", "c", "k", "l"}

Init == sig = Undefined /\ dflt = [p \in Names |-> <<>>] /\ clo = 0 /\ glo = [s \in Fns |-> 0] /\ n = 0 /\ h = <<>>

(* positional parameters, of which the last nd have defaults, keyword-only *)
(* ones, of which those in kd do, and whether there are *rest and **more   *)
Define ==
  /\ sig.np < 0
  /\ \E np \in Pick(0..MaxPos) : \E nd \in Pick(0..np) : \E nk \in Pick(0..MaxKw) :
     \E kd \in Pick(SUBSET {Kw[i] : i \in 1..nk}) : \E rest \in Pick(BOOLEAN) : \E more \in Pick(BOOLEAN) :
     \E kind \in Pick(Kinds) : \E po \in Pick(0..np) :
       /\ sig' = [np |-> np, nd |-> nd, nk |-> nk, kd |-> kd, rest |-> rest, more |-> more, kind |-> kind, po |-> po]
       /\ Log([t |-> "define", sig |-> [np |-> np, nd |-> nd, nk |-> nk, kd |-> [i \in 1..nk |-> Kw[i] \in kd], rest |-> rest, more |-> more, kind |-> kind, po |-> po]])
  /\ UNCHANGED <<dflt, clo, glo, n>>

Params == {Pos[i] : i \in 1..sig.np} \cup {Kw[i] : i \in 1..sig.nk}
Index(p) == CHOOSE i \in 1..Len(Pos) : Pos[i] = p
IsPos(p) == \E i \in 1..sig.np : Pos[i] = p
HasDefault(p) == IF IsPos(p) THEN Index(p) > sig.np - sig.nd ELSE p \in sig.kd
Byname(p) == IF IsPos(p) THEN Index(p) > sig.po ELSE TRUE      \* the first po are positional only

(* na arguments by position, those in ks by name *)
Error(na, ks) ==
  \/ na > sig.np /\ ~sig.rest
  \/ \E p \in ks : (p \notin Params \/ ~Byname(p)) /\ ~sig.more
  \/ \E p \in ks \cap Params : IsPos(p) /\ Byname(p) /\ Index(p) <= na
  \/ \E p \in Params : ~(IsPos(p) /\ Index(p) <= na) /\ ~(p \in ks /\ Byname(p)) /\ ~HasDefault(p)

(* what each parameter is bound to: "p<i>" the ith argument, "n<name>" the *)
(* one given by name, "d" its default                                      *)
Bound(p, na, ks) ==
  IF IsPos(p) /\ Index(p) <= na THEN "p" \o ToString(Index(p))
  ELSE IF p \in ks /\ Byname(p) THEN "n" \o p ELSE "d"
Rest(na) == IF na > sig.np THEN na - sig.np ELSE 0
More(ks) == {p \in ks : p \notin Params \/ ~Byname(p)}

Going == sig.np >= 0 /\ n < Steps
Call ==
  /\ Going
  /\ \E s \in Pick(Fns) : \E na \in Pick(0..(MaxPos + 1)) : \E ks \in Pick(SUBSET (Names \cup {"z"})) :
       /\ Cardinality(ks) <= 3
       /\ IF Error(na, ks)
          THEN /\ UNCHANGED <<dflt, clo, glo>>
               /\ Log([t |-> "call", f |-> s, na |-> na, ks |-> ks, error |-> TRUE])
          ELSE LET used == {p \in Params : Bound(p, na, ks) = "d"}
                   d2 == [p \in Names |-> IF p \in used THEN Append(dflt[p], n) ELSE dflt[p]] IN
               /\ dflt' = d2
               /\ clo' = clo + 1
               /\ glo' = [glo EXCEPT ![s] = n + 1]
               /\ Log([t |-> "call", f |-> s, na |-> na, ks |-> ks, error |-> FALSE,
                       bound |-> [p \in Params |-> IF p \in used THEN "d" ELSE Bound(p, na, ks)],
                       defaults |-> [p \in used |-> d2[p]],
                       rest |-> Rest(na), more |-> More(ks), clo |-> clo', glo |-> IF glo[s] = 0 THEN glo["fn"] ELSE glo[s]])
  /\ n' = n + 1
  /\ UNCHANGED sig

(* a function beside it changes the variable of the enclosing function *)
Sibling == Going /\ clo' = clo + 10 /\ n' = n + 1 /\ Log([t |-> "sibling", clo |-> clo']) /\ UNCHANGED <<sig, dflt, glo>>

Next == Define \/ Call \/ Call \/ Call \/ Sibling

TypeOK == clo >= 0 /\ \A p \in Names : \A i \in 1..Len(dflt[p]) : dflt[p][i] < n
(* every parameter gets one value or the call fails, and what is not bound is left over *)
OnlyOnce == sig.np >= 0 => \A na \in 0..(MaxPos + 1) : \A ks \in {{}, {"a"}, {"a", "k"}, {"z"}, {"b", "l"}} :
  Error(na, ks) \/ (/\ \A p \in Params : Bound(p, na, ks) = "d" => HasDefault(p)
                    /\ Cardinality({p \in Params : Bound(p, na, ks) # "d"}) + Rest(na) + Cardinality(More(ks)) = na + Cardinality(ks))
Apart == [][\A s, t \in Fns : s # t /\ glo'[s] # glo[s] => glo'[t] = glo[t]]_vars
Limit == n <= Steps

Emit == (Rec /\ n = Steps) => PrintT("@T " \o ToJson([steps |-> h]))
=============================================================================
