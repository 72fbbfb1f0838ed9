------------------------------ MODULE FdSetup -------------------------------
(***************************************************************************)
(* What descriptors a command starts with.  Redirections are added one by  *)
(* one (defaults of the environment, arguments of run, redirections in the *)
(* pipeline, from the outermost to the innermost), a later one replacing   *)
(* an earlier one for the same descriptor; then the command is started     *)
(* with all of them made simultaneously (Denote); then it writes to and    *)
(* reads from its descriptors, which shows what they refer to.             *)
(* Algo is the order in which the code has to make them, one after the     *)
(* other, in one table of descriptors: AlgoOK says that it amounts to the  *)
(* same, whatever collides with whatever.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets,      \* descriptors that can be redirected
          Ints, Paths, Specials,   \* what to
          Perms,        \* permissions of what is created
          MaxRed, MaxIO, Rec, MinLen,
          Levels

VARIABLES ph, lv, n, eff, par, desc, file, tab, h, tok
vars == <<ph, lv, n, eff, par, desc, file, tab, h, tok>>

(* descriptors of the calling process: 100 and 101 share a description, 103 *)
(* can only be read, 104 is closed                                         *)
Parent0 == (0 :> "p0") @@ (1 :> "p1") @@ (2 :> "p2") @@ (100 :> "p3") @@ (101 :> "p3") @@ (102 :> "p4") @@ (103 :> "p5")
Desc(f, p, m) == [f |-> f, pos |-> p, r |-> m \in {"r", "rw", "tmp"}, w |-> m # "r", a |-> m = "a"]
Desc0 == ("p0" :> Desc("S0", 0, "r")) @@ ("p1" :> Desc("S1", 1, "w")) @@ ("p2" :> Desc("S2", 0, "a"))
      @@ ("p3" :> Desc("S3", 1, "rw")) @@ ("p4" :> Desc("S4", 2, "rw")) @@ ("p5" :> Desc("S5", 0, "r"))
Old(f) == <<f \o "a", f \o "b", f \o "c">>
Exist0 == {"S0", "S1", "S2", "S3", "S4", "S5", "A", "B"}
File0 == [f \in Exist0 |-> Old(f)]      \* contents, in pieces of the same size; missing: does not exist

(* r, w (created if necessary), rw, a (append), t (truncate), e (must exist), x (must not) *)
Modes == {"r", "w", "rw", "a", "t", "e", "x"}

IntReds(fd)  == {[fd |-> fd, k |-> "fd", s |-> x, m |-> "-", b |-> b, p |-> 0] : x \in Ints, b \in BOOLEAN}
PathReds(fd) == {[fd |-> fd, k |-> "path", s |-> x, m |-> m, b |-> TRUE, p |-> q] : x \in Paths, m \in Modes, q \in Perms}
SpecReds(fd) == {[fd |-> fd, k |-> "special", s |-> x, m |-> IF x = "PIPEr" THEN "r" ELSE "w", b |-> TRUE, p |-> 0] : x \in Specials}
Sensible(r) ==
  /\ r.k = "fd" /\ r.s \in {0, 1, 2, 104} => r.b           \* those stay with their owner
  /\ r.k = "path" /\ r.s = "N" => r.m \in {"w", "rw", "a", "t"}   \* created
  /\ r.k = "path" /\ r.s = "M" => r.m \in {"r", "e"}        \* missing
  /\ r.k = "path" => ((r.s = "NX") = (r.m = "x" /\ r.s \notin {"A", "B"}))    \* created by one only
  /\ r.k = "path" /\ r.s = "DIR" => r.m \in {"w", "rw"}    \* cannot be written to
Reds(fd) == {r \in IntReds(fd) \cup PathReds(fd) \cup SpecReds(fd) : Sensible(r)}
Removal(fd) == [fd |-> fd, k |-> "none", s |-> "none", m |-> "-", b |-> TRUE, p |-> 0]

CanOpen(r) == CASE r.k = "fd" -> r.s \in DOMAIN par
                [] r.k = "path" -> r.s \notin {"U", "M", "DIR"} /\ (r.m = "x" => r.s = "NX")
                [] OTHER -> TRUE

(* when sampling, mostly what is possible *)
Mostly(S) == IF Rec /\ RandomElement(1..12) > 1 THEN {r \in S : CanOpen(r)} ELSE S

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h

Init == /\ ph = "build" /\ lv = 1 /\ n = 0 /\ tok = 0 /\ h = <<>> /\ tab = <<>>
        /\ eff = <<>> /\ par = Parent0 /\ desc = Desc0 /\ file = File0

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

Add ==
  /\ ph = "build" /\ n < MaxRed
  /\ \E fd \in Pick(Targets) : \E r \in Pick(Mostly(Reds(fd))) :
       /\ ~(r.k = "special" /\ r.s \in {"PIPEr", "PIPEw"} /\ Levels[lv] = "env")
       /\ eff' = Put(eff, fd, r)
       /\ Log([t |-> "add", l |-> Levels[lv], r |-> r])
  /\ n' = n + 1
  /\ UNCHANGED <<ph, lv, par, desc, file, tab, tok>>

Remove ==
  /\ ph = "build" /\ n < MaxRed /\ Levels[lv] = "run" /\ DOMAIN eff # {}
  /\ Rec => RandomElement(1..3) = 1
  /\ \E fd \in Pick(DOMAIN eff) :
       /\ eff' = Without(eff, {fd})
       /\ Log([t |-> "add", l |-> Levels[lv], r |-> Removal(fd)])
  /\ n' = n + 1
  /\ UNCHANGED <<ph, lv, par, desc, file, tab, tok>>

Level ==
  /\ ph = "build" /\ lv < Len(Levels)
  /\ lv' = lv + 1
  /\ UNCHANGED <<ph, n, eff, par, desc, file, tab, h, tok>>

---------------------------------------------------------------------------
Possible == (\A fd \in DOMAIN eff : CanOpen(eff[fd])) /\ Cardinality({fd \in DOMAIN eff : eff[fd].k = "path" /\ eff[fd].s = "NX"}) <= 1

Fresh(fd) == "d" \o ToString(fd)
FileOf(r) == IF r.k = "special" THEN "T" \o ToString(r.fd) ELSE r.s
Denote == [fd \in DOMAIN eff |-> IF eff[fd].k = "fd" THEN par[eff[fd].s] ELSE Fresh(fd)]

NewFds == {fd \in DOMAIN eff : eff[fd].k # "fd"}
NewDesc == [fd \in NewFds |-> Desc(FileOf(eff[fd]), 0, IF eff[fd].k = "special" THEN (IF eff[fd].s \in {"TMP", "STRING"} THEN "tmp" ELSE eff[fd].m) ELSE eff[fd].m)]
Truncated == {eff[fd].s : fd \in {x \in NewFds : eff[x].k = "path" /\ eff[x].m = "t"}}
Given == <<"ga", "gb">>      \* what the caller puts into a pipe to be read from

Closed == {eff[fd].s : fd \in {x \in DOMAIN eff : eff[x].k = "fd" /\ ~eff[x].b}}

Start ==
  /\ ph = "build" /\ lv = Len(Levels)
  /\ Rec => n >= 3 \/ RandomElement(1..4) = 1
  /\ ph' = IF Possible THEN "run" ELSE "failed"
  /\ tab' = IF Possible THEN Denote ELSE <<>>
  /\ desc' = IF Possible THEN [d \in DOMAIN desc \cup {Fresh(fd) : fd \in NewFds} |->
                                IF d \in DOMAIN desc THEN desc[d] ELSE NewDesc[CHOOSE fd \in NewFds : Fresh(fd) = d]]
             ELSE desc
  /\ file' = IF Possible
             THEN [f \in DOMAIN file \cup {FileOf(eff[fd]) : fd \in NewFds} |->
                    IF f \notin DOMAIN file
                    THEN (IF \E fd \in NewFds : FileOf(eff[fd]) = f /\ eff[fd].s = "PIPEr" /\ eff[fd].k = "special" THEN Given ELSE <<>>)
                    ELSE IF f \in Truncated THEN <<>> ELSE file[f]]
             ELSE file
  /\ par' = Without(par, Closed)
  /\ n' = 0
  /\ UNCHANGED <<lv, eff, tok>>
  /\ Log([t |-> "start", ok |-> Possible,
          tab |-> {[fd |-> fd, f |-> desc'[tab'[fd]].f, pos |-> desc'[tab'[fd]].pos, r |-> desc'[tab'[fd]].r,
                    w |-> desc'[tab'[fd]].w, a |-> desc'[tab'[fd]].a, red |-> eff[fd]] : fd \in DOMAIN tab'},
          par |-> DOMAIN par'])

---------------------------------------------------------------------------
IsPipe(fd) == eff[fd].k = "special" /\ eff[fd].s \in {"PIPEr", "PIPEw"}
Piece(k) == "t" \o ToString(100 + k)

Write ==
  /\ ph = "run" /\ n < MaxIO /\ DOMAIN tab # {}
  /\ \E fd \in Pick(DOMAIN tab) :
     LET d == desc[tab[fd]] f == d.f pos == IF d.a THEN Len(file[f]) ELSE d.pos IN
     /\ IF d.w
        THEN /\ file' = [file EXCEPT ![f] = SubSeq(@, 1, pos) \o <<Piece(tok)>> \o SubSeq(@, pos + 2, Len(@))]
             /\ desc' = [desc EXCEPT ![tab[fd]].pos = pos + 1]
             /\ tok' = tok + 1
        ELSE UNCHANGED <<file, desc, tok>>
     /\ n' = n + 1
     /\ UNCHANGED <<ph, lv, eff, par, tab>>
     /\ Log([t |-> "write", fd |-> fd, ok |-> d.w, p |-> Piece(tok)])

Read ==
  /\ ph = "run" /\ n < MaxIO /\ DOMAIN tab # {}
  /\ \E fd \in Pick(DOMAIN tab) : \E k \in Pick(1..2) :
     LET d == desc[tab[fd]] f == d.f
         got == IF d.r THEN SubSeq(file[f], d.pos + 1, IF d.pos + k < Len(file[f]) THEN d.pos + k ELSE Len(file[f])) ELSE <<>> IN
     /\ desc' = [desc EXCEPT ![tab[fd]].pos = d.pos + Len(got)]
     /\ n' = n + 1
     /\ UNCHANGED <<ph, lv, eff, par, tab, file, tok>>
     /\ Log([t |-> "read", fd |-> fd, k |-> k, ok |-> d.r, got |-> got])

(* the caller's descriptors share their position with the command's *)
ParWrite ==
  /\ ph = "run" /\ n < MaxIO /\ Rec
  /\ \E fd \in Pick(DOMAIN par) :
     LET d == desc[par[fd]] f == d.f pos == IF d.a THEN Len(file[f]) ELSE d.pos IN
     /\ d.w
     /\ file' = [file EXCEPT ![f] = SubSeq(@, 1, pos) \o <<Piece(tok)>> \o SubSeq(@, pos + 2, Len(@))]
     /\ desc' = [desc EXCEPT ![par[fd]].pos = pos + 1]
     /\ tok' = tok + 1
     /\ n' = n + 1
     /\ UNCHANGED <<ph, lv, eff, par, tab>>
     /\ Log([t |-> "parwrite", fd |-> fd, p |-> Piece(tok)])

End ==
  /\ ph \in {"run", "failed"}
  /\ Rec /\ ph = "run" => n >= MinLen
  /\ ph' = "done"
  /\ UNCHANGED <<lv, n, eff, par, desc, file, tab, tok>>
  /\ Log([t |-> "end", ok |-> (ph = "run"), par |-> {[fd |-> fd, pos |-> desc[par[fd]].pos] : fd \in DOMAIN par},
          files |-> {[f |-> f, c |-> file[f]] : f \in DOMAIN file},
          created |-> {[f |-> eff[fd].s, p |-> eff[fd].p] : fd \in {x \in DOMAIN eff : ph = "run" /\ eff[x].k = "path" /\ eff[x].s \in {"N", "NX"}}},
          special |-> {[fd |-> fd, s |-> eff[fd].s, c |-> IF ph = "run" THEN file[FileOf(eff[fd])] ELSE <<>>] :
                         fd \in {x \in DOMAIN eff : eff[x].k = "special"}}])

Next == \/ Add \/ Remove \/ Level \/ Start \/ Write \/ Read \/ ParWrite \/ End
NextD == Next \/ (ph = "done" /\ UNCHANGED vars)

---------------------------------------------------------------------------
(* The algorithm: first everything that exists is moved out of the way, and *)
(* the sources closed; then each is put in place; then all others closed.   *)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SeqsOf(_)
SeqsOf(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o t : t \in SeqsOf(S \ {x})} : x \in S}

Base == Max({2} \cup DOMAIN eff \cup {eff[fd].s : fd \in {x \in DOMAIN eff : eff[x].k = "fd"}})
LowestFree(t) == CHOOSE k \in 0..300 : k \notin DOMAIN t /\ \A j \in 0..(k - 1) : j \in DOMAIN t

RECURSIVE Moved(_, _, _), Placed(_, _, _)
Moved(ord, k, t) ==        \* Base + k: where ord[k] is kept
  IF k > Len(ord) THEN t
  ELSE LET r == eff[ord[k]] IN Moved(ord, k + 1, IF r.k = "fd" THEN Put(t, Base + k, t[r.s]) ELSE t)
Placed(ord, k, t) ==
  IF k > Len(ord) THEN t
  ELSE LET fd == ord[k]
           free == LowestFree(t)
           src == IF eff[fd].k = "fd" THEN Base + k ELSE free
           t1 == IF eff[fd].k = "fd" THEN t ELSE Put(t, free, Fresh(fd))
           t2 == IF src = fd THEN t1 ELSE Without(Put(t1, fd, t1[src]), {src})
       IN Placed(ord, k + 1, t2)
Algo(ord) ==
  LET t1 == Moved(ord, 1, par)
      t2 == Without(t1, {eff[fd].s : fd \in {x \in DOMAIN eff : eff[x].k = "fd"}})
      t3 == Placed(ord, 1, t2)
  IN [fd \in DOMAIN t3 \cap DOMAIN eff |-> t3[fd]]

AlgoOK == (ph = "build" /\ lv = Len(Levels) /\ Possible /\ par = Parent0) => \A ord \in SeqsOf(DOMAIN eff) : Algo(ord) = Denote

(* nothing is started unless everything asked for is there; exactly that is *)
Exactly == ph = "run" => DOMAIN tab = DOMAIN eff
OwnKept == \A fd \in DOMAIN Parent0 : fd \notin DOMAIN par => \E x \in DOMAIN eff : eff[x].k = "fd" /\ eff[x].s = fd /\ ~eff[x].b
NotRun == ph = "failed" => file = File0

Emit == (Rec /\ ph = "done") => PrintT("@T " \o ToJson([steps |-> h]))
=============================================================================
