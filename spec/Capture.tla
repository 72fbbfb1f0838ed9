------------------------------ MODULE Capture ------------------------------
(***************************************************************************)
(* Output redirected to memory (STRING) and to temporary files (TMP).      *)
(* A pipeline value has stages; which of their descriptors are captured is *)
(* asked for at three levels (defaults of the environment, arguments of    *)
(* run, redirections of a stage), the innermost deciding.  The value is    *)
(* run several times, also at once.  Processes and children of theirs,     *)
(* which can outlive them and even the pipeline, write in any order.       *)
(* Every run, stage and descriptor has a sink of its own: what is          *)
(* captured is exactly what was written there until the pipeline ended     *)
(* (memory) or until now (files), which are there until removed.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Shapes,   \* [c |-> how they are combined, k |-> kinds of stages, o |-> stages whose stdout is not a pipe]
          MaxRuns, MaxWrites, MaxLook, Rec

VARIABLES cfg,      \* what was asked for
          st,       \* of each run: no, on, over (looked at once), removed
          al, ch,   \* of each stage: its process, and a child of it
          f,        \* what is in each sink
          said,     \* what has been reported as captured in memory
          n, looks, h
vars == <<cfg, st, al, ch, f, said, n, looks, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h
Sinks == {"STRING", "TMP", "NULL"}
Absent == "-"

(* an assignment of sinks to some of the descriptors *)
Asked(fds, S) == [fds -> S \cup {Absent}]
NoneAsked == [fd \in {1, 2, 3} |-> Absent]
NoCfg == [s |-> [c |-> "none", k |-> <<>>, o |-> {}], e |-> <<>>, l |-> <<>>, i |-> <<>>]
Init ==
  /\ cfg = NoCfg
  /\ st = [r \in 1..MaxRuns |-> "no"]
  /\ al = [r \in 1..MaxRuns |-> <<>>] /\ ch = al
  /\ f = [x \in {} |-> <<>>]
  /\ said = [x \in {} |-> <<>>]
  /\ n = 0 /\ looks = 0 /\ h = <<>>

Configure ==
  /\ cfg = NoCfg
  /\ \E s \in Pick(Shapes) :
     \E e \in Pick(IF Rec THEN Asked({2, 3}, Sinks) ELSE {(2 :> "STRING") @@ (3 :> Absent), (2 :> "TMP") @@ (3 :> "STRING")}) :
     \E l \in Pick(IF Rec THEN Asked({1, 2, 3}, Sinks) ELSE Asked({1}, {"STRING", "TMP"})) :
     \E m1, m2, m3 \in IF Rec THEN {RandomElement(Asked({1, 2, 3}, Sinks)), NoneAsked} ELSE {NoneAsked, [NoneAsked EXCEPT ![2] = "TMP"]} :
       LET m(i) == IF i \in s.o THEN <<m1, m2, m3>>[i] ELSE [<<m1, m2, m3>>[i] EXCEPT ![1] = Absent] IN
       /\ cfg' = [s |-> s, e |-> e, l |-> l, i |-> SubSeq(<<m(1), m(2), m(3)>>, 1, Len(s.k))]
       /\ al' = [r \in 1..MaxRuns |-> [i \in 1..Len(s.k) |-> "no"]] /\ ch' = al'
  /\ UNCHANGED <<st, f, said, n, looks, h>>

Stages == 1..Len(cfg.s.k)
At(m, fd) == IF fd \in DOMAIN m THEN m[fd] ELSE Absent
Sink(i, fd) ==
  IF fd = 1 /\ i \notin cfg.s.o THEN "PIPE"
  ELSE IF At(cfg.i[i], fd) # Absent THEN At(cfg.i[i], fd)
  \* what is asked for a command is asked for its arguments, too
  ELSE IF cfg.s.c = "arg" /\ At(cfg.i[2], fd) # Absent THEN At(cfg.i[2], fd)
  ELSE IF At(cfg.l, fd) # Absent THEN At(cfg.l, fd)
  ELSE IF At(cfg.e, fd) # Absent THEN At(cfg.e, fd)
  ELSE Absent
Captured(i) == {fd \in {1, 2, 3} : Sink(i, fd) \in {"STRING", "TMP"}}
Writable(i) == IF cfg.s.k[i] = "fn" THEN Captured(i) \cap {1} ELSE Captured(i)
Keys(r) == {x \in {r} \X Stages \X {1, 2, 3} : x[3] \in Captured(x[2])}

Ended(r) == st[r] = "on" /\ \A i \in Stages : al[r][i] = "end"
Kind(i, fd) == Sink(i, fd)

Start ==
  \E r \in 1..MaxRuns :
    /\ cfg # NoCfg /\ st[r] = "no" /\ \A q \in 1..(r - 1) : st[q] # "no"
    /\ st' = [st EXCEPT ![r] = "on"]
    /\ al' = [al EXCEPT ![r] = [i \in Stages |-> "run"]]
    /\ f' = [x \in DOMAIN f \cup Keys(r) |-> IF x \in DOMAIN f THEN f[x] ELSE <<>>]
    /\ UNCHANGED <<cfg, ch, said, n, looks>>
    /\ Log([t |-> "start", r |-> r])

Live == {x \in (1..MaxRuns) \X Stages : al[x[1]][x[2]] = "run" /\ Writable(x[2]) # {}}
Write ==
  /\ n < MaxWrites /\ Live # {}
  /\ \E x \in Pick(Live) : \E fd \in Pick(Writable(x[2])) :
       /\ f' = [f EXCEPT ![<<x[1], x[2], fd>>] = Append(@, n)]
       /\ Log([t |-> "write", r |-> x[1], i |-> x[2], fd |-> fd, p |-> n])
  /\ n' = n + 1
  /\ UNCHANGED <<cfg, st, al, ch, said, looks>>

Fork ==
  \E r \in 1..MaxRuns, i \in Stages :
    /\ al[r][i] = "run" /\ ch[r][i] = "no" /\ cfg.s.k[i] = "cmd"
    /\ Rec => RandomElement(1..2) = 1
    /\ ch' = [ch EXCEPT ![r][i] = "run"]
    /\ UNCHANGED <<cfg, st, al, f, said, n, looks>>
    /\ Log([t |-> "fork", r |-> r, i |-> i])

(* after the pipeline has ended, only files are still there to be written to *)
ChildFds(r, i) == {fd \in Captured(i) : Kind(i, fd) = "TMP" \/ (st[r] = "on" /\ ~Ended(r))}
LiveCh == {x \in (1..MaxRuns) \X Stages : ch[x[1]][x[2]] = "run" /\ ChildFds(x[1], x[2]) # {} /\ st[x[1]] # "removed"}
ChildWrite ==
  /\ n < MaxWrites /\ LiveCh # {}
  /\ \E x \in Pick(LiveCh) : \E fd \in Pick(ChildFds(x[1], x[2])) :
       /\ f' = [f EXCEPT ![<<x[1], x[2], fd>>] = Append(@, n)]
       /\ Log([t |-> "cwrite", r |-> x[1], i |-> x[2], fd |-> fd, p |-> n])
  /\ n' = n + 1
  /\ UNCHANGED <<cfg, st, al, ch, said, looks>>

ChildEnd ==
  \E r \in 1..MaxRuns, i \in Stages :
    /\ ch[r][i] = "run"
    /\ Rec => RandomElement(1..4) = 1
    /\ ch' = [ch EXCEPT ![r][i] = "end"]
    /\ UNCHANGED <<cfg, st, al, f, said, n, looks>>
    /\ Log([t |-> "cend", r |-> r, i |-> i])

End ==
  \E r \in 1..MaxRuns, i \in Stages :
    /\ al[r][i] = "run"
    /\ Rec => Len(h) > 8 \/ RandomElement(1..4) = 1
    /\ al' = [al EXCEPT ![r][i] = "end"]
    /\ UNCHANGED <<cfg, st, ch, f, said, n, looks>>
    /\ \E how \in Pick({"ok", "fail"}) : Log([t |-> "end", r |-> r, i |-> i, how |-> how])

(* what is told, of all processes and descriptors *)
Report(r, content) == {[i |-> x[2], fd |-> x[3], k |-> Kind(x[2], x[3]), c |-> content[x]] : x \in Keys(r)}
Over(r) == \A q \in 1..MaxRuns : st[q] \in {"over", "removed"} \/ (q = r /\ Ended(q))
Look ==
  \E r \in 1..MaxRuns :
    /\ looks < MaxLook - 1 \/ (looks < MaxLook /\ Over(r))
    /\ Ended(r) \/ st[r] \in {"over", "removed"}
    /\ Rec => RandomElement(1..2) = 1
    /\ LET new == [x \in DOMAIN said \cup Keys(r) |->
                     IF x \in DOMAIN said THEN said[x] ELSE IF Kind(x[2], x[3]) = "STRING" THEN f[x] ELSE <<>>] IN
       /\ said' = new
       /\ Log([t |-> "look", r |-> r, removed |-> (st[r] = "removed"),
               all |-> Report(r, [x \in Keys(r) |-> IF Kind(x[2], x[3]) = "STRING" THEN new[x] ELSE f[x]])])
    /\ st' = [st EXCEPT ![r] = IF @ = "on" THEN "over" ELSE @]
    /\ looks' = looks + 1
    /\ UNCHANGED <<cfg, al, ch, f, n>>

Remove ==
  \E r \in 1..MaxRuns :
    /\ st[r] = "over"
    /\ Rec => RandomElement(1..2) = 1
    /\ st' = [st EXCEPT ![r] = "removed"]
    /\ UNCHANGED <<cfg, al, ch, f, said, n, looks>>
    /\ Log([t |-> "remove", r |-> r])

Next == \/ Configure \/ Start \/ Write \/ Fork \/ ChildWrite \/ ChildEnd \/ End \/ Look \/ Remove
NextD == Next \/ ((\A r \in 1..MaxRuns : st[r] = "removed") /\ UNCHANGED vars)

---------------------------------------------------------------------------
Range(s) == {s[k] : k \in DOMAIN s}
(* nothing is added, lost or mixed up *)
OwnSink == \A x, y \in DOMAIN f : x # y => Range(f[x]) \cap Range(f[y]) = {}
Once == \A x \in DOMAIN f : \A a, b \in DOMAIN f[x] : a < b => f[x][a] < f[x][b]
AllThere == UNION {Range(f[x]) : x \in DOMAIN f} = 0..(n - 1)
(* what has been told stays true *)
ToldOnce == [][\A x \in DOMAIN said : said'[x] = said[x]]_vars
Told == \A x \in DOMAIN said : Kind(x[2], x[3]) = "STRING" => said[x] = f[x]

(* the last look is at a run when all are over *)
Emit == (Rec /\ looks = MaxLook /\ h[Len(h)].t = "look")
          => PrintT("@T " \o ToJson([cfg |-> cfg, steps |-> h]))
=============================================================================