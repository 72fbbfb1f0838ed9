------------------------------ MODULE Environ ------------------------------
(***************************************************************************)
(* Environments: a directory, exported variables, default redirections.    *)
(* They are created from scratch or derived from each other, changed, and  *)
(* commands made from them are run, some time later.  A command gets what  *)
(* its environment is at that time.  Directories are paths without . and   *)
(* .. (as written, not as resolved); they come and go.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEnvs, MaxCmds, Names, Values, Moves, Steps, Rec, MinRuns

VARIABLES env,      \* cwd, own (has variables of its own), ex, red, inter
          os,       \* the calling process: cwd (resolved), ex
          dirs,     \* directories there are
          cmds,     \* commands made: for each stage the environment
          n, runs, h
vars == <<env, os, dirs, cmds, n, runs, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h

(* the link l leads to a/b *)
Phys(p) == IF p # <<>> /\ p[1] = "l" THEN <<"a", "b">> \o Tail(p) ELSE p
Exists(p) == Phys(p) \in dirs
Home == <<"h">>

(* a move: where it starts from (here, the home directory, the top) and how it goes on *)
RECURSIVE Go(_, _)
Go(p, m) == IF m = <<>> THEN p
            ELSE Go(IF m[1] = ".." THEN (IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p) - 1))
                    ELSE IF m[1] = "." THEN p ELSE Append(p, m[1]), Tail(m))
Base(k, here) == CASE k = "rel" -> here [] k = "home" -> Home [] k = "abs" -> <<>>
(* .. at the top would lead out of the scratch directory *)
RECURSIVE Inside(_, _)
Inside(p, m) == IF m = <<>> THEN TRUE
                ELSE IF m[1] = ".." THEN (IF p = <<>> THEN FALSE ELSE Inside(SubSeq(p, 1, Len(p) - 1), Tail(m)))
                ELSE IF m[1] = "." THEN Inside(p, Tail(m)) ELSE Inside(Append(p, m[1]), Tail(m))
Target(k, here, m) == Go(Base(k, here), m)

None == "-"
Ex0 == [x \in Names |-> None]
Red0 == [fd \in {0, 1, 2} |-> "own"]
Init ==
  /\ env = <<>>
  /\ dirs = {<<>>, <<"a">>, <<"a", "b">>, <<"c">>, <<"h">>, <<"h", "a">>}
  /\ os = [cwd |-> <<>>, ex |-> Ex0]
  /\ cmds = <<>> /\ n = 0 /\ runs = 0 /\ h = <<>>

Envs == DOMAIN env
Kinds == {"rel", "home", "abs"}
More == n < Steps
Vars(e) == IF env[e].own THEN env[e].ex ELSE os.ex
Given(x) == [s \in Names |-> x]

(* from scratch *)
New ==
  /\ More /\ Len(env) < MaxEnvs
  /\ Rec => RandomElement(1..6) = 1 \/ Len(env) = 0
  /\ \E own, inter, moved \in Pick(BOOLEAN) : \E k \in Pick(Kinds) : \E m \in Pick(Moves) :
       LET here == os.cwd
           t == Target(k, here, m)
           to == IF moved THEN t ELSE here
           ok == ~moved \/ Exists(t)
           ex == IF own THEN [x \in Names |-> "given"] ELSE Ex0
       IN /\ moved => Inside(Base(k, here), m)
          /\ env' = IF ok THEN Append(env, [cwd |-> to, own |-> own, ex |-> ex, red |-> Red0, inter |-> inter]) ELSE env
          /\ os' = IF ok /\ inter /\ moved THEN [os EXCEPT !.cwd = Phys(to)] ELSE os
          /\ n' = n + 1 /\ UNCHANGED <<dirs, cmds, runs>>
          /\ Log([t |-> "new", own |-> own, inter |-> inter, moved |-> moved, k |-> k, m |-> m, ok |-> ok, cwd |-> os'.cwd])

Derive ==
  /\ More /\ Len(env) < MaxEnvs /\ env # <<>>
  /\ \E e \in Pick(Envs) : \E k \in Pick(Kinds) : \E m \in Pick(Moves) : \E moved, own, red \in Pick(BOOLEAN) : \E inter \in Pick({"same", "yes", "no"}) :
       LET t == Target(k, env[e].cwd, m)
           to == IF moved THEN t ELSE env[e].cwd
           ok == Exists(to)
           i == IF inter = "same" THEN env[e].inter ELSE inter = "yes"
       IN /\ moved => Inside(Base(k, env[e].cwd), m)
          /\ env' = IF ok THEN Append(env, [cwd |-> to, own |-> TRUE, ex |-> IF own THEN Given("given") ELSE Vars(e),
                                            red |-> IF red THEN [Red0 EXCEPT ![1] = "file"] ELSE env[e].red, inter |-> i]) ELSE env
          /\ os' = IF ok /\ i THEN [os EXCEPT !.cwd = Phys(to)] ELSE os
          /\ n' = n + 1 /\ UNCHANGED <<dirs, cmds, runs>>
          /\ Log([t |-> "derive", e |-> e, k |-> k, m |-> m, moved |-> moved, own |-> own, red |-> red, inter |-> inter, ok |-> ok, cwd |-> os'.cwd])

Cd ==
  /\ More /\ env # <<>>
  /\ \E e \in Pick(Envs) : \E k \in Pick(Kinds) : \E m \in Pick(Moves) :
       LET t == Target(k, env[e].cwd, m) ok == Exists(t) IN
       /\ Inside(Base(k, env[e].cwd), m)
       /\ env' = IF ok THEN [env EXCEPT ![e].cwd = t] ELSE env
       /\ os' = IF ok /\ env[e].inter THEN [os EXCEPT !.cwd = Phys(t)] ELSE os
       /\ n' = n + 1 /\ UNCHANGED <<dirs, cmds, runs>>
       /\ Log([t |-> "cd", e |-> e, k |-> k, m |-> m, ok |-> ok, cwd |-> os'.cwd])

Export ==
  /\ More /\ env # <<>>
  /\ \E e \in Pick(Envs) : \E x \in Pick(Names) : \E v \in Pick(Values \cup {None}) :
       /\ IF env[e].own THEN env' = [env EXCEPT ![e].ex[x] = v] /\ os' = os
          ELSE env' = env /\ os' = [os EXCEPT !.ex[x] = v]
       /\ n' = n + 1 /\ UNCHANGED <<dirs, cmds, runs>>
       /\ Log([t |-> "export", e |-> e, x |-> x, v |-> v])

Redirect ==
  /\ More /\ env # <<>>
  /\ \E e \in Pick(Envs) : \E fd \in Pick({0, 1, 2}) : \E to \in Pick({"file", "null", "here"}) :
       /\ env' = [env EXCEPT ![e].red[fd] = to]
       /\ n' = n + 1 /\ UNCHANGED <<os, dirs, cmds, runs>>
       /\ Log([t |-> "redirect", e |-> e, fd |-> fd, to |-> to])

(* the calling process *)
Chdir ==
  /\ More
  /\ \E p \in Pick(dirs) :
       /\ os' = [os EXCEPT !.cwd = p]
       /\ n' = n + 1 /\ UNCHANGED <<env, dirs, cmds, runs>>
       /\ Log([t |-> "chdir", p |-> p])
Setenv ==
  /\ More
  /\ \E x \in Pick(Names) : \E v \in Pick(Values \cup {None}) :
       /\ os' = [os EXCEPT !.ex[x] = v]
       /\ n' = n + 1 /\ UNCHANGED <<env, dirs, cmds, runs>>
       /\ Log([t |-> "setenv", x |-> x, v |-> v])

Dirs ==
  /\ More
  /\ Rec => RandomElement(1..3) = 1
  /\ \E p \in Pick({<<"c">>, <<"a", "b">>, <<"c", "b">>, <<"h", "a">>}) :
       LET gone == {q \in dirs : Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p}
           there == p \in dirs IN
       /\ there => os.cwd \notin gone
       /\ ~there => SubSeq(p, 1, Len(p) - 1) \in dirs
       /\ dirs' = IF there THEN dirs \ gone ELSE dirs \cup {p}
       (* a directory made again is not the one that some process is still in *)
       /\ n' = n + 1 /\ UNCHANGED <<env, os, cmds, runs>>
       /\ Log([t |-> IF there THEN "rmdir" ELSE "mkdir", p |-> p])

(* the directories there are to go to, as cd is completed *)
Subs(p) == IF ~Exists(p) THEN {}
           ELSE {q[Len(q)] : q \in {r \in dirs : r # <<>> /\ SubSeq(r, 1, Len(r) - 1) = Phys(p)}}
                \cup (IF Phys(p) = <<>> /\ Exists(<<"l">>) THEN {"l"} ELSE {})
Look ==
  /\ More /\ env # <<>>
  /\ Rec => RandomElement(1..3) = 1
  /\ \E e \in Pick(Envs) : \E k \in Pick(Kinds) : \E m \in Pick(Moves \cup {<<>>}) :
       /\ Inside(Base(k, env[e].cwd), m)
       /\ n' = n + 1 /\ UNCHANGED <<env, os, dirs, cmds, runs>>
       /\ Log([t |-> "look", e |-> e, k |-> k, m |-> m, names |-> Subs(Target(k, env[e].cwd, m))])

Make ==
  /\ More /\ env # <<>> /\ Len(cmds) < MaxCmds
  /\ \E e1, e2 \in Pick(Envs) : \E c \in Pick({"one", "pipe", "group", "arg"}) :
       /\ cmds' = Append(cmds, [c |-> c, e |-> IF c = "one" THEN <<e1>> ELSE <<e1, e2>>])
       /\ n' = n + 1 /\ UNCHANGED <<env, os, dirs, runs>>
       /\ Log([t |-> "make", c |-> c, e |-> cmds'[Len(cmds')].e])

(* what a stage gets; the default redirections are those of the environment *)
(* the whole was made in, files being relative to the one of the command    *)
Gets(e, root) ==
  [cwd |-> Phys(env[e].cwd), ok |-> Exists(env[e].cwd), ex |-> Vars(e), own |-> env[e].own,
   red |-> [fd \in {0, 1, 2} |-> env[root].red[fd]]]
Run ==
  /\ cmds # <<>>
  /\ \E c \in Pick(DOMAIN cmds) :
       LET root == IF cmds[c].c = "arg" THEN cmds[c].e[2] ELSE cmds[c].e[1] IN
       /\ runs' = runs + 1 /\ UNCHANGED <<env, os, dirs, cmds, n>>
       /\ Log([t |-> "run", c |-> c, how |-> cmds[c].c, g |-> [i \in DOMAIN cmds[c].e |-> Gets(cmds[c].e[i], root)]])

Next == \/ Look \/ New \/ Derive \/ Cd \/ Export \/ Redirect \/ Chdir \/ Setenv \/ Dirs \/ Make \/ Run

---------------------------------------------------------------------------
(* every step changes at most one environment, and the calling process only *)
(* as said                                                                  *)
Isolated == [][\A e, f \in Envs : (e # f /\ env'[e] # env[e]) => env'[f] = env[f]]_vars
Derived == [][\A e \in Envs : Len(env') > Len(env) => env'[e] = env[e]]_vars
OwnProcess == [][os'.cwd # os.cwd => \A e \in Envs : Len(env') = Len(env) => (env'[e] # env[e] => env[e].inter)]_vars
Bound == n <= Steps /\ runs = 0

Emit == (Rec /\ runs = MinRuns /\ h[Len(h)].t = "run") => PrintT("@T " \o ToJson([steps |-> h]))
=============================================================================
