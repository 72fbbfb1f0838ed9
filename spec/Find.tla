-------------------------------- MODULE Find --------------------------------
(***************************************************************************)
(* Which program a name stands for.  There are directories with programs,  *)
(* that come and go, and environments, each in some directory, that have   *)
(* variables of their own or those of the calling process, and so a PATH.  *)
(* A command is the first program of its name that there is in the         *)
(* directories of the PATH of its environment, at the time it is started;  *)
(* parts of PATH can be relative to the directory of the environment, and  *)
(* it might not be set at all.  Names with a slash are paths, relative to  *)
(* that directory, too.  A name that stands for nothing fails, on its own. *)
(*                                                                         *)
(* An environment completes to the programs a name can stand for, as of    *)
(* when it was first asked since its cache was cleared.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Paths, MaxEnvs, MaxCmds, Steps, Rec

VARIABLES here,     \* what there is in each directory, by name: a kind, and the version of it
          env,      \* cwd, own (variables), path
          os,       \* the PATH of the calling process
          cache,    \* for each environment what it completes to, and if it has been asked
          cmds,     \* commands: stages of environment and name
          n, h
vars == <<here, env, os, cache, cmds, n, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h
Cwds == {"w1", "w2"}
Dirs == {"p1", "p2", "w1", "w2", "w1/bin", "w2/bin"}
Nothing == [kind |-> "none", ver |-> 0]
Unset == <<"unset">>

(* the directory that a part of PATH is *)
At(part, cwd) == CASE part = "" -> cwd
                   [] part = "." -> cwd
                   [] part = "bin" -> cwd \o "/bin"
                   [] OTHER -> part
PathOf(e) == LET p == IF env[e].own THEN env[e].path ELSE os IN IF p = Unset THEN <<>> ELSE p
Isset(e) == (IF env[e].own THEN env[e].path ELSE os) # Unset
(* what one stands for: the directory, or "" *)
Hits(e, x) == {i \in 1..Len(PathOf(e)) : At(PathOf(e)[i], env[e].cwd) \in Dirs /\ here[At(PathOf(e)[i], env[e].cwd)][x].kind = "prog"}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Where(e, w, x) ==
  IF w = "plain" THEN IF Hits(e, x) = {} THEN "" ELSE At(PathOf(e)[First(Hits(e, x))], env[e].cwd)
  ELSE LET d == CASE w = "./" -> env[e].cwd [] w = "bin/" -> env[e].cwd \o "/bin" [] w = "../w1/" -> "w1" [] w = "abs" -> "p1"
       IN IF here[d][x].kind = "prog" THEN d ELSE ""
Stands(e, w, x) == LET d == Where(e, w, x) IN IF d = "" THEN [d |-> "", ver |-> 0] ELSE [d |-> d, ver |-> here[d][x].ver]

(* completions: those it can stand for, and everything of a name there is *)
Runs(e) == {x \in Names : Hits(e, x) # {}}
Files(e) == {x \in Names : \E i \in 1..Len(PathOf(e)) : LET d == At(PathOf(e)[i], env[e].cwd) IN d \in Dirs /\ here[d][x].kind # "none"}

Init ==
  /\ here = [d \in Dirs |-> [x \in Names |-> Nothing]]
  /\ env = <<>> /\ os = <<"p1">> /\ cache = <<>> /\ cmds = <<>> /\ n = 0 /\ h = <<>>

Going == n < Steps
Step(a) == n' = n + 1 /\ Log(a)
Envs == DOMAIN env
Fresh == [asked |-> FALSE, runs |-> {}, files |-> {}]

New ==
  /\ Going /\ Len(env) < MaxEnvs
  /\ \E own \in Pick(BOOLEAN) : \E c \in Pick(Cwds) : \E p \in Pick(Paths) :
       /\ env' = Append(env, [cwd |-> c, own |-> own, path |-> IF own THEN p ELSE Unset])
       /\ cache' = Append(cache, Fresh)
       /\ Step([t |-> "new", own |-> own, cwd |-> c, path |-> p])
  /\ UNCHANGED <<here, os, cmds>>
Derive ==
  /\ Going /\ env # <<>> /\ Len(env) < MaxEnvs
  /\ \E e \in Pick(Envs) : \E c \in Pick(Cwds) :
       /\ env' = Append(env, [cwd |-> c, own |-> TRUE, path |-> IF env[e].own THEN env[e].path ELSE os])
       /\ cache' = Append(cache, Fresh)
       /\ Step([t |-> "derive", e |-> e, cwd |-> c])
  /\ UNCHANGED <<here, os, cmds>>
Cd ==
  /\ Going /\ env # <<>>
  /\ \E e \in Pick(Envs) : \E c \in Pick(Cwds) :
       /\ env' = [env EXCEPT ![e].cwd = c] /\ Step([t |-> "cd", e |-> e, cwd |-> c])
  /\ UNCHANGED <<here, os, cache, cmds>>
SetPath ==
  /\ Going /\ env # <<>>
  /\ \E e \in Pick(Envs) : \E p \in Pick(Paths \cup {Unset}) :
       /\ IF env[e].own THEN env' = [env EXCEPT ![e].path = p] /\ os' = os ELSE env' = env /\ os' = p
       /\ Step([t |-> "path", e |-> e, path |-> p])
  /\ UNCHANGED <<here, cache, cmds>>
SetOs ==
  /\ Going /\ \E p \in Pick(Paths \cup {Unset}) : os' = p /\ Step([t |-> "ospath", path |-> p])
  /\ UNCHANGED <<here, env, cache, cmds>>
Put ==
  /\ Going
  /\ \E d \in Pick(Dirs) : \E x \in Pick(Names) : \E k \in Pick(IF Rec /\ RandomElement(1..2) = 1 THEN {"prog"} ELSE {"none", "prog", "file", "dir", "dangling"}) :
       /\ here' = [here EXCEPT ![d][x] = IF k = "none" THEN Nothing ELSE [kind |-> k, ver |-> n]]
       /\ Step([t |-> "put", d |-> d, x |-> x, k |-> k, ver |-> n])
  /\ UNCHANGED <<env, os, cache, cmds>>
Ways == {"./", "bin/", "../w1/", "abs"}
Stages(c) == IF c = "one" THEN 1 ELSE 2
Make ==
  /\ Going /\ env # <<>> /\ Len(cmds) < MaxCmds
  /\ \E c \in Pick({"one", "pipe"}) : \E e1, e2 \in Pick(Envs) : \E x1, x2 \in Pick(Names) : \E w1, w2 \in Pick(IF Rec /\ RandomElement(1..3) > 1 THEN {"plain"} ELSE Ways \cup {"plain"}) :
       LET s == <<[e |-> e1, x |-> x1, w |-> w1], [e |-> e2, x |-> x2, w |-> w2]>>
       IN /\ cmds' = Append(cmds, SubSeq(s, 1, Stages(c)))
          /\ Step([t |-> "make", c |-> c, s |-> SubSeq(s, 1, Stages(c))])
  /\ UNCHANGED <<here, env, os, cache>>
Run ==
  /\ Going /\ cmds # <<>>
  /\ \E c \in Pick(DOMAIN cmds) :
       Step([t |-> "run", c |-> c, got |-> [i \in DOMAIN cmds[c] |-> Stands(cmds[c][i].e, cmds[c][i].w, cmds[c][i].x)]])
  /\ UNCHANGED <<here, env, os, cache, cmds>>
Complete ==
  /\ Going /\ env # <<>>
  /\ \E e \in Pick(Envs) :
       LET now == [asked |-> TRUE, runs |-> Runs(e), files |-> Files(e)] IN
       /\ cache' = IF cache[e].asked THEN cache ELSE [cache EXCEPT ![e] = now]
       (* everything that was there both then and now; nothing that never was *)
       /\ Step([t |-> "complete", e |-> e, must |-> cache'[e].runs \cap now.runs, may |-> cache'[e].files \cup now.files, set |-> Isset(e), new |-> ~cache[e].asked])
  /\ UNCHANGED <<here, env, os, cmds>>
Clear ==
  /\ Going /\ env # <<>>
  /\ \E e \in Pick(Envs) : cache' = [cache EXCEPT ![e] = Fresh] /\ Step([t |-> "clear", e |-> e])
  /\ UNCHANGED <<here, env, os, cmds>>

Next == New \/ Derive \/ Cd \/ SetPath \/ SetOs \/ Put \/ Put \/ Put \/ Make \/ Run \/ Run \/ Run \/ Complete \/ Clear

---------------------------------------------------------------------------
(* what a name stands for is a program in a directory of its own PATH, and *)
(* none before that has one                                                *)
Honest == \A e \in Envs : \A x \in Names :
            LET d == Where(e, "plain", x) IN
            IF d = "" THEN \A i \in DOMAIN PathOf(e) : At(PathOf(e)[i], env[e].cwd) \in Dirs => here[At(PathOf(e)[i], env[e].cwd)][x].kind # "prog"
            ELSE here[d][x].kind = "prog" /\ \E i \in DOMAIN PathOf(e) : At(PathOf(e)[i], env[e].cwd) = d
Completes == \A e \in Envs : Runs(e) \subseteq Files(e) /\ (cache[e].runs \subseteq cache[e].files)
(* an environment with variables of its own does not mind those of others *)
Apart == [][\A e \in Envs : (env[e].own /\ here' = here /\ env'[e] = env[e]) => \A x \in Names : Where(e, "plain", x)' = Where(e, "plain", x)]_vars
Bound == n <= Steps

Emit == (Rec /\ n = Steps) => PrintT("@T " \o ToJson([steps |-> h]))
=============================================================================
