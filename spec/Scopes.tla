------------------------------- MODULE Scopes -------------------------------
(***************************************************************************)
(* What names mean in shell scope, and where assignments go.  There is the *)
(* shell (or script), modules imported from it, each in an environment of  *)
(* its own derived from that of the shell, and decorated functions: one    *)
(* defined in the shell, one defined in ordinary Python (whose globals are *)
(* then the enclosing scope), with an environment of its own.  The shell   *)
(* can be given another environment, for good or for a while.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Values, Builtins, Modules, Temps, Steps, Rec

VARIABLES at0,    \* where the files of modules are at first
          loc,      \* of each scope: what was assigned there
          ex,       \* of each environment: exported variables
          glob,     \* globals of the ordinary Python module
          there,    \* scopes there are: modules are, once imported
          ran,      \* how often each module was run
          cwd,      \* of each environment
          stk,      \* environments of the shell: the last one is used now
          nt,       \* environments made for it
          at,       \* of each module: where on the path of modules there is a file of it
          n, h
vars == <<at0, loc, ex, glob, there, ran, cwd, stk, nt, at, n, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h
None == "-"
Nothing == [x \in Names |-> None]

Scopes == {"sh", "g", "f"} \cup Modules
EnvOf(s) == IF s = "g" THEN "sh" ELSE IF s = "sh" THEN stk[Len(stk)] ELSE s
(* the path of modules (of a package, for one in a package): a directory,  *)
(* the one the process is in (written as nothing), and another             *)
Order == <<"first", "here", "last">>
Places == {Order[i] : i \in 1..3}
Found(m) == LET is == {i \in 1..3 : Order[i] \in at[m]} IN
            IF is = {} THEN None ELSE Order[CHOOSE i \in is : \A j \in is : i <= j]
Temp(k) == "t" \o ToString(k)
Envs == {"sh", "f"} \cup Modules \cup {Temp(k) : k \in 1..Temps}

Init ==
  /\ loc = [s \in Scopes |-> Nothing]
  /\ ex = [e \in Envs |-> [Nothing EXCEPT !["V"] = "exported"]]
  /\ glob = Nothing
  /\ there = {"sh", "g", "f"}
  /\ ran = [m \in Modules |-> 0]
  /\ cwd = [e \in Envs |-> "top"]
  /\ stk = <<"sh">> /\ nt = 0
  /\ at \in [Modules -> SUBSET Places]
  /\ at0 = at
  /\ n = 0 /\ h = <<>>

(* the enclosing Python scope: what is assigned there, or nothing *)
Par(s, x) == IF s = "f" THEN glob[x] ELSE IF s = "g" THEN loc["sh"][x] ELSE None
Means(s, x) ==
  IF loc[s][x] # None THEN loc[s][x]
  ELSE IF ex[EnvOf(s)][x] # None THEN ex[EnvOf(s)][x]
  ELSE IF Par(s, x) # None THEN Par(s, x)
  ELSE IF x \in Builtins THEN "builtin" ELSE "command"
(* what %(x)s in an argument stands for: the scope is that of the          *)
(* environment the command is run in, which ordinary Python has none of    *)
Expands(s, x) == LET t == IF s = "g" THEN "sh" ELSE s IN
                 IF s = "f" THEN ex["f"][x]
                 ELSE IF Means(t, x) \in {"builtin", "command"} THEN None ELSE Means(t, x)
IsValue(s, x) == Means(s, x) \notin {"builtin", "command"}

Step(a) == at0' = at0 /\ n' = n + 1 /\ Log(a)
More == n < Steps

Assign ==
  /\ More
  /\ \E s \in Pick(there) : \E x \in Pick(Names) : \E v \in Pick(Values) :
       /\ IF ex[EnvOf(s)][x] # None
          THEN ex' = [ex EXCEPT ![EnvOf(s)][x] = v] /\ loc' = [loc EXCEPT ![s][x] = None]
          ELSE loc' = [loc EXCEPT ![s][x] = v] /\ ex' = ex
       /\ UNCHANGED <<glob, there, ran, cwd, stk, nt, at>>
       /\ Step([t |-> "assign", s |-> s, x |-> x, v |-> v])

Append2 ==      \* x += v
  /\ More
  /\ \E s \in Pick(there) : \E x \in Pick(Names) : \E v \in Pick(Values) :
       /\ IsValue(s, x)
       /\ LET new == Means(s, x) \o "+" \o v IN
          /\ IF ex[EnvOf(s)][x] # None
             THEN ex' = [ex EXCEPT ![EnvOf(s)][x] = new] /\ loc' = [loc EXCEPT ![s][x] = None]
             ELSE loc' = [loc EXCEPT ![s][x] = new] /\ ex' = ex
       /\ UNCHANGED <<glob, there, ran, cwd, stk, nt, at>>
       /\ Step([t |-> "append", s |-> s, x |-> x, v |-> v])

Delete ==
  /\ More
  /\ \E s \in Pick(there) : \E x \in Pick(Names) :
       /\ loc[s][x] # None
       /\ loc' = [loc EXCEPT ![s][x] = None]
       /\ UNCHANGED <<ex, glob, there, ran, cwd, stk, nt, at>>
       /\ Step([t |-> "delete", s |-> s, x |-> x])

Export ==
  /\ More
  /\ \E s \in Pick(there) : \E x \in Pick(Names) : \E v \in Pick(Values \cup {None}) :
       /\ ex' = [ex EXCEPT ![EnvOf(s)][x] = v]
       /\ UNCHANGED <<loc, glob, there, ran, cwd, stk, nt, at>>
       /\ Step([t |-> "export", s |-> s, x |-> x, v |-> v])

SetGlobal ==
  /\ More
  /\ \E x \in Pick(Names) : \E v \in Pick(Values \cup {None}) :
       /\ glob' = [glob EXCEPT ![x] = v]
       /\ UNCHANGED <<loc, ex, there, ran, cwd, stk, nt, at>>
       /\ Step([t |-> "global", x |-> x, v |-> v])

(* its code exports y and assigns x: x, y and V are then what Means says.   *)
(* When it fails in between that is reported, and what it did stays.  What  *)
(* is not found is not imported, and can be later.                          *)
Import ==
  /\ More
  /\ \E m \in Pick(Modules) : \E bad \in Pick({FALSE, TRUE}) :
       LET new == m \notin there
           fails == bad /\ new /\ Found(m) # None
           ok == ~new \/ Found(m) # None IN
       /\ IF ~new \/ ~ok THEN UNCHANGED <<loc, ex, there, ran, cwd>>
          ELSE LET e1 == [ex[EnvOf("sh")] EXCEPT !["y"] = "by-" \o m \o Found(m)]
                   out == fails \/ e1["x"] # None IN
               /\ there' = there \cup {m}
               /\ ran' = [ran EXCEPT ![m] = @ + 1]
               /\ ex' = [ex EXCEPT ![m] = IF fails \/ e1["x"] = None THEN e1 ELSE [e1 EXCEPT !["x"] = "set-" \o m \o Found(m)]]
               /\ loc' = [loc EXCEPT ![m] = IF out THEN @ ELSE [@ EXCEPT !["x"] = "set-" \o m \o Found(m)]]
               /\ cwd' = [cwd EXCEPT ![m] = cwd[EnvOf("sh")]]
       /\ UNCHANGED <<glob, stk, nt, at>>
       /\ Step([t |-> "import", m |-> m, new |-> new, ok |-> ok, bad |-> fails, from |-> IF new THEN Found(m) ELSE None])

(* the file of a module comes and goes; that of one imported does not matter *)
File ==
  /\ More
  /\ \E m \in Pick(Modules) : \E p \in Pick(Places) :
       /\ at' = [at EXCEPT ![m] = IF p \in @ THEN @ \ {p} ELSE @ \cup {p}]
       /\ UNCHANGED <<loc, ex, glob, there, ran, cwd, stk, nt>>
       /\ Step([t |-> "file", m |-> m, p |-> p, there |-> (p \in at'[m])])

Cd ==
  /\ More
  /\ \E s \in Pick(there) : \E d \in Pick({"top", "sub", "other"}) :
       /\ cwd' = [cwd EXCEPT ![EnvOf(s)] = d]
       /\ UNCHANGED <<loc, ex, glob, there, ran, stk, nt, at>>
       /\ Step([t |-> "cd", s |-> s, d |-> d])

(* another environment, made from the one there is: `with temporary_env()` *)
(* or `env = ...`.  What was assigned in the shell stays.                  *)
Fresh(w) ==
  /\ nt' = nt + 1
  /\ ex' = [ex EXCEPT ![Temp(nt + 1)] = ex[EnvOf("sh")]]
  /\ \E d \in Pick({"-", "sub", "other"}) :
       /\ cwd' = [cwd EXCEPT ![Temp(nt + 1)] = IF d = "-" THEN cwd[EnvOf("sh")] ELSE d]
       /\ UNCHANGED <<loc, glob, there, ran, at>>
       /\ Step([t |-> w, d |-> d])
Enter == More /\ nt < Temps /\ Len(stk) < 3 /\ stk' = Append(stk, Temp(nt + 1)) /\ Fresh("enter")
NewEnv == More /\ nt < Temps /\ stk' = [stk EXCEPT ![Len(stk)] = Temp(nt + 1)] /\ Fresh("newenv")
Leave ==
  /\ More /\ Len(stk) > 1
  /\ \E why \in Pick({"end", "raise"}) :
       /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
       /\ UNCHANGED <<loc, ex, glob, there, ran, cwd, nt, at>>
       /\ Step([t |-> "leave", why |-> why])

(* what everything means now *)
Look ==
  /\ More
  /\ \E s \in Pick(there) :
       /\ UNCHANGED <<loc, ex, glob, there, ran, cwd, stk, nt, at>>
       /\ Step([t |-> "look", s |-> s, m |-> [x \in Names |-> Means(s, x)], ex |-> ex[EnvOf(s)], cwd |-> cwd[EnvOf(s)], ran |-> ran, e |-> [x \in Names |-> Expands(s, x)]])

Next == \/ File \/ Import \/ Assign \/ Append2 \/ Delete \/ Export \/ SetGlobal \/ Import \/ Cd \/ Enter \/ NewEnv \/ Leave
        \/ Look \/ Look \/ Look \/ Look

---------------------------------------------------------------------------
(* a value assigned to a name is what the name then means *)
ReadBack == [][\A s \in Scopes, x \in Names : loc'[s][x] # loc[s][x] /\ loc'[s][x] # None => Means(s, x)' = loc'[s][x]]_vars
(* nothing is exported but what was *)
NoMore == [][(\E e \in Envs, x \in Names : ex[e][x] = None /\ ex'[e][x] # None) =>
              (\A e \in Envs, f \in Envs, x, y \in Names : (ex'[e][x] # ex[e][x] /\ ex'[f][y] # ex[f][y]) => e = f)]_vars
(* steps in one scope change nothing of another, but for those sharing its environment *)
Apart == [][\A s, t \in Scopes : (EnvOf(s) # EnvOf(t) /\ loc'[s] # loc[s]) => (loc'[t] = loc[t] /\ ex'[EnvOf(t)] = ex[EnvOf(t)] /\ cwd'[EnvOf(t)] = cwd[EnvOf(t)])]_vars
RunOnce == \A m \in Modules : ran[m] = IF m \in there THEN 1 ELSE 0
(* what is imported was found first *)
FoundFirst == [][\A m \in Modules : m \in there' \ there => ~\E q \in at[m] : \E i, j \in 1..3 : i < j /\ Order[i] = q /\ Order[j] = Found(m)]_vars
Bound == n <= Steps

Emit == (Rec /\ n = Steps) => PrintT("@T " \o ToJson([at |-> at0, steps |-> h]))
=============================================================================
