-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* What argument vector a command gets.  Arguments are added one by one;   *)
(* each contributes what it expands to: variables (once), then a leading   *)
(* ~, then, if there are pattern characters, the matching paths, relative  *)
(* to the directory of the environment - or the argument itself if nothing *)
(* matches.  Strings are sequences of characters.  Files come and go       *)
(* between runs: only what is there when the command is run counts.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Tops,         \* names there can be in the directory of the environment (files)
          Dirs,         \* directories there can be
          Subs,         \* names there can be in those
          Vars,         \* variables: a function from names to values
          Home, Here,   \* paths, as opaque characters
          Elems,        \* what patterns and strings are made of: sequences of characters
          Heads,        \* what they start with
          MaxArgs, MaxLen, MaxRuns, Rec

VARIABLES top, sub,     \* files there are: names; pairs of directory and name
          given,        \* arguments written
          runs, h
vars == <<top, sub, given, runs, h>>

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S
Log(a) == h' = IF Rec THEN Append(h, a) ELSE h

---------------------------------------------------------------------------
(* Variables: %(name)s is replaced, %% is %; elements are atoms            *)
Lit(e) == e.k = "lit"
RECURSIVE Subst(_)
Subst(es) == IF es = <<>> THEN <<>>
             ELSE LET e == Head(es) IN
                  (CASE e.k = "var" -> Vars[e.v]
                     [] e.k = "pct" -> <<"%">>
                     [] OTHER -> e.c) \o Subst(Tail(es))

(* a leading ~ alone or before a /                                          *)
Tilde(s) == IF s # <<>> /\ s[1] = "~" /\ (Len(s) = 1 \/ s[2] = "/") THEN <<Home>> \o Tail(s) ELSE s

Magic(s) == \E i \in DOMAIN s : s[i] \in {"*", "?", "["}

---------------------------------------------------------------------------
(* Patterns, as in fnmatch: * ? [x] [!x] [x-y]; an unclosed [ is itself     *)
Code(c) == CASE c = "!" -> 33 [] c = "-" -> 45 [] c = "." -> 46 [] c = "A" -> 65 [] c = "B" -> 66 [] c = "[" -> 91 [] c = "]" -> 93 [] c = "a" -> 97 [] c = "b" -> 98
             [] c = "c" -> 99 [] c = "d" -> 100 [] OTHER -> 1000
(* index of the closing bracket of a class starting at i, 0: none *)
Close(p, i) ==
  LET j == IF i + 1 <= Len(p) /\ p[i + 1] = "!" THEN i + 2 ELSE i + 1
      k == IF j <= Len(p) /\ p[j] = "]" THEN j + 1 ELSE j
      S == {m \in k..Len(p) : p[m] = "]"}
  IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : m <= x
RECURSIVE InSet(_, _)
InSet(c, body) ==
  IF body = <<>> THEN FALSE
  ELSE IF Len(body) >= 3 /\ body[2] = "-"
       THEN (Code(body[1]) <= Code(c) /\ Code(c) <= Code(body[3])) \/ InSet(c, SubSeq(body, 4, Len(body)))
       ELSE body[1] = c \/ InSet(c, Tail(body))
ClassMatch(c, p, i, j) ==
  IF p[i + 1] = "!" THEN ~InSet(c, SubSeq(p, i + 2, j - 1)) ELSE InSet(c, SubSeq(p, i + 1, j - 1))
RECURSIVE Fn(_, _)
Fn(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF p[1] = "*" THEN Fn(Tail(p), s) \/ (s # <<>> /\ Fn(p, Tail(s)))
  ELSE IF s = <<>> THEN FALSE
  ELSE IF p[1] = "?" THEN Fn(Tail(p), Tail(s))
  ELSE IF p[1] = "[" /\ Close(p, 1) > 0
       THEN ClassMatch(s[1], p, 1, Close(p, 1)) /\ Fn(SubSeq(p, Close(p, 1) + 1, Len(p)), Tail(s))
  ELSE p[1] = s[1] /\ Fn(Tail(p), Tail(s))
(* what starts with a dot is hidden from patterns that do not *)
SegMatch(p, s) == IF ~Magic(p) THEN p = s
                  ELSE Fn(p, s) /\ (s[1] = "." => p[1] = ".")

RECURSIVE Split(_)
Split(s) == IF \A i \in DOMAIN s : s[i] # "/" THEN <<s>>
            ELSE LET i == CHOOSE m \in DOMAIN s : s[m] = "/" /\ \A x \in 1..(m - 1) : s[x] # "/"
                 IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)))
NoDots(segs) == SelectSeq(segs, LAMBDA x : x # <<>> /\ x # <<".">>)

(* everything there is, relative to the directory of the environment *)
All == {<<x>> : x \in top \cup Dirs} \cup {<<x[1], x[2]>> : x \in sub}
Join(path) == FoldLeft(LAMBDA acc, x : IF acc = <<>> THEN x ELSE acc \o <<"/">> \o x, <<>>, path)
Matches(segs) == {q \in All : Len(q) = Len(segs) /\ \A i \in DOMAIN q : SegMatch(segs[i], q[i])}

(* the set of strings it becomes, in any order *)
Glob(s) ==
  IF ~Magic(s) THEN {s}
  ELSE LET here == s # <<>> /\ s[1] = Here        \* written with an absolute path
           abs == s # <<>> /\ s[1] \in {"/", Home}
           segs == NoDots(Split(IF here THEN Tail(s) ELSE s))
           m == IF abs THEN {} ELSE Matches(segs)
       IN IF m = {} THEN {s} ELSE {<<".", "/">> \o Join(q) : q \in m}
Expand(es) == Glob(Tilde(Subst(es)))

Raw(es) == LET RECURSIVE R(_)
               R(x) == IF x = <<>> THEN <<>> ELSE (CASE Head(x).k = "var" -> <<"%", "(">> \o <<Head(x).v>> \o <<")", "s">>
                                                     [] Head(x).k = "pct" -> <<"%", "%">>
                                                     [] OTHER -> Head(x).c) \o R(Tail(x))
           IN R(es)

(* options with values that are not text *)
Values == ("int" :> <<"7">>) @@ ("zero" :> <<"0">>) @@ ("one" :> <<"1">>) @@ ("float" :> <<"0", ".", "0">>) @@ ("none" :> <<"N", "o", "n", "e">>)
       @@ ("minus" :> <<"-", "1">>) @@ ("ebytes" :> <<>>) @@ ("path" :> <<"/", "a">>) @@ ("num" :> <<"T", "r", "u", "e">>)

(* what an argument contributes: a set of alternatives orders of which are all right *)
Contribution(a) ==
  CASE a.k = "str" -> Expand(a.e)
    [] a.k \in {"raw", "bytes", "path"} -> {Raw(a.e)}
    [] a.k = "attr" -> {Raw(a.e)}
    [] a.k = "neg" -> {<<"-">> \o Raw(a.e)}
    [] a.k = "kw" -> (CASE a.v = "true" -> {<<"-", "-">> \o a.n}
                        [] a.v = "false" -> {}
                        [] a.v \in DOMAIN Values -> {<<"-", "-">> \o a.n \o <<"=">> \o Values[a.v]}
                        [] a.v = "str" -> {<<"-", "-">> \o a.n \o <<"=">> \o x : x \in Expand(a.e)}
                        [] OTHER -> {<<"-", "-">> \o a.n \o <<"=">> \o Raw(a.e)})

---------------------------------------------------------------------------
Init == /\ top = {} /\ sub = {} /\ given = <<>> /\ runs = 0 /\ h = <<>>

Files ==
  /\ Rec => (given = <<>> /\ runs = 0) \/ RandomElement(1..3) = 1
  /\ \E x \in Pick(Tops) : \E d \in Pick(Dirs) : \E y \in Pick(Subs) : \E how \in Pick({"both", "top", "sub", "notop", "nosub"}) :
       /\ top' = IF how \in {"both", "top"} THEN top \cup {x} ELSE IF how = "notop" THEN top \ {x} ELSE top
       /\ sub' = IF how \in {"both", "sub"} THEN sub \cup {<<d, y>>} ELSE IF how = "nosub" THEN sub \ {<<d, y>>} ELSE sub
       /\ <<top', sub'>> # <<top, sub>>
       /\ UNCHANGED <<given, runs>>
       /\ Log([t |-> "files", top |-> top', sub |-> sub'])

RECURSIVE Some(_)
Some(n) == IF n = 0 THEN {<<>>} ELSE {<<e>> \o r : e \in Pick(Elems), r \in Some(n - 1)}
Strings(dummy) == IF Rec THEN LET k == RandomElement(0..MaxLen) hd == RandomElement(Heads) body == CHOOSE b \in Some(k) : TRUE IN {<<hd>> \o body}
           ELSE {<<hd>> \o b : hd \in Heads, b \in UNION {Some(k) : k \in 0..MaxLen}}
NoVars(es) == \A i \in DOMAIN es : es[i].k = "lit"
Word(es) == NoVars(es) /\ LET s == Raw(es) IN s # <<>> /\ \A i \in DOMAIN s : s[i] \in {"a", "b", "c", "d", "A", "B"}

Slash(es) == Raw(es) # <<>> /\ Raw(es)[Len(Raw(es))] = "/"     \* not as the last of a pattern
KwNames == {<<"x">>, <<"l", "o", "n", "g">>, <<"t", "w", "o", "-", "w">>, <<"a", "-", "b", "-", "c">>}
Add ==
  /\ Len(given) < MaxArgs
  /\ Rec => top # {} /\ sub # {}
  /\ \E es \in Strings(0) : \E k \in Pick({"str", "raw", "bytes", "path", "attr", "neg", "kw"}) : \E n \in Pick(KwNames) : \E v \in (IF Rec THEN {IF RandomElement(1..3) = 1 THEN RandomElement(DOMAIN Values) ELSE RandomElement({"true", "false", "str", "raw", "bytes"})}
                                                                                                                                                                  ELSE {"true", "false", "int", "str", "raw", "bytes"}) :
       LET kk == IF k \in {"attr", "neg"} /\ ~Word(es) THEN "str"
                 ELSE IF k = "path" /\ \E i \in DOMAIN Raw(es) : Raw(es)[i] \in {"/", "."} THEN "raw"      \* paths normalise those
                 ELSE IF k = "path" /\ Raw(es) = <<>> THEN "raw"
                 ELSE IF k = "kw" /\ v = "str" /\ Slash(es) THEN "raw"
                 ELSE IF k = "str" /\ Slash(es) THEN "raw"
                 ELSE k
           a == [k |-> kk, e |-> es, n |-> n, v |-> v]
       IN /\ given' = Append(given, a)
          /\ Log([t |-> "add", a |-> [k |-> kk, s |-> Raw(es), n |-> n, v |-> v]])
  /\ UNCHANGED <<top, sub, runs>>

Expected == [i \in DOMAIN given |-> Contribution(given[i])]
Run ==
  /\ runs < MaxRuns /\ given # <<>>
  /\ Rec => RandomElement(1..3) = 1 \/ Len(given) = MaxArgs
  /\ runs' = runs + 1
  /\ UNCHANGED <<top, sub, given>>
  /\ Log([t |-> "run", w |-> Expected])

Next == \/ Files \/ Add \/ Run

---------------------------------------------------------------------------
(* each argument contributes at least one (but for options that are off),   *)
(* and nothing depends on the others                                        *)
NoneDropped == \A i \in DOMAIN given : Contribution(given[i]) = {} => given[i].k = "kw" /\ given[i].v = "false"
(* what a pattern is replaced by is there *)
OnlyFiles == \A i \in DOMAIN given : given[i].k = "str" =>
               LET c == Expand(given[i].e) IN Cardinality(c) > 1 => \A x \in c : \E q \in All : x = <<".", "/">> \o Join(q)
RawKept == \A i \in DOMAIN given : given[i].k \in {"raw", "bytes", "path", "attr"} => Contribution(given[i]) = {Raw(given[i].e)}

Bound == TRUE
Emit == (Rec /\ runs = MaxRuns /\ h[Len(h)].t = "run") => PrintT("@T " \o ToJson([steps |-> h]))
=============================================================================
