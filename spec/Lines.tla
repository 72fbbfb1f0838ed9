------------------------------- MODULE Lines --------------------------------
(***************************************************************************)
(* One stream of text from a writer to a reader: how it is cut into chunks *)
(* when written, when the reader asks for more, and what it then gets.     *)
(* Symbols: x some text, n a newline, r a carriage return or another       *)
(* character some call a line end, B a block larger or smaller than        *)
(* buffers, u and v the two halves of one character (v only after u),      *)
(* i what is not valid UTF-8, z a zero byte.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Configs,     \* sequence of [w |-> writer, r |-> reader]
          MaxLen,      \* number of symbols in the stream
          MaxChunk,
          Rec, MinLen

VARIABLES c, avail, closed, half, asked, ended, n, text, got, h
vars == <<c, avail, closed, half, asked, ended, n, text, got, h>>

Wr == Configs[c].w          \* "cmd": chunks as they are; "fn": each chunk is a line
Rd == Configs[c].r          \* "iter", "fn": lines when asked for; "bytes": whatever there is; "sync": lines, after the end
LineReader == Rd # "bytes"

Alphabet == {"x", "n", "r", "B", "u", "z"} \cup (IF Rd = "bytes" THEN {"i"} ELSE {})

(* chunks: sequences of symbols where halves are in order *)
RECURSIVE ChunksFrom(_, _)
ChunksFrom(hf, k) ==
  IF k = 0 THEN {<<>>}
  ELSE {<<>>} \cup
       UNION {{<<s>> \o t : t \in ChunksFrom(s = "u", k - 1)} : s \in IF hf THEN {"v"} ELSE Alphabet}

Init == /\ c \in 1..Len(Configs)
        /\ avail = <<>> /\ closed = FALSE /\ half = FALSE /\ asked = FALSE /\ ended = FALSE
        /\ n = 0 /\ text = <<>> /\ got = <<>> /\ h = <<>>

Obs == [asked |-> asked', ended |-> ended']
Log(a) == h' = IF Rec THEN Append(h, [a |-> a, o |-> Obs]) ELSE h

Last(s) == s[Len(s)]
HasLine(s) == \E k \in DOMAIN s : s[k] = "n"
FirstN(s) == CHOOSE k \in DOMAIN s : s[k] = "n" /\ \A j \in 1..(k - 1) : s[j] # "n"

Pick(S) == IF Rec THEN {RandomElement(S)} ELSE S

Write ==
  /\ ~closed /\ (n < MaxLen \/ half)
  /\ \E k \in Pick(1..MaxChunk) : \E ch \in Pick(ChunksFrom(half, k)) :
       /\ Len(ch) > 0 \/ Wr = "fn"
       /\ n + Len(ch) <= MaxLen \/ (half /\ ch = <<"v">>)
       /\ Wr = "fn" => (Len(ch) > 0 => Last(ch) # "u")    \* a value is whole
       /\ LET full == IF Wr = "fn" THEN ch \o <<"n">> ELSE ch
          IN /\ avail' = avail \o full
             /\ text' = text \o full
             /\ n' = n + Len(full)
             /\ half' = (Len(full) > 0 /\ Last(full) = "u")
       /\ UNCHANGED <<c, closed, asked, ended, got>>
       /\ Log([t |-> "write", ch |-> ch])

Close ==
  /\ ~closed /\ ~half
  /\ Rec => (n >= MinLen \/ RandomElement(1..4) = 1)
  /\ closed' = TRUE
  /\ UNCHANGED <<c, avail, half, asked, ended, n, text, got>>
  /\ Log([t |-> "close"])

Ask ==
  /\ ~asked /\ ~ended
  /\ Rd = "sync" => closed
  /\ asked' = TRUE
  /\ UNCHANGED <<c, avail, closed, half, ended, n, text, got>>
  /\ Log([t |-> "ask"])

(* whoever asked stops waiting for it; what there is stays to be had *)
GiveUp ==
  /\ asked /\ Rd \in {"iter", "bytes"}
  /\ Rec => RandomElement(1..4) = 1
  /\ asked' = FALSE
  /\ UNCHANGED <<c, avail, closed, half, ended, n, text, got>>
  /\ Log([t |-> "giveup"])

Got ==
  /\ asked /\ LineReader
  /\ \/ /\ HasLine(avail)
        /\ LET k == FirstN(avail)
           IN /\ got' = Append(got, SubSeq(avail, 1, k - 1))
              /\ avail' = SubSeq(avail, k + 1, Len(avail))
     \/ /\ ~HasLine(avail) /\ closed /\ Len(avail) > 0
        /\ got' = Append(got, avail)
        /\ avail' = <<>>
  /\ asked' = FALSE
  /\ UNCHANGED <<c, closed, half, ended, n, text>>
  /\ Log([t |-> "got", line |-> Last(got')])

(* a reader of bytes reads as long as there is something *)
GotBytes ==
  /\ asked /\ ~LineReader /\ Len(avail) > 0
  /\ got' = Append(got, avail)
  /\ avail' = <<>>
  /\ UNCHANGED <<c, closed, half, asked, ended, n, text>>
  /\ Log([t |-> "bytes", data |-> avail])

End ==
  /\ asked /\ closed /\ Len(avail) = 0
  /\ asked' = FALSE /\ ended' = TRUE
  /\ UNCHANGED <<c, avail, closed, half, n, text, got>>
  /\ Log([t |-> "end"])

(* What is there is handed over at once; nothing else happens before that. *)
Ready == asked /\ (closed \/ (Len(avail) > 0 /\ (HasLine(avail) \/ ~LineReader)))

Next == \/ ~Ready /\ Write
        \/ ~Ready /\ Close
        \/ Ask
        \/ GiveUp
        \/ Got
        \/ GotBytes
        \/ End
NextD == Next \/ (ended /\ UNCHANGED vars)

---------------------------------------------------------------------------
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o (IF LineReader THEN <<"n">> ELSE <<>>) \o Joined(Tail(s))

(* Everything arrives, in order, exactly once; the last line may lack its newline. *)
Complete ==
  LET j == Joined(got) \o avail
  IN j = text \/ (closed /\ LineReader /\ avail = <<>> /\ text # <<>> /\ Last(text) # "n" /\ j = text \o <<"n">>)
LinesAreLines == LineReader => \A k \in DOMAIN got : ~HasLine(got[k])
AllAtEnd == ended => avail = <<>> /\ closed

Emit == (Rec /\ ended) => PrintT("@T " \o ToJson([c |-> Configs[c], steps |-> h]))
=============================================================================
