----------------------------- MODULE SioSlice -----------------------------
(***************************************************************************)
(* What an owned subslice shows.  Its meaning is a sequence (the visible   *)
(* content) that knows nothing of what surrounds it.  Ends that are beyond *)
(* everything are written as negative numbers.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b

\* Shows its content; shows nothing (an empty content or none at all); not settled.
Shows(v) == [k |-> "shows", vis |-> v]
Nothing == [k |-> "nothing"]
Loose == [k |-> "loose"]

Boundary(bytes, i) == i = Len(bytes) \/ i = 0 \/ ~(bytes[i + 1] >= 128 /\ bytes[i + 1] < 192)

\* The part [a, b) of a content, b clipped
Part(str, v, a, b) ==
    LET e == IF b < 0 THEN Len(v) ELSE Min(b, Len(v)) IN
    IF a < 0 \/ a > e THEN Nothing
    ELSE IF str /\ ~(Boundary(v, a) /\ Boundary(v, e)) THEN Loose
    ELSE Shows(SubSeq(v, a + 1, e))

Sub(str, s, a, b) == IF s.k = "shows" THEN Part(str, s.vis, a, b) ELSE s

Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Mut(str, s) ==
    IF s.k = "shows" THEN Shows([i \in 1..Len(s.vis) |-> IF str THEN Upper(s.vis[i]) ELSE (s.vis[i] + 1) % 256]) ELSE s

\* Formatting
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
RECURSIVE List(_, _)
List(v, i) == IF i > Len(v) THEN <<>> ELSE (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o Dec(v[i]) \o List(v, i + 1)
Padding(k, c) == [i \in 1..(IF k > 0 THEN k ELSE 0) |-> c]
\* each number three wide
RECURSIVE Wide(_, _)
Wide(v, i) ==
    IF i > Len(v) THEN <<>>
    ELSE (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o Padding(3 - Len(Dec(v[i])), 32) \o Dec(v[i]) \o Wide(v, i + 1)
Starts(v) == {i \in 1..Len(v) : ~(v[i] >= 128 /\ v[i] < 192)}
\* the first two characters
Short(v) ==
    IF Cardinality(Starts(v)) <= 2 THEN v
    ELSE SubSeq(v, 1, (CHOOSE i \in Starts(v) : Cardinality({j \in Starts(v) : j <= i}) = 3) - 1)
\* With flags: a text five wide, filled up with asterisks, and its beginning; numbers three wide
Flagged(str, v) ==
    IF str THEN Padding(5 - Cardinality(Starts(v)), 42) \o v \o <<124>> \o Short(v)
    ELSE <<91>> \o Wide(v, 1) \o <<93>>
RECURSIVE Esc(_, _)
Esc(v, i) ==
    IF i > Len(v) THEN <<>>
    ELSE (CASE v[i] = 34 -> <<92, 34>> [] v[i] = 92 -> <<92, 92>> [] v[i] = 10 -> <<92, 110>> [] OTHER -> <<v[i]>>)
         \o Esc(v, i + 1)
DebugOf(str, v) == IF str THEN <<34>> \o Esc(v, 1) \o <<34>> ELSE <<91>> \o List(v, 1) \o <<93>>

\* How the code may look
Agrees(str, s, o) ==
    CASE s.k = "loose" -> TRUE
      [] s.k = "nothing" -> o.r = "panic" \/ o.deref = <<>>
      [] OTHER -> /\ o.r = "ok" /\ o.deref = s.vis /\ o.eq
                  /\ o.dbg = DebugOf(str, s.vis)
                  /\ str => o.disp = s.vis
                  /\ o.flags = Flagged(str, s.vis)
=============================================================================
