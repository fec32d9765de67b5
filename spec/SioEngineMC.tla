---------------------------- MODULE SioEngineMC ----------------------------
(***************************************************************************)
(* The session discipline over all message sequences of a length.  MUT     *)
(* names decoders that break it.                                           *)
(***************************************************************************)
EXTENDS SioEngine, TLC, IOUtils
VARIABLES st, h
Mut == IOEnv.MUT
Depth == atoi(IOEnv.DEPTH)

Good == <<123>> \o <<34>> \o KSid \o <<34, 58, 34, 120, 34, 44, 34>> \o KTimeout \o <<34, 58, 49, 44, 34>> \o KInterval \o <<34, 58, 50, 125>>
Bodies == {<<>>, <<120>>, <<48>>, Good}
Msgs == {[t |-> "text", d |-> d] : d \in {<<>>} \cup {<<c>> \o b : c \in 47..53, b \in Bodies}}
        \cup {[t |-> "bin", d |-> d] : d \in {<<>>, <<4>>, <<4, 4>>, <<3, 4>>, <<52>>}}
        \cup {[t |-> t, d |-> d] : t \in {"ping", "pong", "close"}, d \in {<<>>, <<50>>}}

Dec(m) ==
    LET r == Decode(st, m) IN
    CASE Mut = "BadOpen" /\ st = "initial" /\ m.t = "text" /\ m.d # <<>> /\ m.d[1] = 48 /\ r.x.r = "err" -> Res("active", r.x)
      [] Mut = "BinEarly" /\ st = "initial" /\ m.t = "bin" /\ m.d # <<>> /\ m.d[1] = 4 -> Res(st, [r |-> "bin", d |-> Tail(m.d)])
      [] Mut = "Reopen" /\ st = "closed" /\ m.t = "text" /\ m.d # <<>> /\ m.d[1] = 48 -> Res("active", Open(Tail(m.d)))
      [] Mut = "CloseOnError" /\ r.x.r = "err" -> Res("closed", r.x)
      [] OTHER -> r

Init == st = "initial" /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E m \in Msgs : LET r == Dec(m) IN st' = r.st /\ h' = Append(h, [m |-> m, x |-> r.x])
Spec == Init /\ [][Next]_<<st, h>>

Is(r) == {i \in 1..Len(h) : h[i].x.r = r}
Accepted == {i \in 1..Len(h) : h[i].x.r # "err"}
\* Exactly one open, and it is the first thing accepted
OpenFirst == \A i \in Accepted : (h[i].x.r = "open") <=> (\A j \in Accepted : j >= i)
\* Nothing after a close
CloseLast == \A i \in Is("eclose"), j \in Accepted : j <= i
\* A refused message changes nothing: without the refused ones, the same packets
RECURSIVE Run(_, _, _)
Run(s, i, acc) == IF i > Len(h) THEN acc
                  ELSE IF i \notin Accepted THEN Run(s, i + 1, acc)
                  ELSE LET r == Decode(s, h[i].m) IN Run(r.st, i + 1, Append(acc, r.x))
RefusedIsSkipped ==
    LET xs == Run("initial", 1, <<>>)
        as == SelectSeq([i \in 1..Len(h) |-> h[i].x], LAMBDA x : x.r # "err") IN xs = as
\* and nothing is refused that the session allows
NotOverRefused == \A i \in 1..Len(h) :
    (h[i].x.r = "err" /\ h[i].m.t = "text" /\ h[i].m.d # <<>> /\ h[i].m.d[1] \in 49..52) =>
       (\A j \in Is("open") : j > i) \/ (\E j \in Is("eclose") : j < i)
\* Encoded packets are read back
ReadBack == (st = "active") =>
    \A b \in Bodies : /\ Decode(st, Encoded([t |-> "etext", d |-> b])).x = [r |-> "text", d |-> b]
                      /\ Decode(st, Encoded([t |-> "ebin", d |-> b])).x = [r |-> "bin", d |-> b]
                      /\ Decode(st, Encoded([t |-> "eping", d |-> b])).x.r = "eping"
                      /\ Decode(st, Encoded([t |-> "epong", d |-> b])).x.r = "epong"
=============================================================================
