------------------------------ MODULE SioText ------------------------------
(***************************************************************************)
(* The grammar of Socket.IO text packets:                                  *)
(*                                                                         *)
(*   <type> [<attachments> '-'] ['/' <namespace> ','] [<id>] [<json array>]*)
(*                                                                         *)
(* Decode(t) says what a text denotes, Encode(p) writes a packet.          *)
(***************************************************************************)
EXTENDS SioJson, Integers, FiniteSets

Err == [r |-> "err"]
\* Not settled by the grammar: anything but a panic
Unsettled == [r |-> "any"]

Types == {48, 49, 50, 51, 53, 54}
KindOf(c) == CASE c = 48 -> "connect" [] c = 49 -> "disconnect" [] c \in {50, 53} -> "event" [] c \in {51, 54} -> "ack"
IsBinary(c) == c \in {53, 54}

Root == <<Slash>>

\* The first comma from i on, or 0
RECURSIVE FindComma(_, _)
FindComma(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = Comma THEN i ELSE FindComma(t, i + 1)

\* Deviation, for checking that the specification is sensitive to it: namespaces
\* that extend to the last comma before the arguments.
RECURSIVE FindLastComma(_, _)
FindLastComma(t, i) == IF i < 1 THEN 0 ELSE IF t[i] = Comma THEN i ELSE FindLastComma(t, i - 1)

DecodeWith(t, greedy) ==
    IF t = <<>> \/ t[1] \notin Types THEN Err
    ELSE
    LET type == t[1]
        kind == KindOf(type)
        \* attachment count
        dEnd == SkipDigits(t, 2)
        hasCount == dEnd > 2 /\ At(t, dEnd) = Minus
        count == IF hasCount THEN SubSeq(t, 2, dEnd - 1) ELSE <<>>
        i1 == IF hasCount THEN dEnd + 1 ELSE 2
        \* namespace
        hasNs == At(t, i1) = Slash
        nsEnd == IF ~hasNs THEN 0 ELSE IF greedy THEN FindLastComma(t, Len(t)) ELSE FindComma(t, i1)
        i2 == IF hasNs THEN nsEnd + 1 ELSE i1
        ns == IF hasNs THEN SubSeq(t, i1, nsEnd - 1) ELSE Root
        \* id
        i3 == SkipDigits(t, i2)
        hasId == i3 > i2
        id == SubSeq(t, i2, i3 - 1)
        \* arguments
        hasArgs == i3 <= Len(t)
        els == IF hasArgs THEN Elements(t, i3) ELSE Got(<<>>, i3)
        args == IF els.ok THEN [j \in 1..Len(els.v) |-> SubSeq(t, els.v[j].from, els.v[j].to)] ELSE <<>>
    IN
    IF hasCount /\ ~(Canonical(count) /\ Fits64(count)) THEN Err
    ELSE IF hasNs /\ nsEnd = 0 THEN Err
    ELSE IF hasId /\ ~(Canonical(id) /\ Fits64(id)) THEN Err
    ELSE IF ~els.ok \/ els.i # Len(t) + 1 THEN Err
    ELSE IF hasNs /\ ns = Root THEN Unsettled           \* "/,": the root, written out
    ELSE IF IsBinary(type) # hasCount THEN Err
    ELSE IF type \in {48, 49} THEN
        IF hasId \/ args # <<>> THEN Err
        ELSE IF hasArgs THEN Unsettled                  \* "0[]"
        ELSE [r |-> "pkt", kind |-> kind, ns |-> ns, id |-> <<>>, args |-> <<>>, need |-> <<48>>]
    ELSE IF (kind = "event" /\ args = <<>>) \/ (kind = "ack" /\ ~hasId)
        THEN \* noticed at once, or when the attachments are complete
             [r |-> "err", need |-> IF hasCount THEN count ELSE <<48>>]
    ELSE [r |-> "pkt", kind |-> kind, ns |-> ns, id |-> id, args |-> args,
          need |-> IF hasCount THEN count ELSE <<48>>]

Decode(t) == DecodeWith(t, FALSE)

-----------------------------------------------------------------------------
(* Writing a packet.  `args` are JSON texts.                               *)

RECURSIVE Join(_)
Join(args) ==
    IF args = <<>> THEN <<>>
    ELSE IF Len(args) = 1 THEN args[1]
    ELSE args[1] \o <<Comma>> \o Join(Tail(args))

TypeOf(kind, bin) ==
    CASE kind = "connect" -> 48 [] kind = "disconnect" -> 49
      [] kind = "event" -> (IF bin THEN 53 ELSE 50)
      [] kind = "ack" -> (IF bin THEN 54 ELSE 51)

Encode(kind, bin, n, ns, id, args) ==
    <<TypeOf(kind, bin)>>
    \o (IF bin THEN Append(Digits(n), Minus) ELSE <<>>)
    \o (IF ns = Root THEN <<>> ELSE Append(ns, Comma))
    \o id
    \o (IF kind \in {"event", "ack"} THEN <<LBrack>> \o Join(args) \o <<RBrack>> ELSE <<>>)

-----------------------------------------------------------------------------
(* What the implementation did with a text                                 *)

\* Does outcome o (of the code) agree with x (of the grammar)?
SamePacket(x, o) ==
    /\ o.r = "pkt" /\ o.kind = x.kind /\ o.ns = x.ns /\ o.id = x.id
    /\ o.len = Len(x.args) /\ Len(o.args) = o.len
    /\ \A j \in 1..o.len : o.args[j] = x.args[j]

Agrees(x, o) ==
    /\ o.r # "panic"
    /\ CASE x.r = "any" -> TRUE
         [] x.r = "err" ->
              \/ o.r = "err"
              \/ o.r = "need" /\ "need" \in DOMAIN x /\ x.need = o.n /\ o.fin.r \in {"err", "-"}
                 /\ o.n # <<48>>
         [] x.r = "pkt" /\ x.need = <<48>> -> SamePacket(x, o)
         [] OTHER ->
              /\ o.r = "need" /\ o.n = x.need
              /\ o.fin.r # "-" => /\ SamePacket(x, o.fin)
                                  /\ o.short = "err" /\ o.long = "err" /\ o.text = "err"
=============================================================================
