----------------------------- MODULE SioTextMC -----------------------------
(***************************************************************************)
(* The grammar itself: every text over a small alphabet, one character at  *)
(* a time (SCEN = texts), and every packet over small sets of parts        *)
(* (SCEN = packets).                                                       *)
(***************************************************************************)
EXTENDS SioText, TLC, IOUtils
VARIABLE t
Scen == IOEnv.SCEN
Greedy == IOEnv.MUT = "Greedy"
MaxLen == atoi(IOEnv.DEPTH)

Alphabet == {48, 49, 50, 53, 54, Minus, Slash, Comma, LBrack, RBrack, Quote, 97}

Kinds == {"event", "ack"}
Nss == {Root, <<47, 97>>, <<47, 97, 47, 50, 45>>, <<47, 91, 34>>}
Ids == {<<>>, <<48>>, <<49, 48>>, Max64}
Texts == {<<34, 97, 34>>, <<34, 44, 91, 34>>, <<49>>, <<91, 49, 44, 50, 93>>, <<123, 34, 97, 34, 58, 91, 93, 125>>}
Argss == {<<>>} \cup {<<x>> : x \in Texts} \cup {<<x, y>> : x \in Texts, y \in Texts}
Legal(k, id, as) == (k = "event" => as # <<>>) /\ (k = "ack" => id # <<>>)
Packets == {[k |-> k, bin |-> b, n |-> n, ns |-> ns, id |-> id, as |-> as] :
              k \in Kinds, b \in BOOLEAN, n \in {0, 1, 12}, ns \in Nss, id \in Ids, as \in Argss}

Init == t = <<>>
Next ==
    \/ /\ Scen = "texts" /\ Len(t) < MaxLen
       /\ \E c \in Alphabet : t' = Append(t, c)
    \/ /\ Scen = "packets" /\ t = <<>>
       /\ \E p \in Packets : Legal(p.k, p.id, p.as) /\ t' = <<p>>
Spec == Init /\ [][Next]_t

\* What is written is read back as the same packet.
RoundTrip ==
    (Scen = "packets" /\ t # <<>>) =>
       LET p == t[1]
           x == DecodeWith(Encode(p.k, p.bin, p.n, p.ns, p.id, p.as), Greedy) IN
       /\ x.r = "pkt" /\ x.kind = p.k /\ x.ns = p.ns /\ x.id = p.id /\ x.args = p.as
       /\ x.need = (IF p.bin THEN Digits(p.n) ELSE <<48>>)

\* What is read is, written again, the text up to blanks: nothing of it was ignored.
NothingIgnored ==
    (Scen = "texts") =>
       LET x == DecodeWith(t, Greedy) IN
       x.r = "pkt" =>
         LET bin == IsBinary(t[1])
             head == <<t[1]>> \o (IF bin THEN Append(x.need, Minus) ELSE <<>>)
                     \o (IF x.ns = Root THEN <<>> ELSE Append(x.ns, Comma)) \o x.id IN
         /\ SubSeq(t, 1, Len(head)) = head
         /\ x.args # <<>> => SubSeq(t, Len(head) + 1, Len(t)) = <<LBrack>> \o Join(x.args) \o <<RBrack>>
         /\ \A j \in 1..Len(x.args) : Json(x.args[j]).ok
         /\ ~(\E i \in 1..Len(x.ns) : x.ns[i] = Comma)

\* An outcome for every text.
Total == (Scen = "texts") => DecodeWith(t, Greedy).r \in {"err", "any", "pkt"}
=============================================================================
