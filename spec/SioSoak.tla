------------------------------ MODULE SioSoak ------------------------------
(***************************************************************************)
(* Long sessions, in rounds.  In each the application emits, then messages *)
(* of the server arrive, then the connection runs until it is idle.  With  *)
(* that schedule SioClient is deterministic: the emissions were queued     *)
(* first, answers follow in the order of what they answer, every callback  *)
(* runs when its message is read.  That allows checking sessions of many   *)
(* thousand messages: that nothing depends on how many came before.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* What the client writes in a round
Answers(ins) ==
    LET q == SelectSeq(ins, LAMBDA m : m.t = "ping" \/ (m.t = "ev" /\ m.id # "-")) IN
    [i \in 1..Len(q) |-> [t |-> IF q[i].t = "ping" THEN "pong" ELSE "rep", ns |-> q[i].ns, id |-> q[i].id, k |-> q[i].k]]

WireRight(r) ==
    LET ans == Answers(r.ins)
        n == Len(r.emits) IN
    /\ Len(r.wire) = n + Len(ans)
    /\ \A i \in 1..n :
          /\ r.wire[i].t = "ev" /\ r.wire[i].ns = r.emits[i].ns /\ r.wire[i].k = r.emits[i].k
          /\ (r.wire[i].id # "-") = r.emits[i].cb
    /\ \A i \in 1..Len(ans) : r.wire[n + i] = ans[i]

\* Callbacks run
Heard(ins) == SelectSeq(ins, LAMBDA m : m.t # "ping")
CallsRight(r) ==
    LET h == Heard(r.ins) IN
    /\ Len(r.calls) = Len(h)
    /\ \A i \in 1..Len(h) :
          IF h[i].t = "ev" THEN r.calls[i] = [t |-> "ev", h |-> h[i].ns, k |-> h[i].k, ack |-> h[i].id # "-"]
          ELSE r.calls[i] = [t |-> "ak", h |-> h[i].of, k |-> h[i].k, ack |-> FALSE]

Round(r) == WireRight(r) /\ CallsRight(r) /\ r.task = "run"

\* No id is given out twice
Distinct(ids) == Cardinality({ids[i] : i \in 1..Len(ids)}) = Len(ids)
=============================================================================
