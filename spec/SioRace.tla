------------------------------ MODULE SioRace ------------------------------
(***************************************************************************)
(* Histories of sessions whose parts run on threads of their own: two that *)
(* emit and register through one client, one with a clone of the public    *)
(* sender, the connection, and the server.  Which interleaving happened is *)
(* not known; what every interleaving of SioClient's steps has in common   *)
(* is that each party's history is kept by the others:                     *)
(*  - what is written is a merge of the emissions (in the order in which   *)
(*    the client made them), of the batches of the raw sender, and of the  *)
(*    answers to what was received; packets and batches are in one piece;  *)
(*  - callbacks run for exactly what was received, in its order, each for  *)
(*    its own ack, or the one registered at a moment between the sending   *)
(*    of the event and the call.                                           *)
(* A client that is dropped at some moment leaves prefixes of these, and   *)
(* begins no callback but the one that its event had already been given to.*)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Of(t, s) == SelectSeq(s, LAMBDA x : x.t = t)

\* What the client owes for what it received
Owed(ins) == SelectSeq(ins, LAMBDA m : m.t = "ping" \/ (m.t = "ev" /\ m.id # "-"))
Answer(m, w) == w.t = (IF m.t = "ping" THEN "pong" ELSE "rep") /\ w.ns = m.ns /\ w.id = m.id /\ w.k = m.k /\ w.n = m.of

Emission(s, w) == w.ns = s.ns /\ w.k = s.k /\ w.n = s.n /\ (w.id # "-") = s.cb

\* a's elements, in its order: all of them, or the first ones
Follows(all, a, b, Rel(_, _)) ==
    /\ IF all THEN Len(a) = Len(b) ELSE Len(a) >= Len(b)
    /\ \A i \in 1..Len(b) : Rel(a[i], b[i])

Known == {"ev", "raw", "rep", "pong", "close"}

Emissions(r, all) == Follows(all, r.sends, Of("ev", r.wire), Emission)
\* Once the client is dropped, pings are answered, but events no longer (they are numbered as they come)
Answers(r, all) ==
    LET said == SelectSeq(r.wire, LAMBDA w : w.t \in {"rep", "pong"})
        n == Len(Of("rep", said))
        owed == Owed(r.ins)
        events == Of("ev", owed)
        last == IF n = 0 THEN 0 ELSE IF n <= Len(events) THEN events[n].k ELSE -1 IN
    IF all THEN Follows(TRUE, owed, said, Answer)
    ELSE Follows(FALSE, SelectSeq(owed, LAMBDA m : m.t = "ping" \/ m.k <= last), said, Answer)

\* The index-th message of the k-th batch, of n: one after the other, with nothing in between
Batches(r, all) ==
    LET w == r.wire
        raws == Of("raw", w) IN
    /\ \A i \in 1..Len(w) : w[i].t = "raw" /\ w[i].ns > 0 =>
          i > 1 /\ w[i - 1].t = "raw" /\ w[i - 1].k = w[i].k /\ w[i - 1].ns = w[i].ns - 1
    /\ \A i \in 2..Len(raws) : raws[i].ns = 0 => raws[i - 1].k < raws[i].k /\ raws[i - 1].ns = raws[i - 1].n - 1
    /\ all => /\ {raws[i].k : i \in 1..Len(raws)} = {r.batches[i].k : i \in {j \in 1..Len(r.batches) : r.batches[j].n > 0}}
              /\ Len(raws) > 0 => raws[Len(raws)].ns = raws[Len(raws)].n - 1

Called(m, c) ==
    /\ c.t = m.t /\ c.k = m.k
    /\ IF m.t = "ak" THEN c.h = m.of
       ELSE c.i = m.ns /\ m.lo <= c.h /\ c.h <= c.hi /\ c.ack = (m.id # "-")

Calls(r, all) == Follows(all, SelectSeq(r.ins, LAMBDA m : m.t # "ping"), r.calls, Called)

\* Every id is some ack's own
Ids(r) ==
    LET with == SelectSeq(r.wire, LAMBDA w : w.t = "ev" /\ w.id # "-") IN
    Cardinality({with[i].id : i \in 1..Len(with)}) = Len(with)

\* What is said after the close is said by no one
Ends(r, closes) ==
    LET at == {i \in 1..Len(r.wire) : r.wire[i].t = "close"} IN
    at = IF closes \/ (r.wire # <<>> /\ Last(r.wire).t = "close") THEN {Len(r.wire)} ELSE {}

Kept(r) ==
    LET all == r.end = "close" IN
    /\ \A i \in 1..Len(r.wire) : r.wire[i].t \in Known
    /\ Emissions(r, all) /\ Answers(r, all) /\ Batches(r, all) /\ Calls(r, all) /\ Ids(r) /\ Ends(r, all)
    /\ r.died = 0 /\ r.released /\ r.eof
    /\ IF all THEN r.outcome = "ok" ELSE r.begun <= r.after + 1

Verdicts(r) ==
    LET all == r.end = "close" IN
    [emissions |-> Emissions(r, all), answers |-> Answers(r, all), batches |-> Batches(r, all),
     calls |-> Calls(r, all), ids |-> Ids(r), ends |-> Ends(r, all),
     others |-> <<r.outcome, r.died, r.released, r.eof, r.after, r.begun>>]
=============================================================================
