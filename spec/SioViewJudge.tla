---------------------------- MODULE SioViewJudge ----------------------------
(***************************************************************************)
(* Records [docs, atts, bin, ack; out]: an event of name e with the        *)
(* arguments docs, or an ack with the arguments docs, looked at in some    *)
(* order.                                                                  *)
(***************************************************************************)
EXTENDS SioView, TLC, Json, IOUtils
VARIABLES tid, done
Records == ndJsonDeserialize(IOEnv.TRACES)

All2(r) == IF r.ack THEN r.docs ELSE << <<Quote, 101, Quote>> >> \o r.docs
Used(r) == IF r.bin THEN r.atts ELSE <<>>

Look(r, i, x) ==
    LET text == All2(r)[i + 1]
        v == Json(text).v IN
    /\ x.raw = text
    /\ \A j \in 1..Len(x.seen) : ConvertedOk(v, Used(r), x.seen[j])
    /\ \A j \in 1..Len(x.shown) : Json(x.shown[j]).ok /\ DisplayedOk(v, Used(r), Json(x.shown[j]).v)

LookOk(r, l) ==
    CASE l.l = "len" -> l.n = Len(All2(r)) /\ l.empty = (All2(r) = <<>>)
      [] l.l = "get" -> l.some = (l.i < Len(All2(r))) /\ (l.some => Look(r, l.i, l.x))
      [] l.l = "iter" -> /\ Len(l.all) = Len(All2(r)) /\ l.end
                         /\ \A i \in 1..Len(l.all) : Look(r, i - 1, l.all[i])
      [] l.l = "show" -> LET x == Json(l.s) IN
                         /\ x.ok /\ x.v.k = "arr" /\ Len(x.v.v) = Len(All2(r))
                         /\ \A i \in 1..Len(x.v.v) : DisplayedOk(Json(All2(r)[i]).v, Used(r), x.v.v[i])

Good(r) == r.out.r = "ok" /\ \A i \in 1..Len(r.out.looks) : LookOk(r, r.out.looks[i])

Init == tid \in 1..Len(Records) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ IF Good(Records[tid]) THEN PrintT(<<"ACCEPTED", tid>>)
           ELSE IOEnv.SHOW = "1" => PrintT(<<"AT", 1, Records[tid].out.r, SelectSeq(Records[tid].out.looks, LAMBDA l : ~LookOk(Records[tid], l))>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
