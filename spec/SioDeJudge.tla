---------------------------- MODULE SioDeJudge ----------------------------
(***************************************************************************)
(* Records [t, doc, atts; out, plain]: what asking for type t gave in a    *)
(* packet with these attachments, and in one without.                      *)
(***************************************************************************)
EXTENDS SioDe, TLC, Json, IOUtils
VARIABLES tid, done
Records == ndJsonDeserialize(IOEnv.TRACES)

Agrees2(x, o) ==
    /\ o.r \in {"ok", "err"}
    /\ CASE x.r = "any" -> TRUE
         [] x.r = "err" -> o.r = "err"
         [] x.r = "ok" -> o.r = "ok" /\ VEq(x.v, o.v)

Same(a, b) == a.r = b.r /\ (a.r = "ok" => VEq(a.v, b.v))

\* Lone surrogates asked for as bytes
RECURSIVE Pure(_)
Pure(v) == CASE v.k = "str" -> ~Lone(v.s)
             [] v.k = "arr" -> \A i \in 1..Len(v.v) : Pure(v.v[i])
             [] v.k = "obj" -> \A i \in 1..Len(v.v) : Pure(v.v[i].v) /\ ~Lone(v.v[i].key)
             [] OTHER -> TRUE

Good(r) ==
    LET D == Json(r.doc).v IN
    /\ Agrees2(De(r.t, D, r.atts, WithAtts), r.out)
    /\ Agrees2(De(r.t, D, <<>>, Without), r.plain)
    /\ (Nums(D) = <<>> /\ Pure(D)) => Same(r.out, r.plain)

Init == tid \in 1..Len(Records) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ IF Good(Records[tid]) THEN PrintT(<<"ACCEPTED", tid>>)
           ELSE IOEnv.SHOW = "1" => PrintT(<<"AT", 1, De(Records[tid].t, Json(Records[tid].doc).v, Records[tid].atts, WithAtts),
                    Records[tid].out, Records[tid].plain>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
