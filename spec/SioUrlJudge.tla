---------------------------- MODULE SioUrlJudge ----------------------------
EXTENDS SioUrl, Json, IOUtils
VARIABLES tid, done
Records == ndJsonDeserialize(IOEnv.TRACES)
\* sets were written as lists
Range(q) == {q[i] : i \in DOMAIN q}
Url(u) == [u EXCEPT !.host.is = Range(u.host.is)]
Good(r) == IF r.bad THEN Refused(r) ELSE Connects(Url(r.u), r)
Init == tid \in 1..Len(Records) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ IF Good(Records[tid]) THEN PrintT(<<"ACCEPTED", tid>>)
           ELSE IOEnv.SHOW = "1" => PrintT(<<"AT", 1, Records[tid], IF Records[tid].bad THEN {} ELSE Lines(Url(Records[tid].u))>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
