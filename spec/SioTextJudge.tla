---------------------------- MODULE SioTextJudge ----------------------------
(* Does the implementation read every text as the grammar says?            *)
EXTENDS SioText, TLC, Json, IOUtils
VARIABLES tid, done
Records == ndJsonDeserialize(IOEnv.TRACES)
\* Every record has the outcomes of the same text read in several ways
Good(r) == LET x == Decode(r.cp) IN \A j \in 1..Len(r.out) : Agrees(x, r.out[j])
Init == tid \in 1..Len(Records) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ IF Good(Records[tid]) THEN PrintT(<<"ACCEPTED", tid>>)
           ELSE IOEnv.SHOW = "1" => PrintT(<<"AT", 1, Decode(Records[tid].cp), Records[tid].out>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
