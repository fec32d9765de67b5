--------------------------- MODULE SioRaceJudge ---------------------------
EXTENDS SioRace, TLC, Json, IOUtils
VARIABLES tid, at
Records == ndJsonDeserialize(IOEnv.TRACES)
Init == tid \in 1..Len(Records) /\ at = 1
Next == /\ at = 1 /\ at' = 2 /\ UNCHANGED tid
        /\ Records[tid].failed = "-" /\ Kept(Records[tid])
        /\ PrintT(<<"ACCEPTED", tid>>)
Spec == Init /\ [][Next]_<<tid, at>>
Why == IF Records[tid].failed = "-" THEN Verdicts(Records[tid]) ELSE [failed |-> Records[tid].failed]
Show == IOEnv.SHOW = "1" => PrintT(<<"AT", at, Why>>)
=============================================================================
