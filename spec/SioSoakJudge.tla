--------------------------- MODULE SioSoakJudge ---------------------------
EXTENDS SioSoak, TLC, Json, IOUtils
VARIABLES tid, r
Records == ndJsonDeserialize(IOEnv.TRACES)
Init == tid \in 1..Len(Records) /\ r = 1
Next == /\ r <= Len(Records[tid].rounds) + 1 /\ UNCHANGED tid
        /\ IF r <= Len(Records[tid].rounds)
           THEN Round(Records[tid].rounds[r]) /\ r' = r + 1
           ELSE /\ Records[tid].done /\ Distinct(Records[tid].ids)
                /\ PrintT(<<"ACCEPTED", tid>>) /\ r' = r + 1
Spec == Init /\ [][Next]_<<tid, r>>
Last == IF r > Len(Records[tid].rounds) THEN <<"ids or end">> ELSE <<WireRight(Records[tid].rounds[r]), CallsRight(Records[tid].rounds[r]), Records[tid].rounds[r].task>>
Show == IOEnv.SHOW = "1" => PrintT(<<"AT", r, Last>>)
=============================================================================
