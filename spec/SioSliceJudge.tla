--------------------------- MODULE SioSliceJudge ---------------------------
EXTENDS SioSlice, TLC, Json, IOUtils
VARIABLES tid, done
Records == ndJsonDeserialize(IOEnv.TRACES)
Apply(str, s, o) == CASE o.op = "sub" -> Sub(str, s, o.a, o.b) [] o.op = "mut" -> Mut(str, s) [] OTHER -> s
\* How many of the looks, one after every operation, agree
RECURSIVE Follow(_, _, _)
Follow(r, s, i) ==
    IF ~Agrees(r.str, s, r.out[i]) THEN i - 1
    ELSE IF i = Len(r.out) THEN i
    ELSE Follow(r, Apply(r.str, s, r.ops[i]), i + 1)
Start(r) == Part(r.str, r.data, r.a, r.b)
Good(r) == Len(r.out) = Len(r.ops) + 1 /\ Follow(r, Start(r), 1) = Len(r.out)
Init == tid \in 1..Len(Records) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ IF Good(Records[tid]) THEN PrintT(<<"ACCEPTED", tid>>)
           ELSE IOEnv.SHOW = "1" => PrintT(<<"AT", Follow(Records[tid], Start(Records[tid]), 1), Records[tid]>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
