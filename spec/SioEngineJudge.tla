--------------------------- MODULE SioEngineJudge ---------------------------
(* Records: [h, out]; out has for each message of h what the code made of  *)
(* it, and for encodings the message that the function returned (w) too.   *)
EXTENDS SioEngine, TLC, Json, IOUtils
VARIABLES tid, done
Records == ndJsonDeserialize(IOEnv.TRACES)
RECURSIVE Follow(_, _, _)
Follow(r, st, i) ==
    IF i > Len(r.h) THEN i - 1
    ELSE LET m == Encoded(r.h[i])
             x == Decode(st, m) IN
         IF ~Agrees(x.x, r.out[i]) \/ ~(r.w[i].t = m.t /\ r.w[i].d = m.d) THEN i - 1
         ELSE Follow(r, x.st, i + 1)
Good(r) == Len(r.out) = Len(r.h) /\ Follow(r, "initial", 1) = Len(r.h)
Init == tid \in 1..Len(Records) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ IF Good(Records[tid]) THEN PrintT(<<"ACCEPTED", tid>>)
           ELSE IOEnv.SHOW = "1" => PrintT(<<"AT", Follow(Records[tid], "initial", 1), Records[tid]>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
