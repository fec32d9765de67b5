---------------------------- MODULE SioSliceMC ----------------------------
(***************************************************************************)
(* The representation as data and a range, with machine arithmetic modulo  *)
(* M, shows the content that SioSlice gives to it.                         *)
(***************************************************************************)
EXTENDS SioSlice, TLC, IOUtils
VARIABLES data, lo, hi, s, n
vars == <<data, lo, hi, s, n>>
M == 16
Mut_ == IOEnv.MUT
N == 5

Init ==
    /\ data = [i \in 1..N |-> 10 * i] /\ n = 0
    /\ \E a \in 0..N, b \in 0..N : a <= b /\ lo = a /\ hi = b /\ s = Part(FALSE, data, a, b)

End(b) ==
    CASE Mut_ = "NoClip" -> lo + b
      [] Mut_ = "Wrap" -> Min((lo + b) % M, hi)
      [] Mut_ = "Absolute" -> Min(b, hi)
      [] OTHER -> Min(Min(lo + b, M - 1), hi)

Take == \E a \in 0..(N + 1), b \in 0..(M - 1) :
    /\ lo' = lo + a /\ hi' = End(b) /\ s' = Sub(FALSE, s, a, b)
    /\ UNCHANGED data
Write == /\ s.k = "shows"
         /\ data' = [i \in 1..N |-> IF i > lo /\ i <= hi THEN (data[i] + 1) % 256 ELSE data[i]]
         /\ s' = Mut(FALSE, s) /\ UNCHANGED <<lo, hi>>
Next == n < 3 /\ n' = n + 1 /\ (Take \/ Write)
Spec == Init /\ [][Next]_vars

Content ==
    CASE s.k = "shows" -> hi <= N /\ SubSeq(data, lo + 1, hi) = s.vis
      [] s.k = "nothing" -> lo > hi       \* looking at it fails
=============================================================================
