---------------------------- MODULE SioSliceGen ----------------------------
(* Chains of subslices to take.  FOCUS = vec, str *)
EXTENDS SioSlice, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES c, s, n
vars == <<c, s, n>>
IsStr == IOEnv.FOCUS = "str"

Datas == IF IsStr THEN {<<>>, <<97, 98, 99>>, <<195, 169, 98, 240, 159, 152, 128, 122>>, <<97, 34, 92, 10, 195, 169>>, <<52, 50, 91, 49, 44, 50, 93>>}
         ELSE {<<>>, <<4, 1, 2>>, <<0, 255, 128, 7, 9>>, <<9>>}
Huge == {0 - 1, 0 - 2, 0 - 3, 0 - 4, 0 - 6}

Init ==
    /\ n = 0
    /\ \E d \in Datas :
         \/ c = [str |-> IsStr, data |-> d, a |-> 0, b |-> 0 - 1, ops |-> <<>>] /\ s = Shows(d)
         \/ \E a \in 0..Len(d), b \in 0..Len(d) :
              a <= b /\ c = [str |-> IsStr, data |-> d, a |-> a, b |-> b, ops |-> <<>>] /\ s = Part(IsStr, d, a, b)

Op(o, t) == c' = [c EXCEPT !.ops = Append(@, o)] /\ s' = t /\ n' = n + 1
Len0 == IF s.k = "shows" THEN Len(s.vis) ELSE 1
Next ==
    \/ /\ n < Depth /\ s.k # "loose"
       /\ \/ \E a \in 0..(Len0 + 1), b \in (0..(Len0 + 2)) \cup Huge : Op([op |-> "sub", a |-> a, b |-> b], Sub(IsStr, s, a, b))
          \/ Op([op |-> "mut", a |-> 0, b |-> 0], Mut(IsStr, s))
          \/ Op([op |-> "clone", a |-> 0, b |-> 0], s)
    \/ /\ n <= Depth /\ s.k # "loose" /\ (n = Depth \/ s.k = "nothing")
       /\ PrintT(<<"SCRIPT", ToJson(<<c>>)>>) /\ n' = Depth + 1 /\ UNCHANGED <<c, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
