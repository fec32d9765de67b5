---------------------------- MODULE SioArgsJudge ----------------------------
(***************************************************************************)
(* Records of packets that the builder was made to write:                  *)
(* [kind, bin, ns, pid, ev, args; out], out = [r, res, text, atts, odd,     *)
(* same, back].  kind is also "connect" or "disconnect".                   *)
(* ASPECT: back (the packet is read back), fail (failures leave no trace), *)
(* bytes (attachments and placeholders).                                   *)
(***************************************************************************)
EXTENDS SioArgs, TLC, Json, IOUtils
VARIABLES tid, done
Records == ndJsonDeserialize(IOEnv.TRACES)

Dataless(r) == r.kind \in {"connect", "disconnect"}
\* An attachment's message starts with the header byte
Headed(r) == \A i \in 1..Len(r.out.atts) : Len(r.out.atts[i]) > 0 /\ r.out.atts[i][1] = 4
Atts(r) == [i \in 1..Len(r.out.atts) |-> Tail(r.out.atts[i])]
\* The first message is the packet's text, the others are binary
Shape(r) == r.out.r = "ok" /\ ~r.out.odd

AllSerialized(r) == \A i \in 1..Len(r.args) : r.out.res[i]

Back(r) ==
    LET b == r.out.back
        want == Content(r.kind, r.ev, r.args)
        count == Decode(Tail(r.out.text)) IN
    /\ Shape(r) /\ Headed(r) /\ AllSerialized(r)
    /\ b.r = "pkt" /\ b.kind = r.kind /\ b.ns = r.ns /\ b.id = r.pid
    /\ ~r.bin => r.out.atts = <<>>
    /\ r.out.text[1] = 52 /\ count.r = "pkt" /\ count.need = Digits(Len(r.out.atts))
    /\ IF Dataless(r) THEN b.args = <<>>
       ELSE /\ b.len = Len(want) /\ Len(b.args) = b.len
            /\ \A i \in 1..b.len :
                 LET j == Json(b.args[i]) IN
                 j.ok /\ JEq(Subst(j.v, Atts(r)), Plain(want[i]).v)

\* The messages are those of the arguments that can be serialized
Wire(r) ==
    LET x == Decode(Tail(r.out.text))
        want == Packed(r.kind, r.bin, r.ev, r.args) IN
    /\ Shape(r)
    /\ r.out.text # <<>> /\ x.r = "pkt" /\ x.need = Digits(Len(want.a))
    /\ Headed(r) /\ Atts(r) = want.a
    /\ Len(x.args) = Len(want.v)
    /\ \A i \in 1..Len(x.args) : JEq(Json(x.args[i]).v, want.v[i])

NoTrace(r) ==
    /\ Shape(r) /\ r.out.same
    /\ \A i \in 1..Len(r.args) : r.out.res[i] = Serializable(r.args[i])
    /\ Wire(r)

Bytes(r) == Wire(r) /\ AllSerialized(r)

Good(r) ==
    CASE IOEnv.ASPECT = "back" -> Back(r)
      [] IOEnv.ASPECT = "fail" -> NoTrace(r)
      [] IOEnv.ASPECT = "bytes" -> Bytes(r)

Init == tid \in 1..Len(Records) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ IF Good(Records[tid]) THEN PrintT(<<"ACCEPTED", tid>>)
           ELSE IOEnv.SHOW = "1" => PrintT(<<"AT", 1, Records[tid].out, Packed(Records[tid].kind, Records[tid].bin, Records[tid].ev, Records[tid].args)>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
