----------------------------- MODULE SioUrlGen -----------------------------
(* URLs to connect to.  FOCUS = good: all combinations of some parts, any of *)
(* the others; bad: URLs that name no place to connect to.                  *)
EXTENDS SioUrl, Json, IOUtils
Focus == IOEnv.FOCUS
VARIABLE s
Vias == {"connect", "stream", "fail"}
One(S) == RandomElement(S)
Mk(sc, us, h, p, pa, q, f) == [scheme |-> sc, user |-> us, host |-> h, port |-> p, path |-> pa, query |-> q, frag |-> f]
Say(c) == s' = c /\ PrintT(<<"SCRIPT", ToJson(<<c>>)>>)
Show(u, via) == Say([u |-> u, url |-> Text(u), via |-> via, bad |-> FALSE])
Bad(t, via) == Say([u |-> "-", url |-> t, via |-> via, bad |-> TRUE])
Mostly(S, x) == IF RandomElement(1..3) > 1 THEN {x} ELSE {RandomElement(S)}

Init == s = [bad |-> "start"]
Next ==
    /\ s = [bad |-> "start"]
    /\ CASE Focus = "good" ->
              \/ \E sc \in Schemes, h \in Hosts, p \in Ports, via \in Vias :
                   \E us \in Mostly(Users, ""), pa \in {One(Paths)}, q \in {One(Queries)}, f \in Mostly(Frags, "") :
                      Show(Mk(sc, us, h, p, pa, q, f), via)
              \/ \E pa \in Paths, q \in Queries, f \in Frags :
                   \E sc \in {One({x \in Schemes : ~x.tls})}, us \in Mostly(Users, ""), h \in {One(Hosts)}, p \in {One(Ports)}, via \in {One({"connect", "stream"})} :
                      Show(Mk(sc, us, h, p, pa, q, f), via)
         [] OTHER ->
              \/ \E t \in Nonsense, via \in Vias : Bad(t, via)
              \/ \E sc \in BadSchemes, h \in Hosts, via \in Vias :
                   \E p \in {One(Ports)}, pa \in {One(Paths)}, q \in {One(Queries)}, f \in Mostly(Frags, "") :
                      Bad(Text(Mk(sc, "", h, p, pa, q, f)), via)
              \/ \E sc \in Schemes, p \in BadPorts, via \in Vias :
                   \E h \in {One(Hosts)}, pa \in {One(Paths)} : Bad(Text(Mk(sc, "", h, p, pa, Part("", ""), "")), via)
Spec == Init /\ [][Next]_s
=============================================================================
