------------------------------- MODULE SioGen -------------------------------
(***************************************************************************)
(* The environment of a session: what the application calls, what the      *)
(* server sends, what the transport does.  TLC enumerates its behaviours   *)
(* (every one up to a depth, or random long ones); each is printed as a    *)
(* script that is then replayed against the real client.                   *)
(*                                                                         *)
(* Focus selects the actions that matter to one group of properties.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Focus == IOEnv.FOCUS
Depth == atoi(IOEnv.DEPTH)

VARIABLES
    hist,   \* steps so far
    d,      \* actions so far
    n,      \* tokens handed out
    owed,   \* attachments announced but not sent
    em,     \* payloads of acknowledgeable emissions
    last    \* kind of the last action

gvars == <<hist, d, n, owed, em, last>>

T(s) == s \o ToString(n)
Tk(s, k) == s \o ToString(n) \o "x" \o ToString(k)

Srv(fs) == [a |-> "srv", f |-> fs]
Run == [a |-> "run"]
F(t) == [t |-> t]
FK(t, k) == [t |-> t, k |-> k]

-----------------------------------------------------------------------------
(* Operations, as records                                                  *)

Reg(ns, ev, s) == [a |-> "reg", ns |-> ns, ev |-> ev, h |-> T("h"), s |-> s, short |-> n % 2 = 0]
Fb(ns, s) == [a |-> "fb", ns |-> ns, h |-> T("h"), s |-> s, short |-> n % 2 = 1]
\* registered from within a callback
RegIn(ns, ev, s) == [Reg(ns, ev, s) EXCEPT !.h = Tk("h", 1)]
FbIn(ns, s) == [Fb(ns, s) EXCEPT !.h = Tk("h", 2)]
Unreg(ns, ev) == [a |-> "unreg", ns |-> ns, ev |-> ev, short |-> n % 2 = 0]
Unfb(ns) == [a |-> "unfb", ns |-> ns, short |-> n % 2 = 1]
Emit(ns, ev, bin, k, cb, s) ==
    [a |-> "emit", ns |-> ns, ev |-> ev, bin |-> bin, n |-> k, p |-> T("p"), cb |-> cb, s |-> s,
     short |-> n % 2 = 0, x |-> "-"]
Reply(bin, k) == [a |-> "reply", bin |-> bin, n |-> k, p |-> T("r"), x |-> "-"]
Keep == [a |-> "keep"]
DropMe == [a |-> "dropme"]
CloseMe == [a |-> "closeme"]
\* a batch of k messages for the public sender
Raw(k) == [a |-> "raw", p |-> T("w"), k |-> k]

EvFrame(ns, ev, id, k) == [t |-> "event", ns |-> ns, ev |-> ev, id |-> id, n |-> k, p |-> T("q")]
AckFrame(of, ns, j, k) == [t |-> "ack", of |-> of, k |-> j, ns |-> ns, n |-> k, p |-> T("a")]
\* More attachments than ever come: stands for counts up to 2^64-1
Huge == 1000000
\* attachments of a packet are sent in order; strays have contents of their own
AttFrame(p, k, i) == [t |-> "att", p |-> p, n |-> k, i |-> i]
Atts(p, k) == [i \in 1..k |-> AttFrame(p, k, i)]

-----------------------------------------------------------------------------
(* An action: steps to append, attachments newly owed, emissions newly     *)
(* outstanding.                                                            *)

A(k, steps) == [k |-> k, s |-> steps, o |-> <<>>, e |-> <<>>]
AO(k, steps, o) == [k |-> k, s |-> steps, o |-> o, e |-> <<>>]
AE(k, steps, e) == [k |-> k, s |-> steps, o |-> <<>>, e |-> e]

runA == IF last = "run" THEN {} ELSE {A("run", <<Run>>)}

Event(ns, ev, id) == A("ev", <<Srv(<<EvFrame(ns, ev, id, 0 - 1)>>)>>)
\* announced with k attachments, which are sent later, one by one
BinEvent(ns, ev, id, k) == AO("bev", <<Srv(<<EvFrame(ns, ev, id, k)>>)>>, Atts(T("q"), k))
\* announced with more than there is room for
HugeEvent(ns, ev, id) == A("huge", <<Srv(<<EvFrame(ns, ev, id, Huge)>>)>>)
\* complete, in one piece
BinEventAll(ns, ev, id, k) == A("beva", <<Srv(<<EvFrame(ns, ev, id, k)>> \o Atts(T("q"), k))>>)
NextAtt == IF owed = <<>> THEN {} ELSE {A("att", <<Srv(<<Head(owed)>>)>>)}
\* the next j of them in one go
NextAtts(j) == IF Len(owed) < j THEN {} ELSE {AO("atts" \o ToString(j), <<Srv(SubSeq(owed, 1, j))>>, <<>>)}
AckOf(e, k) == A("ack", <<Srv(<<AckFrame(e.p, e.ns, 0, 0 - 1)>>)>>)
BinAckOf(e, k) == AO("back", <<Srv(<<AckFrame(e.p, e.ns, 0, k)>>)>>, Atts(T("a"), k))
Acks == {AckOf(em[i], 0) : i \in 1..Len(em)}
BinAcks == {BinAckOf(em[i], k) : i \in 1..Len(em), k \in {1}}
EmitCb(ns, ev, bin, k, s) ==
    AE("emit", <<Emit(ns, ev, bin, k, T("c"), s)>>, <<[p |-> T("p"), ns |-> ns]>>)
EmitNo(ns, ev, bin, k) == A("emit", <<Emit(ns, ev, bin, k, "-", <<>>)>>)
\* with arguments that fail to serialize: some between the others, or one that ends it
EmitX(x, cb, bin, k) ==
    LET s == <<[Emit("n1", "e1", bin, k, cb, <<>>) EXCEPT !.x = x]>> IN
    IF x = "ref" /\ cb # "-" THEN AE("emit", s, <<[p |-> T("p"), ns |-> "n1"]>>) ELSE A("emit", s)
\* many small packets at once
Burst(k, b) == A("burst", [i \in 1..k |-> [Emit("n0", "e1", b, IF b THEN i % 2 ELSE 0, "-", <<>>) EXCEPT !.p = Tk("p", i)]])
Frame(t) == A(t, <<Srv(<<F(t)>>)>>)
BadFrame(t, k) == A("bad", <<Srv(<<FK(t, k)>>)>>)
Op(r) == A(r.a, <<r>>)

NS == {"n0", "n1"}

\* What callbacks do with the client
Scripts ==
    { <<>>,
      <<RegIn("n0", "e2", <<>>)>>,
      <<RegIn("n0", "e1", <<>>)>>,
      <<Unreg("n0", "e1"), FbIn("n0", <<>>)>>,
      <<Unfb("n0")>>,
      <<Emit("n1", "e3", FALSE, 0, "-", <<>>), Reply(FALSE, 0)>>,
      <<Reply(TRUE, 1), Emit("n0", "e3", TRUE, 1, Tk("c", 1), <<>>)>> }

Bads ==
    {BadFrame("sbad", k) : k \in {"syntax", "json", "overflow", "missing", "extra", "evname"}}
    \cup {BadFrame("ebad", k) : k \in {"empty", "type", "open", "bempty", "bhdr"}}
    \cup {Frame("stray"), Frame("open")}
WsBads == {BadFrame("wsbad", k) : k \in {"rsv", "opcode", "control", "utf8", "continue", "nested", "masked", "close"}}

Options ==
    CASE Focus = "route" ->
           runA \cup
           {Op(Reg(x[1], x[2], <<>>)) : x \in {<<"n0", "e1">>, <<"n0", "e2">>, <<"n1", "e1">>}}
           \cup {Op(Unreg("n0", "e1")), Op(Unreg("n1", "e1"))}
           \cup {Op(Fb("n0", <<>>)), Op(Fb("n1", <<>>)), Op(Unfb("n0")), Op(Unfb("n1"))}
           \cup {Event(x[1], x[2], "-") : x \in {<<"n0", "e1">>, <<"n0", "e2">>, <<"n1", "e1">>, <<"n2", "e1">>}}
           \cup {BinEventAll("n0", "e1", "-", 1), Event("n1", "e2", "i1"), Frame("disconnect0")}
           \cup Acks \cup {EmitCb("n0", "e1", FALSE, 0, <<>>), EmitCb("n1", "e1", FALSE, 0, <<>>)}
      [] Focus = "churn" ->     \* few callbacks, that come and go often
           {Op(Reg("n0", "e1", <<>>)), Op(Unreg("n0", "e1")), Op(Fb("n0", <<>>)), Op(Unfb("n0")),
            Op(Reg("n1", "e1", <<>>)), Op(Unfb("n1")), Op(Fb("n1", <<Unfb("n0")>>)), Frame("disconnect0")}
           \cup {A("ev", <<Srv(<<EvFrame(x[1], x[2], "-", 0 - 1)>>), Run>>) : x \in {<<"n0", "e1">>, <<"n0", "e2">>, <<"n1", "e1">>}}
      [] Focus = "ack" ->
           runA \cup Acks \cup BinAcks \cup NextAtt
           \cup {EmitCb("n0", "e1", FALSE, 0, <<>>), EmitCb("n1", "e1", FALSE, 0, <<>>),
                 EmitCb("n0", "e1", TRUE, 1, <<Emit("n0", "e2", FALSE, 0, Tk("c", 1), <<>>)>>),
                 EmitNo("n0", "e1", FALSE, 0), Op([Emit("n0", "e1", FALSE, 0, T("c"), <<>>) EXCEPT !.a = "abandon"]),
                 A("ack?", <<Srv(<<AckFrame("none", "n0", 0, 0 - 1)>>)>>), Frame("ping"), Frame("disconnect0")}
           \cup (IF em = <<>> THEN {}
                 ELSE {A("ackns", <<Srv(<<AckFrame(em[1].p, IF em[1].ns = "n0" THEN "n1" ELSE "n0", 0, 0 - 1)>>)>>)})
      [] Focus = "reply" ->
           runA \cup
           {Op(Reg("n0", "e1", <<Reply(FALSE, 0)>>)), Op(Reg("n1", "e1", <<Reply(TRUE, 2)>>)),
            Op(Reg("n0", "e2", <<Keep>>)), Op(Fb("n1", <<Keep>>)), Op(Reg("n0", "e1", <<>>)),
            Op(Fb("n0", <<Reply(TRUE, 0)>>)), Frame("disconnect0")}
           \cup {Event(x[1], x[2], x[3]) : x \in {<<"n0", "e1", "i1">>, <<"n0", "e1", "-">>, <<"n1", "e1", "i2">>,
                                                  <<"n0", "e2", "i3">>, <<"n1", "e2", "i1">>}}
           \cup {BinEventAll("n0", "e1", "i4", 1), BinEventAll("n1", "e2", "i5", 2)}
           \cup {A("useack", <<[a |-> "ack", j |-> j, bin |-> b, n |-> k, p |-> T("r")]>>) :
                    j \in {1, 2}, b \in {TRUE, FALSE}, k \in {1}}
      [] Focus = "asm" ->
           runA \cup NextAtt
           \cup {BinEvent("n0", "e1", "-", k) : k \in {1, 2, 3}}
           \cup {BinEvent("n1", "e1", "i1", 0)}
           \cup BinAcks
           \cup {Event("n0", "e1", "-"), Frame("ping"), Frame("wsping"), Frame("pong"), Frame("disconnect0")}
           \cup {EmitCb("n0", "e2", FALSE, 0, <<>>)}
           \cup {Frame("stray"), HugeEvent("n0", "e1", "-")}
      [] Focus = "many" ->
           runA \cup NextAtt \cup NextAtts(100) \cup NextAtts(155)
           \cup {BinEvent("n0", "e1", "-", k) : k \in {100, 255, 256, 257, 310}}
           \cup {AO("back", <<Srv(<<AckFrame(em[i].p, em[i].ns, 0, k)>>)>>, Atts(T("a"), k)) : i \in 1..Len(em), k \in {256}}
           \cup {EmitCb("n0", "e1", TRUE, 1, <<>>), Frame("ping"), Event("n0", "e1", "-"), Op(Reg("n0", "e1", <<Reply(TRUE, 2)>>)),
                 Op(Fb("n0", <<>>))}
      [] Focus = "manyout" ->
           runA \cup Acks
           \cup {EmitCb("n0", "e1", TRUE, k, <<>>) : k \in {255, 257}} \cup {EmitNo("n1", "e1", TRUE, 300), EmitNo("n0", "e1", FALSE, 1)}
           \cup {Frame("ping"), Event("n0", "e1", "i1"), Op(Reg("n0", "e1", <<Reply(TRUE, 256)>>))}
      [] Focus = "out" ->
           runA \cup
           {EmitNo("n0", "e1", FALSE, 1), EmitNo("n1", "e1", TRUE, 2), EmitNo("n0", "e2", TRUE, 0),
            EmitCb("n0", "e1", TRUE, 3, <<>>), Op(Raw(0)), Op(Raw(1)), Op(Raw(5)), Frame("ping"), Frame("wsping"),
            Event("n0", "e1", "i1"), Op(Reg("n0", "e1", <<Reply(TRUE, 2), Emit("n1", "e3", TRUE, 1, "-", <<>>)>>))}
           \cup Acks
      [] Focus = "ping" ->
           runA \cup NextAtt \cup
           {Frame("ping"), Frame("pong"), Frame("wsping"), Frame("wspong"), Event("n0", "e1", "-"),
            BinEvent("n0", "e1", "-", 2), EmitNo("n0", "e1", TRUE, 1), Frame("disconnect0"),
            A("pings", <<Srv(<<F("ping"), F("ping")>>)>>), Op(Reg("n0", "e1", <<>>)), Frame("eclose")}
      [] Focus = "reent" ->
           runA \cup
           {Op(Reg("n0", "e1", s)) : s \in Scripts} \cup {Op(Fb("n0", s)) : s \in Scripts}
           \cup {EmitCb("n0", "e4", FALSE, 0, s) : s \in Scripts} \cup Acks
           \cup {Event("n0", "e1", "i1"), Event("n0", "e2", "-"), BinEventAll("n0", "e1", "-", 1)}
      [] Focus = "bad" ->
           runA \cup Bads \cup WsBads \cup NextAtt \cup
           {Event("n0", "e1", "i1"), BinEvent("n0", "e1", "-", 1), HugeEvent("n0", "e1", "i2"), Frame("ping"), Frame("eclose"),
            EmitCb("n0", "e1", FALSE, 0, <<>>), Frame("wsclose"), Op([a |-> "eof"]), Op([a |-> "rderr"]), Op([a |-> "close"]),
            Op([a |-> "wrerr"]), Op(Reg("n0", "e1", <<Reply(FALSE, 0)>>)),
            A("ack?", <<Srv(<<AckFrame("none", "n0", 0, 0 - 1)>>)>>)}
      [] Focus = "close" ->
           runA \cup NextAtt \cup Acks \cup
           {EmitNo("n0", "e1", TRUE, 2), EmitCb("n0", "e1", FALSE, 0, <<>>), Event("n0", "e1", "i1"),
            Op(Reg("n0", "e1", <<Reply(FALSE, 0)>>)), BinEvent("n0", "e1", "-", 1),
            Frame("ping"), Op([a |-> "close"]), Op([a |-> "cclose"]), Frame("wsclose"), Op([a |-> "eof"]),
            Op([a |-> "tick", ms |-> 9000]), Op([a |-> "tick", ms |-> 1001]), Op([a |-> "drop"]),
            Op([a |-> "stall"]), Op([a |-> "unstall"]), Op([a |-> "wrerr"]), Op([a |-> "rderr"]), Frame("eclose"),
            Op(Reg("n0", "e2", <<Reply(FALSE, 0), CloseMe, Emit("n1", "e3", TRUE, 1, "-", <<>>)>>)), Event("n0", "e2", "i2"),
            BadFrame("sbad", "syntax"), BadFrame("wsbad", "opcode")}
      [] Focus = "manyclose" ->
           runA \cup
           {Burst(k, b) : k \in {17, 66, 130, 260}, b \in {FALSE, TRUE}}
           \cup {Op([a |-> "close"]), Op([a |-> "stall"]), Op([a |-> "unstall"]), Frame("ping"), Event("n0", "e1", "i1"),
                 Op(Reg("n0", "e1", <<Reply(TRUE, 1)>>)), Frame("wsclose")}
      [] Focus = "drop" ->
           runA \cup NextAtt \cup Acks \cup
           {EmitNo("n0", "e1", TRUE, 2), EmitCb("n0", "e1", FALSE, 0, <<Reply(FALSE, 0)>>), Event("n0", "e1", "i1"),
            Op(Reg("n0", "e1", <<Reply(FALSE, 0), Emit("n1", "e3", TRUE, 1, "-", <<>>)>>)), Op(Fb("n0", <<Keep>>)),
            Op(Reg("n0", "e2", <<Emit("n1", "e3", TRUE, 1, "-", <<>>), DropMe, Reply(FALSE, 0)>>)),
            Op(Fb("n1", <<Keep, DropMe, RegIn("n0", "e1", <<>>)>>)), Event("n1", "e3", "i3"), Event("n0", "e2", "i4"),
            EmitCb("n1", "e2", FALSE, 0, <<DropMe>>), Op([a |-> "cclose"]),
            BinEvent("n0", "e2", "i2", 2), Frame("ping"), Op([a |-> "drop"]), Op([a |-> "stall"]), Op([a |-> "unstall"]),
            Frame("wsclose"), Op([a |-> "eof"]), Op([a |-> "wrerr"]), Op([a |-> "close"]), Op(Raw(n % 4)),
            A("useack", <<[a |-> "ack", j |-> 1, bin |-> TRUE, n |-> 1, p |-> T("r")]>>), Op([a |-> "tick", ms |-> 10001])}
      [] Focus = "dropin" ->
           runA \cup Acks \cup
           {Op(Reg("n0", "e1", <<DropMe>>)), Op(Reg("n0", "e1", <<CloseMe, DropMe>>)), Op(Reg("n0", "e2", <<CloseMe, Reply(FALSE, 0)>>)), Op(Reg("n0", "e1", <<Keep, DropMe, Emit("n1", "e3", FALSE, 0, "-", <<>>)>>)),
            Op(Reg("n0", "e2", <<Reply(TRUE, 1)>>)), Op(Fb("n0", <<>>)), Op(Fb("n0", <<Reply(FALSE, 0), DropMe>>)),
            EmitCb("n0", "e1", FALSE, 0, <<CloseMe, DropMe>>), Op([a |-> "cclose"]),
            EmitCb("n0", "e2", FALSE, 0, <<DropMe>>), EmitCb("n1", "e2", TRUE, 1, <<>>),
            A("burst", <<Srv(<<[EvFrame("n0", "e1", "i1", 0 - 1) EXCEPT !.p = Tk("q", 1)],
                               [EvFrame("n0", "e2", "i2", 0 - 1) EXCEPT !.p = Tk("q", 2)],
                               [EvFrame("n0", "e3", "-", 0 - 1) EXCEPT !.p = Tk("q", 3)],
                               EvFrame("n0", "e2", "-", 1)>> \o Atts(T("q"), 1)
                               \o (IF n % 2 = 0 THEN <<F("ping")>> ELSE <<>>))>>),
            A("useack", <<[a |-> "ack", j |-> 1, bin |-> FALSE, n |-> 0, p |-> T("r")]>>),
            Op([a |-> "stall"]), Op([a |-> "close"]), Op([a |-> "wrerr"])}
      [] Focus = "connect" ->
           (IF d = 0 THEN {A("connect", <<[a |-> "connect", via |-> v]>>) : v \in {"now", "later"}} ELSE {}) \cup
           (IF d = 0 THEN {} ELSE
             runA \cup
             (IF hist[1].via = "later" /\ ~\E i \in 1..Len(hist) : hist[i].a = "dial"
              THEN {A("dial", <<[a |-> "dial", k |-> "ok"], Run>>), A("dial?", <<[a |-> "dial", k |-> "ok"]>>),
                    A("dial?", <<[a |-> "dial", k |-> "err"]>>)}
              ELSE IF last = "part" THEN {A("http", <<[a |-> "http", k |-> "rest"]>>)}
              ELSE IF \E i \in 1..Len(hist) : hist[i].a = "http" THEN {}
              ELSE IF hist[1].via = "later" /\ ~\E i, j \in 1..Len(hist) : i < j /\ hist[i].a = "dial" /\ hist[j].a = "run" THEN {}
              ELSE {A("http", <<[a |-> "http", k |-> k]>>) : k \in {"ok", "404", "200", "key", "garbage"}}
                   \cup {A("part", <<[a |-> "http", k |-> "part"]>>)})
             \cup (IF \E i \in 1..Len(hist) : hist[i].a = "http" /\ hist[i].k \in {"ok", "rest"}
                   THEN {Frame("open"), Frame("ping"), Frame("eclose"), Event("n0", "e1", "-"), Frame("stray"),
                         BadFrame("ebad", "open"), BadFrame("ebad", "type"), BadFrame("ebad", "bempty"), BadFrame("wsbad", "rsv"),
                         Frame("wsclose"), Frame("wsping"), Frame("pong")}
                   ELSE {})
             \cup {Op([a |-> "eof"]), Op([a |-> "rderr"]), Op([a |-> "wrerr"]), Op([a |-> "cancel"]),
                   Op([a |-> "tick", ms |-> 9999]), Op([a |-> "tick", ms |-> 2])})
      [] Focus = "deadline" ->
           (IF d = 0 THEN {A("connect", <<[a |-> "connect"]>>)} ELSE {}) \cup
           (IF d = 0 THEN {} ELSE
             runA \cup
             (IF \E i \in 1..Len(hist) : hist[i].a = "http" THEN {Frame("open"), Frame("ping"), Frame("wsping")}
              ELSE {A("http", <<[a |-> "http", k |-> "ok"]>>)})
             \cup {Op([a |-> "tick", ms |-> 4000]), Op([a |-> "tick", ms |-> 5999]), Op([a |-> "tick", ms |-> 1])})
      [] Focus = "fail" ->
           runA \cup Acks \cup BinAcks \cup NextAtt
           \cup {EmitX(x, cb, b, k) : x \in {"ref", "arg"}, cb \in {"-", T("c")}, b \in BOOLEAN, k \in {0, 2}}
           \cup {Op([Reg("n0", "e1", <<[Reply(b, 1) EXCEPT !.x = x]>>) EXCEPT !.short = FALSE]) : x \in {"ref", "arg"}, b \in BOOLEAN}
           \cup {Event("n0", "e1", "i1"), Event("n1", "e2", "i2"), Op(Fb("n1", <<Keep>>)), EmitCb("n0", "e2", FALSE, 1, <<>>)}
           \cup {A("useack", <<[a |-> "ack", j |-> 1, bin |-> b, n |-> 1, p |-> T("r"), x |-> x]>>) : b \in BOOLEAN, x \in {"ref", "arg"}}
      [] Focus = "mix" ->
           runA \cup NextAtt \cup Acks \cup BinAcks \cup
           {Op(Reg("n0", "e1", s)) : s \in Scripts}
           \cup {Op(Reg("n1", "e1", <<Reply(FALSE, 1)>>)), Op(Fb("n0", <<Keep>>)), Op(Unreg("n0", "e1")),
                 Op(Fb("n1", <<>>)), Op(Unfb("n0"))}
           \cup {Event(ns, ev, id) : ns \in NS, ev \in {"e1", "e2"}, id \in {"-", "i1"}}
           \cup {BinEvent("n0", "e1", "i2", 2), BinEventAll("n1", "e1", "-", 1)}
           \cup {EmitCb("n0", "e1", TRUE, 1, <<>>), EmitNo("n1", "e2", FALSE, 0), EmitCb("n1", "e1", FALSE, 0, <<>>)}
           \cup {Frame("ping"), Frame("wsping"), Op(Raw(n % 4))}
           \cup {A("useack", <<[a |-> "ack", j |-> 1, bin |-> TRUE, n |-> 1, p |-> T("r")]>>)}

\* "disconnect0" stands for a disconnect packet of the root namespace, which has no effect
Fix(s) == [i \in 1..Len(s) |->
             IF s[i].a # "srv" THEN s[i]
             ELSE [s[i] EXCEPT !.f = [j \in 1..Len(s[i].f) |->
                     IF s[i].f[j].t = "disconnect0" THEN [t |-> IF n % 2 = 0 THEN "disconnect" ELSE "connect", ns |-> IF n % 3 = 0 THEN "n0" ELSE "n1"]
                     ELSE s[i].f[j]]]]

Opening == <<[a |-> "connect"], [a |-> "http", k |-> "ok"], Run, Srv(<<F("open")>>), Run>>
GenInit == hist = <<>> /\ d = 0 /\ n = 1 /\ owed = <<>> /\ em = <<>> /\ last = "-"

GenNext ==
    /\ d < Depth
    /\ \E x \in Options :
         /\ hist' = hist \o Fix(x.s)
         /\ d' = d + 1 /\ n' = n + 1
         /\ owed' = (CASE x.k = "att" -> Tail(owed)
                      [] x.k = "atts100" -> SubSeq(owed, 101, Len(owed))
                      [] x.k = "atts155" -> SubSeq(owed, 156, Len(owed))
                      [] OTHER -> owed) \o x.o
         /\ em' = em \o x.e
         /\ last' = x.k

Ending ==
    CASE Focus = "many" -> <<Srv(owed), Run, Emit("n0", "e5", FALSE, 0, "-", <<>>), Run>>
      [] Focus = "manyclose" -> <<[a |-> "unstall"], [a |-> "close"], Run, Srv(<<F("wsclose")>>), Run, [a |-> "eof"], Run>>
      [] Focus \in {"connect", "deadline", "close", "bad"} ->
           <<Run, Srv(<<F("ping")>>), Run, [a |-> "close"], Run, Srv(<<F("wsclose")>>), Run, [a |-> "eof"], Run>>
      [] Focus = "ping" -> <<Run, Srv(<<F("ping")>>), Run>>
      [] Focus \in {"route", "reply", "reent"} -> <<Run, Srv(<<EvFrame("n0", "e1", "i6", 0 - 1)>>), Run>>
      [] Focus = "dropin" ->
           LET late == IF Len(em) = 0 \/ n % 3 = 0 THEN <<>> ELSE <<AckFrame(em[Len(em)].p, em[Len(em)].ns, 0, 0 - 1)>> IN
           <<Reg("n0", "e2", <<>>), Srv(<<EvFrame("n0", "e1", "i6", 0 - 1)>> \o late
             \o <<[EvFrame("n0", "e2", "i7", 0 - 1) EXCEPT !.p = Tk("q", 1)]>>), Run, Run>>
      [] Focus = "drop" -> <<[a |-> "drop"], Srv(<<EvFrame("n0", "e1", "i6", 0 - 1), F("ping")>>), Run,
                             [a |-> "ack", j |-> 1, bin |-> FALSE, n |-> 0, p |-> T("r")], Srv(<<F("ping")>>), Run>>
      [] OTHER -> <<Run, Emit("n0", "e5", FALSE, 0, "-", <<>>), Run>>

\* What comes while the client is being closed is handled all the same.
ClosingEnd ==
    <<[a |-> "close"]>> \o (IF n % 2 = 0 THEN <<Run>> ELSE <<>>)
    \o <<Srv(owed), Srv(<<EvFrame("n0", "e1", "i6", 0 - 1), F("ping"), [EvFrame("n1", "e1", "-", 1) EXCEPT !.p = Tk("q", 7)],
                           AttFrame(Tk("q", 7), 1, 1), [EvFrame("n0", "e2", "-", 0 - 1) EXCEPT !.p = Tk("q", 8)]>>),
         Run, Srv(<<F("wsclose")>>), Run, [a |-> "eof"], Run>>
Closes == {"route", "ack", "asm", "reply", "reent", "ping", "mix"}

Script(end) == (IF Focus \in {"connect", "deadline"} THEN <<>> ELSE Opening) \o hist \o end

\* Printed once, when it is complete.
Finish ==
    /\ d = Depth
    /\ \E c \in {RandomElement(1..4)} :
         PrintT(<<"SCRIPT", ToJson(Script(IF Focus \in Closes /\ c = 1 THEN ClosingEnd ELSE Ending))>>)
    /\ d' = d + 1 /\ UNCHANGED <<hist, n, owed, em, last>>

GenSpec == GenInit /\ [][GenNext \/ Finish]_gvars
=============================================================================
