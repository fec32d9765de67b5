------------------------------- MODULE SioMC -------------------------------
(***************************************************************************)
(* Bounded exhaustive checking of SioClient.  A scenario gives streams of  *)
(* frames the server sends and streams of calls the application makes;     *)
(* streams are sent in order, and interleaved with each other and with     *)
(* every step of the client in every possible way.                         *)
(*                                                                         *)
(* The properties are stated on what can be observed: calls of callbacks,  *)
(* frames on the wire, outcomes of connect() and close().                  *)
(***************************************************************************)
EXTENDS SioClient, Json, IOUtils

Scen == IOEnv.SCEN
MutIs(s) == IOEnv.MUT = s
MLockHeld == MutIs("LockHeld")
MSendFirst == MutIs("SendFirst")
MReuseId == MutIs("ReuseId")
MAckKept == MutIs("AckKept")
MNoFlush == MutIs("NoFlush")
MEarlyMsg == MutIs("EarlyMsg")
MFallbackBoth == MutIs("FallbackBoth")
MSplitBatch == MutIs("SplitBatch")
MPongLost == MutIs("PongLost")
MCallsGoOn == MutIs("CallsGoOn")

VARIABLES
    si,     \* how far each server stream is
    oi,     \* how far each stream of calls is
    queued  \* every packet queued so far (history)

mvars == <<vars, si, oi, queued>>

\* the next one, or one from elsewhere
MCIdFor(op) == IF MReuseId THEN {"0", "1"} ELSE {ToString(Len(used)), ToString(9 - Len(used))}

-----------------------------------------------------------------------------
(* Scenarios                                                               *)

F(t) == [t |-> t]
Ev(ns, ev, id, n, p) == [t |-> "event", ns |-> ns, ev |-> ev, id |-> id, n |-> n, p |-> p]
Ak(ns, id, n, p) == [t |-> "ack", ns |-> ns, id |-> id, n |-> n, p |-> p]
At(p, i) == [t |-> "att", p |-> p, i |-> i]
Text(k) == [t |-> k]
Plain == 0 - 1

Reg(ns, ev, h, s) == [a |-> "reg", ns |-> ns, ev |-> ev, h |-> h, s |-> s]
Fb(ns, h, s) == [a |-> "fb", ns |-> ns, h |-> h, s |-> s]
Unreg(ns, ev) == [a |-> "unreg", ns |-> ns, ev |-> ev]
Unfb(ns) == [a |-> "unfb", ns |-> ns]
Emit(ns, ev, bin, n, p, cb, s) ==
    [a |-> "emit", ns |-> ns, ev |-> ev, bin |-> bin, n |-> n, p |-> p, cb |-> cb, s |-> s]
Reply(bin, n, p) == [a |-> "reply", bin |-> bin, n |-> n, p |-> p]
Keep == [a |-> "keep"]
UseAck(j, bin, n, p) == [a |-> "ack", j |-> j, bin |-> bin, n |-> n, p |-> p]
Close == [a |-> "close"]
Op(a) == [a |-> a]
Wait(ms) == [a |-> "tick", ms |-> ms]

Connecting == Scen \in {"connect", "early", "dial"}

Server ==
    CASE Scen = "route" -> << <<Ev("n0", "e1", "-", Plain, "q1"), Ev("n1", "e1", "-", Plain, "q2"), Text("disconnect"),
                                Ev("n0", "e2", "-", Plain, "q3"), Ev("n0", "e1", "-", Plain, "q4"), Ev("n1", "e2", "i1", 0, "q5")>> >>
      [] Scen = "route2" -> << <<Ev("n0", "e1", "-", Plain, "q1"), Ev("n1", "e1", "-", Plain, "q2")>>,
                              <<Ev("n0", "e2", "-", Plain, "q3"), Ev("n0", "e1", "-", Plain, "q4")>>,
                              <<Text("disconnect"), Ev("n1", "e2", "i1", 0, "q5")>> >>
      [] Scen = "ack" -> << <<Ak("n0", "0", Plain, "a1"), Ak("n0", "1", Plain, "a2")>>,
                            <<Ak("n1", "1", Plain, "a3"), Ak("n0", "0", Plain, "a4")>> >>
      [] Scen = "ackok" -> << <<Ak("n0", "0", Plain, "a1")>>, <<Ak("n0", "2", Plain, "a2")>>,
                              <<Ak("n1", "0", Plain, "a3")>>, <<Ak("n1", "1", Plain, "a4")>> >>
      [] Scen = "reply" -> << <<Ev("n0", "e1", "i1", Plain, "q1"), Ev("n1", "e1", "i1", Plain, "q2")>>,
                              <<Ev("n0", "e1", "-", Plain, "q3"), Ev("n0", "e2", "i2", Plain, "q4")>> >>
      [] Scen = "asm" -> << <<Ev("n0", "e1", "-", 2, "q1"), At("q1", 1), At("q1", 2)>>,
                            <<F("ping"), F("wsping"), F("ping")>>,
                            <<Text("event0")>>, <<Text("connect")>> >>
      [] Scen = "asmok" -> << <<Ev("n0", "e1", "i1", 2, "q1"), At("q1", 1), At("q1", 2),
                                Ak("n0", "0", 1, "a1"), At("a1", 1), Ev("n0", "e1", "-", 0, "q2"),
                                Ev("n0", "e1", "-", 1, "q3"), At("q3", 1)>>,
                              <<F("ping"), F("wsping"), F("pong")>> >>
      [] Scen = "out" -> << <<F("ping"), Ev("n0", "e1", "i1", Plain, "q1"), F("ping")>> >>
      [] Scen = "ping" -> << <<F("ping"), F("ping")>>,
                             <<Ev("n0", "e1", "-", 1, "q1"), At("q1", 1)>>, <<F("wsping")>> >>
      [] Scen = "ping2" -> << <<F("ping"), F("ping"), F("ping")>>,
                             <<Ev("n0", "e1", "-", 2, "q1"), At("q1", 1), At("q1", 2)>>, <<F("wsping"), F("pong")>> >>
      [] Scen = "reent" -> << <<Ev("n0", "e1", "i1", Plain, "q1"), Ev("n0", "e1", "i2", Plain, "q2"),
                                Ev("n0", "e2", "-", Plain, "q3")>>, <<Ak("n0", "0", Plain, "a1")>> >>
      [] Scen = "bad" -> << <<Ev("n0", "e1", "i1", Plain, "q1"), Text("sbad"), Ev("n0", "e1", "-", Plain, "q2"), F("ping")>>,
                            <<F("ebad")>>, <<F("eclose"), F("ping")>>, <<F("stray")>> >>
      [] Scen = "badws" -> << <<Ev("n0", "e1", "i1", Plain, "q1"), F("ping"), Ev("n0", "e1", "-", 1, "q2"), At("q2", 1)>>,
                              <<F("eclose")>>, <<F("wsbad"), F("wsclose")>> >>
      [] Scen = "close" -> << <<Ev("n0", "e1", "i1", Plain, "q1"), F("wsclose"), F("eof")>>,
                              <<F("ping")>>, <<F("rderr")>> >>
      [] Scen = "closetime" -> << <<Ev("n0", "e1", "i1", 1, "q1"), At("q1", 1), F("wsclose"), F("eof")>> >>
      [] Scen = "giveup" -> << <<Ev("n0", "e1", "i1", 0, "q1"), Ev("n0", "e2", "-", Plain, "q2"), F("wsclose"), F("eof")>>,
                               <<F("ping")>> >>
      [] Scen = "drop" -> << <<Ev("n0", "e1", "i1", 0, "q1"), Ev("n0", "e2", "-", Plain, "q2"), Ev("n0", "e1", "i2", 1, "q3"), At("q3", 1)>>,
                             <<Ak("n0", "0", Plain, "a1")>> >>
      [] Scen = "dial" -> << <<[t |-> "http", k |-> "ok", sp |-> TRUE], F("open")>>, <<F("eof")>> >>
      [] Scen = "connect" -> << <<[t |-> "http", k |-> "ok", sp |-> TRUE], F("open"), Ev("n0", "e1", "-", Plain, "q1")>>,
                                <<F("eof")>>, <<F("wsclose")>> >>
      [] Scen = "early" -> << <<[t |-> "http", k |-> "ok", sp |-> TRUE], F("open"), F("open")>>,
                              <<Ev("n0", "e1", "-", Plain, "q1")>>, <<F("ping")>>, <<F("eclose"), F("pong")>>,
                              <<At("q9", 1)>> >>

Calls ==
    CASE Scen \in {"route", "route2"} -> << <<Reg("n0", "e1", "h1", <<>>), Unreg("n0", "e1")>>,
                              <<Fb("n0", "h2", <<>>), Reg("n1", "e1", "h3", <<>>), Reg("n0", "e1", "h4", <<>>)>>,
                              <<Fb("n1", "h5", <<>>), Unfb("n0")>> >>
      [] Scen = "ack" -> << <<Emit("n0", "e1", FALSE, 0, "p1", "c1", <<>>), Emit("n1", "e1", FALSE, 0, "p2", "c2", <<>>)>>,
                            <<Emit("n0", "e2", FALSE, 0, "p3", "c3", <<Emit("n0", "e3", FALSE, 0, "p4", "c4", <<>>)>>)>> >>
      [] Scen = "ackok" -> << <<Emit("n0", "e1", FALSE, 0, "p1", "c1", <<>>), Emit("n1", "e1", TRUE, 1, "p2", "c2", <<>>),
                              Emit("n0", "e2", FALSE, 0, "p3", "c3", <<>>)>> >>
      [] Scen = "reply" -> << <<Reg("n0", "e1", "h1", <<Reply(FALSE, 0, "r1")>>), Fb("n0", "h2", <<Keep>>)>>,
                              <<Reg("n1", "e1", "h3", <<Keep, Reply(FALSE, 0, "r2")>>)>>,
                              <<UseAck(1, TRUE, 1, "r3"), UseAck(2, FALSE, 0, "r4")>> >>
      [] Scen = "asm" -> << <<Reg("n0", "e1", "h1", <<>>)>> >>
      [] Scen = "asmok" -> << <<Reg("n0", "e1", "h1", <<>>), Emit("n0", "e2", FALSE, 0, "p1", "c1", <<>>)>> >>
      [] Scen = "out" -> << <<Emit("n0", "e1", TRUE, 2, "p1", "-", <<>>), Emit("n0", "e2", TRUE, 1, "p2", "c1", <<>>)>>,
                            <<Reg("n0", "e1", "h1", <<Reply(TRUE, 2, "r1"), Emit("n1", "e1", TRUE, 1, "p3", "-", <<>>)>>)>> >>
      [] Scen \in {"ping", "ping2"} -> << <<Reg("n0", "e1", "h1", <<>>)>>, <<Emit("n0", "e1", TRUE, 2, "p1", "-", <<>>)>> >>
      [] Scen = "reent" -> << <<Reg("n0", "e1", "h1", <<Unreg("n0", "e1"), Reply(FALSE, 0, "r1"), Fb("n0", "h2", <<>>),
                                                       Emit("n0", "e4", FALSE, 0, "p2", "-", <<>>)>>),
                              Emit("n0", "e3", FALSE, 0, "p1", "c1",
                                   <<Reg("n0", "e2", "h3", <<>>), Emit("n0", "e3", FALSE, 0, "p3", "c2", <<>>)>>)>>,
                              <<Unfb("n0")>> >>
      [] Scen \in {"bad", "badws"} -> << <<Reg("n0", "e1", "h1", <<Reply(FALSE, 0, "r1")>>)>>,
                            <<Emit("n0", "e1", TRUE, 1, "p1", "-", <<>>)>> >>
      [] Scen = "close" -> << <<Reg("n0", "e1", "h1", <<Reply(TRUE, 1, "r1")>>), Emit("n0", "e2", TRUE, 1, "p1", "-", <<>>), Close, Close>>,
                              <<Op("wrerr")>> >>
      [] Scen = "closetime" -> << <<Reg("n0", "e1", "h1", <<Reply(FALSE, 0, "r1")>>), Emit("n0", "e2", FALSE, 0, "p1", "-", <<>>),
                                    Op("stall"), Close>>, <<Wait(9), Wait(1)>>, <<Op("unstall")>>, <<Op("drop")>> >>
      [] Scen = "connect" -> << <<Op("connect"), Op("cancel")>>, <<Wait(9), Wait(1)>>, <<Op("wrerr")>> >>
      [] Scen = "early" -> << <<Op("connect")>> >>
      [] Scen = "dial" -> << <<Op("later"), Op("up")>>, <<Op("down")>>, <<Op("cancel")>>, <<Wait(9), Wait(1)>>, <<Op("wrerr")>> >>
      [] Scen = "giveup" -> << <<Reg("n0", "e1", "h1", <<Reply(FALSE, 0, "r1")>>), Emit("n0", "e2", TRUE, 1, "p1", "-", <<>>), Close, Op("cclose"), Close>>,
                               <<Wait(10)>> >>
      [] Scen = "drop" -> << <<Reg("n0", "e1", "h1", <<Reply(FALSE, 0, "r1"), Op("closeme"), Op("dropme"), Reg("n0", "e2", "h4", <<>>)>>),
                               Emit("n0", "e2", TRUE, 1, "p1", "c1", <<Op("dropme")>>), Op("drop")>>,
                             <<Fb("n0", "h2", <<Keep>>)>>, <<UseAck(1, FALSE, 0, "r2")>> >>

-----------------------------------------------------------------------------

MCInit ==
    /\ IF Connecting THEN Init
       ELSE /\ conn = "ok" /\ phase = "-" /\ opened = TRUE
            /\ task = "run" /\ res = "-"
            /\ eng = "Active" /\ asm = None /\ peer = FALSE /\ sentc = FALSE /\ owe = FALSE /\ away = FALSE
            /\ rx = <<F("open")>>
            /\ inq = <<>> /\ outq = <<>> /\ cur = <<>> /\ wire = <<>>
            /\ evs = Empty /\ fbs = Empty /\ acks = Empty /\ used = <<>> /\ stash = <<>>
            /\ calls = <<>> /\ lock = "-" /\ todo = [app |-> <<>>, task |-> <<>>]
            /\ cls = "-" /\ creq = FALSE /\ dropped = FALSE
            /\ now = 0 /\ t0 = 0 /\ tc = 0 /\ wr = "ok"
    /\ si = [i \in 1..Len(Server) |-> 1]
    /\ oi = [i \in 1..Len(Calls) |-> 1]
    /\ queued = <<>>

Ended == \E i \in 1..Len(inq) : inq[i].t \in {"eof", "rderr"}
Visible(f) == f.t = "ack" /\ Scen # "ack" => \E i \in 1..Len(wire) :
                 wire[i].t = "pkt" /\ wire[i].k = "event" /\ wire[i].ns = f.ns /\ wire[i].id = f.id

Send(i) ==
    /\ si[i] <= Len(Server[i]) /\ ~Ended
    /\ LET f == Server[i][si[i]] IN
       /\ Visible(f)
       /\ Connecting /\ f.t \notin {"http", "eof"} => \E j \in 1..Len(Server) : si[j] > 1 /\ Server[j][1].t = "http"
       /\ Deliver(<<IF f.t = "event0" THEN Ev("n0", "e1", "-", Plain, "q9") ELSE f>>)
    /\ si' = [si EXCEPT ![i] = @ + 1]
    /\ UNCHANGED oi

Do(op) ==
    CASE op.a = "connect" -> ConnectStart("hs")
      [] op.a = "later" -> ConnectStart("dial")
      [] op.a = "up" -> Dial(TRUE)
      [] op.a = "down" -> Dial(FALSE)
      [] op.a = "cancel" -> ConnCancel
      [] op.a = "cclose" -> CloseCancel
      [] op.a = "tick" -> Tick(op.ms)
      [] op.a = "wrerr" -> SetWr("err")
      [] op.a = "stall" -> SetWr("stall")
      [] op.a = "unstall" -> SetWr("ok")
      [] op.a = "close" -> CloseStart
      [] op.a = "drop" -> Drop
      [] op.a = "ack" -> AppAck(op.j, op)
      [] OTHER -> AppStart(op)

Act(i) ==
    /\ oi[i] <= Len(Calls[i])
    /\ Do(Calls[i][oi[i]])
    /\ oi' = [oi EXCEPT ![i] = @ + 1]
    /\ UNCHANGED si

New == IF Len(outq') > Len(outq) THEN SubSeq(outq', Len(outq) + 1, Len(outq')) ELSE <<>>

MCNext ==
    /\ \/ (\E i \in 1..Len(Server) : Send(i))
       \/ (\E i \in 1..Len(Calls) : Act(i))
       \/ (Internal /\ UNCHANGED <<si, oi>>)
    /\ queued' = queued \o New

MCSpec == MCInit /\ [][MCNext]_mvars
Own(A) == A /\ UNCHANGED <<si, oi>> /\ queued' = queued \o New
\* Time passes while somebody waits for it.
TimePasses ==
    \/ conn = "pend" /\ now - t0 < Timeout /\ Tick(Timeout - (now - t0))
    \/ cls = "pend" /\ now - tc < Timeout /\ Tick(Timeout - (now - tc))
Fair == WF_mvars(Own(MainStep)) /\ WF_mvars(Own(TaskStep)) /\ WF_mvars(Own(AppStep)) /\ WF_mvars(Own(TimePasses))
LiveSpec == MCInit /\ [][MCNext \/ Own(TimePasses)]_mvars /\ Fair

-----------------------------------------------------------------------------
(* What must hold.  Payloads identify messages.                            *)

RxAt(p) == CHOOSE i \in 1..Len(rx) : rx[i].t \in {"event", "ack"} /\ rx[i].p = p
Came(p) == \E i \in 1..Len(rx) : rx[i].t \in {"event", "ack"} /\ rx[i].p = p
Known(c) == c.p # "?"
Bin(f) == f.t \in {"att", "stray"}
Msg(f) == Bin(f) \/ f.t \in {"connect", "disconnect", "event", "ack", "sbad"}
Handlers == {h \in {"h1", "h2", "h3", "h4", "h5"} : TRUE}

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Count2(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
Sent == SelectSeq(wire, LAMBDA f : f.t # "wsclose")
IsPong(f) == f.t = "pong"
IsPing(f) == f.t = "ping"

\* C01: nothing is delivered or answered before the open packet, or after the Engine.IO close;
\* a second open packet ends the session.
Discipline ==
    /\ \A k \in 1..Len(calls) : Known(calls[k]) =>
          /\ \E i \in 1..Len(rx) : rx[i].t = "open" /\ i < RxAt(calls[k].p)
          /\ \A i \in 1..Len(rx) : rx[i].t = "eclose" => i > RxAt(calls[k].p)
    /\ rx # <<>> /\ task # "done" => \A i \in 1..Len(rx) :
          /\ (Msg(rx[i]) \/ rx[i].t \in {"ping", "pong", "eclose"}) => \E j \in 1..(i-1) : rx[j].t = "open"
          /\ rx[i].t = "open" => \A j \in 1..(i-1) : rx[j].t # "open"
          /\ rx[i].t = "eclose" => \A j \in (i+1)..Len(rx) : rx[j].t \in {"wsping", "wspong", "wsclose"}
    /\ (\E i \in 1..Len(wire) : IsPong(wire[i])) => opened

\* C07: a callback runs with a binary packet exactly when it and its attachments arrived,
\* adjacent among the messages, in order; control frames may come in between.
Reassembled ==
    \A k \in 1..Len(calls) : LET c == calls[k] IN
      Known(c) =>
        /\ Came(c.p)
        /\ rx[RxAt(c.p)].n > 0 =>
             LET s == RxAt(c.p)
                 ms == SelectSeq(SubSeq(rx, s + 1, Len(rx)), Msg) IN
             Len(ms) >= rx[s].n /\ \A i \in 1..rx[s].n : ms[i].t = "att" /\ ms[i].p = c.p /\ ms[i].i = i
\* ... and every packet that is complete has been handed on.
NothingHeld ==
    asm # None /\ task # "done" => LET s == RxAt(asm.pkt.p) IN
        /\ Len(SelectSeq(SubSeq(rx, s + 1, Len(rx)), Msg)) = asm.got
        /\ asm.got < asm.need

\* C08: the right callback, exactly one, at the moment the packet is complete.
RouteRight ==
    Len(calls') > Len(calls) =>
      /\ Len(calls') = Len(calls) + 1
      /\ LET c == calls'[Len(calls')]
             f == rx'[CHOOSE i \in 1..Len(rx') : rx'[i].t \in {"event", "ack"} /\ rx'[i].p = c.p] IN
         Known(c) /\ c.k = "ev" =>
           /\ f.t = "event" /\ f.ev = c.ev /\ c.ack = (f.id # "-")
           /\ IF <<f.ns, f.ev>> \in DOMAIN evs THEN c.h = evs[<<f.ns, f.ev>>].h
              ELSE f.ns \in DOMAIN fbs /\ c.h = fbs[f.ns].h
RouteAll ==
    Len(rx') > Len(rx) /\ asm = None /\ task' # "done" =>
      LET f == rx'[Len(rx')] IN
      f.t = "event" /\ f.n <= 0 /\ (<<f.ns, f.ev>> \in DOMAIN evs \/ f.ns \in DOMAIN fbs)
        => Len(calls') = Len(calls) + 1
Routing == [][RouteRight /\ RouteAll]_mvars

\* C09
AckAtMostOnce ==
    \A i, j \in 1..Len(calls) : i # j /\ calls[i].k = "ak" /\ calls[j].k = "ak" => calls[i].h # calls[j].h
IdsUnique == \A i, j \in 1..Len(used) : i # j => used[i].id # used[j].id
Cb == [p1 |-> "c1", p2 |-> "c2", p3 |-> "c3", p4 |-> "c4"]
AckRight ==
    \A k \in 1..Len(calls) : calls[k].k = "ak" /\ Known(calls[k]) /\ Scen \in {"ack", "ackok"} =>
       LET f == rx[RxAt(calls[k].p)] IN
       \E i \in 1..Len(used) : used[i].ns = f.ns /\ used[i].id = f.id /\ Cb[used[i].p] = calls[k].h
\* a server that acknowledges what it has seen is never refused
AckKnown == Scen \in {"ackok", "asmok", "reent"} => res # "err:proc"

\* C10
ReplyRight ==
    \A i \in 1..Len(wire) : wire[i].t = "pkt" /\ wire[i].k = "ack" =>
       /\ Count2(wire, LAMBDA f : f.t = "pkt" /\ f.k = "ack" /\ f.ns = wire[i].ns /\ f.id = wire[i].id) <=
          Count2(rx, LAMBDA f : f.t = "event" /\ f.ns = wire[i].ns /\ f.id = wire[i].id)

\* C11
Fifo == IsPrefix(Sent, Flat(queued))
Contiguous ==
    \A i \in 1..Len(Sent) : Sent[i].t = "pkt" /\ Sent[i].n > 0 =>
       \A j \in 1..Sent[i].n : i + j <= Len(Sent) => Sent[i+j] = [t |-> "att", p |-> Sent[i].p, i |-> j]
\* as queued as well: no other packet can get in between
QueuedWhole == \A i \in 1..Len(queued) : queued[i][1].t = "pkt" /\ queued[i][1].n > 0 => Len(queued[i]) = queued[i][1].n + 1

\* C12
Pongs == Count2(Flat(queued), IsPong)
PongPerPing ==
    /\ Pongs <= Count2(rx, IsPing)
    /\ task # "done" => Pongs = Count2(rx, IsPing)

\* C13: a callback can always go on, whatever it calls.
CallbackGoesOn == todo.task # <<>> /\ (Head(todo.task).m = "drop" => todo.app = <<>>) => ENABLED (MicroStep("task") \/ Alloc("task"))
CallbackEnds == (todo.task # <<>>) ~> (todo.task = <<>>)

\* C14
ConnectRight ==
    /\ conn = "ok" => opened
    /\ conn \in {"err:timeout", "cancelled"} => dropped
    /\ conn \in {"err:spawn", "err:conn"} => task = "none"
    /\ conn = "err:timeout" => now - t0 >= Timeout
ConnectFinal == [][conn \notin {"-", "pend"} => conn' = conn]_mvars
ConnectEnds == (conn = "pend") ~> (conn # "pend")
Released == (conn # "-" /\ conn # "pend" /\ conn # "ok") ~> (task \in {"none", "done"})

\* C15
CloseRight ==
    /\ cls = "ok" => task = "done" /\ res = "ok" /\ peer
    /\ cls = "err:timeout" => dropped
    /\ \A i \in 1..Len(wire) : wire[i].t = "wsclose" => i = Len(wire)
Flushed == [][task = "drain" /\ task' = "closing" => Flat(queued) = Sent]_mvars
CloseEnds == (cls = "pend") ~> (cls # "pend")
DropEnds == dropped ~> (task \in {"none", "done"})

\* C21: nothing runs, and nothing is registered, once the client is gone.
NoCallsAfter == [][away => calls' = calls]_mvars
NothingKept == away => evs = Empty /\ fbs = Empty /\ acks = Empty

\* C16
Wrong(f) == f.t \in {"sbad", "ebad"}
Contained ==
    /\ (\E i \in 1..Len(rx) : Wrong(rx[i])) =>
          (task = "done" /\ res = "err:proc") \/ (asm # None /\ asm.bad)
    /\ res = "err:proc" => task = "done"
    \* the WebSocket connection fails for reasons of its own
    /\ res = "err:ws" => wr = "err" \/ sentc \/ peer \/ (inq # <<>> /\ inq[1].t \in {"wsbad", "rderr", "eof", "http"})
DeadSilent == [][task = "done" => calls' = calls /\ wire' = wire /\ task' = "done" /\ res' = res]_mvars
=============================================================================
