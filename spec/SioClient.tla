------------------------------ MODULE SioClient ------------------------------
(***************************************************************************)
(* One session of the Socket.IO client: the application's calls, the       *)
(* connection task, the callbacks it runs, and the WebSocket in between.   *)
(*                                                                         *)
(* Grain: one action per critical section or message of the code.  An      *)
(* application call or the body of a callback is a list of micro-steps,    *)
(* todo.app and todo.task, each of which takes one lock or sends on one    *)
(* channel, so that every interleaving of an application thread with the   *)
(* connection task on a multi-threaded executor is a behaviour.            *)
(*                                                                         *)
(* Names, ids and payloads are opaque tokens.  Every message has a payload *)
(* token of its own, so a history identifies which message is which.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
    Timeout,            \* of connect() and of close(), ms
    IdFor(_),           \* ids the next acknowledgeable emission of this op may take
    \* Deviations, FALSE in the specification.  Switched on one at a time, they
    \* show that each property fails when the design is broken.
    MutLockHeld,        \* callbacks run while the map of callbacks is locked
    MutSendFirst,       \* a packet is sent before its ack callback is registered
    MutReuseId,         \* ids start over
    MutAckKept,         \* ack callbacks stay registered when they are called
    MutNoFlush,         \* close() drops what is still queued
    MutEarlyMsg,        \* text messages are accepted before the open packet
    MutFallbackBoth,    \* the fallback runs in addition to the event's callback
    MutSplitBatch,      \* the frames of a packet are queued one by one
    MutPongLost,        \* a ping between the parts of a binary packet is not answered
    MutCallsGoOn        \* callbacks run for what arrived before the client was dropped

VARIABLES
    conn,       \* what became of connect(): "-", "pend", "ok", "err:..", "cancelled"
    phase,      \* of a pending connect(): "dial" (the application's connector), then "up" or "down",
                \* "hs" (WebSocket handshake), "open"
    opened,     \* the open packet was forwarded to connect()
    task,       \* connection task: "none", "run", "drain", "closing", "done"
    res,        \* what it ended with
    eng,        \* Engine.IO decoder: "Initial", "Active", "Closed"
    asm,        \* binary packet being put together
    peer,       \* the server's WebSocket close frame was received
    sentc,      \* ours was sent, or is about to be
    owe,        \* our close frame is still to be written
    inq,        \* frames on their way to the client
    outq,       \* packets queued by the client, each a sequence of frames
    cur,        \* rest of the packet being written
    wire,       \* frames the client has written
    evs, fbs, acks,     \* registered callbacks
    used,       \* ids handed out
    stash,      \* ack builders kept by callbacks
    calls,      \* invocations of callbacks so far
    lock,       \* who holds the map of callbacks
    todo,       \* micro-steps left of the application's call and of the task's callback
    cls,        \* what became of close()
    creq,       \* close() has asked the task to close
    away,       \* the application has dropped the client
    dropped,    \* the connection task is cancelled
    now, t0, tc,        \* clock, start of connect() and of close()
    wr,         \* writes: "ok", "stall", "err"
    rx          \* frames received so far (history)

vars == <<conn, phase, opened, task, res, eng, asm, peer, sentc, owe, inq, rx, outq, cur, wire,
          evs, fbs, acks, used, stash, calls, lock, todo, cls, creq, away, dropped, now, t0, tc, wr>>
\* Groups left alone together
vConn == <<conn, phase, opened, t0>>
vProt == <<eng, asm, peer>>
vCbs  == <<evs, fbs, acks, used, stash, lock>>
vCls  == <<cls, creq, away, dropped, tc>>
vWs   == <<sentc, owe>>
vIn   == <<inq, rx>>

None == [none |-> TRUE]
Empty == [x \in {} |-> None]

Init ==
    /\ conn = "-" /\ phase = "-" /\ opened = FALSE
    /\ task = "none" /\ res = "-"
    /\ eng = "Initial" /\ asm = None /\ peer = FALSE /\ sentc = FALSE /\ owe = FALSE /\ away = FALSE /\ rx = <<>>
    /\ inq = <<>> /\ outq = <<>> /\ cur = <<>> /\ wire = <<>>
    /\ evs = Empty /\ fbs = Empty /\ acks = Empty /\ used = <<>> /\ stash = <<>>
    /\ calls = <<>> /\ lock = "-" /\ todo = [app |-> <<>>, task |-> <<>>]
    /\ cls = "-" /\ creq = FALSE /\ dropped = FALSE
    /\ now = 0 /\ t0 = 0 /\ tc = 0 /\ wr = "ok"

-----------------------------------------------------------------------------
(* connect()                                                               *)

\* The stream is there, or still to be made by the application's connector.
ConnectStart(ph) ==
    /\ conn = "-"
    /\ conn' = "pend" /\ phase' = ph /\ t0' = now
    /\ UNCHANGED <<opened, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, vCls, now, wr>>

\* The connector is done, one way or the other.
Dial(ok) ==
    /\ conn = "pend" /\ phase = "dial"
    /\ phase' = (IF ok THEN "up" ELSE "down")
    /\ UNCHANGED <<conn, opened, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, vCls, now, t0, wr>>

\* The time allowed for the handshake starts when there is a stream.
Dialled ==
    /\ conn = "pend" /\ phase \in {"up", "down"}
    /\ IF phase = "up" THEN conn' = conn /\ phase' = "hs" /\ t0' = now
       ELSE conn' = "err:conn" /\ phase' = "-" /\ t0' = t0
    /\ UNCHANGED <<opened, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, vCls, now, wr>>

\* The response to the upgrade request, complete; k says whether it is right, sp
\* whether the executor accepts the connection task.
HttpResponse ==
    /\ conn = "pend" /\ phase = "hs" /\ inq # <<>> /\ Head(inq).t = "http"
    /\ IF Head(inq).k # "ok" THEN phase' = "-" /\ conn' = "err:ws" /\ task' = task
       ELSE IF Head(inq).sp THEN phase' = "open" /\ task' = "run" /\ conn' = conn
       ELSE phase' = "-" /\ conn' = "err:spawn" /\ task' = task
    /\ inq' = Tail(inq)
    /\ UNCHANGED <<opened, res, vProt, vWs, rx, outq, cur, wire, vCbs, calls, todo, vCls, now, t0, wr>>

\* The stream breaks before that.
HsFails ==
    /\ conn = "pend" /\ phase = "hs"
    /\ wr = "err" \/ (inq # <<>> /\ Head(inq).t # "http")
    /\ conn' = "err:ws" /\ phase' = "-"
    /\ UNCHANGED <<opened, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, vCls, now, t0, wr>>

ConnOpen ==
    /\ conn = "pend" /\ opened
    /\ conn' = "ok" /\ phase' = "-"
    /\ UNCHANGED <<opened, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, vCls, now, t0, wr>>

\* The connection ended before it was opened.
ConnEnded ==
    /\ conn = "pend" /\ phase = "open" /\ task = "done" /\ ~opened
    /\ conn' = (IF res = "ok" THEN "err:ws" ELSE res)
    /\ phase' = "-"
    /\ UNCHANGED <<opened, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, vCls, now, t0, wr>>

\* Giving up cancels the connection task, if there is one.
ConnTimeout ==
    /\ conn = "pend" /\ phase \in {"hs", "open"} /\ now - t0 >= Timeout
    /\ conn' = "err:timeout" /\ phase' = "-" /\ dropped' = TRUE
    /\ UNCHANGED <<opened, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, cls, creq, away, tc, now, t0, wr>>

ConnCancel ==
    /\ conn = "pend"
    /\ conn' = "cancelled" /\ phase' = "-" /\ dropped' = TRUE
    /\ UNCHANGED <<opened, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, cls, creq, away, tc, now, t0, wr>>

-----------------------------------------------------------------------------
(* Calls of the application, and the operations callbacks perform           *)

ClientHere == conn = "ok" /\ cls # "pend" /\ ~away

Frames(k, ns, ev, id, bin, n, p) ==
    LET c == IF bin THEN n ELSE 0 IN
    <<[t |-> "pkt", k |-> k, ns |-> ns, ev |-> ev, id |-> id,
       n |-> (IF bin THEN n ELSE 0 - 1), p |-> (IF p = "p0" /\ n = 0 THEN "p0" ELSE p)]>>
    \o [i \in 1..c |-> [t |-> "att", p |-> p, i |-> i]]

\* Queue one packet: in one go, or (deviation) frame by frame.
Push(who, fs) ==
    IF MutSplitBatch THEN [i \in 1..Len(fs) |-> [m |-> "push", b |-> <<fs[i]>>]]
    ELSE <<[m |-> "push", b |-> fs]>>

\* Adding an argument to it fails and takes its builder with it: nothing is sent.  (Arguments that
\* fail and leave the builder leave no trace: x is "ref" then, which makes no difference here.)
Lost(op) == op.a \in {"emit", "reply", "ack"} /\ "x" \in DOMAIN op /\ op.x = "arg"

\* The micro-steps of one operation.  `ab` is the ack builder at hand, or None.
Micro(op, ab) ==
    CASE op.a = "reg" -> <<[m |-> "setev", key |-> <<op.ns, op.ev>>, v |-> [h |-> op.h, s |-> op.s]]>>
      [] op.a = "fb" -> <<[m |-> "setfb", key |-> op.ns, v |-> [h |-> op.h, s |-> op.s]]>>
      [] op.a = "unreg" -> <<[m |-> "clrev", key |-> <<op.ns, op.ev>>]>>
      [] op.a = "unfb" -> <<[m |-> "clrfb", key |-> op.ns]>>
      [] Lost(op) -> <<>>
      [] op.a = "emit" /\ op.cb = "-" /\ ~Lost(op) ->
            <<[m |-> "push", b |-> Frames("event", op.ns, op.ev, "-", op.bin, op.n, op.p)]>>
      [] op.a = "emit" /\ op.cb # "-" /\ ~Lost(op) -> <<[m |-> "alloc", op |-> op]>>
      [] op.a = "abandon" -> <<>>
      [] op.a = "raw" -> <<[m |-> "push", b |-> [j \in 1..op.k |-> [t |-> "raw", p |-> op.p \o "x" \o ToString(j)]]]>>
      [] op.a = "reply" /\ ~Lost(op) ->
            IF ab = None THEN <<>>
            ELSE <<[m |-> "reply", b |-> Frames("ack", ab.ns, "-", ab.id, op.bin, op.n, op.p)]>>
      [] op.a = "dropme" -> <<[m |-> "drop"]>>
      [] op.a = "closeme" -> <<[m |-> "close"]>>
      [] op.a = "keep" -> IF ab = None THEN <<>> ELSE <<[m |-> "keep", ab |-> ab]>>

RECURSIVE Script(_, _)
Script(s, ab) ==
    IF s = <<>> THEN <<>>
    ELSE Micro(Head(s), ab)
         \o Script(Tail(s), IF Head(s).a \in {"reply", "keep"} THEN None ELSE ab)

\* What follows once the id of an acknowledgeable emission is chosen.
Emission(op, id) ==
    LET reg == <<[m |-> "setack", key |-> <<op.ns, id>>, v |-> [h |-> op.cb, s |-> op.s]]>>
        snd == [i \in 1..(IF MutSplitBatch THEN Len(Frames("event", op.ns, op.ev, id, op.bin, op.n, op.p)) ELSE 1) |->
                 [m |-> "push", b |->
                    IF MutSplitBatch THEN <<Frames("event", op.ns, op.ev, id, op.bin, op.n, op.p)[i]>>
                    ELSE Frames("event", op.ns, op.ev, id, op.bin, op.n, op.p)]]
    IN IF MutSendFirst THEN snd \o reg ELSE reg \o snd

AppStart(op) ==
    /\ ClientHere /\ todo.app = <<>>
    /\ todo' = [todo EXCEPT !.app = Micro(op, None)]
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, vCls, now, wr>>

\* Use the j-th ack builder that was kept.
AppAck(j, op) ==
    /\ todo.app = <<>> /\ j \in 1..Len(stash) /\ stash[j] # None
    /\ todo' = [todo EXCEPT !.app =
                  IF Lost(op) THEN <<>> ELSE
                  <<[m |-> "reply", b |-> Frames("ack", stash[j].ns, "-", stash[j].id, op.bin, op.n, op.p)]>>]
    /\ stash' = [stash EXCEPT ![j] = None]
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, outq, cur, wire,
                   evs, fbs, acks, used, lock, calls, vCls, now, wr>>

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NeedsLock(m) == m.m \in {"setev", "setfb", "clrev", "clrfb", "setack", "drop"}

\* A client that is dropped lets go of every callback, and cancels its connection task.
LetGo ==
    /\ away' = TRUE /\ dropped' = TRUE
    /\ IF MutCallsGoOn THEN UNCHANGED <<evs, fbs, acks>>
       ELSE evs' = Empty /\ fbs' = Empty /\ acks' = Empty

\* A callback that starts to close the client and gives up on that at once.
TryClose ==
    IF creq THEN cls' = "err:already" /\ UNCHANGED <<creq, dropped>>
    ELSE cls' = "cancelled" /\ creq' = TRUE /\ dropped' = TRUE

MicroStep(who) ==
    /\ todo[who] # <<>>
    /\ LET m == Head(todo[who])
           rest == Tail(todo[who])
           skip == ~ClientHere /\ m.m \notin {"reply", "keep", "unlock"} IN
       \* the task's callback has no client to work on while close() has it
       IF who = "task" /\ skip
         THEN /\ todo' = [todo EXCEPT ![who] = rest]
              /\ UNCHANGED <<evs, fbs, acks, used, stash, lock, outq, away, dropped, cls, creq>>
         ELSE
           /\ NeedsLock(m) => lock = "-"
           /\ todo' = [todo EXCEPT ![who] =
                         rest]
           \* nobody is using a client that is dropped
           /\ IF m.m = "drop" THEN todo.app = <<>> ELSE UNCHANGED away
           /\ IF m.m = "close" THEN TryClose ELSE UNCHANGED <<cls, creq>> /\ (m.m # "drop" => UNCHANGED dropped)
           /\ CASE m.m = "setev" -> evs' = (m.key :> m.v) @@ evs
                                    /\ UNCHANGED <<fbs, acks, used, stash, lock, outq>>
                [] m.m = "setfb" -> fbs' = (m.key :> m.v) @@ fbs
                                    /\ UNCHANGED <<evs, acks, used, stash, lock, outq>>
                [] m.m = "clrev" -> evs' = Without(evs, m.key)
                                    /\ UNCHANGED <<fbs, acks, used, stash, lock, outq>>
                [] m.m = "clrfb" -> fbs' = Without(fbs, m.key)
                                    /\ UNCHANGED <<evs, acks, used, stash, lock, outq>>
                [] m.m = "setack" -> acks' = (m.key :> m.v) @@ acks
                                    /\ UNCHANGED <<evs, fbs, used, stash, lock, outq>>
                [] m.m \in {"push", "reply"} -> outq' = Append(outq, m.b)
                                    /\ UNCHANGED <<evs, fbs, acks, used, stash, lock>>
                [] m.m = "keep" -> stash' = Append(stash, m.ab)
                                    /\ UNCHANGED <<evs, fbs, acks, used, lock, outq>>
                [] m.m = "unlock" -> lock' = "-"
                                    /\ UNCHANGED <<evs, fbs, acks, used, stash, outq>>
                [] m.m = "drop" -> LetGo /\ UNCHANGED <<used, stash, lock, outq>>
                [] m.m = "close" -> UNCHANGED <<evs, fbs, acks, used, stash, lock, outq>>
                [] m.m = "alloc" -> FALSE
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, cur, wire, calls, tc, now, wr>>

\* Choose the id of an acknowledgeable emission: one never used before.
Fresh(id) == MutReuseId \/ \A i \in 1..Len(used) : used[i].id # id

Alloc(who) ==
    /\ todo[who] # <<>> /\ Head(todo[who]).m = "alloc"
    /\ ClientHere
    /\ LET op == Head(todo[who]).op IN
       \E id \in IdFor(op) :
          /\ Fresh(id)
          /\ used' = Append(used, [ns |-> op.ns, id |-> id, p |-> op.p])
          /\ todo' = [todo EXCEPT ![who] = Emission(op, id) \o Tail(todo[who])]
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, outq, cur, wire,
                   evs, fbs, acks, stash, lock, calls, vCls, now, wr>>

-----------------------------------------------------------------------------
(* The connection task: receiving                                          *)

IsText(f) == f.t \in {"connect", "disconnect", "event", "ack", "sbad"}
IsBin(f) == f.t \in {"att", "stray"}
IsMsg(f) == IsText(f) \/ IsBin(f)

\* A complete packet: which callback it is for.  "bad" ends the connection.
Route(p) ==
    IF p.t = "event" THEN
        IF <<p.ns, p.ev>> \in DOMAIN evs THEN [to |-> "ev", v |-> evs[<<p.ns, p.ev>>]]
        ELSE IF p.ns \in DOMAIN fbs THEN [to |-> "ev", v |-> fbs[p.ns]]
        ELSE [to |-> "none"]
    ELSE IF p.t = "ack" THEN
        IF <<p.ns, p.id>> \in DOMAIN acks THEN [to |-> "ack", v |-> acks[<<p.ns, p.id>>]]
        ELSE [to |-> "bad"]
    ELSE [to |-> "none"]

Count(p) == IF p.n > 0 THEN p.n ELSE 0

\* The effect of one message on the protocol state: an outcome, the new decoder
\* and reassembly state, a packet to dispatch, frames to queue.
Outcome(o, e, a, d, q) == [o |-> o, eng |-> e, asm |-> a, disp |-> d, push |-> q]
Bad == Outcome("err:proc", eng, None, None, <<>>)

Process(f) ==
    CASE f.t \in {"wsping", "wspong"} -> Outcome("ok", eng, asm, None, <<>>)
      [] f.t = "ebad" -> Bad
      [] f.t \notin {"wsping", "wspong", "ebad"} /\ eng = "Closed" -> Bad
      [] f.t = "open" /\ eng # "Closed" ->
            IF eng = "Initial" THEN Outcome("ok", "Active", asm, None, <<>>) ELSE Bad
      [] f.t \in {"eclose", "ping", "pong"} /\ eng = "Initial" -> Bad
      [] f.t = "eclose" /\ eng = "Active" -> Outcome("ok", "Closed", asm, None, <<>>)
      [] f.t = "ping" /\ eng = "Active" ->
            Outcome("ok", eng, asm, None,
                    IF MutPongLost /\ asm # None THEN <<>> ELSE << <<[t |-> "pong"]>> >>)
      [] f.t = "pong" /\ eng = "Active" -> Outcome("ok", eng, asm, None, <<>>)
      [] IsMsg(f) /\ eng = "Initial" /\ ~(MutEarlyMsg /\ IsText(f)) -> Bad
      [] IsMsg(f) /\ (eng = "Active" \/ (eng = "Initial" /\ MutEarlyMsg /\ IsText(f))) ->
            IF asm # None THEN
                LET got == asm.got + 1
                    bad == asm.bad \/ IsText(f)
                    odd == asm.odd \/ ~(f.t = "att" /\ f.p = asm.pkt.p /\ f.i = got) IN
                IF got < asm.need
                  THEN Outcome("ok", eng, [asm EXCEPT !.got = got, !.bad = bad, !.odd = odd], None, <<>>)
                  ELSE IF bad THEN Bad
                  ELSE Outcome("ok", eng, None, IF odd THEN [asm.pkt EXCEPT !.p = "?"] ELSE asm.pkt, <<>>)
            ELSE IF f.t \in {"connect", "disconnect"} THEN Outcome("ok", eng, asm, None, <<>>)
            ELSE IF f.t \in {"sbad", "att", "stray"} THEN Bad
            ELSE IF Count(f) > 0
              THEN Outcome("ok", eng, [pkt |-> f, need |-> Count(f), got |-> 0, bad |-> FALSE, odd |-> FALSE], None, <<>>)
              ELSE Outcome("ok", eng, asm, f, <<>>)

Reading == task \in {"run", "closing"} /\ cur = <<>> /\ todo.task = <<>>

End(r) == task' = "done" /\ res' = r

\* Calls made for packet p, given its route.
CallsFor(p, r) ==
    IF r.to = "ev" THEN
        <<[k |-> "ev", h |-> r.v.h, ev |-> p.ev, p |-> p.p, n |-> Count(p), ack |-> p.id # "-"]>>
        \o (IF MutFallbackBoth /\ <<p.ns, p.ev>> \in DOMAIN evs /\ p.ns \in DOMAIN fbs
              THEN <<[k |-> "ev", h |-> fbs[p.ns].h, ev |-> p.ev, p |-> p.p, n |-> Count(p), ack |-> FALSE]>>
              ELSE <<>>)
    ELSE <<[k |-> "ak", h |-> r.v.h, ev |-> "-", p |-> p.p, n |-> Count(p), ack |-> FALSE]>>

RecvMessage(f) ==
    LET x == Process(f)
        p == x.disp
        r == IF p = None THEN [to |-> "none"] ELSE Route(p) IN
    IF x.o # "ok"
      THEN /\ End(x.o)
           /\ UNCHANGED <<eng, asm, outq, calls, todo, acks, lock, opened>>
      ELSE
        /\ (r.to \in {"ev", "ack"} \/ r.to = "bad") => lock = "-"
        /\ eng' = x.eng /\ asm' = x.asm /\ outq' = outq \o x.push
        /\ opened' = (opened \/ (f.t = "open"))
        /\ IF r.to = "bad"
             THEN End("err:proc") /\ UNCHANGED <<calls, todo, acks, lock>>
             ELSE
               /\ UNCHANGED <<task, res>>
               /\ IF r.to = "none" THEN UNCHANGED <<calls, todo, acks, lock>>
                  ELSE
                    /\ calls' = calls \o CallsFor(p, r)
                    /\ acks' = IF r.to = "ack" /\ ~MutAckKept THEN Without(acks, <<p.ns, p.id>>) ELSE acks
                    /\ lock' = IF MutLockHeld THEN "task" ELSE lock
                    /\ todo' = [todo EXCEPT !.task =
                          Script(r.v.s, IF r.to = "ev" /\ p.id # "-" THEN [ns |-> p.ns, id |-> p.id] ELSE None)
                          \o (IF MutLockHeld THEN <<[m |-> "unlock"]>> ELSE <<>>)]

Recv ==
    /\ Reading /\ inq # <<>>
    /\ LET f == Head(inq) IN
       IF f.t \in {"rderr", "wsbad"} \/ (peer /\ f.t # "eof")
         \* the transport failed, a violation of the WebSocket protocol, or a frame after the server's close frame
         THEN End("err:ws") /\ UNCHANGED <<vProt, vIn, outq, vWs, calls, todo, acks, lock, opened>>
       ELSE IF f.t = "eof"
         THEN /\ End(IF peer THEN "ok" ELSE "err:ws")
              /\ UNCHANGED <<vProt, vIn, outq, vWs, calls, todo, acks, lock, opened>>
       ELSE IF f.t = "wsclose"
         \* answered with a close frame of our own, unless that was sent before
         THEN /\ peer' = TRUE /\ inq' = Tail(inq) /\ rx' = Append(rx, f)
              /\ sentc' = TRUE /\ owe' = (owe \/ ~sentc)
              /\ UNCHANGED <<task, res, eng, asm, outq, calls, todo, acks, lock, opened>>
       ELSE /\ inq' = Tail(inq) /\ rx' = Append(rx, f)
            /\ RecvMessage(f)
            /\ UNCHANGED <<peer, vWs>>
    /\ UNCHANGED <<conn, phase, t0, cur, wire, evs, fbs, used, stash, vCls, now, wr>>

\* A text message among the attachments of a binary packet may be refused
\* before the packet is complete.
Poisoned ==
    /\ Reading /\ asm # None /\ asm.bad
    /\ End("err:proc")
    /\ UNCHANGED <<vConn, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, vCls, now, wr>>

-----------------------------------------------------------------------------
(* The connection task: sending and closing                                *)

TakeBatch ==
    /\ task \in {"run", "drain"} /\ cur = <<>> /\ todo.task = <<>> /\ outq # <<>>
    /\ cur' = Head(outq) /\ outq' = Tail(outq)
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, wire, vCbs, calls, todo, vCls, now, wr>>

Write ==
    /\ task \in {"run", "drain"} /\ cur # <<>> /\ wr = "ok"
    /\ IF sentc
         \* nothing may follow a close frame
         THEN End("err:ws") /\ UNCHANGED <<wire, cur>>
         ELSE wire' = Append(wire, Head(cur)) /\ cur' = Tail(cur) /\ UNCHANGED <<task, res>>
    /\ UNCHANGED <<vConn, vProt, vWs, vIn, outq, vCbs, calls, todo, vCls, now, wr>>

\* close() was called: send what is queued, then the close frame, then keep
\* receiving until the server ends the connection.  A client that is dropped may
\* get as far as this.
StartClose ==
    /\ task = "run" /\ (creq \/ dropped) /\ cur = <<>> /\ todo.task = <<>>
    /\ task' = "drain"
    /\ outq' = IF MutNoFlush THEN <<>> ELSE outq
    /\ UNCHANGED <<vConn, res, vProt, vWs, vIn, cur, wire, vCbs, calls, todo, vCls, now, wr>>

SendClose ==
    /\ task = "drain" /\ cur = <<>> /\ outq = <<>>
    /\ task' = "closing" /\ sentc' = TRUE /\ owe' = (owe \/ ~sentc)
    /\ UNCHANGED <<vConn, res, vProt, vIn, outq, cur, wire, vCbs, calls, todo, vCls, now, wr>>

\* The WebSocket layer writes our close frame.
WriteClose ==
    /\ task \in {"run", "closing"} /\ owe /\ cur = <<>> /\ wr = "ok"
    /\ wire' = Append(wire, [t |-> "wsclose"]) /\ owe' = FALSE
    /\ UNCHANGED <<vConn, task, res, vProt, sentc, vIn, outq, cur, vCbs, calls, todo, vCls, now, wr>>

TaskFails ==
    /\ task \in {"run", "drain", "closing"} /\ wr = "err" /\ todo.task = <<>>
    /\ End("err:ws") /\ cur' = <<>>
    /\ UNCHANGED <<vConn, vProt, vWs, vIn, outq, wire, vCbs, calls, todo, vCls, now, wr>>

\* Dropping the handle cancels the task between two of its steps.
TaskCancelled ==
    /\ task \in {"run", "drain", "closing"} /\ dropped /\ todo.task = <<>>
    /\ End("cancelled") /\ cur' = <<>>
    /\ UNCHANGED <<vConn, vProt, vWs, vIn, outq, wire, vCbs, calls, todo, vCls, now, wr>>

-----------------------------------------------------------------------------
(* close(), drop                                                           *)

CloseStart ==
    /\ ClientHere /\ todo.app = <<>>
    /\ IF creq THEN cls' = "err:already" /\ UNCHANGED <<creq, tc>>
       ELSE cls' = "pend" /\ creq' = TRUE /\ tc' = now
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, away, dropped, now, wr>>

CloseDone ==
    /\ cls = "pend" /\ task = "done" /\ ~dropped
    /\ cls' = res
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, creq, away, dropped, tc, now, wr>>

\* The client stays usable for further calls, but its connection is cancelled.
CloseTimeout ==
    /\ cls = "pend" /\ now - tc >= Timeout
    /\ cls' = "err:timeout" /\ dropped' = TRUE
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, creq, away, tc, now, wr>>

\* Giving up on close() cancels the connection; the client stays.
CloseCancel ==
    /\ cls = "pend"
    /\ cls' = "cancelled" /\ dropped' = TRUE
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, creq, away, tc, now, wr>>

Drop ==
    /\ conn = "ok" /\ ~away /\ todo.app = <<>> /\ lock = "-"
    /\ LetGo /\ cls' = (IF cls = "pend" THEN "-" ELSE cls)
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, outq, cur, wire, used, stash, lock, calls, todo, creq, tc, now, wr>>

-----------------------------------------------------------------------------
(* The world outside                                                       *)

Deliver(fs) ==
    /\ inq' = inq \o fs
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, rx, outq, cur, wire, vCbs, calls, todo, vCls, now, wr>>

Tick(ms) ==
    /\ now' = now + ms
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, vCls, t0, wr>>

SetWr(w) ==
    /\ wr' = (IF wr = "err" THEN "err" ELSE w)
    /\ UNCHANGED <<vConn, task, res, vProt, vWs, vIn, outq, cur, wire, vCbs, calls, todo, vCls, now>>

\* Steps of the client itself: of connect() and close(), of the connection task
MainStep == Dialled \/ HttpResponse \/ HsFails \/ ConnOpen \/ ConnEnded \/ ConnTimeout \/ CloseDone \/ CloseTimeout
TaskStep == \/ MicroStep("task") \/ Alloc("task") \/ Recv \/ Poisoned \/ TakeBatch \/ Write
            \/ StartClose \/ SendClose \/ WriteClose \/ TaskFails \/ TaskCancelled
AppStep == MicroStep("app") \/ Alloc("app")
Internal == MainStep \/ TaskStep \/ AppStep

\* Nothing of that is left to do.
Quiet ==
    /\ todo.app = <<>> /\ todo.task = <<>>
    /\ conn = "pend" => /\ ~opened /\ phase \notin {"up", "down"}
                        /\ phase = "dial" \/ now - t0 < Timeout
                        /\ ~(phase = "open" /\ task = "done")
                        /\ phase = "hs" => inq = <<>>
    /\ cls = "pend" => now - tc < Timeout /\ task # "done"
    /\ dropped => task \in {"none", "done"}
    /\ task \in {"run", "drain", "closing"} /\ wr # "stall" =>
          /\ task # "drain" /\ inq = <<>> /\ ~owe /\ cur = <<>>
          /\ task = "run" => outq = <<>> /\ ~creq
=============================================================================
