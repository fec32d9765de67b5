------------------------------ MODULE SioTrace ------------------------------
(***************************************************************************)
(* Trace validation: is each recorded session of the real client a         *)
(* behaviour of SioClient?  TRACES is an ndjson file of sessions; one      *)
(* initial state per session.  A session that is accepted to its end is    *)
(* printed; the driver reports the others.                                 *)
(***************************************************************************)
EXTENDS SioClient, Json, IOUtils

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)

Ev == Traces[tid].ev
TX == Traces[tid].tx
Calls == Traces[tid].calls
Eager == Traces[tid].eager

tvars == <<vars, tid, l>>

\* The id the code chose for the k-th acknowledgeable emission of a payload, if it was seen.
Nth(p) == Cardinality({i \in 1..Len(used) : used[i].p = p}) + 1
TraceIdFor(op) ==
    LET ids == Traces[tid].ids
        k == Nth(op.p) IN
    IF op.p \in DOMAIN ids /\ k <= Len(ids[op.p]) THEN {ids[op.p][k]}
    ELSE {"unseen " \o op.p \o " " \o ToString(k)}

TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1

IsPrefixStep ==
    /\ Len(wire') <= Len(TX) /\ Len(calls') <= Len(Calls)
    /\ Len(wire') > Len(wire) => wire'[Len(wire')] = TX[Len(wire')]
    /\ \A i \in (Len(calls) + 1)..Len(calls') : calls'[i] = Calls[i]

TaskObs == IF task = "none" THEN "none" ELSE IF task = "done" THEN "done" ELSE "run"
ConnFailed == conn \notin {"-", "pend", "ok"}
Gone == task = "done" \/ (task = "none" /\ conn \notin {"-", "pend"})

Consume(e) ==
    \/ e.a = "connect" /\ ConnectStart(IF "via" \in DOMAIN e /\ e.via = "later" THEN "dial" ELSE "hs")
    \/ e.a = "dial" /\ Dial(e.k = "ok")
    \/ e.a = "http" /\ e.k \in {"ok", "rest"}
         /\ Deliver(<<[t |-> "http", k |-> "ok", sp |-> Traces[tid].spawnable]>>)
    \/ e.a = "http" /\ e.k \in {"404", "200", "key", "garbage"} /\ Deliver(<<[t |-> "http", k |-> "bad"]>>)
    \/ e.a = "http" /\ e.k = "part" /\ UNCHANGED vars
    \/ e.a = "srv" /\ Deliver(e.f)
    \/ e.a \in {"eof", "rderr"} /\ Deliver(<<[t |-> e.a]>>)
    \/ e.a = "wrerr" /\ SetWr("err")
    \/ e.a = "stall" /\ SetWr("stall")
    \/ e.a = "unstall" /\ SetWr("ok")
    \/ e.a = "tick" /\ Tick(e.ms)
    \/ e.a = "cancel" /\ ConnCancel
    \/ e.a = "close" /\ CloseStart
    \/ e.a = "cclose" /\ CloseCancel
    \/ e.a = "drop" /\ Drop
    \/ e.a = "ack" /\ AppAck(e.j, e)
    \/ e.a \in {"reg", "fb", "unreg", "unfb", "emit", "abandon", "raw"} /\ AppStart(e)
    \/ e.a = "ret" /\ todo.app = <<>> /\ UNCHANGED vars
    \/ /\ e.a = "obs"
       /\ e.nc = Len(calls) /\ e.nt = Len(wire)
       /\ e.conn = conn /\ e.close = cls /\ e.task = TaskObs
       /\ e.q => Quiet /\ e.gone = Gone
       \* a client that is gone has released its callbacks
       /\ e.q /\ (away \/ ConnFailed) /\ Gone => e.rel
       /\ UNCHANGED vars

\* The connection task runs only where the executor was given the chance.
TraceNext ==
    \/ /\ l <= Len(Ev)
       /\ LET e == Ev[l] IN
          \/ Consume(e) /\ l' = l + 1
             /\ (l = Len(Ev) => PrintT(<<"ACCEPTED", tid>>))
          \/ /\ \/ AppStep
                \/ e.a = "obs" /\ MainStep
                \/ e.a = "obs" /\ e.q /\ TaskStep
                \/ Eager /\ e.a \in {"obs", "ret", "srv"} /\ TaskStep
             /\ IsPrefixStep
             /\ l' = l
       /\ tid' = tid

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* For the report on a session that is not accepted: how far it got.
ShowProgress == IOEnv.SHOW = "1" => PrintT(<<"AT", l, Len(calls), Len(wire), conn, task, res, cls>>)
=============================================================================
