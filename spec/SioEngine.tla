----------------------------- MODULE SioEngine -----------------------------
(***************************************************************************)
(* The Engine.IO session: what a sequence of websocket messages means.     *)
(* Messages: [t, d], t one of text bin ping pong close, d code points of   *)
(* texts or bytes.                                                         *)
(***************************************************************************)
EXTENDS SioJson, Integers, FiniteSets

KSid == <<115, 105, 100>>
KTimeout == <<112, 105, 110, 103, 84, 105, 109, 101, 111, 117, 116>>
KInterval == <<112, 105, 110, 103, 73, 110, 116, 101, 114, 118, 97, 108>>
Needed == {KSid, KTimeout, KInterval}

\* Surrogates are no characters of strings
Clean(s) == \A i \in 1..Len(s) : ~(s[i] >= 55296 /\ s[i] <= 57343)
IsU64(v) == v.k = "num" /\ (\A i \in 1..Len(v.s) : IsDigit(v.s[i])) /\ Fits64(v.s)
\* Numbers that are integers, however written
Whole(v) == v.k = "num" /\ (\E i \in 1..Len(v.s) : v.s[i] \in {Dot, 101, 69})

RECURSIVE AllClean(_)
AllClean(v) ==
    CASE v.k = "str" -> Clean(v.s)
      [] v.k = "arr" -> \A i \in 1..Len(v.v) : AllClean(v.v[i])
      [] v.k = "obj" -> \A i \in 1..Len(v.v) : Clean(v.v[i].key) /\ AllClean(v.v[i].v)
      [] OTHER -> TRUE

\* The open packet that a text describes: "ok", "err", or "any" where JSON leaves it open
Open(t) ==
    LET x == Json(t) IN
    IF ~x.ok THEN [r |-> "err"]
    ELSE IF x.v.k = "arr" THEN [r |-> "any"]
    ELSE IF x.v.k # "obj" THEN [r |-> "err"]
    ELSE
    LET o == x.v.v
        With(k) == {i \in 1..Len(o) : o[i].key = k}
        Val(k) == o[CHOOSE i \in With(k) : TRUE].v IN
    IF ~AllClean(x.v) \/ \E k \in Needed : Cardinality(With(k)) > 1 THEN [r |-> "any"]
    ELSE IF \E k \in Needed : With(k) = {} THEN [r |-> "err"]
    ELSE IF Val(KSid).k # "str" THEN [r |-> "err"]
    ELSE IF \E k \in {KTimeout, KInterval} : Val(k).k # "num" \/ (~IsU64(Val(k)) /\ ~Whole(Val(k))) THEN [r |-> "err"]
    ELSE IF \E k \in {KTimeout, KInterval} : Whole(Val(k)) THEN [r |-> "any"]
    ELSE [r |-> "open", sid |-> Val(KSid).s, to |-> Val(KTimeout).s, iv |-> Val(KInterval).s]

Res(st, x) == [st |-> st, x |-> x]
Refused == [r |-> "err"]

\* The session's states: initial, active, closed.  "lost": it is not known which of them.
Decode(st, m) ==
    IF st = "lost" THEN Res(st, [r |-> "any"])
    ELSE IF st = "closed" \/ m.t \in {"ping", "pong", "close"} \/ m.d = <<>> THEN Res(st, Refused)
    ELSE IF m.t = "bin" THEN
        IF st = "active" /\ m.d[1] = 4 THEN Res(st, [r |-> "bin", d |-> Tail(m.d)]) ELSE Res(st, Refused)
    ELSE
    LET c == m.d[1] IN
    CASE c = 48 -> (IF st # "initial" THEN Res(st, Refused)
                    ELSE LET x == Open(Tail(m.d)) IN
                         Res(CASE x.r = "open" -> "active" [] x.r = "any" -> "lost" [] OTHER -> st, x))
      [] c \in 49..52 /\ st = "initial" -> Res(st, Refused)
      [] c = 49 -> Res("closed", [r |-> "eclose"])
      [] c = 50 -> Res(st, [r |-> "eping"])
      [] c = 51 -> Res(st, [r |-> "epong"])
      [] c = 52 -> Res(st, [r |-> "text", d |-> Tail(m.d)])
      [] OTHER -> Res(st, Refused)

\* What an encoding function makes of a payload
Encoded(e) ==
    CASE e.t = "etext" -> [t |-> "text", d |-> <<52>> \o e.d]
      [] e.t = "ebin" -> [t |-> "bin", d |-> <<4>> \o e.d]
      [] e.t = "eping" -> [t |-> "text", d |-> <<50>>]
      [] e.t = "epong" -> [t |-> "text", d |-> <<51>>]
      [] OTHER -> e

\* The code's answer o
Agrees(x, o) ==
    CASE x.r = "any" -> o.r # "panic"
      [] OTHER -> x = o
=============================================================================
