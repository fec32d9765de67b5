---------------------------- MODULE SioEngineGen ----------------------------
(***************************************************************************)
(* Sequences of messages and encodings.  FOCUS = short: all sequences over *)
(* few messages; long: random ones over many; open: one open packet, put   *)
(* together from fields, among a few other messages.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Focus == IOEnv.FOCUS
Depth == atoi(IOEnv.DEPTH)
VARIABLES h, o, n
vars == <<h, o, n>>

T(s) == [t |-> "text", s |-> s, d |-> <<>>]
B(d) == [t |-> "bin", s |-> "", d |-> d]
C(t, s) == [t |-> t, s |-> s, d |-> <<>>]

OpenText == "0{\"sid\":\"s1\",\"upgrades\":[],\"pingInterval\":25000,\"pingTimeout\":5000}"
Few == {T(OpenText), T("1"), T("2"), T("3"), T("42[\"a\"]"), T("4"), T(""), T("0"), T("x"), B(<<4, 1>>), B(<<>>), B(<<5, 4>>),
        C("ping", "2"), C("pong", ""), C("close", ""), C("etext", "x"), [t |-> "ebin", s |-> "", d |-> <<0, 255>>]}
Many == Few \cup
        {T(x) : x \in {"2probe", "3probe", "5", "6", "7", "8", "9", "/", "~e", "~m4", " 4", "~n", "4~n", "4~z", "4~e~m", "44", "40", "1x", "11",
                       "0{}", "0[]", "0null", "0\"a\"", "0{", "0 ", "-1", "04", "4{\"sid\":\"x\"}", "~z4", "Open", "b4AQ=="}}
        \cup {B(d) : d \in {<<4>>, <<4, 4>>, <<4, 0, 0, 255>>, <<52, 4>>, <<0>>, <<3>>, <<255>>, <<1>>, <<2>>, <<132>>}}
        \cup {C(t, s) : t \in {"ping", "pong"}, s \in {"", "2", "4abc"}} \cup {C("close", "x"), C("close", "-")}
        \cup {C("etext", s) : s \in {"", "4", "2[\"~e~m\"]", "~z", "0/a,", "~n"}} \cup {C("eping", ""), C("epong", "")}
        \cup {[t |-> "ebin", s |-> "", d |-> d] : d \in {<<>>, <<4>>, <<4, 4, 0>>, <<255, 254>>}}

Keys == {"sid", "pingTimeout", "pingInterval", "sid", "upgrades", "maxPayload", "Sid", "ping_timeout", "pingtimeout", "s~bu0069d", ""}
Strs == {"\"\"", "\"abc\"", "\"~e~m\"", "\"a~b\"b\"", "\"~bu0041~bn\"", "\"0~bu0000\""}
Nums == {"0", "1", "5000", "25000", "18446744073709551615", "9223372036854775808"}
OddVals == {"-1", "-0", "1.5", "1e3", "25000.0", "18446744073709551616", "null", "true", "[]", "{}", "\"5000\"", "[1]", "{\"sid\":\"x\"}", "~z", "01", "\"",
            "{\"a\":[1,{\"b\":null}]}", "\"~bud800\"", "[\"~bx\"]"}
Vals(k) == IF k \in {"sid", "s~bu0069d"} THEN Strs ELSE IF k \in {"pingTimeout", "pingInterval"} THEN Nums ELSE Strs \cup Nums \cup {"[]", "null", "{\"a\":[1]}"}
Blank == {"", "", " ", "~n", "~t"}
Mostly(good, bad) == IF RandomElement(1..14) = 1 THEN bad ELSE good

Init == h = <<>> /\ o = <<>> /\ n = 0
Say == PrintT(<<"SCRIPT", ToJson(h)>>)

Join(xs) == xs[1] \o (IF Len(xs) > 1 THEN "," \o xs[2] ELSE "") \o (IF Len(xs) > 2 THEN "," \o xs[3] ELSE "")
              \o (IF Len(xs) > 3 THEN "," \o xs[4] ELSE "") \o (IF Len(xs) > 4 THEN "," \o xs[5] ELSE "")
\* The keys of the open packet, in some order; sometimes one is missing or there is another
Orders == {<<"sid", "pingTimeout", "pingInterval">>, <<"pingInterval", "sid", "pingTimeout">>, <<"sid", "upgrades", "pingInterval", "pingTimeout">>,
           <<"maxPayload", "pingTimeout", "pingInterval", "", "s~bu0069d">>, <<"pingInterval", "pingTimeout", "sid">>}
BadOrders == {<<"sid">>, <<"sid", "pingTimeout">>, <<"sid", "pingInterval">>, <<"pingTimeout", "pingInterval">>, <<"Sid", "pingTimeout", "pingInterval">>,
              <<"sid", "ping_timeout", "pingInterval">>, <<"sid", "pingTimeout", "pingInterval", "sid">>, <<"sid", "sid", "pingInterval", "pingInterval">>,
              <<"sid", "pingtimeout", "pingInterval">>, <<"upgrades">>}

Next ==
    CASE Focus \in {"short", "long"} ->
           \/ n < Depth /\ n' = n + 1 /\ UNCHANGED o
              /\ IF Focus = "short" THEN \E m \in Few : h' = Append(h, m)
                 ELSE \E m \in (IF n = 0 /\ RandomElement(1..3) > 1 THEN {T(OpenText)}
                                ELSE IF RandomElement(1..12) = 1 THEN {T(OpenText), T("1")} ELSE Many \ {T("1")}) : h' = Append(h, m)
           \/ n = Depth /\ Say /\ n' = n + 1 /\ UNCHANGED <<h, o>>
      [] Focus = "open" ->
           \/ n = 0 /\ \E ks \in {RandomElement(Mostly(Orders, BadOrders))} : o' = [k |-> ks, v |-> <<>>] /\ n' = 1 /\ h' = <<>>
           \/ /\ n = 1 /\ Len(o.v) < Len(o.k)
              /\ \E k \in {o.k[Len(o.v) + 1]}, b \in Blank :
                   \E v \in Mostly(Vals(k), OddVals) : o' = [o EXCEPT !.v = Append(@, b \o "\"" \o k \o "\"" \o b \o ":" \o v \o b)]
              /\ UNCHANGED <<h, n>>
           \/ /\ n = 1 /\ Len(o.v) = Len(o.k)
              /\ \E end \in Mostly({"}"}, {"", "}}", "},", ",}", "]", "} x", "}~z"}), b \in Blank :
                   h' = (IF RandomElement(1..4) = 1 THEN <<T("42[\"early\"]")>> ELSE <<>>) \o <<T("0" \o b \o "{" \o Join(o.v) \o end \o b)>>
              /\ n' = 2 /\ UNCHANGED o
           \/ n \in 2..3 /\ n' = n + 1 /\ UNCHANGED o /\ \E m \in Few : h' = Append(h, m)
           \/ n = 4 /\ n' = 5 /\ Say /\ UNCHANGED <<h, o>>
Spec == Init /\ [][Next]_vars
=============================================================================
