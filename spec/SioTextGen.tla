----------------------------- MODULE SioTextGen -----------------------------
(***************************************************************************)
(* Texts to decode.  FOCUS = chars: every text over an alphabet up to a    *)
(* length.  FOCUS = parts: well-formed packets from parts, some of them    *)
(* then damaged in one place.  Characters that are awkward in TLA+ strings *)
(* are written ~x (see lib/pure.py).                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Focus == IOEnv.FOCUS
Depth == atoi(IOEnv.DEPTH)

VARIABLES stage, parts, stack, d
vars == <<stage, parts, stack, d>>

Alphabet == {"0", "1", "2", "5", "6", "-", "/", ",", "[", "]", "\"", "a", " ", "{", "~b"}

Heads == {"0", "1", "2", "3", "5", "6"}
BadHeads == {"4", "7", "9", "", " 2", "~e"}
Counts == {"0-", "1-", "2-", "12-", "300-"}
BadCounts == {"", "01-", "00-", "-", "18446744073709551615-", "18446744073709551616-", "3", "99999999999999999999-", "-1-", "1--", "1_"}
Nss == {"", "/a,", "/nsp,", "/a/b-c,", "/12,", "/[,", "/{\"a\":1},", "/~e,", "/~m,", "/ a,", "/0-,", "//,", "/n~nl,", "/~z,", "/1[2],", "/]\",", "/?q=1&r,"}
BadNss == {"/", "/,", "/a", ",", "a,", "/,,", "~e,"}
Ids == {"", "0", "7", "10", "255", "4294967296", "18446744073709551615", "9223372036854775808", "9007199254740993"}
BadIds == {"01", "00", "18446744073709551616", "-1", "99999999999999999999", "1.5", "+1", "1 ", "~e", "1-"}
Leaves == {"1", "-1", "0", "-0", "1.5", "1e9", "1E+2", "0.5e-3", "true", "false", "null", "\"\"", "\"a\"", "\"a,b\"",
           "\"]\"", "\"[\"", "\"~b\"\"", "\"~b~b\"", "\"~e\"", "\"~m\"", "\"~bu00e9\"", "\"~bud83d~bude00\"", "\"~bn~b/\"",
           "{}", "[]", "\",[\"", "\"/x,\"", "\"2-\"", "12345678901234567890123", "1e999", "\"{~b\"k~b\":1}\""}
Odd == {"01", "1.", ".5", "+1", "-", "1e", "\"", "\"a", "a", "nul", "True", "NaN", "'a'", "\"~bx\"", "\"~bu12\"", "\"~t\"", "\"~n\"",
        "\"~z\"", "[1", "{", "{\"a\"}", "{\"a\":}", "{a:1}", "{\"a\":1,}", "[1,]", "[,1]", "1 1", "", "}", "]", "~bu00e9", "\"~bud800\""}
Blanks == {"", "", "", " ", "~t", "~n", "~r", "  "}
Junk == {"0", "9", "-", "/", ",", "[", "]", "\"", " ", "~n", "~z", "~e", "{", "}", "x", "~b", ":"}

Init == stage = (IF Focus = "chars" THEN "chars" ELSE "head") /\ parts = <<>> /\ stack = <<>> /\ d = 0

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Show(s) == PrintT(<<"SCRIPT", ToJson(<<Cat(s)>>)>>)

Step(st, ps, sk) == stage' = st /\ parts' = ps /\ stack' = sk /\ d' = d + 1

\* The next piece of the argument array.  stack: what is open, innermost first.
Args ==
    LET top == Head(stack)
        full == d > Depth IN
    CASE top = "a0" ->      \* just opened
           \/ ~full /\ \E x \in Leaves, b \in Blanks : Step("args", parts \o <<b, x, b>>, <<"a1">> \o Tail(stack))
           \/ ~full /\ Step("args", Append(parts, "["), <<"a0", "a1">> \o Tail(stack))
           \/ ~full /\ Step("args", Append(parts, "{"), <<"o0", "a1">> \o Tail(stack))
           \/ Len(stack) > 1 /\ Step("args", Append(parts, "]"), Tail(stack))
           \/ Len(stack) = 1 /\ RandomElement(1..6) = 1 /\ Step("mutate", Append(parts, "]"), <<>>)
           \/ full /\ Len(stack) = 1 /\ Step("args", Append(parts, "\"z\""), <<"a1">>)
      [] top = "a1" ->
           \/ ~full /\ \E x \in Leaves, b \in Blanks : Step("args", parts \o <<",", b, x>>, stack)
           \/ ~full /\ \E b \in Blanks : Step("args", parts \o <<",", b, "[">>, <<"a0">> \o stack)
           \/ ~full /\ \E b \in Blanks : Step("args", parts \o <<b, ",", "{">>, <<"o0">> \o stack)
           \/ \E b \in Blanks :
                IF Len(stack) = 1 THEN Step("mutate", parts \o <<b, "]">>, <<>>)
                ELSE Step("args", parts \o <<b, "]">>, Tail(stack))
      [] top = "o0" ->
           \/ Step("args", Append(parts, "}"), Tail(stack))
           \/ ~full /\ \E x \in Leaves, b \in Blanks : Step("args", parts \o <<b, "\"k\"", b, ":", b, x>>, <<"o1">> \o Tail(stack))
           \/ ~full /\ Step("args", parts \o <<"\"~bn\"", ":", "[">>, <<"a0", "o1">> \o Tail(stack))
      [] top = "o1" ->
           \/ \E b \in Blanks : Step("args", parts \o <<b, "}">>, Tail(stack))
           \/ ~full /\ \E x \in Leaves, b \in Blanks : Step("args", parts \o <<b, ",", b, "\"\"", ":", x>>, stack)
           \/ ~full /\ Step("args", parts \o <<",", "\"k\"", ":", "{">>, <<"o0">> \o stack)

Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))

Mostly(good, bad) == IF RandomElement(1..16) = 1 THEN bad ELSE good

Next ==
    CASE stage = "chars" ->
           \/ d < Depth /\ \E c \in Alphabet : Step("chars", Append(parts, c), <<>>)
           \/ d = Depth /\ Show(parts) /\ Step("end", parts, <<>>)
      [] stage = "head" -> \E x \in Mostly(Heads, BadHeads) : Step("count", <<x>>, <<>>)
      [] stage = "count" ->
           \E x \in IF parts[1] \in {"5", "6"} THEN Mostly(Counts, BadCounts) ELSE Mostly({""}, BadCounts \cup Counts) :
              Step("ns", Append(parts, x), <<>>)
      [] stage = "ns" -> \E x \in Mostly(Nss, BadNss) : Step("id", Append(parts, x), <<>>)
      [] stage = "id" ->
           IF parts[1] \in {"0", "1"}
             THEN \E x \in Mostly({""}, Ids) : IF RandomElement(1..8) = 1 THEN Step("args", parts \o <<x, "[">>, <<"a0">>)
                                                               ELSE Step("mutate", Append(parts, x), <<>>)
             ELSE \E x \in Mostly(IF parts[1] \in {"3", "6"} THEN Ids \ {""} ELSE Ids, BadIds \cup {""}) :
                    Step("args", parts \o <<x, "[">>, <<"a0">>)
      [] stage = "args" -> Args
      [] stage = "mutate" ->
           \E how \in {RandomElement(1..9)} :
           (CASE how <= 5 -> Step("print", parts, <<>>)
             [] how = 6 -> \E i \in 1..Len(parts) : Step("print", Drop(parts, i), <<>>)
             [] how = 7 -> \E x \in Junk : Step("print", Ins(parts, RandomElement(0..Len(parts)), x), <<>>)
             [] how = 8 -> \E x \in Odd : Step("print", [parts EXCEPT ![RandomElement(1..Len(parts))] = x], <<>>)
             [] how = 9 -> \E x \in Leaves : Step("print", [parts EXCEPT ![RandomElement(1..Len(parts))] = x], <<>>))
      [] stage = "print" -> Show(parts) /\ Step("end", parts, <<>>)
      [] OTHER -> FALSE

Spec == Init /\ [][Next]_vars
=============================================================================
