----------------------------- MODULE SioArgsMC -----------------------------
(***************************************************************************)
(* The builder: arguments are written one after the other, in a stream,    *)
(* and attachments are made on the way; what fails is taken back.          *)
(* SCEN: deep (few arguments, every small tree), many (more arguments).    *)
(***************************************************************************)
EXTENDS SioArgs, TLC, IOUtils
VARIABLES given, vals, atts, first
vars == <<given, vals, atts, first>>
Scen == IOEnv.SCEN
Mut == IOEnv.MUT
MaxArgs == atoi(IOEnv.DEPTH)
Dev == [Exact EXCEPT !.tuple = (Mut = "TupleBytes"), !.empty = (Mut = "EmptyBytes"), !.lead = (Mut = "MixedBytes")]

U(c) == [k |-> "int", ty |-> "u8", cp |-> <<c>>]
Leaves == {U(49), U(50), [k |-> "str", cp |-> <<97, 34>>], [k |-> "bytes", d |-> <<7>>], [k |-> "bytes", d |-> <<>>],
           [k |-> "fail"], [k |-> "int", ty |-> "i32", cp |-> <<53>>]}
Few == {U(49), [k |-> "bytes", d |-> <<7>>], [k |-> "fail"]}
UpTo2(S) == {<<>>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x \in S, y \in S}
GoodKey == [k |-> "str", cp |-> <<107>>]
BadKey == [k |-> "none"]
F(c, x) == [cp |-> <<c>>, v |-> x, skip |-> FALSE]
Over(S) ==
    {[k |-> "seq", v |-> xs, hint |-> TRUE] : xs \in UpTo2(S)}
    \cup {[k |-> "tuple", v |-> xs] : xs \in UpTo2(S)}
    \cup {[k |-> "some", v |-> x] : x \in S}
    \cup {[k |-> "newvar", cp |-> <<78>>, v |-> x] : x \in S}
    \cup {[k |-> "map", v |-> <<[key |-> key, v |-> x]>>] : key \in {GoodKey, BadKey}, x \in S}
    \cup {[k |-> "struct", v |-> <<F(97, x), F(98, y)>>] : x \in S, y \in Few}
L1 == Leaves \cup Over(Leaves)
L1Few == Over(Few)
L2 == L1 \cup Over(L1Few)
Small == Few \cup {x \in L1Few : x.k \in {"seq", "tuple", "struct"}}

\* Attachments that writing x makes, also when it does not get to the end
RECURSIVE Made(_, _), MadeAll(_, _)
MadeAll(xs, n) ==
    IF xs = <<>> THEN [go |-> TRUE, a |-> <<>>]
    ELSE LET x == Made(xs[1], n) IN
         IF ~x.go THEN x
         ELSE LET r == MadeAll(Tail(xs), n + Len(x.a)) IN [go |-> r.go, a |-> x.a \o r.a]
Made(x, n) ==
    LET s == Ser(x, TRUE, n, Dev) IN
    IF s.ok THEN [go |-> TRUE, a |-> s.a]
    ELSE CASE x.k \in {"some", "newvar"} -> Made(x.v, n)
           [] x.k \in {"seq", "tuple"} -> MadeAll(x.v, n)
           [] x.k \in {"map", "struct"} ->
                IF x.k = "map" /\ ~Key(x.v[1].key).ok THEN [go |-> FALSE, a |-> <<>>]
                ELSE MadeAll([i \in 1..Len(x.v) |-> x.v[i].v], n)
           [] OTHER -> [go |-> FALSE, a |-> <<>>]

Init == given = <<>> /\ vals = <<>> /\ atts = <<>> /\ first = TRUE

Add(x) ==
    LET from == IF Mut = "Renumber" THEN 0 ELSE Len(atts)
        s == Ser(x, TRUE, from, Dev) IN
    /\ given' = Append(given, x)
    /\ IF s.ok
       THEN /\ vals' = Append(vals, s.v)
            /\ atts' = atts \o s.a
            /\ first' = FALSE
       ELSE /\ vals' = vals
            /\ atts' = IF Mut = "KeepAtts" THEN atts \o Made(x, from).a ELSE atts
            /\ first' = IF Mut = "KeepFirst" THEN FALSE ELSE first

Next == /\ Len(given) < MaxArgs
        /\ \E x \in (IF Scen = "many" THEN Small ELSE IF given = <<>> THEN L2 ELSE Few) : Add(x)
Spec == Init /\ [][Next]_vars

\* The packet's text so far: a comma before each argument but the first
RECURSIVE Body(_, _)
Body(vs, f) == IF vs = <<>> THEN <<>> ELSE (IF f THEN <<>> ELSE <<Comma>>) \o Text(vs[1]) \o Body(Tail(vs), FALSE)
Written == <<54>> \o Digits(Len(atts)) \o <<Minus, 51, LBrack>> \o Body(vals, vals # <<>> \/ first) \o <<RBrack>>

Successful == SelectSeq(given, Serializable)

\* Numbers 0, 1, 2... in order of appearance, one for each attachment
Numbered == NumsAll(vals) = [i \in 1..Len(atts) |-> i - 1]
\* Placeholders stand for what the argument is without attachments.
Faithful == /\ Len(vals) = Len(Successful)
            /\ \A i \in 1..Len(vals) : JEq(Subst(vals[i], atts), Plain(Successful[i]).v)
\* Failures leave no trace.
NoTrace == LET p == Packed("ack", TRUE, <<>>, given) IN
           vals = p.v /\ atts = p.a /\ first = (Successful = <<>>)
\* What is written is read back.
ReadBack == LET x == Decode(Written) IN
            /\ x.r = "pkt" /\ x.id = <<51>> /\ x.need = Digits(Len(atts)) /\ Len(x.args) = Len(vals)
            /\ \A i \in 1..Len(vals) : JEq(Json(x.args[i]).v, vals[i])

\* The byte strings of a tree, found without writing it
RECURSIVE Strings(_), StringsAll(_)
StringsAll(xs) == IF xs = <<>> THEN <<>> ELSE Strings(xs[1]) \o StringsAll(Tail(xs))
Strings(x) ==
    CASE x.k = "bytes" -> <<x.d>>
      [] x.k \in {"some", "newvar"} -> Strings(x.v)
      [] x.k = "tuple" -> StringsAll(x.v)
      [] x.k = "seq" -> (IF x.v # <<>> /\ {x.v[i].k : i \in 1..Len(x.v)} = {"int"} /\ {x.v[i].ty : i \in 1..Len(x.v)} = {"u8"}
                         THEN <<[i \in 1..Len(x.v) |-> x.v[i].cp[1] - 48]>> ELSE StringsAll(x.v))
      [] x.k \in {"map", "struct"} -> StringsAll([i \in 1..Len(x.v) |-> x.v[i].v])
      [] OTHER -> <<>>
Exactly == atts = StringsAll(Successful)
=============================================================================
