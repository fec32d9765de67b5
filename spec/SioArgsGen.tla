---------------------------- MODULE SioArgsGen ----------------------------
(***************************************************************************)
(* Packets to write: arguments are trees built bottom up on a stack.       *)
(* FOCUS: small (every tree of a few nodes), big, fail, heads.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Focus == IOEnv.FOCUS
VARIABLES head, st, n
vars == <<head, st, n>>

IntN(ty, s) == [k |-> "int", ty |-> ty, s |-> s]
Flt(ty, s) == [k |-> "float", ty |-> ty, s |-> s]
S(s) == [k |-> "str", s |-> s]
U8(s) == IntN("u8", s)
Bytes(d) == [k |-> "bytes", d |-> d]

FewLeaves == {U8("7"), U8("255"), S("a"), Bytes(<<4>>), Bytes(<<>>), [k |-> "none"]}
Leaves ==
    {[k |-> "bool", b |-> TRUE], [k |-> "bool", b |-> FALSE], [k |-> "none"], [k |-> "unit"], [k |-> "ustruct"],
     [k |-> "uvar", s |-> "Var"], [k |-> "char", s |-> "~e"], [k |-> "char", s |-> "\""], [k |-> "char", s |-> "~z"],
     [k |-> "hr", s |-> "10.0.0.1"],
     [k |-> "raw", s |-> "{ ~qa~q : [1, 2.50 ,null],~qb~q:~q~bu00e9~q}"], [k |-> "raw", s |-> "[1,2]"], [k |-> "raw", s |-> "-1e2"],
     U8("0"), U8("4"), U8("255"), U8("93"), U8("34"),
     IntN("i8", "-128"), IntN("i8", "5"), IntN("i16", "-300"), IntN("u16", "7"), IntN("u16", "65535"), IntN("i32", "9"),
     IntN("i32", "-2147483648"), IntN("u32", "4294967295"), IntN("i64", "-9223372036854775808"), IntN("i64", "3"),
     IntN("u64", "18446744073709551615"), IntN("u64", "200"),
     IntN("i128", "-170141183460469231731687303715884105728"), IntN("u128", "340282366920938463463374607431768211455"),
     Flt("f64", "1.5"), Flt("f64", "0.1"), Flt("f64", "-0.0"), Flt("f64", "1e300"), Flt("f64", "5e-324"),
     Flt("f64", "123456789.125"), Flt("f64", "NaN"), Flt("f64", "inf"), Flt("f32", "0.1"), Flt("f32", "-2.5"),
     Flt("f32", "NaN"),
     S(""), S("a"), S("~e~m"), S("quote\" ~b ~n"), S("[1,2]"), S("}{\":,"), S("~z"), S("_placeholder"), S("4~t/"),
     S("~b~bu0041"), S("<&>'"),
     Bytes(<<>>), Bytes(<<4>>), Bytes(<<0, 255, 128>>), Bytes(<<34, 93, 91, 123, 125, 44>>),
     Bytes(<<222, 173, 190, 239, 4, 4>>)}
FailLeaves == {[k |-> "fail"], S("x"), U8("1"), U8("2"), Bytes(<<1, 2>>), [k |-> "none"], Flt("f64", "NaN"), IntN("i32", "5")}

\* Possible keys, good and bad
GoodKeys == {S("k"), S(""), S("~e\"~b"), IntN("u8", "9"), IntN("i64", "-3"), IntN("u128", "340282366920938463463374607431768211455"),
             [k |-> "bool", b |-> TRUE], [k |-> "char", s |-> "c"], [k |-> "uvar", s |-> "Key"], Flt("f64", "1.5"),
             [k |-> "newtype", v |-> S("nk")], [k |-> "newtype", v |-> IntN("u16", "12")], [k |-> "hr", s |-> "::1"]}
BadKeys == {[k |-> "none"], [k |-> "unit"], [k |-> "ustruct"], Bytes(<<1>>), [k |-> "seq", v |-> <<U8("1")>>, hint |-> TRUE],
            [k |-> "seq", v |-> <<>>, hint |-> FALSE], [k |-> "tuple", v |-> <<U8("1"), U8("2")>>], [k |-> "map", v |-> <<>>, hint |-> TRUE, kv |-> TRUE],
            [k |-> "struct", v |-> <<>>], [k |-> "fail"], Flt("f64", "NaN"), [k |-> "newvar", s |-> "V", v |-> S("x")],
            [k |-> "newtype", v |-> Bytes(<<5, 6>>)], [k |-> "tstruct", v |-> <<>>]}

Field(s, v) == [s |-> s, v |-> v, skip |-> FALSE]
Skip(s, v) == [s |-> s, v |-> v, skip |-> TRUE]
FieldNames == <<"a", "key", "~e", "num2">>
Fields(xs) == [i \in 1..Len(xs) |-> Field(FieldNames[i], xs[i])]
Pairs(ks, xs) == [i \in 1..Len(xs) |-> [key |-> ks[i], v |-> xs[i]]]

Compounds(xs) ==
    {[k |-> "seq", v |-> xs, hint |-> h] : h \in BOOLEAN}
    \cup {[k |-> t, v |-> xs] : t \in {"tuple", "tstruct"}}
    \cup {[k |-> "tvar", s |-> "Tup", v |-> xs]}
    \cup {[k |-> "struct", v |-> Fields(xs)], [k |-> "svar", s |-> "Str", v |-> Fields(xs)]}
    \cup (IF xs = <<>> THEN {} ELSE {[k |-> "struct", v |-> <<Skip("s", xs[1])>> \o Fields(Tail(xs))],
                                     [k |-> "svar", s |-> "Sk", v |-> Fields(Tail(xs)) \o <<Skip("s", xs[1])>>]})
Maps(xs, ks) ==
    {[k |-> "map", v |-> Pairs(<<ks, S("m"), S("n"), S("m")>>, xs), hint |-> h, kv |-> kv] : h \in BOOLEAN, kv \in BOOLEAN}
Wraps(x) == {[k |-> "some", v |-> x], [k |-> "newtype", v |-> x], [k |-> "newvar", s |-> "New", v |-> x]}

\* Stacks are kept short by reducing them.
Top(j) == SubSeq(st, Len(st) - j + 1, Len(st))
Below(j) == SubSeq(st, 1, Len(st) - j)
Push(x) == st' = Append(st, x)
Reduce(j, x) == st' = Append(Below(j), x)

Arity == IF Focus = "small" THEN 0..3 ELSE 0..4
Keys == IF Focus = "fail" THEN {S("k"), IntN("u8", "9")} \cup BadKeys ELSE GoodKeys

NameSet == {"ev", "", "~e~m", "a,b", "quote\"", "[\"x\"]", "~b~n", "message", "_placeholder", "~z", "4"}
NsSet == {"/", "/a", "/a/b", "/a b", "/~e~m", "/[\"]", "/a-1", "/12", "//", "/\"q~b", "/~z", "/{}"}
IdSet == {"", "0", "7", "10", "4294967296", "18446744073709551615"}
Hd0(kind, bin, ns, id, ev) == [kind |-> kind, bin |-> bin, ns |-> ns, id |-> id, ev |-> ev]
Heads ==
    {Hd0("event", b, ns, id, ev) : b \in BOOLEAN, ns \in NsSet, id \in IdSet, ev \in NameSet}
    \cup {Hd0("ack", b, ns, id, "") : b \in BOOLEAN, ns \in NsSet, id \in IdSet \ {""}}
    \cup {Hd0(k, FALSE, ns, "", "") : k \in {"connect", "disconnect"}, ns \in NsSet}
InitHeads ==
    CASE Focus = "small" -> {Hd0("event", TRUE, "/", "", "e"), Hd0("ack", FALSE, "/a", "3", "")}
      [] Focus = "heads" -> Heads
      [] Focus \in {"seqs", "long"} -> {Hd0("event", TRUE, "/", "", "e")}
      [] OTHER -> {h \in Heads : h.ns \in {"/", "/a", "/[\"]"} /\ h.id \in {"", "7"} /\ h.ev \in {"", "ev", "~e~m"}
                                 /\ h.kind \in {"event", "ack"}}

-----------------------------------------------------------------------------
(* Sequences: what makes them bytes                                        *)

Like(x) == {[k |-> "some", v |-> x], [k |-> "newtype", v |-> x], [k |-> "newvar", s |-> "V", v |-> x]}
Elements ==
    {U8("7"), IntN("i8", "5"), IntN("u16", "200"), IntN("i64", "3"), IntN("u128", "9"), Flt("f32", "2.5"), S("a"), Bytes(<<7>>), Bytes(<<>>),
     [k |-> "none"], [k |-> "unit"], [k |-> "bool", b |-> TRUE], [k |-> "char", s |-> "c"], [k |-> "uvar", s |-> "U"],
     [k |-> "seq", v |-> <<U8("1"), U8("2")>>, hint |-> TRUE], [k |-> "seq", v |-> <<>>, hint |-> TRUE], [k |-> "tuple", v |-> <<U8("3")>>],
     [k |-> "hr", s |-> "::1"]} \cup Like(U8("7")) \cup Like(Bytes(<<1, 2>>))
Rep(x, j) == [k |-> "rep", n |-> j, v |-> x]
LongRuns == {Rep(U8("7"), j) : j \in {126, 255, 257}} \cup {Rep(Bytes(<<1>>), j) : j \in {11, 101}}
            \cup {Rep([k |-> "seq", v |-> <<U8("1")>>, hint |-> FALSE], 12)}
SeqElements == IF Focus = "long" THEN LongRuns \cup {U8("9"), S("x"), Bytes(<<2>>)} ELSE Elements
OfSeq(xs) ==
    {[k |-> "seq", v |-> xs, hint |-> h] : h \in BOOLEAN} \cup {[k |-> t, v |-> xs] : t \in {"tuple", "tstruct"}}
    \cup {[k |-> "tvar", s |-> "Tup", v |-> xs]}
Init == head \in InitHeads /\ st = <<>> /\ n = 0

LeafSet == CASE Focus = "small" -> FewLeaves [] Focus = "fail" -> FailLeaves [] Focus = "heads" -> {U8("1"), S("x"), Bytes(<<1, 2>>)}
             [] OTHER -> Leaves
Limit == IF Focus = "heads" THEN 2 ELSE 6

SeqNext ==
    \/ /\ Len(st) < Depth - 1 /\ n < Depth /\ n' = n + 1 /\ UNCHANGED head
       /\ \E x \in SeqElements : Push(x)
    \/ /\ n < Depth /\ n' = Depth /\ UNCHANGED <<head, st>>
       /\ \A x \in OfSeq(st) : PrintT(<<"SCRIPT", ToJson(<<head, <<x, Bytes(<<9>>)>> >>)>>)

TreeNext ==
    \/ /\ n < Depth /\ n' = n + 1 /\ UNCHANGED head
       /\ head.kind \in {"event", "ack"}
       /\ \/ Len(st) < Limit /\ \E x \in LeafSet : Push(x)
          \/ Focus # "heads" /\ st # <<>> /\ \E x \in Wraps(st[Len(st)]) : Reduce(1, x)
          \/ Focus # "heads" /\ \E j \in Arity : j <= Len(st) /\ (j = 0 => Len(st) < Limit) /\
                \E x \in Compounds(Top(j)) : Reduce(j, x)
          \/ Focus # "heads" /\ \E j \in Arity : j <= Len(st) /\ (j = 0 => Len(st) < Limit) /\
                \E key \in (IF Focus = "small" \/ j = 0 THEN {S("k")} ELSE Keys) : \E x \in Maps(Top(j), key) : Reduce(j, x)
    \/ /\ n = Depth \/ (head.kind \in {"connect", "disconnect"} /\ n = 0) \/ (Focus \in {"small", "heads"} /\ n < Depth)
       /\ PrintT(<<"SCRIPT", ToJson(<<head, st>>)>>) /\ n' = Depth + 1 /\ UNCHANGED <<head, st>>
Next == IF Focus \in {"seqs", "long"} THEN SeqNext ELSE TreeNext
Spec == Init /\ [][Next]_vars
=============================================================================
