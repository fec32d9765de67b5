----------------------------- MODULE SioDeGen -----------------------------
(***************************************************************************)
(* What arguments are asked for as, and what arrives.  Types are built     *)
(* bottom up on a stack, with three documents each; in the documents       *)
(* ~q is a quote.  FOCUS: small (all types and documents of small sets),   *)
(* mix (random), view (documents only, several of them).                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Focus == IOEnv.FOCUS
VARIABLES atts, st, n
vars == <<atts, st, n>>

Q(s) == "~q" \o s \o "~q"
L(k) == [k |-> k]

Phs(i) == {"{~q_placeholder~q:true,~qnum~q:" \o i \o "}", "{ ~q_placeholder~q : true , ~qnum~q : " \o i \o " }",
           "{~q~bu005fplaceholder~q:true,~qn~bu0075m~q:" \o i \o "}"}
FarNums == {"255", "256", "257", "65536", "65537", "2147483648", "4294967295", "4294967296", "4294967297", "8589934593",
            "9223372036854775808", "18446744073709551615", "18446744073709551616", "36893488147419103233"}
Ph(i) == "{~q_placeholder~q:true,~qnum~q:" \o i \o "}"
PhDocs == UNION {Phs(i) : i \in {"0", "1", "2", "3"}} \cup {Ph(i) : i \in FarNums}
Nums == {"0", "7", "255", "256", "-1", "-128", "1.5", "-0", "1e2", "18446744073709551615", "18446744073709551616",
         "-9223372036854775808", "9223372036854775808", "1e999", "-1e400", "0.1", "1E+2", "-2.5e-3", "3.0", "65536", "1e308"}
Strs == {Q("a"), Q(""), Q("~e"), Q("~bn"), Q("~bu0041b"), Q("hi there"), Q("~m"), Q("~bud83d~bude00"), Q("[1]"), Q("7"),
         Q("_placeholder"), Q("~bud800"), Q("Unit"), Q("New"), Q("true")}
Nested == {"[]", "{}", "[ 1 , 2 ]", "{~qx~q: 1}", "[~qa~q,[null]]", "[255,256]", "{~qb~q:{~qa~q:[{}]}}", "[[7]]"}
Lits == {"null", "true", "false"}
Docs == Nums \cup Strs \cup Nested \cup Lits

Leaves == {"bool", "u8", "i64", "u64", "f64", "char", "str", "bstr", "bytes", "buf", "unit", "ign", "any"}
Exotic == {"i8", "u16", "i32", "u32", "f32", "i128", "u128", "raw", "value", "cow", "boxu8", "vecu8", "hmap", "btree",
           "derived", "flat", "untagged", "tagged", "adjacent", "defaults", "result", "unitstruct", "arr3", "string", "duration",
           "keyed", "optopt"}
Good(k) ==
    CASE k = "bool" -> {"true", "false"}
      [] k = "u8" -> {"0", "7", "255"}
      [] k = "i64" -> {"-1", "-128", "-9223372036854775808", "65536"}
      [] k = "u64" -> {"7", "18446744073709551615", "9223372036854775808"}
      [] k = "f64" -> {"1.5", "-2.5e-3", "1e2", "255", "-0", "0.1"}
      [] k = "char" -> {Q("a"), Q("~e"), Q("~m"), Q("~bn"), Q("~bud83d~bude00")}
      [] k \in {"str", "bstr"} -> {Q("a"), Q("~e"), Q("hi there"), Q(""), Q("~bu0041b"), Q("_placeholder")} \cup Phs("0") \cup Phs("1")
      [] k \in {"bytes", "buf"} -> Phs("0") \cup Phs("1") \cup Phs("2") \cup {Q("a"), Q("~e"), "[1,2]", "[ ]"}
      [] k = "unit" -> {"null"}
      [] k \in {"ign", "any", "value", "raw", "untagged"} -> Docs \cup PhDocs
      [] k = "derived" -> {"{~qid~q:7,~qtags~q:[~qx~q],~qextra~q:null}", "{~qid~q:7,~qtags~q:[],~qmore~q:{}}", "[7,[~qa~q],null]"}
      [] k = "flat" -> {"{~qid~q:7,~qx~q:1,~qy~q:[2]}", "{~qx~q:1}", "{~qy~q:null,~qid~q:1}"}
      [] k = "tagged" -> {"{~qkind~q:~qA~q,~qx~q:1}", "{~qx~q:1,~qkind~q:~qA~q}", "{~qkind~q:~qB~q}"}
      [] k = "adjacent" -> {"{~qt~q:~qA~q,~qc~q:[1,2]}", "{~qc~q:[1,2],~qt~q:~qA~q}", "{~qt~q:~qB~q}"}
      [] k = "defaults" -> {"{}", "{~qid~q:7}", "{~qname~q:~qx~q}"}
      [] k = "result" -> {"{~qOk~q:7}", "{~qErr~q:~qx~q}"}
      [] k = "duration" -> {"{~qsecs~q:7,~qnanos~q:5}", "[7,5]"}
      [] k \in {"hmap", "btree", "keyed"} -> {"{~q7~q:1,~q-3~q:2}", "{}", "{~qa~q:1}", "{~q 7~q:1}", "{~q~bu0037~q:1}", "{~q7.0~q:1}",
                                    "{~q7 ~q:1,~q8~q:2}", "{~qtrue~q:1}", "{~qA~q:1}", "{~q~q:0}"}
      [] k = "arr3" -> {"[1,2,3]"} \cup Phs("2")
      [] k \in {"vecu8", "boxu8"} -> {"[1,2,3]", "[]"} \cup Phs("0") \cup Phs("2")
      [] OTHER -> {"7", "-1", "0", "1.5", "null", Q("a")}

\* One of a set, in a random behaviour
Some(S) == {RandomElement(S)}

FieldNames == <<"a", "b", "~e", "num">>
KeyDocs(i) == CASE i = 1 -> {Q("a"), Q("~bu0061")} [] i = 2 -> {Q("b")} [] i = 3 -> {Q("~e"), Q("~bu00e9")} [] OTHER -> {Q("num")}
MapKeys == {Q("k"), Q(""), Q("7"), Q("-3"), Q(" 7"), Q("true"), Q("~bu0037"), Q("7.0"), Q("~e"), Q("false"), Q("num"), Q("255"), Q("256"),
            Q("-0"), Q("c"), Q("~bn"), Q("7 "), Q("true "), Q("07"), Q("18446744073709551615")}
KeyTypes == {"str", "bstr", "u8", "i64", "u64", "bool", "char", "i8", "f64", "optstr", "newu8", "unitvar", "ignkey", "i128", "cowkey"}

\* Documents put together
RECURSIVE Commas(_)
Commas(ds) == IF Len(ds) = 0 THEN "" ELSE IF Len(ds) = 1 THEN ds[1] ELSE ds[1] \o "," \o Commas(Tail(ds))
ArrDoc(ds) == "[" \o Commas(ds) \o "]"
ObjDoc(ks, ds) == "{" \o Commas([i \in 1..Len(ds) |-> ks[i] \o ":" \o ds[i]]) \o "}"
Column(xs, i) == [j \in 1..Len(xs) |-> xs[j].ds[i]]
Types(xs) == [j \in 1..Len(xs) |-> xs[j].t]
Fields(xs) == [j \in 1..Len(xs) |-> [s |-> FieldNames[j], t |-> xs[j].t]]

Item(t, a, b, c) == [t |-> t, ds |-> <<a, b, c>>]
Top(j) == SubSeq(st, Len(st) - j + 1, Len(st))
Below(j) == SubSeq(st, 1, Len(st) - j)
Reduce(j, x) == st' = Append(Below(j), x)

Push ==
    \E k \in Some(IF RandomElement(1..4) = 1 THEN Exotic ELSE Leaves) :
    \E a \in Some(Good(k)) : \E b \in Some(Good(k)) :
    \E c \in Some(IF RandomElement(1..2) = 1 THEN PhDocs ELSE Docs) :
       st' = Append(st, Item(L(k), a, b, c))

Spoil ==    \* another document for the type on top
    \E x \in {st[Len(st)]} : \E i \in Some(1..3) : \E d \in Some(IF RandomElement(1..2) = 1 THEN PhDocs ELSE Docs) :
       Reduce(1, [x EXCEPT !.ds[i] = d])

Wrap ==
    \E x \in {st[Len(st)]} : \E d \in Some(PhDocs) :
       \/ Reduce(1, [x EXCEPT !.t = [k |-> "opt", t |-> x.t], !.ds[3] = "null"])
       \/ Reduce(1, [x EXCEPT !.t = [k |-> "newtype", t |-> x.t]])
       \/ Reduce(1, Item([k |-> "seq", t |-> x.t], ArrDoc(x.ds), ArrDoc(<<x.ds[1], x.ds[2]>>), d))
       \/ Reduce(1, Item([k |-> "seq", t |-> x.t], ArrDoc(<<x.ds[2], x.ds[1], x.ds[2]>>), "[]", ArrDoc(<<x.ds[3]>>)))
       \/ \E key \in Some(KeyTypes) : \E k1 \in Some(MapKeys) : \E k2 \in Some(MapKeys) : \E k3 \in Some(MapKeys) :
             Reduce(1, Item([k |-> "map", key |-> L(key), t |-> x.t],
                            ObjDoc(<<k1, k2>>, <<x.ds[1], x.ds[2]>>), ObjDoc(<<k3>>, <<x.ds[2]>>),
                            ObjDoc(<<k2, k3, k1>>, x.ds)))

Combine ==
    \E j \in 1..3 : j <= Len(st) /\
    \E xs \in {Top(j)} : \E d \in Some(PhDocs) : \E e \in Some(Docs \cup PhDocs) :
       \/ Reduce(j, Item([k |-> "tuple", ts |-> Types(xs)], ArrDoc(Column(xs, 1)), ArrDoc(Column(xs, 2)), ArrDoc(Column(xs, 3))))
       \/ Reduce(j, Item([k |-> "tuple", ts |-> Types(xs)], ArrDoc(Column(xs, 1)), d, ArrDoc(Append(Column(xs, 2), e))))
       \/ \E k1 \in Some(KeyDocs(1)) : \E k3 \in Some(KeyDocs(3)) :
          LET ks == <<k1, Q("b"), k3, Q("num")>>
              T == [k |-> "struct", fs |-> Fields(xs)] IN
          \/ Reduce(j, Item(T, ObjDoc(ks, Column(xs, 1)), ObjDoc(ks, Column(xs, 2)), ObjDoc(ks, Column(xs, 3))))
          \/ Reduce(j, Item(T, ObjDoc(<<Q("other")>> \o ks, <<e>> \o Column(xs, 1)),
                            ObjDoc([i \in 1..j |-> ks[j + 1 - i]], [i \in 1..j |-> xs[j + 1 - i].ds[2]]),
                            ArrDoc(Column(xs, 3))))
          \/ Reduce(j, Item(T, ObjDoc(Append(SubSeq(ks, 1, j), Q("z")), Append(Column(xs, 1), e)),
                            ObjDoc(SubSeq(ks, 2, 4), Tail(Column(xs, 2))),
                            ObjDoc(Append(SubSeq(ks, 1, j), k1), Append(Column(xs, 3), e))))
       \/ \E T \in {[k |-> "enum", vs |-> << [s |-> "Unit", kind |-> "unit"],
                                             [s |-> "New", kind |-> "new", ts |-> <<xs[1].t>>],
                                             [s |-> "Tup", kind |-> "tup", ts |-> Types(xs)],
                                             [s |-> "Str", kind |-> "str", fs |-> Fields(xs)] >>]} :
          LET Var(s, doc) == ObjDoc(<<Q(s)>>, <<doc>>) IN
          \/ Reduce(j, Item(T, Var("New", xs[1].ds[1]), Var("Tup", ArrDoc(Column(xs, 1))), Var("Str", ObjDoc(<<Q("a"), Q("b"), Q("~e")>>, Column(xs, 1)))))
          \/ Reduce(j, Item(T, Q("Unit"), Var("N~bu0065w", xs[1].ds[2]), Var("Tup", d)))
          \/ Reduce(j, Item(T, Var("Unit", "null"), Var("New", xs[1].ds[3]), Var("Str", ArrDoc(Column(xs, 2)))))
          \/ Reduce(j, Item(T, Var("Tup", ArrDoc(Column(xs, 3))), Var("New", d), Var("Unit", e)))
          \/ Reduce(j, Item(T, Var("None", e), Var("Str", d), ObjDoc(<<Q("New"), Q("Tup")>>, <<xs[1].ds[1], e>>)))

AttLists == {<< <<222, 173, 190, 239>>, <<>>, <<104, 105>> >>, << <<104, 105>> >>, << <<195, 169>>, <<1, 2, 3>> >>,
             << <<1>>, <<2, 255>>, <<0, 128, 7>> >>, << <<4, 4>>, <<91, 49, 93>>, <<>>, <<7>> >>, << <<>> >>,
             [i \in 1..258 |-> <<i % 256, 4>>]}

-----------------------------------------------------------------------------
(* Small: all types of a set with all documents of a set                   *)
T1 == {L(k) : k \in Leaves \cup {"raw", "value", "arr3", "vecu8", "i128", "f32"}}
Over(S) == {[k |-> "opt", t |-> t] : t \in S} \cup {[k |-> "newtype", t |-> t] : t \in S} \cup {[k |-> "seq", t |-> t] : t \in S}
           \cup {[k |-> "map", key |-> L("str"), t |-> t] : t \in S} \cup {[k |-> "tuple", ts |-> <<t, L("any")>>] : t \in S}
           \cup {[k |-> "struct", fs |-> << [s |-> "a", t |-> t] >>] : t \in S}
           \cup {[k |-> "enum", vs |-> << [s |-> "New", kind |-> "new", ts |-> <<t>>], [s |-> "Tup", kind |-> "tup", ts |-> <<t, t>>],
                                          [s |-> "Str", kind |-> "str", fs |-> << [s |-> "a", t |-> t] >>] >>] : t \in S}
T2 == Over({L(k) : k \in {"u8", "str", "bytes", "buf", "any", "ign", "bool"}})
D1 == {Ph(i) : i \in FarNums} \cup {"7", "-1", "1.5", "true", "null", Q("a"), Q("~bn"), "[]", "[7,255]", "{}"} \cup Phs("0") \cup Phs("1") \cup Phs("2")
P0 == "{~q_placeholder~q:true,~qnum~q:0}"
P1 == "{~q_placeholder~q:true,~qnum~q:1}"
P2 == "{~q_placeholder~q:true,~qnum~q:2}"
D2 == UNION {{"[" \o d \o "]", "[" \o d \o ", 7]", "{~qa~q:" \o d \o "}", "{~qNew~q:" \o d \o "}", "{~qx~q:0,~qa~q:" \o d \o "}",
              "{~qTup~q:[" \o d \o "," \o d \o "]}", "{~qTup~q:" \o d \o "}", "{~qStr~q:{~qa~q:" \o d \o "}}"} : d \in {"7", Q("a"), "[1]", P0, P1, P2}}
SmallAtts == {<< <<104, 105>>, <<1, 2>> >>}

Script(t, d) == PrintT(<<"SCRIPT", ToJson(<<[t |-> t, doc |-> d, atts |-> atts]>>)>>)

-----------------------------------------------------------------------------
(* View: documents on their own                                            *)
ViewDocs == Docs \cup PhDocs \cup
            {"1e-7", "123456789012345", "{~qa~q:1,~qb~q:[true,null],~qa~q:2}", "{~q~e~q:~q~bt~q,~qA~q:{}}", "[[[[]]]]",
             "{~qz~q:1,~qa~q:2,~q~bu0061~q:3}", "~q~b~q~b~b~bu0000~q", "~q<>&~q"}
Grow ==
    \/ st' = Append(st, RandomElement(ViewDocs))
    \/ /\ st # <<>> /\ \E x \in {st[Len(st)]} : \E d \in Some(ViewDocs) : \E k \in Some(MapKeys) : \E k2 \in Some(MapKeys) :
          \/ st' = Append(Below(1), ArrDoc(<<x, d>>))
          \/ st' = Append(Below(1), ArrDoc(<<d, x>>))
          \/ st' = Append(Below(1), ObjDoc(<<k, k2>>, <<x, d>>))
          \/ st' = Append(Below(1), ObjDoc(<<k>>, <<x>>))
    \/ /\ Len(st) > 1 /\ st' = Append(Below(2), ArrDoc(Top(2)))

Init ==
    /\ n = 0
    /\ IF Focus = "small" THEN /\ atts \in SmallAtts
                               /\ st \in {<<Item(t, d, d, d)>> : t \in T1 \cup T2, d \in D1 \cup D2}
       ELSE /\ atts \in AttLists \cup (IF Focus = "view" THEN {<<>>} ELSE {}) /\ st = <<>>

Next ==
    CASE Focus = "small" -> /\ n = 0 /\ n' = 1 /\ Script(st[1].t, st[1].ds[1]) /\ UNCHANGED <<atts, st>>
      [] Focus = "mix" ->
           \/ /\ n < Depth /\ n' = n + 1 /\ UNCHANGED atts
              /\ \/ Push
                 \/ st # <<>> /\ (Spoil \/ Wrap \/ Combine)
           \/ /\ n = Depth /\ n' = n + 1 /\ UNCHANGED <<atts, st>>
              /\ \A j \in 1..Len(st) : \A i \in 1..3 : Script(st[j].t, st[j].ds[i])
      [] Focus = "view" ->
           \/ /\ n < Depth /\ n' = n + 1 /\ UNCHANGED atts /\ Grow
           \/ /\ n = Depth /\ n' = n + 1 /\ UNCHANGED <<atts, st>>
              /\ PrintT(<<"SCRIPT", ToJson(<<[docs |-> st, atts |-> atts]>>)>>)
Spec == Init /\ [][Next]_vars
=============================================================================
