------------------------------ MODULE SioArgs ------------------------------
(***************************************************************************)
(* Arguments on their way out.  A value of the application is a tree of    *)
(* what a Rust type tells its serializer (the serde data model); Ser says  *)
(* which JSON value it becomes, and which byte strings travel as           *)
(* attachments.                                                            *)
(*                                                                         *)
(* Nodes: [k |-> "bool", b], [k |-> "int", ty, cp], [k |-> "float", ty,    *)
(* cp], "char" and "str" [cp], "bytes" [d], "none", "unit", "ustruct",     *)
(* "uvar" [cp], "fail", "hr" [cp] (a string for readable formats, bytes    *)
(* for others), "some" and "newtype" [v], "newvar" [cp, v], "seq" [v],     *)
(* "tuple" [v], "tstruct" [v], "tvar" [cp, v], "map" [v: key and v],       *)
(* "struct" [v: cp, v, skip], "svar" [cp, v].  cp is a text.               *)
(***************************************************************************)
EXTENDS SioText

-----------------------------------------------------------------------------
(* Numbers, compared by value                                              *)

RECURSIVE NatOf(_, _)
\* (large ones are all the same)
NatOf(s, acc) == IF s = <<>> THEN acc ELSE IF acc > 9999999 THEN 99999999 ELSE NatOf(Tail(s), acc * 10 + (s[1] - 48))

RECURSIVE NoLead(_)
NoLead(s) == IF s # <<>> /\ s[1] = 48 THEN NoLead(Tail(s)) ELSE s
RECURSIVE NoTrail(_, _)
NoTrail(s, e) == IF s # <<>> /\ s[Len(s)] = 48 THEN NoTrail(SubSeq(s, 1, Len(s) - 1), e + 1)
                 ELSE [d |-> s, e |-> IF s = <<>> THEN 0 ELSE e]

\* Sign, significant digits and exponent of a JSON number
Norm(s) ==
    LET neg == s[1] = Minus
        i0 == IF neg THEN 2 ELSE 1
        i1 == SkipDigits(s, i0)
        dot == At(s, i1) = Dot
        f1 == IF dot THEN SkipDigits(s, i1 + 1) ELSE i1
        frac == IF dot THEN SubSeq(s, i1 + 1, f1 - 1) ELSE <<>>
        hasE == At(s, f1) \in {101, 69}
        eneg == hasE /\ At(s, f1 + 1) = Minus
        e1 == IF At(s, f1 + 1) \in {43, Minus} THEN f1 + 2 ELSE f1 + 1
        ex == IF ~hasE THEN 0 ELSE IF eneg THEN 0 - NatOf(SubSeq(s, e1, Len(s)), 0) ELSE NatOf(SubSeq(s, e1, Len(s)), 0)
        x == NoTrail(NoLead(SubSeq(s, i0, i1 - 1) \o frac), ex - Len(frac))
    IN [neg |-> neg /\ x.d # <<>>, d |-> x.d, e |-> x.e]

NumEq(a, b) == a = b \/ Norm(a) = Norm(b)

RECURSIVE JEq(_, _)
JEq(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "num" -> NumEq(a.s, b.s)
         [] a.k = "str" -> a.s = b.s
         [] a.k = "arr" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : JEq(a.v[i], b.v[i])
         [] a.k = "obj" -> /\ Len(a.v) = Len(b.v)
                           /\ \A i \in 1..Len(a.v) : a.v[i].key = b.v[i].key /\ JEq(a.v[i].v, b.v[i].v)
         [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Placeholders                                                            *)

PlaceholderKey == <<95, 112, 108, 97, 99, 101, 104, 111, 108, 100, 101, 114>>
NumKey == <<110, 117, 109>>
Placeholder(n) == Obj(<< [key |-> PlaceholderKey, v |-> True], [key |-> NumKey, v |-> Num(Digits(n))] >>)

IsPlaceholder(v) ==
    /\ v.k = "obj" /\ Len(v.v) = 2
    /\ v.v[1].key = PlaceholderKey /\ v.v[1].v.k = "true"
    /\ v.v[2].key = NumKey /\ v.v[2].v.k = "num"
NumOf(v) == NatOf(v.v[2].v.s, 0)

ByteArr(d) == Arr([i \in 1..Len(d) |-> Num(Digits(d[i]))])

\* A value with its placeholders replaced by the arrays of their attachments' bytes
RECURSIVE Subst(_, _)
Subst(v, atts) ==
    IF IsPlaceholder(v) /\ NumOf(v) < Len(atts) THEN ByteArr(atts[NumOf(v) + 1])
    ELSE CASE v.k = "arr" -> Arr([i \in 1..Len(v.v) |-> Subst(v.v[i], atts)])
           [] v.k = "obj" -> Obj([i \in 1..Len(v.v) |-> [key |-> v.v[i].key, v |-> Subst(v.v[i].v, atts)]])
           [] OTHER -> v

\* Numbers of the placeholders in a value, in order of appearance
RECURSIVE Nums(_), NumsAll(_)
Nums(v) ==
    IF IsPlaceholder(v) THEN <<NumOf(v)>>
    ELSE CASE v.k = "arr" -> NumsAll(v.v)
           [] v.k = "obj" -> NumsAll([i \in 1..Len(v.v) |-> v.v[i].v])
           [] OTHER -> <<>>
NumsAll(vs) == IF vs = <<>> THEN <<>> ELSE Nums(vs[1]) \o NumsAll(Tail(vs))

-----------------------------------------------------------------------------
(* Serialization                                                           *)

\* Deviations of the attachments' rules, for checking the specification
Exact == [tuple |-> FALSE, empty |-> FALSE, lead |-> FALSE, newtype |-> FALSE]

SerErr == [ok |-> FALSE, v |-> <<>>, a |-> <<>>]
SerOk(v, a) == [ok |-> TRUE, v |-> v, a |-> a]

NonFinite == {<<78, 97, 78>>, <<105, 110, 102>>, <<45, 105, 110, 102>>}

\* Maps have strings for keys, or what is written as a string.
RECURSIVE Key(_)
Key(x) ==
    CASE x.k \in {"str", "char", "uvar", "int", "hr"} -> [ok |-> TRUE, cp |-> x.cp]
      [] x.k = "bool" -> [ok |-> TRUE, cp |-> IF x.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>]
      [] x.k = "float" -> [ok |-> x.cp \notin NonFinite, cp |-> x.cp]
      [] x.k \in {"newtype", "some"} -> Key(x.v)
      [] OTHER -> [ok |-> FALSE, cp |-> <<>>]

IsU8(x) == x.k = "int" /\ x.ty = "u8"
Byte(x) == NatOf(x.cp, 0)

\* x with n attachments before it; `bin`: bytes travel as attachments
RECURSIVE Ser(_, _, _, _), SerAll(_, _, _, _), SerMap(_, _, _, _), SerFields(_, _, _, _)

\* Elements one after the other
SerAll(xs, bin, n, dev) ==
    IF xs = <<>> THEN SerOk(<<>>, <<>>)
    ELSE LET x == Ser(xs[1], bin, n, dev) IN
         IF ~x.ok THEN SerErr
         ELSE LET r == SerAll(Tail(xs), bin, n + Len(x.a), dev) IN
              IF r.ok THEN SerOk(<<x.v>> \o r.v, x.a \o r.a) ELSE SerErr

SerMap(es, bin, n, dev) ==
    IF es = <<>> THEN SerOk(<<>>, <<>>)
    ELSE LET key == Key(es[1].key)
             x == Ser(es[1].v, bin, n, dev) IN
         IF ~key.ok \/ ~x.ok THEN SerErr
         ELSE LET r == SerMap(Tail(es), bin, n + Len(x.a), dev) IN
              IF r.ok THEN SerOk(<<[key |-> key.cp, v |-> x.v]>> \o r.v, x.a \o r.a) ELSE SerErr

SerFields(fs, bin, n, dev) ==
    IF fs = <<>> THEN SerOk(<<>>, <<>>)
    ELSE IF fs[1].skip THEN SerFields(Tail(fs), bin, n, dev)
    ELSE LET x == Ser(fs[1].v, bin, n, dev) IN
         IF ~x.ok THEN SerErr
         ELSE LET r == SerFields(Tail(fs), bin, n + Len(x.a), dev) IN
              IF r.ok THEN SerOk(<<[key |-> fs[1].cp, v |-> x.v]>> \o r.v, x.a \o r.a) ELSE SerErr

Attach(d, n) == SerOk(Placeholder(n), <<d>>)
As(r, f(_)) == IF r.ok THEN SerOk(f(r.v), r.a) ELSE SerErr
Tagged(cp, v) == Obj(<<[key |-> cp, v |-> v]>>)

BytesOnly(xs, dev) ==
    /\ xs # <<>> \/ dev.empty
    /\ IF dev.lead THEN xs # <<>> /\ IsU8(xs[1]) ELSE \A i \in 1..Len(xs) : IsU8(xs[i])
TheBytes(xs) == LET ys == SelectSeq(xs, IsU8) IN [i \in 1..Len(ys) |-> Byte(ys[i])]

Ser(x, bin, n, dev) ==
    CASE x.k = "fail" -> SerErr
      [] x.k = "bool" -> SerOk(IF x.b THEN True ELSE False, <<>>)
      [] x.k = "int" -> SerOk(Num(x.cp), <<>>)
      [] x.k = "float" -> SerOk(IF x.cp \in NonFinite THEN Null ELSE Num(x.cp), <<>>)
      [] x.k \in {"char", "str", "uvar", "hr"} -> SerOk(Str(x.cp), <<>>)
      [] x.k = "bytes" -> IF bin THEN Attach(x.d, n) ELSE SerOk(ByteArr(x.d), <<>>)
      [] x.k = "raw" -> SerOk(Json(x.cp).v, <<>>)
      [] x.k \in {"none", "unit", "ustruct"} -> SerOk(Null, <<>>)
      [] x.k \in {"some", "newtype"} -> Ser(x.v, bin, n, dev)
      [] x.k = "newvar" -> As(Ser(x.v, bin, n, dev), LAMBDA v : Tagged(x.cp, v))
      [] x.k = "seq" -> IF bin /\ BytesOnly(x.v, dev) THEN Attach(TheBytes(x.v), n)
                        ELSE As(SerAll(x.v, bin, n, dev), Arr)
      [] x.k \in {"tuple", "tstruct"} ->
            IF bin /\ dev.tuple /\ BytesOnly(x.v, dev) THEN Attach(TheBytes(x.v), n)
            ELSE As(SerAll(x.v, bin, n, dev), Arr)
      [] x.k = "tvar" -> As(SerAll(x.v, bin, n, dev), LAMBDA v : Tagged(x.cp, Arr(v)))
      [] x.k = "map" -> As(SerMap(x.v, bin, n, dev), Obj)
      [] x.k = "struct" -> As(SerFields(x.v, bin, n, dev), Obj)
      [] x.k = "svar" -> As(SerFields(x.v, bin, n, dev), LAMBDA v : Tagged(x.cp, Obj(v)))

\* The JSON value it has without attachments
Plain(x) == Ser(x, FALSE, 0, Exact)
Serializable(x) == Plain(x).ok

-----------------------------------------------------------------------------
(* A packet: the arguments that can be serialized, the name first          *)

Leading(kind, ev) == IF kind = "event" THEN << [k |-> "str", cp |-> ev] >> ELSE <<>>
Content(kind, ev, args) == Leading(kind, ev) \o SelectSeq(args, Serializable)
Packed(kind, bin, ev, args) == SerAll(Content(kind, ev, args), bin, 0, Exact)

\* JSON text of a value, without blanks
Escape(c) == IF c = Quote \/ c = Bslash THEN <<Bslash, c>> ELSE <<c>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Quoted(s) == <<Quote>> \o Flat([i \in 1..Len(s) |-> Escape(s[i])]) \o <<Quote>>
RECURSIVE Text(_)
Text(v) ==
    CASE v.k = "null" -> <<110, 117, 108, 108>>
      [] v.k = "true" -> <<116, 114, 117, 101>>
      [] v.k = "false" -> <<102, 97, 108, 115, 101>>
      [] v.k = "num" -> v.s
      [] v.k = "str" -> Quoted(v.s)
      [] v.k = "arr" -> <<LBrack>> \o Join([i \in 1..Len(v.v) |-> Text(v.v[i])]) \o <<RBrack>>
      [] v.k = "obj" -> <<LBrace>> \o Join([i \in 1..Len(v.v) |-> Quoted(v.v[i].key) \o <<Colon>> \o Text(v.v[i].v)]) \o <<RBrace>>
=============================================================================
