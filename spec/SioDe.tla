------------------------------- MODULE SioDe -------------------------------
(***************************************************************************)
(* Arguments on their way in: what a JSON value with placeholders gives    *)
(* when a value of some type is asked for.                                 *)
(*                                                                         *)
(* Types: "bool" "u8" "i64" "u64" "f64" "char" "str" "bstr" (borrowed)     *)
(* "bytes" (borrowed) "buf" "unit" "ign" (content ignored) "any", "opt"    *)
(* and "newtype" [t], "seq" [t], "tuple" [ts], "map" [key, t], "struct"    *)
(* [fs: cp, t], "enum" [vs: cp, kind, ts or fs], and others that are not   *)
(* described.                                                              *)
(*                                                                         *)
(* Results: [r |-> "ok", v], "err" or "any" (not settled).                 *)
(***************************************************************************)
EXTENDS SioArgs

DErr == [r |-> "err"]
DAny == [r |-> "any"]
DOk(v) == [r |-> "ok", v |-> v]

Leaf(k) == [k |-> k]
NumV(s) == [k |-> "num", s |-> s]
StrV(s) == [k |-> "str", s |-> s]
BytesV(d) == [k |-> "bytes", d |-> d]
ListV(v) == [k |-> "list", v |-> v]
PairsV(v) == [k |-> "pairs", v |-> v]
VarV(cp, v) == [k |-> "var", s |-> cp, v |-> v]

RECURSIVE VEq(_, _)
VEq(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "num" -> NumEq(a.s, b.s)
         [] a.k \in {"str", "text"} -> a.s = b.s
         [] a.k = "bytes" -> a.d = b.d
         [] a.k = "bool" -> a.b = b.b
         [] a.k = "some" -> VEq(a.v, b.v)
         [] a.k = "list" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : VEq(a.v[i], b.v[i])
         [] a.k = "pairs" -> Len(a.v) = Len(b.v) /\
               \A i \in 1..Len(a.v) : VEq(a.v[i].key, b.v[i].key) /\ VEq(a.v[i].v, b.v[i].v)
         [] a.k = "var" -> a.s = b.s /\ VEq(a.v, b.v)
         [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Numbers                                                                 *)

IsInt(s) == \A i \in 1..Len(s) : s[i] \in 48..57 \/ s[i] = Minus
Abs(s) == IF s[1] = Minus THEN Tail(s) ELSE s
MaxI64 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
MinI64 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>
InRange(k, s) ==
    /\ IsInt(s)
    /\ CASE k = "u8" -> s[1] # Minus /\ DigitsLe(s, <<50, 53, 53>>)
         [] k = "u64" -> s[1] # Minus /\ Fits64(s)
         [] k = "i64" -> DigitsLe(Abs(s), IF s[1] = Minus THEN MinI64 ELSE MaxI64)
MinusZero(s) == s = <<Minus, 48>>
\* Too large for a double
Huge(s) == LET n == Norm(s) IN n.d # <<>> /\ Len(n.d) + n.e > 309
\* Kept exactly, or not settled how precisely
Simple(s) == LET n == Norm(s) IN Len(n.d) <= 15 /\ n.e > 0 - 300 /\ Len(n.d) + n.e < 300
Exactly64(s) == IsInt(s) /\ (InRange("u64", s) \/ InRange("i64", s))

AsF64(s) == IF Huge(s) THEN DErr ELSE IF Simple(s) THEN DOk(NumV(s)) ELSE DAny
AsAnyNum(s) == IF Exactly64(s) THEN DOk(NumV(s)) ELSE AsF64(s)

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Utf8Char(c) ==
    CASE c < 128 -> <<c>>
      [] c >= 128 /\ c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
      [] c >= 2048 /\ c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
      [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == Flat([i \in 1..Len(s) |-> Utf8Char(s[i])])
\* The text of bytes that are UTF-8 (of at most two bytes a character: what is generated)
RECURSIVE OfUtf8(_, _)
OfUtf8(d, acc) ==
    IF d = <<>> THEN [ok |-> TRUE, s |-> acc]
    ELSE IF d[1] < 128 THEN OfUtf8(Tail(d), Append(acc, d[1]))
    ELSE IF d[1] \in 194..223 /\ Len(d) > 1 /\ d[2] \in 128..191
      THEN OfUtf8(Tail(Tail(d)), Append(acc, (d[1] - 192) * 64 + d[2] - 128))
    ELSE [ok |-> FALSE, s |-> <<>>]

Lone(s) == \E i \in 1..Len(s) : s[i] \in 55296..57343

-----------------------------------------------------------------------------
(* Several results as one: an error anywhere is one, whatever the others.  *)

All(rs, f(_)) ==
    IF \E i \in 1..Len(rs) : rs[i].r = "err" THEN DErr
    ELSE IF \E i \in 1..Len(rs) : rs[i].r = "any" THEN DAny
    ELSE DOk(f([i \in 1..Len(rs) |-> rs[i].v]))
Map1(r, f(_)) == IF r.r = "ok" THEN DOk(f(r.v)) ELSE r

\* Placeholders anywhere in a value whose number is out of range
RECURSIVE Dangling(_, _)
Dangling(v, n) == \E i \in 1..Len(Nums(v)) : Nums(v)[i] >= n

\* A key asked for as type K
KeyAs(K, key, plain) ==
    CASE K.k = "str" -> IF Lone(key) THEN DErr ELSE DOk(StrV(key))
      [] K.k = "bstr" -> IF ~plain THEN DErr ELSE DOk(StrV(key))
      [] K.k \in {"u8", "i64", "u64"} ->
            LET x == Json(key) IN
            IF plain /\ x.ok /\ x.v.k = "num" /\ x.v.s = key /\ ~MinusZero(key) /\ InRange(K.k, key)
            THEN DOk(NumV(key)) ELSE DErr
      [] K.k = "bool" -> IF ~plain THEN DErr
                         ELSE IF key = <<116, 114, 117, 101>> THEN DOk([k |-> "bool", b |-> TRUE])
                         ELSE IF key = <<102, 97, 108, 115, 101>> THEN DOk([k |-> "bool", b |-> FALSE])
                         ELSE DErr
      [] K.k = "char" -> IF Len(key) = 1 /\ ~Lone(key) THEN DOk(StrV(key)) ELSE DErr
      [] OTHER -> DAny

\* Bytes asked for as a sequence of T
ByteAs(T, b) ==
    CASE T.k \in {"u8", "i64", "u64", "f64", "any"} -> DOk(NumV(Digits(b)))
      [] T.k = "ign" -> DOk(Leaf("ign"))
      [] T.k \in {"bool", "char", "str", "bstr", "bytes", "buf", "unit", "seq", "tuple", "map"} -> DErr
      [] OTHER -> DAny

Field(D, cp) == CHOOSE i \in 1..Len(D.v) : D.v[i].key = cp
HasField(D, cp) == \E i \in 1..Len(D.v) : D.v[i].key = cp

\* m: whether the packet has attachments, and deviations for checking that the laws notice them
WithAtts == [bin |-> TRUE, inopt |-> TRUE, inenum |-> TRUE, shift |-> 0]
Without == [WithAtts EXCEPT !.bin = FALSE]
InOpt(m) == [m EXCEPT !.bin = m.bin /\ m.inopt]
InEnum(m) == [m EXCEPT !.bin = m.bin /\ m.inenum]

RECURSIVE De(_, _, _, _), DeFields(_, _, _, _), DeAll(_, _, _, _)

DeAll(Ts, Ds, atts, m) == [i \in 1..Len(Ds) |-> De(Ts[i], Ds[i], atts, m)]

DeFields(fs, D, atts, m) ==
    LET Known(i) == \E j \in 1..Len(fs) : fs[j].cp = D.v[i].key
        Of(j) == IF HasField(D, fs[j].cp) THEN De(fs[j].t, D.v[Field(D, fs[j].cp)].v, atts, m)
                 ELSE IF fs[j].t.k = "opt" THEN DOk(Leaf("none"))
                 ELSE DErr IN
    IF \E i, j \in 1..Len(D.v) : i # j /\ D.v[i].key = D.v[j].key /\ Known(i) THEN DErr
    ELSE LET r == All([j \in 1..Len(fs) |-> Of(j)], ListV) IN
         \* what is ignored may be complained about
         IF r.r # "err" /\ m.bin /\ (\E i \in 1..Len(D.v) : ~Known(i) /\ Dangling(D.v[i].v, Len(atts))) THEN DAny ELSE r

De(T, D, atts, m) ==
    LET ph == m.bin /\ IsPlaceholder(D)
        within == ph /\ NumOf(D) < Len(atts)
        d == atts[((NumOf(D) + m.shift) % Len(atts)) + 1] IN
    IF T.k = "ign" THEN (IF m.bin /\ Dangling(D, Len(atts)) THEN DAny ELSE DOk(Leaf("ign")))
    ELSE IF ph /\ ~within /\ T.k \notin {"opt", "newtype", "raw"} THEN DErr
    ELSE
    CASE T.k = "bool" -> IF D.k = "true" THEN DOk([k |-> "bool", b |-> TRUE])
                         ELSE IF D.k = "false" THEN DOk([k |-> "bool", b |-> FALSE]) ELSE DErr
      [] T.k \in {"u8", "i64", "u64"} ->
            IF D.k # "num" THEN DErr
            ELSE IF MinusZero(D.s) THEN DErr
            ELSE IF InRange(T.k, D.s) THEN DOk(NumV(D.s)) ELSE DErr
      [] T.k = "f64" -> IF D.k # "num" THEN DErr ELSE AsF64(D.s)
      [] T.k = "char" -> IF ph THEN DAny ELSE IF D.k = "str" /\ Len(D.s) = 1 /\ ~Lone(D.s) THEN DOk(StrV(D.s)) ELSE DErr
      [] T.k \in {"str", "bstr"} ->
            IF ph THEN (LET u == OfUtf8(d, <<>>) IN IF u.ok THEN DOk(StrV(u.s)) ELSE DErr)
            ELSE IF D.k = "str" /\ ~Lone(D.s) /\ (T.k = "bstr" => D.plain) THEN DOk(StrV(D.s)) ELSE DErr
      [] T.k = "bytes" ->
            IF ph THEN DOk(BytesV(d))
            ELSE IF D.k # "str" THEN DErr
            ELSE IF Lone(D.s) THEN DAny
            ELSE IF D.plain THEN DOk(BytesV(Utf8(D.s))) ELSE DErr
      [] T.k = "buf" ->
            IF ph THEN DOk(BytesV(d))
            ELSE IF D.k = "str" THEN (IF Lone(D.s) THEN DAny ELSE DOk(BytesV(Utf8(D.s))))
            ELSE IF D.k = "arr" THEN
                 LET r == All([i \in 1..Len(D.v) |-> De(Leaf("u8"), D.v[i], atts, m)], ListV) IN
                 IF r.r = "ok" THEN DOk(BytesV([i \in 1..Len(r.v.v) |-> NatOf(r.v.v[i].s, 0)])) ELSE r
            ELSE DErr
      [] T.k = "unit" -> IF D.k = "null" THEN DOk(Leaf("unit")) ELSE DErr
      [] T.k = "any" ->
            IF ph THEN DOk(ListV([i \in 1..Len(d) |-> NumV(Digits(d[i]))]))
            ELSE (CASE D.k = "null" -> DOk(Leaf("unit"))
                   [] D.k \in {"true", "false"} -> DOk([k |-> "bool", b |-> D.k = "true"])
                   [] D.k = "num" -> AsAnyNum(D.s)
                   [] D.k = "str" -> IF Lone(D.s) THEN DErr ELSE DOk(StrV(D.s))
                   [] D.k = "arr" -> All([i \in 1..Len(D.v) |-> De(T, D.v[i], atts, m)], ListV)
                   [] D.k = "obj" -> All([i \in 1..Len(D.v) |->
                        All(<<KeyAs(Leaf("str"), D.v[i].key, D.v[i].plain), De(T, D.v[i].v, atts, m)>>,
                            LAMBDA kv : [key |-> kv[1], v |-> kv[2]])], PairsV))
      [] T.k = "opt" -> IF D.k = "null" THEN DOk(Leaf("none"))
                        ELSE Map1(De(T.t, D, atts, InOpt(m)), LAMBDA v : [k |-> "some", v |-> v])
      [] T.k = "newtype" -> De(T.t, D, atts, m)
      [] T.k = "seq" ->
            IF ph THEN All([i \in 1..Len(d) |-> ByteAs(T.t, d[i])], ListV)
            ELSE IF D.k # "arr" THEN DErr
            ELSE All([i \in 1..Len(D.v) |-> De(T.t, D.v[i], atts, m)], ListV)
      [] T.k = "tuple" ->
            IF ph THEN (IF Len(d) < Len(T.ts) THEN DErr ELSE IF Len(d) > Len(T.ts) THEN DAny
                        ELSE All([i \in 1..Len(d) |-> ByteAs(T.ts[i], d[i])], ListV))
            ELSE IF D.k # "arr" \/ Len(D.v) # Len(T.ts) THEN DErr
            ELSE All(DeAll(T.ts, D.v, atts, m), ListV)
      [] T.k = "map" ->
            IF D.k # "obj" \/ ph THEN DErr
            ELSE All([i \in 1..Len(D.v) |->
                   All(<<KeyAs(T.key, D.v[i].key, D.v[i].plain), De(T.t, D.v[i].v, atts, m)>>,
                       LAMBDA kv : [key |-> kv[1], v |-> kv[2]])], PairsV)
      [] T.k = "struct" ->
            IF ph THEN DAny
            ELSE IF D.k = "arr" THEN
                 (IF Len(D.v) # Len(T.fs) THEN DErr
                  ELSE All(DeAll([i \in 1..Len(T.fs) |-> T.fs[i].t], D.v, atts, m), ListV))
            ELSE IF D.k # "obj" THEN DErr
            ELSE DeFields(T.fs, D, atts, m)
      [] T.k = "enum" ->
            IF ph THEN DErr
            ELSE IF D.k \notin {"str", "obj"} THEN DErr
            ELSE IF D.k = "obj" /\ Len(D.v) # 1 THEN DErr
            ELSE LET cp == IF D.k = "str" THEN D.s ELSE D.v[1].key IN
                 IF ~(\E i \in 1..Len(T.vs) : T.vs[i].cp = cp) THEN DErr
                 ELSE LET x == T.vs[CHOOSE i \in 1..Len(T.vs) : T.vs[i].cp = cp]
                          of(v) == VarV(cp, v) IN
                      IF D.k = "str" THEN (IF x.kind = "unit" THEN DOk(of(Leaf("unit"))) ELSE DErr)
                      ELSE (CASE x.kind = "unit" -> Map1(De(Leaf("unit"), D.v[1].v, atts, InEnum(m)), of)
                             [] x.kind = "new" -> Map1(De(x.ts[1], D.v[1].v, atts, InEnum(m)), of)
                             [] x.kind = "tup" -> Map1(De([k |-> "tuple", ts |-> x.ts], D.v[1].v, atts, InEnum(m)), of)
                             [] x.kind = "str" -> Map1(De([k |-> "struct", fs |-> x.fs], D.v[1].v, atts, InEnum(m)), of))
      [] OTHER -> DAny
=============================================================================
