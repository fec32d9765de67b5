------------------------------ MODULE SioJson ------------------------------
(***************************************************************************)
(* JSON (RFC 8259) over texts given as sequences of code points, written   *)
(* as a recogniser that yields the value: an ordered tree in which numbers *)
(* keep their spelling.  Independent of the implementation's parser.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* Characters
Quote == 34   Comma == 44   Minus == 45   Dot == 46   Slash == 47   Colon == 58
LBrack == 91  Bslash == 92  RBrack == 93  LBrace == 123  RBrace == 125

IsDigit(c) == c >= 48 /\ c <= 57
IsWs(c) == c \in {32, 9, 10, 13}

Null == [k |-> "null"]
True == [k |-> "true"]
False == [k |-> "false"]
Num(s) == [k |-> "num", s |-> s]
Str(s) == [k |-> "str", s |-> s]
Arr(v) == [k |-> "arr", v |-> v]
Obj(v) == [k |-> "obj", v |-> v]        \* a sequence of [key, v]
\* Strings and keys that were read also say whether they are plain, i.e. without escapes.

Fail == [ok |-> FALSE]
Got(v, i) == [ok |-> TRUE, v |-> v, i |-> i]

At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0 - 1

RECURSIVE SkipWs(_, _)
SkipWs(t, i) == IF i <= Len(t) /\ IsWs(t[i]) THEN SkipWs(t, i + 1) ELSE i

RECURSIVE SkipDigits(_, _)
SkipDigits(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN SkipDigits(t, i + 1) ELSE i

Has(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w

Hex(c) == IF IsDigit(c) THEN c - 48
          ELSE IF c >= 97 /\ c <= 102 THEN c - 87
          ELSE IF c >= 65 /\ c <= 70 THEN c - 55
          ELSE 0 - 1
\* Four hex digits from i: their value, or -1
Hex4(t, i) ==
    IF i + 3 > Len(t) \/ \E j \in i..(i + 3) : Hex(t[j]) < 0 THEN 0 - 1
    ELSE ((Hex(t[i]) * 16 + Hex(t[i + 1])) * 16 + Hex(t[i + 2])) * 16 + Hex(t[i + 3])

IsHigh(c) == c >= 55296 /\ c <= 56319
IsLow(c) == c >= 56320 /\ c <= 57343

\* The rest of a string, after the opening quote.  A surrogate without its
\* partner stays in the result.
RECURSIVE PStr(_, _, _)
PStr(t, i, acc) ==
    LET c == At(t, i) IN
    IF c < 32 THEN Fail         \* the end of the text, or a control character
    ELSE IF c = Quote THEN Got(acc, i + 1)
    ELSE IF c # Bslash THEN PStr(t, i + 1, Append(acc, c))
    ELSE
      LET e == At(t, i + 1) IN
      CASE e = Quote \/ e = Bslash \/ e = Slash -> PStr(t, i + 2, Append(acc, e))
        [] e = 98 -> PStr(t, i + 2, Append(acc, 8))
        [] e = 102 -> PStr(t, i + 2, Append(acc, 12))
        [] e = 110 -> PStr(t, i + 2, Append(acc, 10))
        [] e = 114 -> PStr(t, i + 2, Append(acc, 13))
        [] e = 116 -> PStr(t, i + 2, Append(acc, 9))
        [] e = 117 ->
             LET h == Hex4(t, i + 2)
                 l == IF At(t, i + 6) = Bslash /\ At(t, i + 7) = 117 THEN Hex4(t, i + 8) ELSE 0 - 1 IN
             IF h < 0 THEN Fail
             ELSE IF IsHigh(h) /\ l >= 0 /\ IsLow(l)
               THEN PStr(t, i + 12, Append(acc, 65536 + (h - 55296) * 1024 + (l - 56320)))
             ELSE PStr(t, i + 6, Append(acc, h))
        [] OTHER -> Fail

PNum(t, i) ==
    LET a == IF At(t, i) = Minus THEN i + 1 ELSE i
        b == IF At(t, a) = 48 THEN a + 1
             ELSE IF IsDigit(At(t, a)) THEN SkipDigits(t, a) ELSE 0
        c == IF b = 0 THEN 0
             ELSE IF At(t, b) # Dot THEN b
             ELSE IF IsDigit(At(t, b + 1)) THEN SkipDigits(t, b + 1) ELSE 0
        e == IF c = 0 THEN 0
             ELSE IF At(t, c) \notin {101, 69} THEN c
             ELSE LET s == IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1 IN
                  IF IsDigit(At(t, s)) THEN SkipDigits(t, s) ELSE 0
    IN IF e = 0 THEN Fail ELSE Got(Num(SubSeq(t, i, e - 1)), e)

RECURSIVE PVal(_, _), PArr(_, _, _), PObj(_, _, _)

\* A value at i, no blanks before it
PVal(t, i) ==
    LET c == At(t, i) IN
    CASE c = Quote -> (LET s == PStr(t, i + 1, <<>>) IN IF s.ok THEN Got([k |-> "str", s |-> s.v, plain |-> s.i - i - 2 = Len(s.v)], s.i) ELSE Fail)
      [] c = Minus \/ IsDigit(c) -> PNum(t, i)
      [] c = LBrack ->
           (LET j == SkipWs(t, i + 1) IN
            IF At(t, j) = RBrack THEN Got(Arr(<<>>), j + 1) ELSE PArr(t, j, <<>>))
      [] c = LBrace ->
           (LET j == SkipWs(t, i + 1) IN
            IF At(t, j) = RBrace THEN Got(Obj(<<>>), j + 1) ELSE PObj(t, j, <<>>))
      [] c = 110 -> IF Has(t, i, <<110, 117, 108, 108>>) THEN Got(Null, i + 4) ELSE Fail
      [] c = 116 -> IF Has(t, i, <<116, 114, 117, 101>>) THEN Got(True, i + 4) ELSE Fail
      [] c = 102 -> IF Has(t, i, <<102, 97, 108, 115, 101>>) THEN Got(False, i + 5) ELSE Fail
      [] OTHER -> Fail

\* Elements from i on
PArr(t, i, acc) ==
    LET x == PVal(t, i) IN
    IF ~x.ok THEN Fail
    ELSE LET j == SkipWs(t, x.i) IN
         IF At(t, j) = RBrack THEN Got(Arr(Append(acc, x.v)), j + 1)
         ELSE IF At(t, j) = Comma THEN PArr(t, SkipWs(t, j + 1), Append(acc, x.v))
         ELSE Fail

PObj(t, i, acc) ==
    IF At(t, i) # Quote THEN Fail
    ELSE LET s == PStr(t, i + 1, <<>>) IN
      IF ~s.ok THEN Fail
      ELSE LET j == SkipWs(t, s.i) IN
        IF At(t, j) # Colon THEN Fail
        ELSE LET x == PVal(t, SkipWs(t, j + 1)) IN
          IF ~x.ok THEN Fail
          ELSE LET m == SkipWs(t, x.i)
                   a == Append(acc, [key |-> s.v, v |-> x.v, plain |-> s.i - i - 2 = Len(s.v)]) IN
               IF At(t, m) = RBrace THEN Got(Obj(a), m + 1)
               ELSE IF At(t, m) = Comma THEN PObj(t, SkipWs(t, m + 1), a)
               ELSE Fail

\* A whole text
Json(t) ==
    LET x == PVal(t, SkipWs(t, 1)) IN
    IF x.ok /\ SkipWs(t, x.i) = Len(t) + 1 THEN x ELSE Fail

-----------------------------------------------------------------------------
(* An array at i: the places of its elements, and its end                  *)

RECURSIVE Spans(_, _, _)
Spans(t, i, acc) ==
    LET x == PVal(t, i) IN
    IF ~x.ok THEN Fail
    ELSE LET j == SkipWs(t, x.i)
             a == Append(acc, [from |-> i, to |-> x.i - 1, v |-> x.v]) IN
         IF At(t, j) = RBrack THEN Got(a, j + 1)
         ELSE IF At(t, j) = Comma THEN Spans(t, SkipWs(t, j + 1), a)
         ELSE Fail

Elements(t, i) ==
    IF At(t, i) # LBrack THEN Fail
    ELSE LET j == SkipWs(t, i + 1) IN
         IF At(t, j) = RBrack THEN Got(<<>>, j + 1) ELSE Spans(t, j, <<>>)

-----------------------------------------------------------------------------
(* Numbers that are written in decimal, as their digits                    *)

Max64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>

\* a <= b, for digits without leading zeros
RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) ==
    IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLe(a, b, i + 1)
DigitsLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b, 1))

Canonical(d) == Len(d) > 0 /\ (Len(d) = 1 \/ d[1] # 48)
Fits64(d) == DigitsLe(d, Max64)

\* The digits of a natural number
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
=============================================================================
