------------------------------ MODULE SioView ------------------------------
(***************************************************************************)
(* Arguments converted to JSON values and displayed.                       *)
(***************************************************************************)
EXTENDS SioDe

RECURSIVE Depth1(_), MaxOf(_, _)
MaxOf(xs, m) == IF xs = <<>> THEN m ELSE MaxOf(Tail(xs), IF xs[1] > m THEN xs[1] ELSE m)
Depth1(v) ==
    CASE v.k = "arr" -> 1 + MaxOf([i \in 1..Len(v.v) |-> Depth1(v.v[i])], 0)
      [] v.k = "obj" -> 1 + MaxOf([i \in 1..Len(v.v) |-> Depth1(v.v[i].v)], 0)
      [] OTHER -> 0

\* What keeps a value from being converted
RECURSIVE Bad(_)
Bad(v) ==
    CASE v.k = "num" -> Huge(v.s)
      [] v.k = "str" -> Lone(v.s)
      [] v.k = "arr" -> \E i \in 1..Len(v.v) : Bad(v.v[i])
      [] v.k = "obj" -> \E i \in 1..Len(v.v) : Lone(v.v[i].key) \/ Bad(v.v[i].v)
      [] OTHER -> FALSE

\* Keys that occur once, with their last values
Keys(v) == {v.v[i].key : i \in 1..Len(v.v)}
RECURSIVE LastOf(_, _, _)
LastOf(es, key, i) == IF es[i].key = key THEN es[i].v ELSE LastOf(es, key, i - 1)

\* Is b the value a, with keys in any order?  Numbers that a double may not hold are not compared.
RECURSIVE SameValue(_, _)
SameValue(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "num" -> Exactly64(a.s) \/ Simple(a.s) => NumEq(a.s, b.s)
         [] a.k = "str" -> a.s = b.s
         [] a.k = "arr" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : SameValue(a.v[i], b.v[i])
         [] a.k = "obj" -> /\ Keys(a) = Keys(b) /\ Len(b.v) = Cardinality(Keys(b))
                           /\ \A key \in Keys(a) : SameValue(LastOf(a.v, key, Len(a.v)), LastOf(b.v, key, Len(b.v)))
         [] OTHER -> TRUE

\* The value of an argument, or FALSE: none.  What later keys replace does not matter.
RECURSIVE Effective(_)
Effective(v) ==
    CASE v.k = "arr" -> Arr([i \in 1..Len(v.v) |-> Effective(v.v[i])])
      [] v.k = "obj" ->
            LET keep == SelectSeq([i \in 1..Len(v.v) |-> [i |-> i, key |-> v.v[i].key, v |-> v.v[i].v]],
                                  LAMBDA e : ~(\E j \in (e.i + 1)..Len(v.v) : v.v[j].key = e.key)) IN
            Obj([i \in 1..Len(keep) |-> [key |-> keep[i].key, v |-> Effective(keep[i].v)]])
      [] OTHER -> v

HasValue(v, atts) == ~Bad(v) /\ (atts # <<>> => ~Dangling(Effective(v), Len(atts)))
Value(v, atts) == IF atts # <<>> THEN Subst(Effective(v), atts) ELSE Effective(v)
\* Deep ones may be refused.
Shallow(v) == Depth1(v) < 100

\* The result o of a conversion: [r, s]
ConvertedOk(v, atts, o) ==
    IF o.r = "err" THEN ~HasValue(v, atts) \/ ~Shallow(v)
    ELSE o.r = "ok" /\ HasValue(v, atts) /\ Json(o.s).ok /\ SameValue(Value(v, atts), Json(o.s).v)

\* A displayed value: parsed text x, from an argument with value v
DisplayedOk(v, atts, x) ==
    \/ HasValue(v, atts) /\ SameValue(Value(v, atts), x)
    \/ (~HasValue(v, atts) \/ ~Shallow(v)) /\ JEq(v, x)
=============================================================================
