------------------------------ MODULE SioDeMC ------------------------------
(***************************************************************************)
(* Laws of what arguments deserialize to, on all small types and values.   *)
(* SCEN: laws.  DEPTH: how deep the types are.                             *)
(***************************************************************************)
EXTENDS SioView, TLC, IOUtils
VARIABLES T, D
Mut == IOEnv.MUT
Deep == atoi(IOEnv.DEPTH) > 1
M == [WithAtts EXCEPT !.inopt = (Mut # "OptPlain"), !.inenum = (Mut # "EnumPlain"), !.shift = (IF Mut = "Shift" THEN 1 ELSE 0)]
Atts == << <<104>>, <<1, 50>> >>

Leaves == {Leaf(k) : k \in {"u8", "f64", "str", "bytes", "buf", "any", "ign", "unit"}}
Over(S) ==
    {[k |-> "opt", t |-> t] : t \in S} \cup {[k |-> "newtype", t |-> t] : t \in S} \cup {[k |-> "seq", t |-> t] : t \in S}
    \cup {[k |-> "map", key |-> Leaf("str"), t |-> t] : t \in S} \cup {[k |-> "tuple", ts |-> <<t, Leaf("any")>>] : t \in S}
    \cup {[k |-> "struct", fs |-> << [cp |-> <<97>>, t |-> t] >>] : t \in S}
    \cup {[k |-> "enum", vs |-> << [cp |-> <<97>>, kind |-> "new", ts |-> <<t>>], [cp |-> <<98>>, kind |-> "tup", ts |-> <<t, t>>] >>] : t \in S}
Ty1 == Leaves \cup Over(Leaves)
DeTypes == IF Deep THEN Ty1 \cup Over(Ty1) ELSE Ty1

Plain2(s) == [k |-> "str", s |-> s, plain |-> TRUE]
Doc0 == {Num(<<55>>), Plain2(<<104>>), Null, Placeholder(0), Placeholder(1), Placeholder(2)}
E(key, v) == [key |-> key, v |-> v, plain |-> TRUE]
DOver(S) == {Arr(<<x>>) : x \in S} \cup {Arr(<<x, Num(<<56>>)>>) : x \in S} \cup {Obj(<<E(<<97>>, x)>>) : x \in S}
            \cup {Obj(<<E(<<98>>, x), E(<<97>>, Null)>>) : x \in S}
Doc1 == Doc0 \cup DOver(Doc0)
Docs == Doc1 \cup DOver(DOver(Doc0))

Init == T \in DeTypes /\ D \in Docs
Next == UNCHANGED <<T, D>>
Spec == Init /\ [][Next]_<<T, D>>

\* DeTypes in which bytes are more than a sequence of numbers
RECURSIVE Bytish(_)
Bytish(t) == CASE t.k \in {"str", "bstr", "bytes", "char"} -> TRUE
               [] t.k \in {"opt", "newtype", "seq", "map"} -> Bytish(t.t)
               [] t.k = "tuple" -> \E i \in 1..Len(t.ts) : Bytish(t.ts[i])
               [] t.k = "struct" -> \E i \in 1..Len(t.fs) : Bytish(t.fs[i].t)
               [] t.k = "enum" -> \E i \in 1..Len(t.vs) : \E j \in 1..Len(t.vs[i].ts) : Bytish(t.vs[i].ts[j])
               [] OTHER -> FALSE

R == De(T, D, Atts, M)
Equal(a, b) == a.r = "any" \/ b.r = "any" \/ (a.r = b.r /\ (a.r = "ok" => VEq(a.v, b.v)))

\* A placeholder is as good as the array of its bytes.
Substitution == (~Bytish(T) /\ ~Dangling(D, Len(Atts))) => Equal(R, De(T, Subst(D, Atts), <<>>, Without))
\* Without placeholders, attachments do not matter.
Unaffected == Nums(D) = <<>> => R = De(T, D, <<>>, Without)
\* Numbers out of range are never used.
NoDangling == Dangling(D, Len(Atts)) => R.r # "ok"
\* What is asked for as anything is what it is converted to.
RECURSIVE AsJson(_)
AsJson(v) == CASE v.k = "list" -> Arr([i \in 1..Len(v.v) |-> AsJson(v.v[i])])
               [] v.k = "pairs" -> Obj([i \in 1..Len(v.v) |-> [key |-> v.v[i].key.s, v |-> AsJson(v.v[i].v)]])
               [] v.k = "num" -> Num(v.s) [] v.k = "str" -> Str(v.s) [] v.k = "unit" -> Null
               [] v.k = "bool" -> IF v.b THEN True ELSE False
Converted == T.k = "any" => (R.r = "ok") = HasValue(D, Atts) /\ (R.r = "ok" => JEq(AsJson(R.v), Value(D, Atts)))
=============================================================================
