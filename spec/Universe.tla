----------------------------- MODULE Universe -----------------------------
(* A finite universe of types and of values of each, on which the            *)
(* specification's own properties are model checked.                         *)
EXTENDS Session

Bool == [k |-> "bool"]
NoC == [op |-> "none"]
Rng(lo, hi) == [op |-> "range", lo |-> Fin(BI(lo)), hi |-> Fin(BI(hi))]
IntT(c, e) == [k |-> "int", c |-> c, ext |-> e]
Z(lo, hi, e) == [has |-> TRUE, lo |-> lo, hi |-> hi, ext |-> e]
NoZ == [has |-> FALSE, lo |-> 0, hi |-> -1, ext |-> FALSE]
StrT(k, z) == [k |-> k, z |-> z]
It(n, x) == [n |-> n, x |-> x]
EnumT(r, a, e) == [k |-> "enum", root |-> r, adds |-> a, ext |-> e]
Comp(n, t, p, d) == [n |-> n, t |-> t, p |-> p, d |-> d]
NoD == [k |-> "none"]
Single(c) == [g |-> FALSE, c |-> <<c>>]
Group(cs) == [g |-> TRUE, c |-> cs]
SeqT(r, a, e) == [k |-> "seq", root |-> r, adds |-> a, ext |-> e]
ChoT(r, a, e) == [k |-> "choice", root |-> r, adds |-> a, ext |-> e]
SofT(z, e) == [k |-> "seqof", z |-> z, e |-> e]

IV(n) == [k |-> "int", n |-> BI(n)]
Zeros(n) == [i \in 1..n |-> 0]
Alt(n) == [i \in 1..n |-> i % 2]

Small0 == {IntT(Rng(0, 3), FALSE), Bool, EnumT(<<It("a", 0), It("b", 5)>>, <<It("c", 1)>>, TRUE)}
Leaves ==
  Small0 \cup
  {IntT(NoC, FALSE), IntT(Rng(5, 5), FALSE), IntT(Rng(-3, 4), FALSE), IntT(Rng(0, 254), FALSE), IntT(Rng(0, 255), FALSE), IntT(Rng(1, 257), FALSE),
   IntT(Rng(0, 65535), FALSE), IntT(Rng(-1, 65535), FALSE), IntT([op |-> "range", lo |-> Fin(BI(-1)), hi |-> Inf], FALSE),
   IntT([op |-> "range", lo |-> Inf, hi |-> Fin(BI(7))], FALSE), IntT(Rng(0, 7), TRUE), IntT([op |-> "range", lo |-> Fin(BI(0)), hi |-> Inf], TRUE),
   EnumT(<<It("a", 0)>>, <<>>, FALSE), EnumT(<<It("z", 9), It("b", 1), It("a", 4)>>, <<>>, FALSE), EnumT(<<It("a", 0)>>, <<It("b", 1), It("c", 7)>>, TRUE)}
  \cup UNION {{StrT(k, NoZ), StrT(k, Z(0, 0, FALSE)), StrT(k, Z(1, 1, FALSE)), StrT(k, Z(2, 2, FALSE)), StrT(k, Z(3, 3, FALSE)), StrT(k, Z(16, 16, FALSE)), StrT(k, Z(17, 17, FALSE)),
               StrT(k, Z(0, 2, FALSE)), StrT(k, Z(1, 3, TRUE)), StrT(k, Z(2, -1, FALSE)), StrT(k, Z(2, 2, TRUE)), StrT(k, Z(0, 0, TRUE))} : k \in {"bits", "octs"}}

Ints(t) == {IV(i) : i \in {-32769, -129, -128, -3, -1, 0, 1, 3, 4, 5, 7, 8, 127, 128, 255, 256, 257, 65535, 65536}}
LeafVals(t) ==
  {v \in CASE t.k = "bool" -> {[k |-> "bool", b |-> b] : b \in BOOLEAN}
           [] t.k = "int" -> Ints(t)
           [] t.k = "enum" -> {[k |-> "enum", e |-> n] : n \in Names(t.root) \cup Names(t.adds)}
           [] t.k \in {"bits", "octs"} -> {[k |-> t.k, x |-> x] : x \in UNION {{Zeros(n), Alt(n)} : n \in {0, 1, 2, 3, 4, 16, 17}}}
     : Legal(t, v) = "ok"}

RECURSIVE Vals(_)
OptVals(c) == {<<[n |-> c.n, v |-> w]>> : w \in Vals(c.t)} \cup (IF c.p = "m" THEN {} ELSE {<<>>})
Prod(cs, Opt(_)) == FoldLeft(LAMBDA S, c : {s \o x : s \in S, x \in Opt(c)}, {<<>>}, cs)
Vals(t) ==
  CASE t.k = "seq" ->
         {v \in {[k |-> "seq", c |-> r \o a] : r \in Prod(t.root, OptVals), a \in Prod(AddComps(t), LAMBDA c : {<<>>} \cup OptVals(c))} : Legal(t, v) = "ok"}
    [] t.k = "choice" -> UNION {{[k |-> "choice", n |-> c.n, v |-> w] : w \in Vals(c.t)} : c \in Range(AllComps(t))}
    [] t.k = "seqof" -> {v \in {[k |-> "seqof", l |-> l] : l \in UNION {[1..n -> Vals(t.e)] : n \in 0..2}} : Legal(t, v) = "ok"}
    [] OTHER -> LeafVals(t)

DefOf1(t) == CHOOSE v \in LeafVals(t) : TRUE
(* every leaf in every kind of position, after an unaligned bit *)
Around(t) ==
  {SeqT(<<Comp("u", Bool, "m", NoD), Comp("x", t, "m", NoD), Comp("w", Bool, "m", NoD)>>, <<>>, FALSE),
   SeqT(<<Comp("x", t, "o", NoD), Comp("w", Bool, "m", NoD)>>, <<>>, TRUE),
   SeqT(<<Comp("w", Bool, "m", NoD)>>, <<Single(Comp("x", t, "m", NoD))>>, TRUE),
   SeqT(<<>>, <<Single(Comp("y", Bool, "o", NoD)), Group(<<Comp("x", t, "m", NoD), Comp("w", Bool, "o", NoD)>>)>>, TRUE),
   ChoT(<<Comp("w", Bool, "m", NoD), Comp("x", t, "m", NoD)>>, <<>>, FALSE),
   ChoT(<<Comp("w", Bool, "m", NoD)>>, <<Single(Comp("x", t, "m", NoD))>>, TRUE),
   SofT(Z(1, 2, FALSE), t)}
  \cup {SeqT(<<Comp("u", Bool, "m", NoD), Comp("x", t, "d", DefOf1(t)), Comp("w", Bool, "d", [k |-> "bool", b |-> TRUE])>>, <<>>, FALSE),
        SeqT(<<Comp("w", Bool, "m", NoD)>>, <<Single(Comp("x", t, "d", DefOf1(t))), Group(<<Comp("y", t, "d", DefOf1(t)), Comp("z", Bool, "o", NoD)>>)>>, TRUE)}
Around2(t) ==
  {SeqT(<<Comp("u", Bool, "m", NoD), Comp("x", t, "m", NoD), Comp("v", t, "o", NoD)>>, <<>>, FALSE),
   SeqT(<<Comp("w", Bool, "o", NoD)>>, <<Single(Comp("x", t, "m", NoD)), Single(Comp("y", Bool, "m", NoD))>>, TRUE),
   ChoT(<<Comp("w", Bool, "m", NoD)>>, <<Single(Comp("x", t, "m", NoD)), Group(<<Comp("y", Bool, "m", NoD)>>)>>, TRUE),
   SofT(NoZ, t)}
Nest1 == UNION {Around(t) : t \in Leaves}
Nest2 == UNION {Around2(t) : t \in UNION {Around(s) : s \in {Bool, IntT(Rng(0, 3), FALSE)}}}
=============================================================================
