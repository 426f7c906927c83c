------------------------------ MODULE Schema ------------------------------
(* The schema language: a grammar from tokens to definitions, the types and  *)
(* values (of Per) that definitions denote, and which definition needs which.*)
(* Tokens: [k, s] with k = "w" keyword, "p" punctuation, "T" typereference,  *)
(* "i" identifier; [k |-> "n", s, n] a number; [k |-> "b"/"h", s, x] a       *)
(* bstring/hstring with its digits x.                                        *)
EXTENDS Per

------------------------------------------------------------------------
(* grammar: every production takes the tokens and a position and gives [v, i] *)
Is(T, i, s) == i <= Len(T) /\ T[i].s = s
Skip(T, i, s) == IF Is(T, i, s) THEN i + 1 ELSE Assert(FALSE, <<"expected", s, "at", i, T>>)
NoCon == [has |-> FALSE, lo |-> [e |-> "min"], hi |-> [e |-> "max"], ext |-> FALSE]
NoVal == [v |-> "none"]

PEnd(T, i) == CASE T[i].s = "MIN" -> [e |-> "min"]
                [] T[i].s = "MAX" -> [e |-> "max"]
                [] T[i].k = "n" -> [e |-> "num", n |-> T[i].n]
                [] T[i].k = "i" -> [e |-> "ref", n |-> T[i].s]

RECURSIVE Closing(_, _, _)
(* position of the ")" that closes a parenthesis opened d levels before i *)
Closing(T, i, d) == IF T[i].s = ")" THEN (IF d = 0 THEN i ELSE Closing(T, i + 1, d - 1))
                    ELSE Closing(T, i + 1, IF T[i].s = "(" THEN d + 1 ELSE d)

RECURSIVE PCon(_, _)
(* "(" [SIZE] bounds [, ... [, additional bounds]] ")" : only the root bounds and the marker matter *)
PCon(T, i) ==
  LET close == Closing(T, i + 1, 0)
      inner == IF T[i + 1].s = "SIZE" THEN PCon(T, i + 2)
               ELSE LET j == IF Is(T, i + 2, "..") THEN i + 3 ELSE i + 1
                    IN [v |-> [has |-> TRUE, lo |-> PEnd(T, i + 1), hi |-> PEnd(T, j), ext |-> FALSE], i |-> j + 1]
      more == Is(T, inner.i, ",") /\ Is(T, inner.i + 1, "...")
  IN [v |-> [inner.v EXCEPT !.ext = @ \/ more], i |-> close + 1]
POptCon(T, i) == IF Is(T, i, "(") THEN PCon(T, i) ELSE [v |-> NoCon, i |-> i]

PValue(T, i) ==
  CASE T[i].s \in {"TRUE", "FALSE"} -> [v |-> "bool", b |-> T[i].s = "TRUE"]
    [] T[i].k = "n" -> [v |-> "num", n |-> T[i].n]
    [] T[i].k = "b" -> [v |-> "bstr", x |-> T[i].x]
    [] T[i].k = "h" -> [v |-> "hstr", x |-> T[i].x]
    [] T[i].k = "i" -> [v |-> "id", n |-> T[i].s]

RECURSIVE PEnum(_, _, _)
PEnum(T, i, acc) ==
  IF T[i].s = "}" THEN [v |-> acc, i |-> i + 1]
  ELSE IF T[i].s = "," THEN PEnum(T, i + 1, acc)
  ELSE IF T[i].s = "..." THEN PEnum(T, i + 1, Append(acc, [i |-> "m"]))
  ELSE IF Is(T, i + 1, "(") THEN PEnum(T, i + 4, Append(acc, [i |-> "e", n |-> T[i].s, has |-> TRUE, x |-> Small(T[i + 2].n.m)]))
  ELSE PEnum(T, i + 1, Append(acc, [i |-> "e", n |-> T[i].s, has |-> FALSE, x |-> 0]))

RECURSIVE PType(_, _), PItems(_, _, _, _)
(* the items of a SEQUENCE or CHOICE up to the closing bracket end *)
PItems(T, i, end, acc) ==
  IF T[i].s = end THEN [v |-> acc, i |-> i + 1]
  ELSE IF T[i].s = "," THEN PItems(T, i + 1, end, acc)
  ELSE IF T[i].s = "..." THEN PItems(T, i + 1, end, Append(acc, [i |-> "m"]))
  ELSE IF T[i].s = "[[" THEN LET g == PItems(T, i + 1, "]]", <<>>) IN PItems(T, g.i, end, Append(acc, [i |-> "g", c |-> g.v]))
  ELSE LET t == PType(T, i + 1)
           c == [i |-> "c", n |-> T[i].s, t |-> t.v]
       IN IF Is(T, t.i, "OPTIONAL") THEN PItems(T, t.i + 1, end, Append(acc, c @@ [p |-> "o", d |-> NoVal]))
          ELSE IF Is(T, t.i, "DEFAULT") THEN PItems(T, t.i + 2, end, Append(acc, c @@ [p |-> "d", d |-> PValue(T, t.i + 1)]))
          ELSE PItems(T, t.i, end, Append(acc, c @@ [p |-> "m", d |-> NoVal]))
PType(T, i) ==
  CASE T[i].k = "T" -> [v |-> [k |-> "ref", n |-> T[i].s], i |-> i + 1]
    [] T[i].s = "BOOLEAN" -> [v |-> [k |-> "bool"], i |-> i + 1]
    [] T[i].s = "INTEGER" -> LET c == POptCon(T, i + 1) IN [v |-> [k |-> "int", c |-> c.v], i |-> c.i]
    [] T[i].s = "BIT" -> LET c == POptCon(T, Skip(T, i + 1, "STRING")) IN [v |-> [k |-> "bits", c |-> c.v], i |-> c.i]
    [] T[i].s = "OCTET" -> LET c == POptCon(T, Skip(T, i + 1, "STRING")) IN [v |-> [k |-> "octs", c |-> c.v], i |-> c.i]
    [] T[i].s = "ENUMERATED" -> LET e == PEnum(T, Skip(T, i + 1, "{"), <<>>) IN [v |-> [k |-> "enum", items |-> e.v], i |-> e.i]
    [] T[i].s = "CHOICE" -> LET e == PItems(T, Skip(T, i + 1, "{"), "}", <<>>) IN [v |-> [k |-> "choice", items |-> e.v], i |-> e.i]
    [] T[i].s = "SEQUENCE" ->
         IF Is(T, i + 1, "{") THEN LET e == PItems(T, i + 2, "}", <<>>) IN [v |-> [k |-> "seq", items |-> e.v], i |-> e.i]
         ELSE LET c == POptCon(T, i + 1)
                  e == PType(T, Skip(T, c.i, "OF"))
              IN [v |-> [k |-> "seqof", c |-> c.v, e |-> e.v], i |-> e.i]

RECURSIVE PAssignments(_, _, _)
PAssignments(T, i, acc) ==
  IF T[i].s = "END" THEN acc
  ELSE IF T[i].k = "T" THEN LET t == PType(T, Skip(T, i + 1, "::=")) IN PAssignments(T, t.i, Append(acc, [d |-> "type", n |-> T[i].s, t |-> t.v]))
  ELSE LET t == PType(T, i + 1)
           j == Skip(T, t.i, "::=")
       IN PAssignments(T, j + 1, Append(acc, [d |-> "val", n |-> T[i].s, t |-> t.v, v |-> PValue(T, j)]))
PModule(T) == LET i == Skip(T, 2, "DEFINITIONS")
                  j == IF Is(T, i, "AUTOMATIC") THEN i + 2 ELSE i
              IN PAssignments(T, Skip(T, Skip(T, j, "::="), "BEGIN"), <<>>)

------------------------------------------------------------------------
(* meaning: types and values of Per that definitions denote *)
DefOf(D, n) == D[IndexOf(D, n)]
RECURSIVE Base(_, _)
Base(D, te) == IF te.k = "ref" THEN Base(D, DefOf(D, te.n).t) ELSE te

(* X.680 20.6: numbers of enumeration items *)
RECURSIVE Least(_, _)
Least(S, x) == IF x \in S THEN Least(S, x + 1) ELSE x
RECURSIVE NumRoot(_, _, _, _), NumAdds(_, _, _, _)
NumRoot(s, used, next, acc) ==
  IF s = <<>> THEN acc
  ELSE LET e == Head(s)
           x == IF e.has THEN e.x ELSE Least(used, next)
       IN NumRoot(Tail(s), used \cup {x}, IF e.has THEN next ELSE x + 1, Append(acc, [n |-> e.n, x |-> x]))
NumAdds(s, root, next, acc) ==
  IF s = <<>> THEN acc
  ELSE LET e == Head(s)
           x == IF e.has THEN e.x ELSE Least(root, next)
       IN NumAdds(Tail(s), root, x + 1, Append(acc, [n |-> e.n, x |-> x]))

(* what lies before the first, between the first and the second, and after the second "..." *)
Markers(items) == SelectSeq([i \in 1..Len(items) |-> i], LAMBDA i : items[i].i = "m")
Part(items, k) ==
  LET m == Markers(items)
      from == IF k = 1 THEN 1 ELSE IF Len(m) < k - 1 THEN Len(items) + 1 ELSE m[k - 1] + 1
      to == IF Len(m) < k THEN Len(items) ELSE m[k] - 1
  IN SubSeq(items, from, to)

RECURSIVE Res(_, _), ValOf(_, _, _)
EnumOf(te) ==
  LET r == Part(te.items, 1)
      explicit == {r[i].x : i \in {j \in 1..Len(r) : r[j].has}}
      root == NumRoot(r, explicit, 0, <<>>)
  IN [k |-> "enum", root |-> root, ext |-> Markers(te.items) # <<>>,
      adds |-> NumAdds(Part(te.items, 2), {root[i].x : i \in 1..Len(root)}, 0, <<>>)]
Int1(D, e) == IF e.e = "ref" THEN LET d == DefOf(D, e.n) IN ValOf(D, d.t, d.v).n ELSE e.n
Bnd(D, e) == IF e.e \in {"min", "max"} THEN [inf |-> TRUE, n |-> BI(0)] ELSE [inf |-> FALSE, n |-> Int1(D, e)]
IntOf(D, c) == IF ~c.has THEN [k |-> "int", c |-> [op |-> "none"], ext |-> FALSE]
               ELSE [k |-> "int", c |-> [op |-> "range", lo |-> Bnd(D, c.lo), hi |-> Bnd(D, c.hi)], ext |-> c.ext]
SizeOf(D, c) == IF ~c.has THEN [has |-> FALSE, lo |-> 0, hi |-> -1, ext |-> FALSE]
                ELSE [has |-> TRUE, lo |-> IF c.lo.e = "min" THEN 0 ELSE Small(Int1(D, c.lo).m),
                      hi |-> IF c.hi.e = "max" THEN -1 ELSE Small(Int1(D, c.hi).m), ext |-> c.ext]
CompOf(D, c) == [n |-> c.n, t |-> Res(D, c.t), p |-> c.p, d |-> IF c.p = "d" THEN ValOf(D, c.t, c.d) ELSE [k |-> "none"]]
CompsOf(D, s) == Map(s, LAMBDA c : CompOf(D, c))
AddsOf(D, s) == Map(s, LAMBDA a : IF a.i = "g" THEN [g |-> TRUE, c |-> CompsOf(D, a.c)] ELSE [g |-> FALSE, c |-> <<CompOf(D, a)>>])
Res(D, te) ==
  CASE te.k = "ref" -> Res(D, DefOf(D, te.n).t)
    [] te.k = "bool" -> [k |-> "bool"]
    [] te.k = "int" -> IntOf(D, te.c)
    [] te.k \in {"bits", "octs"} -> [k |-> te.k, z |-> SizeOf(D, te.c)]
    [] te.k = "enum" -> EnumOf(te)
    [] te.k = "seqof" -> [k |-> "seqof", z |-> SizeOf(D, te.c), e |-> Res(D, te.e)]
    [] te.k \in {"seq", "choice"} ->
         [k |-> te.k, root |-> CompsOf(D, Part(te.items, 1) \o Part(te.items, 3)), adds |-> AddsOf(D, Part(te.items, 2)),
          ext |-> Markers(te.items) # <<>>]

Nib(x) == <<(x \div 8) % 2, (x \div 4) % 2, (x \div 2) % 2, x % 2>>
RECURSIVE Octetise(_)
Octetise(b) == IF b = <<>> THEN <<>>
               ELSE LET p == b \o <<0, 0, 0, 0, 0, 0, 0>>
                    IN <<p[1] * 128 + p[2] * 64 + p[3] * 32 + p[4] * 16 + p[5] * 8 + p[6] * 4 + p[7] * 2 + p[8]>>
                       \o Octetise(SubSeq(b, 9, Len(b)))
BitsIn(v) == IF v.v = "bstr" THEN v.x ELSE CatAll(Map(v.x, LAMBDA d : Nib(d)))
EnumNames(te) == {te.items[i].n : i \in {j \in 1..Len(te.items) : te.items[j].i = "e"}}
ValOf(D, te, v) ==
  LET b == Base(D, te)
  IN IF v.v = "id" /\ ~(b.k = "enum" /\ v.n \in EnumNames(b)) THEN LET d == DefOf(D, v.n) IN ValOf(D, d.t, d.v)
     ELSE CASE b.k = "bool" -> [k |-> "bool", b |-> v.b]
            [] b.k = "int" -> [k |-> "int", n |-> v.n]
            [] b.k = "enum" -> [k |-> "enum", e |-> v.n]
            [] b.k = "bits" -> [k |-> "bits", x |-> BitsIn(v)]
            [] b.k = "octs" -> [k |-> "octs", x |-> Octetise(BitsIn(v))]

------------------------------------------------------------------------
(* dependencies: the names a definition uses *)
RECURSIVE TDeps(_, _)
ConDeps(c) == {e.n : e \in {x \in {c.lo, c.hi} : x.e = "ref"}}
VDeps(D, te, v) == IF v.v = "id" /\ ~(Base(D, te).k = "enum" /\ v.n \in EnumNames(Base(D, te))) THEN {v.n} ELSE {}
CDeps(D, c) == TDeps(D, c.t) \cup (IF c.p = "d" THEN VDeps(D, c.t, c.d) ELSE {})
ItemDeps(D, it) == CASE it.i = "m" -> {} [] it.i = "c" -> CDeps(D, it) [] it.i = "g" -> UNION {CDeps(D, it.c[j]) : j \in 1..Len(it.c)}
TDeps(D, te) ==
  CASE te.k = "ref" -> {te.n}
    [] te.k \in {"bool", "enum"} -> {}
    [] te.k \in {"int", "bits", "octs"} -> ConDeps(te.c)
    [] te.k = "seqof" -> ConDeps(te.c) \cup TDeps(D, te.e)
    [] te.k \in {"seq", "choice"} -> UNION {ItemDeps(D, te.items[i]) : i \in 1..Len(te.items)}
Deps(D, n) == LET d == DefOf(D, n) IN TDeps(D, d.t) \cup (IF d.d = "val" THEN VDeps(D, d.t, d.v) ELSE {})

------------------------------------------------------------------------
(* what the generated module defines, as observed: o = [k, cls, ...] where cls are the names of the  *)
(* module bound to that very class                                                                  *)
SameC(c, ext, oc, oext) ==
  LET flat(x, e) == IF x.op = "range" /\ x.lo.inf /\ x.hi.inf /\ ~e THEN [op |-> "none"] ELSE x
  IN flat(c, ext) = flat(oc, oext) /\ (flat(c, ext).op # "none" => ext = oext)
SameZ(z, oz) == LET flat(x) == IF ~x.has \/ (x.lo = 0 /\ x.hi = -1 /\ ~x.ext) THEN [has |-> FALSE, lo |-> 0, hi |-> -1, ext |-> FALSE] ELSE x
                IN flat(z) = flat(oz)
ToSet1(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Match(_, _, _)
MatchComp(D, c, o) == /\ o.n = c.n /\ o.p = c.p
                      /\ Match(D, c.t, o.t)
                      /\ c.p = "d" => o.d = ValOf(D, c.t, c.d)
MatchComps(D, cs, os) == Len(cs) = Len(os) /\ \A i \in 1..Len(cs) : MatchComp(D, cs[i], os[i])
MatchAdd(D, a, o) == IF a.i = "g" THEN o.g /\ MatchComps(D, a.c, o.c) ELSE ~o.g /\ MatchComps(D, <<a>>, o.c)
Shape(D, te, o) ==
  CASE te.k = "bool" -> o.k = "bool"
    [] te.k = "int" -> o.k = "int" /\ LET t == IntOf(D, te.c) IN SameC(t.c, t.ext, o.c, o.ext)
    [] te.k \in {"bits", "octs"} -> o.k = te.k /\ SameZ(SizeOf(D, te.c), o.z)
    [] te.k = "enum" -> o.k = "enum" /\ LET t == EnumOf(te) IN ToSet1(t.root) = ToSet1(o.root) /\ t.adds = o.adds /\ t.ext = o.ext
    [] te.k = "seqof" -> o.k = "seqof" /\ SameZ(SizeOf(D, te.c), o.z) /\ Match(D, te.e, o.e)
    [] te.k \in {"seq", "choice"} ->
         /\ o.k = te.k
         /\ o.ext = (Markers(te.items) # <<>>)
         /\ MatchComps(D, Part(te.items, 1) \o Part(te.items, 3), o.root)
         /\ LET as == Part(te.items, 2) IN Len(as) = Len(o.adds) /\ \A i \in 1..Len(as) : MatchAdd(D, as[i], o.adds[i])
(* a reference must be the very class its name is bound to, anything else a class of that shape *)
Match(D, te, o) == IF te.k = "ref" THEN \E i \in 1..Len(o.cls) : o.cls[i] = te.n
                   ELSE Shape(D, te, o)
MatchDef(D, d, o) ==
  IF d.d = "type" THEN (IF d.t.k = "ref" THEN Match(D, d.t, o) ELSE Shape(D, d.t, o))
  ELSE /\ o.v = ValOf(D, d.t, d.v)
       /\ IF d.t.k = "ref" THEN \E i \in 1..Len(o.cls) : o.cls[i] = d.t.n ELSE Shape(D, d.t, o.t)

(* emission: names are defined one at a time, each once and only when all it needs is there; *)
(* a value of a type that has no name of its own may lend its name to that type first        *)
LendsName(D, n) == DefOf(D, n).d = "val" /\ DefOf(D, n).t.k # "ref"
RECURSIVE Emits(_, _, _, _)
Emits(D, order, done, last) ==
  IF order = <<>> THEN ""
  ELSE LET n == Head(order) IN
       IF IndexOf(D, n) = 0 THEN "schema-extra-name"
       ELSE IF n \in done /\ ~(n = last /\ LendsName(D, n)) THEN "schema-defined-twice"
       ELSE IF ~(Deps(D, n) \subseteq done) THEN "schema-order"
       ELSE Emits(D, Tail(order), done \cup {n}, n)

RECURSIVE FirstBad(_, _, _)
FirstBad(D, defs, i) ==
  IF i > Len(defs) THEN ""
  ELSE IF ~MatchDef(D, DefOf(D, defs[i].n), defs[i].o)
       THEN (IF DefOf(D, defs[i].n).d = "type" THEN "schema-struct" ELSE "schema-value")
       ELSE FirstBad(D, defs, i + 1)

(* verdict on parse_asn1_schema() and the execution of its result: e = [r, x, order, defs] *)
ParseVerdict(D, e) ==
  IF e.r = "hang" THEN "schema-hang"
  ELSE IF e.r # "ok" THEN "schema-refused"
  ELSE IF e.x # "ok" THEN "schema-import"
  ELSE LET em == Emits(D, e.order, {}, "")
       IN IF em # "" THEN em
          ELSE IF ToSet1(e.order) # Names(D) THEN "schema-missing-name"
          ELSE FirstBad(D, e.defs, 1)
=============================================================================
