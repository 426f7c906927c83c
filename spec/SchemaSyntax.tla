--------------------------- MODULE SchemaSyntax ---------------------------
(* Which token sequences are modules of the notation, and which modules make *)
(* sense. Class(T) is "ok", "none" (notation the specification says nothing  *)
(* about) or what is wrong with T: "syntax", "dup", "ref", "bounds", "value".*)
EXTENDS Schema

Str(T, i) == IF i \in 1..Len(T) THEN T[i].s ELSE ""
Kind(T, i) == IF i \in 1..Len(T) THEN T[i].k ELSE ""

(* A recogniser: each production gives the position after the phrase that starts at i, 0 if there is none there. *)
At(T, i, s) == IF i > 0 /\ Str(T, i) = s THEN i + 1 ELSE 0
REnd(T, i) == IF i > 0 /\ (Str(T, i) \in {"MIN", "MAX"} \/ Kind(T, i) \in {"n", "i"}) THEN i + 1 ELSE 0
RBounds(T, i) == LET j == REnd(T, i) IN IF At(T, j, "..") > 0 THEN REnd(T, j + 1) ELSE j
RECURSIVE RCon(_, _, _)
(* "(" element [, ... [, element]] ")" where an element is bounds or, if size, SIZE with a constraint of bounds *)
RElem(T, i, size) == IF ~size THEN RBounds(T, i) ELSE IF i > 0 /\ Str(T, i) = "SIZE" THEN RCon(T, i + 1, FALSE) ELSE 0
RCon(T, i, size) ==
  LET j == RElem(T, At(T, i, "("), size)
      m == At(T, At(T, j, ","), "...")
      a == RElem(T, At(T, m, ","), size)
  IN IF At(T, j, ",") = 0 THEN At(T, j, ")")
     ELSE IF m = 0 THEN 0
     ELSE IF At(T, m, ",") = 0 THEN At(T, m, ")") ELSE At(T, a, ")")
RECURSIVE RClose(_, _, _)
(* what stands in the parentheses of a constraint is judged apart (Vague): here they only have to close *)
RClose(T, i, d) == IF i > Len(T) THEN 0
                   ELSE IF Str(T, i) = "(" THEN RClose(T, i + 1, d + 1)
                   ELSE IF Str(T, i) = ")" THEN (IF d = 1 THEN i + 1 ELSE RClose(T, i + 1, d - 1))
                   ELSE RClose(T, i + 1, d)
ROptCon(T, i) == IF i > 0 /\ Str(T, i) = "(" THEN (IF Str(T, i + 1) = ")" THEN 0 ELSE RClose(T, i, 0)) ELSE i
RValue(T, i) == IF i > 0 /\ (Str(T, i) \in {"TRUE", "FALSE"} \/ Kind(T, i) \in {"n", "b", "h", "i"}) THEN i + 1 ELSE 0

(* one element after the other with commas in between; the list ends where no comma follows *)
RItem(T, i) == IF Kind(T, i) # "i" THEN 0
               ELSE IF Str(T, i + 1) = "(" THEN (IF Kind(T, i + 2) = "n" THEN At(T, i + 3, ")") ELSE 0) ELSE i + 1
RECURSIVE REnumList(_, _, _, _)
(* dots: whether "..." has been seen; n: how many items before it *)
REnumList(T, i, dots, n) ==
  LET j == IF i = 0 THEN 0 ELSE IF Str(T, i) = "..." THEN (IF dots \/ n = 0 THEN 0 ELSE i + 1) ELSE RItem(T, i)
      d == dots \/ Str(T, i) = "..."
  IN IF j = 0 THEN 0 ELSE IF Str(T, j) = "," THEN REnumList(T, j + 1, d, n + 1) ELSE At(T, j, "}")

RECURSIVE RType(_, _), RComps(_, _, _, _, _, _)
RComp(T, i, sel) ==
  LET j == IF Kind(T, i) = "i" THEN RType(T, i + 1) ELSE 0
  IN IF j = 0 \/ sel THEN j
     ELSE IF Str(T, j) = "OPTIONAL" THEN j + 1
     ELSE IF Str(T, j) = "DEFAULT" THEN RValue(T, j + 1) ELSE j
(* sel: of a CHOICE; part: 0 in a group, 1 before the first, 2 after the first, 3 after the second "..."; n: what has been read in the root *)
RComps(T, i, end, sel, part, n) ==
  LET s == Str(T, i)
      j == IF i = 0 THEN 0
           ELSE IF s = "..." THEN (IF part \in {1, 2} /\ ~(sel /\ n = 0) THEN i + 1 ELSE 0)
           ELSE IF s = "[[" THEN (IF part = 2 THEN RComps(T, i + 1, "]]", sel, 0, 0) ELSE 0)
           ELSE IF sel /\ part = 3 THEN 0
           ELSE RComp(T, i, sel)
      p == IF s = "..." THEN part + 1 ELSE part
  IN IF j = 0 THEN 0
     ELSE IF Str(T, j) = "," THEN RComps(T, j + 1, end, sel, p, n + 1)
     ELSE At(T, j, end)
RType(T, i) ==
  IF i = 0 THEN 0
  ELSE IF Kind(T, i) = "T" THEN i + 1
  ELSE CASE Str(T, i) = "BOOLEAN" -> ROptCon(T, i + 1)
         [] Str(T, i) = "INTEGER" -> ROptCon(T, i + 1)
         [] Str(T, i) \in {"BIT", "OCTET"} -> ROptCon(T, At(T, i + 1, "STRING"))
         [] Str(T, i) = "ENUMERATED" -> REnumList(T, At(T, i + 1, "{"), FALSE, 0)
         [] Str(T, i) = "CHOICE" -> RComps(T, At(T, i + 1, "{"), "}", TRUE, 1, 0)
         [] Str(T, i) = "SEQUENCE" ->
              IF Str(T, i + 1) = "{"
              THEN (IF Str(T, i + 2) = "}" THEN i + 3 ELSE RComps(T, i + 2, "}", FALSE, 1, 0))
              ELSE RType(T, At(T, ROptCon(T, i + 1), "OF"))
         [] OTHER -> 0
RECURSIVE RDefs(_, _)
RDefs(T, i) ==
  IF i = 0 THEN FALSE
  ELSE IF Str(T, i) = "END" THEN i = Len(T)
  ELSE IF Kind(T, i) = "T" THEN RDefs(T, RType(T, At(T, i + 1, "::=")))
  ELSE IF Kind(T, i) = "i" THEN RDefs(T, RValue(T, At(T, RType(T, i + 1), "::=")))
  ELSE FALSE
RModule(T) ==
  LET i == IF Kind(T, 1) = "T" THEN At(T, 2, "DEFINITIONS") ELSE 0
      j == IF Str(T, i) = "AUTOMATIC" THEN At(T, i + 1, "TAGS") ELSE i
  IN i > 0 /\ RDefs(T, At(T, At(T, j, "::="), "BEGIN"))

(* constraints of a form that is not described here: the parser reads them loosely, no claim *)
Vague(T) == \E i \in 1..Len(T) : /\ Str(T, i) = "("
                                  /\ \/ Str(T, i - 1) = "INTEGER" /\ RCon(T, i, FALSE) = 0
                                     \/ Str(T, i - 1) \in {"STRING", "SEQUENCE"} /\ RCon(T, i, TRUE) = 0
                                     \/ Str(T, i - 1) = "BOOLEAN"

(* notation of X.680 that is not described here: constraints on a reference or on a structured type, serial constraints, named numbers *)
Foreign(T) == Kind(T, 1) = "w" \/ \E i \in 1..Len(T) :
  \/ Kind(T, i) = "T" /\ Str(T, i + 1) = "("
  \/ Kind(T, i) = "w" /\ Str(T, i + 1) = "::=" /\ (i > 4 \/ Str(T, i) \notin {"DEFINITIONS", "TAGS"})
        /\ Kind(T, i - 1) # "i" /\ Str(T, i - 1) \notin {"OCTET", "BIT", "OF"}
  \/ Str(T, i) \in {")", "}"} /\ Str(T, i + 1) = "("
  \/ Str(T, i) \in {"INTEGER", "STRING"} /\ Str(T, i + 1) = "{"
  \/ Str(T, i) = "::=" /\ Str(T, i + 1) = "{"
  \/ Str(T, i) = "DEFAULT" /\ Str(T, i + 1) = "{"
  \/ Str(T, i) = "SEQUENCE" /\ Str(T, i + 1) = "SIZE"
  \/ Str(T, i) = "(" /\ Kind(T, i + 1) = "n" /\ Str(T, i + 2) = ")" /\ Kind(T, i - 1) = "i" /\ T[i + 1].n.s = 1

------------------------------------------------------------------------
(* what is said more than once (a SEQUENCE or CHOICE with two components of a name is refused only when it is used) *)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
RECURSIVE FlatItems(_)
FlatItems(items) == IF items = <<>> THEN <<>>
                    ELSE (CASE Head(items).i = "m" -> <<>>
                            [] Head(items).i = "c" -> <<Head(items)>>
                            [] Head(items).i = "g" -> Head(items).c) \o FlatItems(Tail(items))
RECURSIVE Within(_)
(* a type expression and all inside it *)
Within(te) == <<te>> \o (CASE te.k = "seqof" -> Within(te.e)
                          [] te.k \in {"seq", "choice"} -> CatAll(Map(FlatItems(te.items), LAMBDA c : Within(c.t)))
                          [] OTHER -> <<>>)
Some(s, P(_)) == \E i \in 1..Len(s) : P(s[i])
EnumItems(te) == SelectSeq(te.items, LAMBDA e : e.i = "e")
EnumNums(te) == LET e == EnumOf(te) IN Map(e.root \o e.adds, LAMBDA x : x.x)
NoDup(te) ==
  CASE te.k = "enum" -> Distinct(Map(EnumItems(te), LAMBDA e : e.n)) /\ Distinct(EnumNums(te))
    [] OTHER -> TRUE
All(D) == CatAll(Map(D, LAMBDA d : Within(d.t)))
Dups(D) == ~Distinct(Map(D, LAMBDA d : d.n)) \/ Some(All(D), LAMBDA te : ~NoDup(te))

(* what is mentioned but not defined *)
Defd(D, n, kind) == \E i \in 1..Len(D) : D[i].n = n /\ D[i].d = kind
ConsOf(te) == IF te.k \in {"int", "bits", "octs", "seqof"} THEN <<te.c>> ELSE <<>>
Ends(te) == CatAll(Map(ConsOf(te), LAMBDA c : <<c.lo, c.hi>>))
ConRefs(D) == Map(SelectSeq(CatAll(Map(All(D), Ends)), LAMBDA e : e.e = "ref"), LAMBDA e : e.n)
TypeRefs(D) == Map(SelectSeq(All(D), LAMBDA te : te.k = "ref"), LAMBDA te : te.n)
(* where values stand: [t, v] *)
Defaults(te) == IF te.k \in {"seq", "choice"}
                THEN Map(SelectSeq(FlatItems(te.items), LAMBDA c : c.p = "d"), LAMBDA c : [at |-> "default", t |-> c.t, v |-> c.d])
                ELSE <<>>
Uses(D) == Map(SelectSeq(D, LAMBDA d : d.d = "val"), LAMBDA d : [at |-> "value", t |-> d.t, v |-> d.v]) \o CatAll(Map(All(D), Defaults))
RECURSIVE Chain(_, _, _)
(* the aliases behind a reference do not come back to it *)
Chain(D, te, seen) == te.k # "ref" \/ (te.n \notin seen /\ Chain(D, DefOf(D, te.n).t, seen \cup {te.n}))
RefsBad(D) == Some(TypeRefs(D), LAMBDA n : ~Defd(D, n, "type")) \/ Some(ConRefs(D), LAMBDA n : ~Defd(D, n, "val"))
ValRefBad(D, u) == u.v.v = "id" /\ ~(Base(D, u.t).k = "enum" /\ u.v.n \in EnumNames(Base(D, u.t))) /\ ~Defd(D, u.v.n, "val")

RECURSIVE Sorted(_, _, _)
(* whether the definitions can be put in an order *)
Sorted(D, left, done) == LET now == {n \in left : Deps(D, n) \subseteq done}
                         IN left = {} \/ (now # {} /\ Sorted(D, left \ now, done \cup now))

(* values of the wrong kind; a value reference brings its own type *)
Fits(D, u) ==
  LET b == Base(D, u.t).k
  IN CASE u.v.v = "bool" -> b = "bool"
       [] u.v.v = "num" -> b = "int"
       [] u.v.v \in {"bstr", "hstr"} -> b \in {"bits", "octs"}
       [] u.v.v = "id" -> \/ b = "enum" /\ u.v.n \in EnumNames(Base(D, u.t))
                          \/ Base(D, DefOf(D, u.v.n).t).k = b
(* no claim: a reference to a value of another type *)
Odd(D, u) == u.v.v = "id" /\ ~Fits(D, u)
Leaf(D, u) == Base(D, u.t).k \in {"bool", "int", "bits", "octs", "enum"}

(* bounds the wrong way round, negative sizes *)
BadCon(D, te) == LET c == te.c IN
  /\ c.has /\ c.lo.e \in {"num", "ref"} /\ c.hi.e \in {"num", "ref"}
  /\ ~IntLe(Int1(D, c.lo), Int1(D, c.hi))
NegCon(D, te) == LET c == te.c IN
  /\ te.k # "int" /\ c.has
  /\ \/ c.lo.e \in {"num", "ref"} /\ Int1(D, c.lo).s = 1
     \/ c.hi.e \in {"num", "ref"} /\ Int1(D, c.hi).s = 1
IntRef(D, n) == Base(D, DefOf(D, n).t).k = "int"

Class(T) ==
  IF Foreign(T) THEN "none"
  ELSE IF ~RModule(T) THEN "syntax"
  ELSE IF Vague(T) THEN "none"
  ELSE LET D == PModule(T) IN
  IF Dups(D) THEN "dup"
  ELSE IF RefsBad(D) THEN "ref"
  ELSE IF Some(All(D), LAMBDA te : ~Chain(D, te, {})) THEN "none"
  ELSE LET U == Uses(D) IN
  IF Some(U, LAMBDA u : ~Leaf(D, u)) THEN "none"
  ELSE IF Some(U, LAMBDA u : ValRefBad(D, u)) THEN "ref"
  ELSE IF ~Sorted(D, Names(D), {}) THEN "none"
  ELSE IF Some(U, LAMBDA u : Odd(D, u)) \/ Some(ConRefs(D), LAMBDA n : ~IntRef(D, n)) THEN "none"
  ELSE IF Some(U, LAMBDA u : ~Fits(D, u)) THEN "value"
  ELSE IF Some(All(D), LAMBDA te : ConsOf(te) # <<>> /\ (NegCon(D, te) \/ BadCon(D, te))) THEN "bounds"
  ELSE IF Some(U, LAMBDA u : Legal(Res(D, u.t), ValOf(D, u.t, u.v)) = "bad") THEN "value"
  ELSE "ok"

(* a text that is no module must be refused, by the parser or when its module is executed *)
MalformedVerdict(c, e) ==
  IF e.r = "hang" THEN "schema-hang"
  ELSE IF c \in {"ok", "none"} THEN ""
  ELSE IF e.r = "ok" /\ e.x = "ok" THEN "accepted-" \o c ELSE ""

(* what an "ok" module has to define is settled unless it has two components of a name, or an addition after an addition group *)
RECURSIVE GroupLast(_, _)
GroupLast(items, seen) == items = <<>> \/ (LET i == Head(items) IN ~(seen /\ i.i = "c") /\ GroupLast(Tail(items), i.i # "m" /\ (seen \/ i.i = "g")))
Settled(D) == \A i \in 1..Len(All(D)) : LET te == All(D)[i] IN te.k \in {"seq", "choice"} =>
                 Distinct(Map(FlatItems(te.items), LAMBDA c : c.n)) /\ GroupLast(te.items, FALSE)
NearVerdict(c, T, e) == IF c = "ok" /\ e.look /\ Settled(PModule(T)) THEN ParseVerdict(PModule(T), e) ELSE MalformedVerdict(c, e)
=============================================================================
