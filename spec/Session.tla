----------------------------- MODULE Session -----------------------------
(* The library as its user sees it: a store of live messages (handle ->    *)
(* type and value) and calls that build, change, encode, decode and show   *)
(* them. Every call is one action; what it may return is a function of     *)
(* the message (or of the octets and the type) alone - never of history.   *)
EXTENDS Per

NoMsg == [t |-> 0, v |-> 0]

------------------------------------------------------------------------
(* results the actions may have, as functions of a message's type and value *)

(* canonical view of a message that may still be incomplete: a mandatory SEQUENCE or SEQUENCE OF *)
(* that is not set reads the same as an empty one                                                *)
View(t, v) == Norm(t, v)

(* outcome of encode(): set of admissible results *)
EncVerdict0(t, v, r, x) ==
  LET L == Legal(t, v)
  IN IF r = "hang" THEN "enc-hang"
     ELSE IF L = "bad" THEN (IF r = "ok" THEN "enc-illegal" ELSE "")
     ELSE IF L = "lax" /\ r # "ok" THEN ""
     ELSE LET f == Enc(t, v)
          IN IF Unsup(f) THEN (IF r = "ok" /\ x # BytesOf(Complete(f)) THEN "enc-unsupported" ELSE "")
             ELSE IF r # "ok" THEN "enc-refused"
             ELSE IF x # BytesOf(Complete(f)) THEN "enc-octets" ELSE ""

EncVerdict(t, v, r, x) ==
  IF Legal(t, v) # "bad" THEN EncVerdict0(t, v, r, x)
  ELSE LET w == Dehollow(t, v)
       IN IF w = v \/ Legal(t, w) = "bad" THEN EncVerdict0(t, v, r, x)
          ELSE IF r = "hang" THEN "enc-hang" ELSE IF r # "ok" THEN "" ELSE EncVerdict0(t, w, r, x)

(* outcome of decode() *)
DecVerdict(t, x, r, v) ==
  LET d == DecBytes(t, x)
  IN IF r = "hang" THEN "dec-hang"
     ELSE CASE d.s = "ok" -> IF r # "ok" THEN "dec-refused" ELSE IF v # d.v THEN "dec-value" ELSE ""
            [] d.s = "trunc" -> IF r = "ok" THEN "dec-truncated" ELSE ""
            [] d.s = "unk" -> IF r = "ok" THEN "dec-unknown" ELSE ""
            (* no version's encoding: may be refused; what is returned is at least a value of the type *)
            [] OTHER -> IF r = "ok" /\ ~Decodable(t, v) THEN "dec-illegal" ELSE ""

(* decode(encode(v)) *)
RoundVerdict(t, v, r, w) ==
  IF r # "ok" THEN "rt-refused" ELSE IF w # Norm(t, v) THEN "rt-value" ELSE ""

(* decode with type old of what encode produced for value v of type new *)
VersionVerdict(old, new, v, r, w) ==
  IF r = "hang" THEN "ver-hang"
  ELSE IF ~Known(old, new, v) THEN (IF r = "ok" THEN "ver-unknown" ELSE "")
  ELSE IF r # "ok" THEN "ver-refused"
  ELSE IF w # Project(old, new, Norm(new, v)) THEN "ver-value" ELSE ""

(* cut points n for which decode of the first n octets returned a value *)
CutVerdict(t, x, acc) ==
  IF \E i \in 1..Len(acc) : DecBytes(t, SubSeq(x, 1, acc[i])).s \in {"trunc", "unk"} THEN "cut" ELSE ""

DictVerdict(t, v, r, d) ==
  IF Legal(t, v) # "ok" THEN ""
  ELSE IF r # "ok" THEN "dict-refused" ELSE IF d # ToDict(t, Norm(t, v)) THEN "dict-value" ELSE ""

ViewVerdict(t, v, r, w) == IF r # "ok" THEN "view-refused" ELSE IF w.k # v.k \/ View(t, w) # View(t, v) THEN "view-value" ELSE ""

------------------------------------------------------------------------
(* changing a message: p is a path of component names and element numbers    *)
Unset(t) == CASE t.k = "seq" -> [k |-> "seq", c |-> <<>>]
              [] t.k = "seqof" -> [k |-> "seqof", l |-> <<>>]
              [] t.k = "choice" -> [k |-> "choice", n |-> "", v |-> [k |-> "none"]]
              [] OTHER -> [k |-> "none"]
CompType(t, n) == LET all == AllComps(t) IN all[IndexOf(all, n)].t
PutComp(v, n, x) == [k |-> "seq", c |-> IF Has(v, n) THEN [i \in 1..Len(v.c) |-> IF v.c[i].n = n THEN [n |-> n, v |-> x] ELSE v.c[i]]
                                         ELSE Append(v.c, [n |-> n, v |-> x])]
DropComp(v, n) == [k |-> "seq", c |-> SelectSeq(v.c, LAMBDA e : e.n # n)]
RECURSIVE SetAt(_, _, _, _), DropAt(_, _, _)
SetAt(t, v, p, x) ==
  IF p = <<>> THEN x
  ELSE LET h == Head(p) IN
       CASE t.k = "seq" -> LET ct == CompType(t, h)
                               old == IF Has(v, h) THEN Get(v, h) ELSE Unset(ct)
                           IN PutComp(v, h, SetAt(ct, old, Tail(p), x))
         [] t.k = "choice" -> LET ct == CompType(t, h)
                                  old == IF v.n = h THEN v.v ELSE Unset(ct)
                              IN [k |-> "choice", n |-> h, v |-> SetAt(ct, old, Tail(p), x)]
         [] t.k = "seqof" -> [k |-> "seqof", l |-> IF h > Len(v.l) THEN Append(v.l, SetAt(t.e, Unset(t.e), Tail(p), x))
                                                   ELSE [v.l EXCEPT ![h] = SetAt(t.e, v.l[h], Tail(p), x)]]
DropAt(t, v, p) ==
  LET h == Head(p) IN
  IF Len(p) = 1 THEN DropComp(v, h)
  ELSE CASE t.k = "seq" -> PutComp(v, h, DropAt(CompType(t, h), Get(v, h), Tail(p)))
         [] t.k = "choice" -> [k |-> "choice", n |-> h, v |-> DropAt(CompType(t, h), v.v, Tail(p))]
         [] t.k = "seqof" -> [k |-> "seqof", l |-> [v.l EXCEPT ![h] = DropAt(t.e, v.l[h], Tail(p))]]
=============================================================================
