------------------------------- MODULE Per -------------------------------
(* The supported ASN.1 subset and its ALIGNED BASIC-PER encoding (X.691). *)
(*                                                                         *)
(* Types  (records with field k):                                          *)
(*   [k|->"bool"]                                                          *)
(*   [k|->"int",  c|->constraint, ext]                                     *)
(*      constraint: [op|->"none"] | [op|->"range", lo, hi]                 *)
(*                | [op|->"single", vs] | [op|->"or"/"and", args]          *)
(*      lo, hi: [inf|->BOOLEAN, n|->Int]                                   *)
(*   [k|->"enum", root, adds, ext]   root/adds: <<[n, x]>>                 *)
(*   [k|->"bits"/"octs", z]  z: [has, lo, hi (-1 = MAX), ext]              *)
(*   [k|->"seqof", z, e]                                                   *)
(*   [k|->"choice", root, adds, ext] root: <<[n,t]>>, adds: <<[g,c]>>      *)
(*   [k|->"seq", root, adds, ext]    root: <<[n,t,p,d]>>, adds: <<[g,c]>>  *)
(* Values: [k, b] [k, n] [k, e] [k, x] [k, l] [k, n, v] [k, c]             *)
EXTENDS Big, SequencesExt, FiniteSets, TLC

MaxLen == 16384
Lim64K == 65536

------------------------------------------------------------------------
(* helpers *)
RECURSIVE CatR(_, _, _)
CatR(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                  ELSE LET m == (i + j) \div 2 IN CatR(ss, i, m) \o CatR(ss, m + 1, j)
CatAll(ss) == CatR(ss, 1, Len(ss))
Map(s, Op(_)) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, n, i) == IF i > Len(s) THEN 0 ELSE IF s[i].n = n THEN i ELSE IndexFrom(s, n, i + 1)
IndexOf(s, n) == IndexFrom(s, n, 1)
Has(v, n) == IndexOf(v.c, n) # 0
Get(v, n) == v.c[IndexOf(v.c, n)].v
Names(s) == {s[i].n : i \in 1..Len(s)}
AddComps(t) == CatAll(Map(t.adds, LAMBDA a : a.c))
AllComps(t) == t.root \o AddComps(t)

------------------------------------------------------------------------
(* INTEGER constraints: PER-visible bounds and membership *)
Inf == [inf |-> TRUE, n |-> BI(0)]
Fin(n) == [inf |-> FALSE, n |-> n]
MinB(a, b) == IF a.inf \/ b.inf THEN Inf ELSE IF IntLe(a.n, b.n) THEN a ELSE b   \* union lower
MaxB(a, b) == IF a.inf \/ b.inf THEN Inf ELSE IF IntLe(a.n, b.n) THEN b ELSE a   \* union upper
MaxL(a, b) == IF a.inf THEN b ELSE IF b.inf THEN a ELSE IF IntLe(a.n, b.n) THEN b ELSE a
MinU(a, b) == IF a.inf THEN b ELSE IF b.inf THEN a ELSE IF IntLe(a.n, b.n) THEN a ELSE b

RECURSIVE CLo(_), CHi(_), InC(_, _)
CLo(c) == CASE c.op = "none" -> Inf
            [] c.op = "range" -> c.lo
            [] c.op = "single" -> FoldLeft(LAMBDA a, x : MinB(a, Fin(x)), Fin(c.vs[1]), c.vs)
            [] c.op = "or" -> FoldLeft(LAMBDA a, x : MinB(a, CLo(x)), CLo(c.args[1]), c.args)
            [] c.op = "and" -> FoldLeft(LAMBDA a, x : MaxL(a, CLo(x)), CLo(c.args[1]), c.args)
CHi(c) == CASE c.op = "none" -> Inf
            [] c.op = "range" -> c.hi
            [] c.op = "single" -> FoldLeft(LAMBDA a, x : MaxB(a, Fin(x)), Fin(c.vs[1]), c.vs)
            [] c.op = "or" -> FoldLeft(LAMBDA a, x : MaxB(a, CHi(x)), CHi(c.args[1]), c.args)
            [] c.op = "and" -> FoldLeft(LAMBDA a, x : MinU(a, CHi(x)), CHi(c.args[1]), c.args)
InB(lo, hi, n) == (lo.inf \/ IntLe(lo.n, n)) /\ (hi.inf \/ IntLe(n, hi.n))
InC(c, n) == CASE c.op = "none" -> TRUE
               [] c.op = "range" -> InB(c.lo, c.hi, n)
               [] c.op = "single" -> \E i \in 1..Len(c.vs) : c.vs[i] = n
               [] c.op = "or" -> \E i \in 1..Len(c.args) : InC(c.args[i], n)
               [] c.op = "and" -> \A i \in 1..Len(c.args) : InC(c.args[i], n)
InZ(z, n) == (~z.has) \/ (z.lo <= n /\ (z.hi = -1 \/ n <= z.hi))
ZLo(z) == IF z.has THEN z.lo ELSE 0
ZHi(z) == IF z.has THEN z.hi ELSE -1
ZExt(z) == z.has /\ z.ext

------------------------------------------------------------------------
(* bit fields: a = octet aligned, b = bits, u = needs an unimplemented form *)
F(b) == [a |-> FALSE, b |-> b, u |-> FALSE]
FA(b) == [a |-> TRUE, b |-> b, u |-> FALSE]
FU(a, b) == [a |-> a, b |-> b, u |-> TRUE]

(* 11.1: complete encoding - pad aligned fields, pad to an octet, never empty *)
Pad(n) == [i \in 1..((8 - (n % 8)) % 8) |-> 0]
RECURSIVE JoinR(_, _, _, _)              \* fields i..j when off bits precede them
JoinR(fs, i, j, off) ==
  IF i > j THEN <<>>
  ELSE IF i = j THEN (IF fs[i].a /\ fs[i].b # <<>> THEN Pad(off) \o fs[i].b ELSE fs[i].b)
  ELSE LET m == (i + j) \div 2
           L == JoinR(fs, i, m, off)
       IN L \o JoinR(fs, m + 1, j, off + Len(L))
Join(fs) == JoinR(fs, 1, Len(fs), 0)
Complete(fs) == LET b == Join(fs) IN IF b = <<>> THEN <<0,0,0,0,0,0,0,0>> ELSE b \o Pad(Len(b))
Unsup(fs) == \E i \in 1..Len(fs) : fs[i].u

(* 11.5 constrained whole number, small range (lengths, indexes): hi - lo < 65536 *)
CwnS(n, lo, hi) ==
  LET r == hi - lo + 1
  IN IF r = 1 THEN <<>>
     ELSE IF r <= 255 THEN <<F(SBits(n - lo, BitLen(NatOf(r - 1))))>>
     ELSE IF r = 256 THEN <<FA(SBits(n - lo, 8))>>
     ELSE <<FA(SBits(n - lo, 16))>>

(* 11.9.3.5 - 11.9.3.8: unconstrained length, one fragment *)
LenOct(n) == IF n < 128 THEN FA(SBits(n, 8)) ELSE FA(<<1, 0>> \o SBits(n, 14))
(* n units; Seg(i, j) = fields of units i..j; 16K fragmentation is flagged u *)
Unc(n, Seg(_, _)) ==
  IF n < MaxLen THEN <<LenOct(n)>> \o Seg(1, n)
  ELSE LET q == n \div 65536
           r == n % 65536
           k == r \div MaxLen
           Chunk(i) == <<FU(TRUE, <<1, 1>> \o SBits(4, 6))>> \o Seg(65536 * (i - 1) + 1, 65536 * i)
           Part == IF k = 0 THEN <<>>
                   ELSE <<FU(TRUE, <<1, 1>> \o SBits(k, 6))>> \o Seg(65536 * q + 1, 65536 * q + k * MaxLen)
           Rest == <<[LenOct(r % MaxLen) EXCEPT !.u = TRUE]>> \o Seg(65536 * q + k * MaxLen + 1, n)
       IN CatAll([i \in 1..q |-> Chunk(i)]) \o Part \o Rest

(* 11.5.7 / 13.2.5 - 13.2.6 on unbounded integers *)
Cwn(n, lo, hi) ==
  LET r1 == IntSub(hi, lo).m                      \* range - 1
      off == IntSub(n, lo).m
  IN IF Len(r1) <= 2 THEN CwnS(Small(off), 0, Small(r1))
     ELSE CwnS(OctLen(off), 1, OctLen(r1)) \o <<FA(BitsOf(PadTo(off, OctLen(off))))>>
UncOctets(bytes) == Unc(Len(bytes), LAMBDA i, j : IF i > j THEN <<>> ELSE <<FA(BitsOf(SubSeq(bytes, i, j)))>>)
Semi(n, lo) == LET off == IntSub(n, lo).m IN UncOctets(PadTo(off, OctLen(off)))
Full(n) == UncOctets(TwosBytes(n))

(* 11.6 *)
NormSmall(n) == IF n <= 63 THEN <<F(<<0>> \o SBits(n, 6))>>
                ELSE <<F(<<1>>)>> \o Semi(BI(n), BI(0))
(* 11.9.3.4 *)
NormSmallLen(n) == IF n <= 64 THEN <<F(<<0>> \o SBits(n - 1, 6))>>
                   ELSE <<FU(FALSE, <<1>>), [LenOct(n) EXCEPT !.u = TRUE]>>

OpenType(fs) ==
  LET bytes == BytesOf(Complete(fs))
      o == UncOctets(bytes)
  IN IF Unsup(fs) THEN Map(o, LAMBDA f : [f EXCEPT !.u = TRUE]) ELSE o

EncInt(t, n) ==
  LET lo == CLo(t.c)
      hi == CHi(t.c)
      Root == IF ~lo.inf /\ ~hi.inf THEN Cwn(n, lo.n, hi.n)
              ELSE IF ~lo.inf THEN Semi(n, lo.n) ELSE Full(n)
  IN IF t.ext THEN (IF InB(lo, hi, n) THEN <<F(<<0>>)>> \o Root ELSE <<F(<<1>>)>> \o Full(n))
     ELSE Root

(* 16, 17: strings of n units of u bits, content bits x *)
EncStr(z, n, x, u) ==
  LET lo == ZLo(z)
      hi == ZHi(z)
      U == Unc(n, LAMBDA i, j : IF i > j THEN <<>> ELSE <<FA(SubSeq(x, u * (i - 1) + 1, u * j))>>)
      Body == IF hi = 0 THEN <<>>
              ELSE IF lo = hi /\ hi < Lim64K THEN (IF hi * u <= 16 THEN <<F(x)>> ELSE <<FA(x)>>)
              ELSE IF lo = hi THEN Map(U, LAMBDA f : [f EXCEPT !.u = TRUE])
              ELSE IF hi # -1 /\ hi < Lim64K THEN CwnS(n, lo, hi) \o (IF n = 0 THEN <<>> ELSE <<FA(x)>>)
              ELSE U
  IN IF ZExt(z) THEN (IF InZ(z, n) THEN <<F(<<0>>)>> \o Body ELSE <<F(<<1>>)>> \o U)
     ELSE Body

(* 14: enumeration index = position in ascending order of values *)
EnumIdx(items, name) ==
  LET x == items[IndexOf(items, name)].x
  IN Cardinality({i \in 1..Len(items) : items[i].x < x})
EncEnum(t, e) ==
  IF ~t.ext THEN CwnS(EnumIdx(t.root, e), 0, Len(t.root) - 1)
  ELSE IF IndexOf(t.root, e) # 0 THEN <<F(<<0>>)>> \o CwnS(EnumIdx(t.root, e), 0, Len(t.root) - 1)
  ELSE <<F(<<1>>)>> \o NormSmall(IndexOf(t.adds, e) - 1)

EmptyOf(t) == IF t.k = "seq" THEN [k |-> "seq", c |-> <<>>] ELSE [k |-> "seqof", l |-> <<>>]
(* a component occupies room on the wire *)
OnWire(c, v) == Has(v, c.n) /\ (c.p # "d" \/ Get(v, c.n) # c.d)

RECURSIVE Enc(_, _), EncComps(_, _)
(* root components or one addition group: presence bits, then the fields *)
EncComps(comps, v) ==
  LET opt == SelectSeq(comps, LAMBDA c : c.p # "m")
      bits == Map(opt, LAMBDA c : IF OnWire(c, v) THEN 1 ELSE 0)
      one(c) == IF c.p = "m" THEN Enc(c.t, IF Has(v, c.n) THEN Get(v, c.n) ELSE EmptyOf(c.t))
                ELSE IF OnWire(c, v) THEN Enc(c.t, Get(v, c.n)) ELSE <<>>
  IN <<F(bits)>> \o CatAll(Map(comps, one))
AddPresent(a, v) == \E i \in 1..Len(a.c) : OnWire(a.c[i], v)

Enc(t, v) ==
  CASE t.k = "bool" -> <<F(<<IF v.b THEN 1 ELSE 0>>)>>
    [] t.k = "int" -> EncInt(t, v.n)
    [] t.k = "enum" -> EncEnum(t, v.e)
    [] t.k = "bits" -> EncStr(t.z, Len(v.x), v.x, 1)
    [] t.k = "octs" -> EncStr(t.z, Len(v.x), BitsOf(v.x), 8)
    [] t.k = "seqof" ->
         LET n == Len(v.l)
             lo == ZLo(t.z)
             hi == ZHi(t.z)
             els == TLCEval([i \in 1..n |-> Enc(t.e, v.l[i])])
             U == Unc(n, LAMBDA i, j : CatAll(SubSeq(els, i, j)))
             Body == IF lo = hi /\ hi < Lim64K THEN CatAll(els)
                     ELSE IF hi # -1 /\ hi < Lim64K THEN CwnS(n, lo, hi) \o CatAll(els)
                     ELSE U
         IN IF ZExt(t.z) THEN (IF InZ(t.z, n) THEN <<F(<<0>>)>> \o Body ELSE <<F(<<1>>)>> \o U)
            ELSE Body
    [] t.k = "choice" ->
         LET i == IndexOf(t.root, v.n)
             alt == AddComps(t)
             j == IndexOf(alt, v.n)
         IN IF i # 0 THEN (IF t.ext THEN <<F(<<0>>)>> ELSE <<>>) \o CwnS(i - 1, 0, Len(t.root) - 1) \o Enc(t.root[i].t, v.v)
            ELSE <<F(<<1>>)>> \o NormSmall(j - 1) \o OpenType(Enc(alt[j].t, v.v))
    [] t.k = "seq" ->
         LET pres == Map(t.adds, LAMBDA a : IF AddPresent(a, v) THEN 1 ELSE 0)
             any == \E i \in 1..Len(pres) : pres[i] = 1
             one(i) == IF pres[i] = 0 THEN <<>>
                       ELSE IF t.adds[i].g THEN OpenType(EncComps(t.adds[i].c, v))
                       ELSE OpenType(Enc(t.adds[i].c[1].t, Get(v, t.adds[i].c[1].n)))
         IN (IF t.ext THEN <<F(<<IF any THEN 1 ELSE 0>>)>> ELSE <<>>)
            \o EncComps(t.root, v)
            \o (IF any THEN NormSmallLen(Len(pres)) \o <<F(pres)>> \o CatAll(TLCEval([i \in 1..Len(pres) |-> one(i)]))
                       ELSE <<>>)

EncBytes(t, v) == BytesOf(Complete(Enc(t, v)))
Supported(t, v) == ~Unsup(Enc(t, v))

------------------------------------------------------------------------
(* legality of a value: "ok", "bad" (must be refused), "lax" (a mandatory      *)
(* list/sequence left unset: refused or encoded as empty)                      *)
Worst(a, b) == IF a = "bad" \/ b = "bad" THEN "bad" ELSE IF a = "lax" \/ b = "lax" THEN "lax" ELSE "ok"
WorstOf(s) == FoldLeft(Worst, "ok", s)
B2(x) == IF x THEN "ok" ELSE "bad"

RECURSIVE LegalF(_, _, _), LegalComps(_, _, _)
LegalComps(comps, v, hole) ==
  WorstOf(Map(comps, LAMBDA c : IF Has(v, c.n) THEN LegalF(c.t, Get(v, c.n), hole)
                                ELSE IF c.p # "m" THEN "ok"
                                ELSE IF c.t.k \in {"seq", "seqof"} THEN Worst("lax", LegalF(c.t, EmptyOf(c.t), hole))
                                ELSE "bad"))
(* 19.. / X.680: no present addition after an absent mandatory one; the library       *)
(* checks single additions and groups separately, a mix is left open ("lax")          *)
AddMandatory(a) == \E i \in 1..Len(a.c) : a.c[i].p = "m"
AddAllMandatory(a) == \A i \in 1..Len(a.c) : a.c[i].p = "m"
LegalAdds(t, v, h) ==
  LET A == t.adds
      P == Map(A, LAMBDA a : AddPresent(a, v))
      hole(i, j) == i < j /\ P[j] /\ ~P[i]
  IN IF \E i, j \in 1..Len(A) : hole(i, j) /\ A[i].g = A[j].g /\ AddAllMandatory(A[i]) THEN h
     ELSE IF \E i, j \in 1..Len(A) : hole(i, j) /\ AddMandatory(A[i]) THEN "lax" ELSE "ok"

LegalF(t, v, hole) ==
  IF v.k # t.k THEN "bad" ELSE
  CASE t.k = "bool" -> "ok"
    [] t.k = "int" -> B2(t.ext \/ InC(t.c, v.n))
    [] t.k = "enum" -> B2(v.e \in Names(t.root) \cup Names(t.adds))
    [] t.k \in {"bits", "octs"} -> B2(ZExt(t.z) \/ InZ(t.z, Len(v.x)))
    [] t.k = "seqof" -> Worst(B2(ZExt(t.z) \/ InZ(t.z, Len(v.l))), WorstOf(Map(v.l, LAMBDA x : LegalF(t.e, x, hole))))
    [] t.k = "choice" ->
         LET all == AllComps(t)
             i == IndexOf(all, v.n)
         IN IF i = 0 THEN "bad" ELSE LegalF(all[i].t, v.v, hole)
    [] t.k = "seq" ->
         IF ~(Names(v.c) \subseteq Names(AllComps(t))) THEN "bad"
         ELSE Worst(LegalComps(t.root, v, hole),
              Worst(LegalAdds(t, v, hole),
                    WorstOf(Map(t.adds, LAMBDA a :
                        IF AddPresent(a, v) THEN LegalComps(a.c, v, hole)
                        ELSE WorstOf(Map(a.c, LAMBDA c : IF Has(v, c.n) THEN LegalF(c.t, Get(v, c.n), hole) ELSE "ok"))))))

Legal(t, v) == LegalF(t, v, "bad")
(* what a decoder may return for octets no version sends: an addition may be missing before a present one *)
Decodable(t, v) == LegalF(t, v, "lax") # "bad"

(* an object in which nothing is set and that cannot be a value as it stands (an unselected *)
(* CHOICE, an empty SEQUENCE that has mandatory components) is no component at all           *)
RECURSIVE Hollow(_, _)
Hollow(t, v) == \/ t.k = "choice" /\ v.k = "choice" /\ (IF v.n = "" THEN TRUE ELSE
                     LET all == AllComps(t)
                         i == IndexOf(all, v.n) IN i # 0 /\ Hollow(all[i].t, v.v))
                \/ t.k = "seqof" /\ v.k = "seqof" /\ v.l # <<>> /\ \A i \in 1..Len(v.l) : Hollow(t.e, v.l[i])
                \/ t.k = "seq" /\ v.k = "seq" /\ v.c = <<>> /\ \E i \in 1..Len(t.root) : t.root[i].p = "m"
RECURSIVE Dehollow(_, _)
Dehollow(t, v) ==
  IF v.k # t.k THEN v ELSE
  CASE t.k = "seq" ->
         LET all == AllComps(t)
             sub(e) == LET i == IndexOf(all, e.n) IN IF i = 0 THEN e ELSE [n |-> e.n, v |-> Dehollow(all[i].t, e.v)]
         IN [k |-> "seq", c |-> SelectSeq(Map(v.c, sub), LAMBDA e : LET i == IndexOf(all, e.n) IN i = 0 \/ ~Hollow(all[i].t, e.v))]
    [] t.k = "seqof" -> [k |-> "seqof", l |-> Map(v.l, LAMBDA x : Dehollow(t.e, x))]
    [] t.k = "choice" -> LET all == AllComps(t)
                             i == IndexOf(all, v.n) IN
                         IF i = 0 THEN v ELSE [k |-> "choice", n |-> v.n, v |-> Dehollow(all[i].t, v.v)]
    [] OTHER -> v

------------------------------------------------------------------------
(* canonical form: components in definition order, defaults filled in, unset  *)
(* mandatory lists and sequences empty                                         *)
RECURSIVE NormF(_, _, _)
NormComps(comps, v, fillM, fill) ==
  CatAll(Map(comps, LAMBDA c :
     IF Has(v, c.n) THEN <<[n |-> c.n, v |-> NormF(c.t, Get(v, c.n), fill)]>>
     ELSE IF c.p = "d" THEN <<[n |-> c.n, v |-> c.d]>>
     ELSE IF c.p = "m" /\ fillM /\ c.t.k \in {"seq", "seqof"} THEN <<[n |-> c.n, v |-> NormF(c.t, EmptyOf(c.t), fill)]>>
     ELSE <<>>))
NormF(t, v, fill) ==
  CASE t.k = "seq" -> [k |-> "seq",
                       c |-> NormComps(t.root, v, fill, fill) \o
                             CatAll(Map(t.adds, LAMBDA a : NormComps(a.c, v, fill /\ AddPresent(a, v) /\ a.g, fill)))]
    [] t.k = "seqof" -> [k |-> "seqof", l |-> Map(v.l, LAMBDA x : NormF(t.e, x, fill))]
    [] t.k = "choice" -> LET all == AllComps(t) IN
                         IF v.n = "" THEN v
                         ELSE [k |-> "choice", n |-> v.n, v |-> NormF(all[IndexOf(all, v.n)].t, v.v, fill)]
    [] OTHER -> v
Norm(t, v) == NormF(t, v, TRUE)      \* of a complete message
NormV(t, v) == NormF(t, v, FALSE)    \* of a message that may be incomplete

------------------------------------------------------------------------
(* Decoder: Dec(t, B, p) reads type t from bytes B at bit p (0-based).     *)
(* s = "ok"    v, p: value (in canonical form) and next position           *)
(*     "trunc" the data ends too early: must raise                         *)
(*     "unk"   alternative/enumeration of a newer version: must raise      *)
(*     "bad"   not a canonical encoding: nothing is claimed                *)
Ok(v, p) == [s |-> "ok", v |-> v, p |-> p]
Fail(x) == [s |-> x, v |-> 0, p |-> 0]
Bits(B, p, n) == [i \in 1..n |-> BitAt(B, p + i)]
Take(B, p, n) == IF p + n > 8 * Len(B) THEN Fail("trunc") ELSE Ok(Bits(B, p, n), p + n)
SInt(b) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, b)
Align(B, p) == LET q == 8 * ((p + 7) \div 8)
               IN IF q > 8 * Len(B) THEN Fail("trunc")
                  ELSE IF \E i \in (p + 1)..q : BitAt(B, i) = 1 THEN Fail("bad") ELSE Ok(0, q)
TakeA(B, p, n) == LET a == Align(B, p) IN IF a.s # "ok" THEN a ELSE Take(B, a.p, n)
TakeS(B, p, n, al) == LET r == IF al THEN TakeA(B, p, n) ELSE Take(B, p, n)
                      IN IF r.s # "ok" THEN r ELSE Ok(SInt(r.v), r.p)

DCwnS(B, p, lo, hi) ==
  LET r == hi - lo + 1
      x == IF r = 1 THEN Ok(0, p)
           ELSE IF r <= 255 THEN TakeS(B, p, BitLen(NatOf(r - 1)), FALSE)
           ELSE IF r = 256 THEN TakeS(B, p, 8, TRUE) ELSE TakeS(B, p, 16, TRUE)
  IN IF x.s # "ok" THEN x ELSE IF x.v > hi - lo THEN Fail("bad") ELSE Ok(lo + x.v, x.p)
DLen(B, p) ==
  LET a == TakeS(B, p, 8, TRUE)
  IN IF a.s # "ok" THEN a
     ELSE IF a.v < 128 THEN a
     ELSE IF a.v >= 192 THEN Fail("bad")
     ELSE LET b == TakeS(B, a.p, 8, FALSE)
          IN IF b.s # "ok" THEN b
             ELSE LET n == 256 * (a.v - 128) + b.v IN IF n < 128 THEN Fail("bad") ELSE Ok(n, b.p)
DUncBytes(B, p) == LET l == DLen(B, p) IN IF l.s # "ok" THEN l
                   ELSE LET r == Take(B, l.p, 8 * l.v) IN IF r.s # "ok" THEN r ELSE Ok(BytesOf(r.v), r.p)
DCwn(B, p, lo, hi) ==
  LET r1 == IntSub(hi, lo).m
  IN IF Len(r1) <= 2
     THEN LET x == DCwnS(B, p, 0, Small(r1)) IN IF x.s # "ok" THEN x ELSE Ok(IntAdd(lo, BI(x.v)), x.p)
     ELSE LET l == DCwnS(B, p, 1, OctLen(r1))
          IN IF l.s # "ok" THEN l
             ELSE LET r == TakeA(B, l.p, 8 * l.v)
                  IN IF r.s # "ok" THEN r
                     ELSE LET m == NatFromBits(r.v)
                          IN IF OctLen(m) # l.v \/ NatCmp(m, r1) > 0 THEN Fail("bad")
                             ELSE Ok(IntAdd(lo, Mk(0, m)), r.p)
DSemi(B, p, lo) == LET r == DUncBytes(B, p) IN IF r.s # "ok" THEN r
                   ELSE LET m == Strip(r.v) IN IF OctLen(m) # Len(r.v) THEN Fail("bad") ELSE Ok(IntAdd(lo, Mk(0, m)), r.p)
DFull(B, p) == LET r == DUncBytes(B, p) IN IF r.s # "ok" THEN r
               ELSE IF r.v = <<>> THEN Fail("bad")
               ELSE LET n == FromTwos(r.v) IN IF TwosLen(n) # Len(r.v) THEN Fail("bad") ELSE Ok(n, r.p)
DNormSmall(B, p) ==
  LET f == Take(B, p, 1)
  IN IF f.s # "ok" THEN f
     ELSE IF f.v[1] = 0 THEN TakeS(B, f.p, 6, FALSE)
     ELSE LET n == DSemi(B, f.p, BI(0))
          IN IF n.s # "ok" THEN n
             ELSE IF ~IsSmall(n.v.m) THEN Fail("unk")
             ELSE IF Small(n.v.m) <= 63 THEN Fail("bad") ELSE Ok(Small(n.v.m), n.p)

DecInt(t, B, p) ==
  LET lo == CLo(t.c)
      hi == CHi(t.c)
      Root(q) == IF ~lo.inf /\ ~hi.inf THEN DCwn(B, q, lo.n, hi.n)
                 ELSE IF ~lo.inf THEN DSemi(B, q, lo.n) ELSE DFull(B, q)
      e == Take(B, p, 1)
      r == IF ~t.ext THEN Root(p)
           ELSE IF e.s # "ok" THEN e
           ELSE IF e.v[1] = 0 THEN Root(e.p) ELSE DFull(B, e.p)
  IN IF r.s # "ok" THEN r
     ELSE IF t.ext /\ e.v[1] = 1 /\ InB(lo, hi, r.v) THEN Fail("bad")
     ELSE IF ~t.ext /\ ~InC(t.c, r.v) THEN Fail("bad")
     ELSE Ok([k |-> "int", n |-> r.v], r.p)

DecEnum(t, B, p) ==
  LET pick(items, i) == items[CHOOSE j \in 1..Len(items) : EnumIdx(items, items[j].n) = i].n
      e == Take(B, p, 1)
  IN IF t.ext /\ e.s # "ok" THEN e
     ELSE IF t.ext /\ e.v[1] = 1
     THEN LET i == DNormSmall(B, e.p)
          IN IF i.s # "ok" THEN i
             ELSE IF i.v >= Len(t.adds) THEN Fail("unk")
             ELSE Ok([k |-> "enum", e |-> t.adds[i.v + 1].n], i.p)
     ELSE LET i == DCwnS(B, IF t.ext THEN e.p ELSE p, 0, Len(t.root) - 1)
          IN IF i.s # "ok" THEN i ELSE Ok([k |-> "enum", e |-> pick(t.root, i.v)], i.p)

(* bits of a string of units of u bits *)
DecStr(z, B, p, u) ==
  LET lo == ZLo(z)
      hi == ZHi(z)
      U(q) == LET l == DLen(B, q) IN IF l.s # "ok" THEN l ELSE Take(B, l.p, u * l.v)
      Body(q) == IF hi = 0 THEN Ok(<<>>, q)
                 ELSE IF lo = hi /\ hi < Lim64K THEN (IF hi * u <= 16 THEN Take(B, q, hi * u) ELSE TakeA(B, q, hi * u))
                 ELSE IF lo # hi /\ hi # -1 /\ hi < Lim64K
                 THEN LET l == DCwnS(B, q, lo, hi)
                      IN IF l.s # "ok" THEN l ELSE IF l.v = 0 THEN Ok(<<>>, l.p) ELSE TakeA(B, l.p, u * l.v)
                 ELSE U(q)
      e == Take(B, p, 1)
      r == IF ~ZExt(z) THEN Body(p)
           ELSE IF e.s # "ok" THEN e
           ELSE IF e.v[1] = 0 THEN Body(e.p) ELSE U(e.p)
  IN IF r.s # "ok" THEN r
     ELSE IF InZ(z, Len(r.v) \div u) = (ZExt(z) /\ e.v[1] = 1) THEN Fail("bad")
     ELSE r

RECURSIVE Dec(_, _, _), DecN(_, _, _, _), DecList(_, _, _, _, _, _), DecAdds(_, _, _, _, _, _)
(* n elements of type e *)
DecN(e, n, B, p) ==
  IF n = 0 THEN Ok(<<>>, p)
  ELSE IF n = 1 THEN LET r == Dec(e, B, p) IN IF r.s # "ok" THEN r ELSE Ok(<<r.v>>, r.p)
  ELSE LET h == n \div 2
           L == DecN(e, h, B, p)
           R == DecN(e, n - h, B, L.p)
       IN IF L.s # "ok" THEN L ELSE IF R.s # "ok" THEN R ELSE Ok(L.v \o R.v, R.p)
(* components comps[i..] with the remaining presence bits *)
DecList(comps, i, bits, B, p, acc) ==
  IF i > Len(comps) THEN Ok(acc, p)
  ELSE LET c == comps[i]
           here == c.p = "m" \/ Head(bits) = 1
           rest == IF c.p = "m" THEN bits ELSE Tail(bits)
       IN IF ~here
          THEN DecList(comps, i + 1, rest, B, p, IF c.p = "d" THEN Append(acc, [n |-> c.n, v |-> c.d]) ELSE acc)
          ELSE LET r == Dec(c.t, B, p)
               IN IF r.s # "ok" THEN r ELSE DecList(comps, i + 1, rest, B, r.p, Append(acc, [n |-> c.n, v |-> r.v]))
DecComps(comps, B, p) ==
  LET o == Take(B, p, Len(SelectSeq(comps, LAMBDA c : c.p # "m")))
  IN IF o.s # "ok" THEN o ELSE DecList(comps, 1, o.v, B, o.p, <<>>)
(* open type: the contained octets on their own *)
DOpen(B, p) == LET r == DUncBytes(B, p) IN IF r.s # "ok" THEN r ELSE IF r.v = <<>> THEN Fail("bad") ELSE r
(* content that ends early inside its own length is malformed, not truncated input *)
Inner(r) == IF r.s = "trunc" THEN Fail("trunc") ELSE r
DefaultsOf(comps) == CatAll(Map(comps, LAMBDA c : IF c.p = "d" THEN <<[n |-> c.n, v |-> c.d]>> ELSE <<>>))
(* additions i.. of t; pres = received presence bits (may be shorter or longer than t.adds) *)
DecAdds(t, i, pres, B, p, acc) ==
  IF i > Len(t.adds) /\ i > Len(pres) THEN Ok(acc, p)
  ELSE LET here == i <= Len(pres) /\ pres[i] = 1
           known == i <= Len(t.adds)
       IN IF ~here
          THEN DecAdds(t, i + 1, pres, B, p, acc \o (IF known THEN DefaultsOf(t.adds[i].c) ELSE <<>>))
          ELSE LET o == DOpen(B, p)
               IN IF o.s # "ok" THEN o
                  ELSE IF ~known THEN DecAdds(t, i + 1, pres, B, o.p, acc)
                  ELSE LET a == t.adds[i]
                           r == Inner(IF a.g THEN DecComps(a.c, o.v, 0) ELSE Dec(a.c[1].t, o.v, 0))
                       IN IF r.s # "ok" THEN r
                          ELSE DecAdds(t, i + 1, pres, B, o.p,
                                       acc \o (IF a.g THEN r.v ELSE <<[n |-> a.c[1].n, v |-> r.v]>>))
DecSeq(t, B, p) ==
  LET e == IF t.ext THEN Take(B, p, 1) ELSE Ok(<<0>>, p)
  IN IF e.s # "ok" THEN e
     ELSE LET r == DecComps(t.root, B, e.p)
          IN IF r.s # "ok" THEN r
             ELSE IF e.v[1] = 0
             THEN Ok([k |-> "seq", c |-> r.v \o DefaultsOf(AddComps(t))], r.p)
             ELSE LET f == Take(B, r.p, 1)
                      n == IF f.s # "ok" THEN f ELSE IF f.v[1] = 1 THEN Fail("bad") ELSE TakeS(B, f.p, 6, FALSE)
                      m == IF n.s # "ok" THEN n ELSE Take(B, n.p, n.v + 1)
                  IN IF m.s # "ok" THEN m
                     ELSE IF \A i \in 1..Len(m.v) : m.v[i] = 0 THEN Fail("bad")
                     ELSE LET a == DecAdds(t, 1, m.v, B, m.p, <<>>)
                          IN IF a.s # "ok" THEN a ELSE Ok([k |-> "seq", c |-> r.v \o a.v], a.p)

Dec(t, B, p) ==
  CASE t.k = "bool" -> LET r == Take(B, p, 1) IN IF r.s # "ok" THEN r ELSE Ok([k |-> "bool", b |-> r.v[1] = 1], r.p)
    [] t.k = "int" -> DecInt(t, B, p)
    [] t.k = "enum" -> DecEnum(t, B, p)
    [] t.k = "bits" -> LET r == DecStr(t.z, B, p, 1) IN IF r.s # "ok" THEN r ELSE Ok([k |-> "bits", x |-> r.v], r.p)
    [] t.k = "octs" -> LET r == DecStr(t.z, B, p, 8) IN IF r.s # "ok" THEN r ELSE Ok([k |-> "octs", x |-> BytesOf(r.v)], r.p)
    [] t.k = "seqof" ->
         LET lo == ZLo(t.z)
             hi == ZHi(t.z)
             RootLen(q) == IF lo = hi /\ hi < Lim64K THEN Ok(lo, q)
                           ELSE IF hi # -1 /\ hi < Lim64K THEN DCwnS(B, q, lo, hi) ELSE DLen(B, q)
             e == Take(B, p, 1)
             l == IF ~ZExt(t.z) THEN RootLen(p)
                  ELSE IF e.s # "ok" THEN e
                  ELSE IF e.v[1] = 0 THEN RootLen(e.p) ELSE DLen(B, e.p)
         IN IF l.s # "ok" THEN l
            ELSE IF InZ(t.z, l.v) = (ZExt(t.z) /\ e.v[1] = 1) THEN Fail("bad")
            ELSE LET r == DecN(t.e, l.v, B, l.p)
                 IN IF r.s # "ok" THEN r ELSE Ok([k |-> "seqof", l |-> r.v], r.p)
    [] t.k = "choice" ->
         LET e == IF t.ext THEN Take(B, p, 1) ELSE Ok(<<0>>, p)
             alt == AddComps(t)
         IN IF e.s # "ok" THEN e
            ELSE IF e.v[1] = 0
            THEN LET i == DCwnS(B, e.p, 0, Len(t.root) - 1)
                 IN IF i.s # "ok" THEN i
                    ELSE LET r == Dec(t.root[i.v + 1].t, B, i.p)
                         IN IF r.s # "ok" THEN r ELSE Ok([k |-> "choice", n |-> t.root[i.v + 1].n, v |-> r.v], r.p)
            ELSE LET i == DNormSmall(B, e.p)
                 IN IF i.s # "ok" THEN i
                    ELSE IF i.v >= Len(alt) THEN Fail("unk")
                    ELSE LET o == DOpen(B, i.p)
                         IN IF o.s # "ok" THEN o
                            ELSE LET r == Inner(Dec(alt[i.v + 1].t, o.v, 0))
                                 IN IF r.s # "ok" THEN r ELSE Ok([k |-> "choice", n |-> alt[i.v + 1].n, v |-> r.v], o.p)
    [] t.k = "seq" -> DecSeq(t, B, p)

DecBytes(t, B) == IF B = <<>> THEN Fail("trunc") ELSE Dec(t, B, 0)

------------------------------------------------------------------------
(* the dictionary a canonical value is shown as *)
HexCh(i) == CASE i = 0 -> "0" [] i = 1 -> "1" [] i = 2 -> "2" [] i = 3 -> "3" [] i = 4 -> "4" [] i = 5 -> "5"
              [] i = 6 -> "6" [] i = 7 -> "7" [] i = 8 -> "8" [] i = 9 -> "9" [] i = 10 -> "a" [] i = 11 -> "b"
              [] i = 12 -> "c" [] i = 13 -> "d" [] i = 14 -> "e" [] i = 15 -> "f"
HexStr(bs) == FoldLeft(LAMBDA a, x : a \o HexCh(x \div 16) \o HexCh(x % 16), "", bs)
RECURSIVE ToDict(_, _)
ToDict(t, v) ==
  CASE t.k = "bool" -> [d |-> "bool", b |-> v.b]
    [] t.k = "int" -> [d |-> "int", n |-> v.n]
    [] t.k = "enum" -> [d |-> "str", s |-> v.e]
    [] t.k = "bits" -> [d |-> "int", n |-> Mk(0, NatFromBits(v.x))]
    [] t.k = "octs" -> [d |-> "str", s |-> HexStr(v.x)]
    [] t.k = "seqof" -> [d |-> "list", l |-> Map(v.l, LAMBDA x : ToDict(t.e, x))]
    [] t.k = "choice" -> LET all == AllComps(t) IN
         [d |-> "map", m |-> <<[n |-> v.n, v |-> ToDict(all[IndexOf(all, v.n)].t, v.v)]>>]
    [] t.k = "seq" -> LET all == AllComps(t) IN
         [d |-> "map", m |-> Map(v.c, LAMBDA e : [n |-> e.n, v |-> ToDict(all[IndexOf(all, e.n)].t, e.v)])]

------------------------------------------------------------------------
(* what a decoder of type old makes of a canonical value of the newer type new *)
RECURSIVE Project(_, _, _)
ProjComps(oldc, newc, v) ==
  CatAll(Map(oldc, LAMBDA c :
     LET j == IndexOf(newc, c.n) IN
     IF Has(v, c.n) /\ j # 0 THEN <<[n |-> c.n, v |-> Project(c.t, newc[j].t, Get(v, c.n))]>>
     ELSE IF c.p = "d" THEN <<[n |-> c.n, v |-> c.d]>> ELSE <<>>))
Project(old, new, v) ==
  CASE old.k = "seq" -> [k |-> "seq", c |-> ProjComps(AllComps(old), AllComps(new), v)]
    [] old.k = "seqof" -> [k |-> "seqof", l |-> Map(v.l, LAMBDA x : Project(old.e, new.e, x))]
    [] old.k = "choice" -> LET o == AllComps(old)
                               n == AllComps(new) IN
                           [k |-> "choice", n |-> v.n,
                            v |-> Project(o[IndexOf(o, v.n)].t, n[IndexOf(n, v.n)].t, v.v)]
    [] OTHER -> v

(* every alternative and enumeration value that a decoder of type old meets in v is known to it *)
RECURSIVE Known(_, _, _)
Known(old, new, v) ==
  CASE old.k = "enum" -> v.e \in Names(old.root) \cup Names(old.adds)
    [] old.k = "choice" -> LET o == AllComps(old)
                               n == AllComps(new) IN
                           IndexOf(o, v.n) # 0 /\ Known(o[IndexOf(o, v.n)].t, n[IndexOf(n, v.n)].t, v.v)
    [] old.k = "seqof" -> \A i \in 1..Len(v.l) : Known(old.e, new.e, v.l[i])
    [] old.k = "seq" -> LET n == AllComps(new) IN
                        \A i \in 1..Len(AllComps(old)) :
                           LET c == AllComps(old)[i] IN
                           (Has(v, c.n) /\ OnWire(n[IndexOf(n, c.n)], v))
                              => Known(c.t, n[IndexOf(n, c.n)].t, Get(v, c.n))
    [] OTHER -> TRUE
=============================================================================
