------------------------------- MODULE Walk -------------------------------
(* Behaviours of the session machine for replay into the real code: TLC's    *)
(* simulator takes random steps (new, build, set, unset, encode, decode,     *)
(* read) over a few types of the universe and live messages, and prints each *)
(* finished history. What the calls do to the store is Session's SetAt,      *)
(* DropAt, EncBytes and DecBytes.                                            *)
EXTENDS Universe, Json, IOUtils

CONSTANTS Steps, MaxH
VARIABLES ts, store, pkts, hist
vars == <<ts, store, pkts, hist>>

Flat(t) == t.k \notin {"seq", "choice", "seqof"}
Lf == SetToSeq(Leaves)
Pool == SetToSeq(Nest1)
Pool2 == SetToSeq(Nest2)
OneOf(s) == s[RandomElement(1..Len(s))]
Coin(n) == RandomElement(1..n) = 1

(* a richer type, put together at random *)
RECURSIVE RandT(_)
RandT(d) ==
  LET c(n, p) == Comp(n, IF d > 0 /\ Coin(2) THEN RandT(d - 1) ELSE OneOf(Lf), p, NoD)
      dc(n) == LET t == OneOf(Lf) IN Comp(n, t, "d", DefOf1(t))
      cs(a, b, e) == <<c(a, "m"), c(b, RandomElement({"m", "o"}))>> \o (IF Coin(2) THEN <<dc(e)>> ELSE <<>>)
      k == RandomElement(1..6)
  IN CASE k \in 1..2 -> SeqT(cs("a", "b", "d"), IF Coin(2) THEN <<>> ELSE <<Single(c("x", RandomElement({"m", "o"}))), Single(dc("y")), Group(cs("p", "q", "r"))>>, TRUE)
       [] k = 3 -> SeqT(cs("a", "b", "d") \o <<c("e", "o")>>, <<>>, FALSE)
       [] k = 4 -> ChoT(<<c("a", "m"), c("b", "m")>>, <<>>, FALSE)
       [] k = 5 -> ChoT(<<c("b", "m"), c("a", "m")>>, <<Single(c("x", "m")), Single(c("y", "m"))>>, TRUE)
       [] OTHER -> SofT(RandomElement({NoZ, Z(0, 3, FALSE), Z(1, 2, TRUE)}), IF d > 0 THEN RandT(d - 1) ELSE OneOf(Lf))

RECURSIVE RandV(_)
RandComp(c) == IF c.p # "m" /\ Coin(3) THEN <<>> ELSE IF c.p = "d" /\ Coin(3) THEN <<[n |-> c.n, v |-> c.d]>> ELSE <<[n |-> c.n, v |-> RandV(c.t)]>>
RandAdd(a) == IF Coin(3) THEN <<>> ELSE CatAll(Map(a.c, RandComp))
RandV(t) ==
  CASE t.k = "seq" -> [k |-> "seq", c |-> CatAll(Map(t.root, RandComp)) \o CatAll(Map(t.adds, RandAdd))]
    [] t.k = "choice" -> LET c == OneOf(AllComps(t)) IN [k |-> "choice", n |-> c.n, v |-> RandV(c.t)]
    [] t.k = "seqof" -> LET hi == IF ~t.z.has THEN 3 ELSE t.z.hi
                            lo == IF t.z.has THEN t.z.lo ELSE 0
                            n == RandomElement(lo..hi)
                        IN [k |-> "seqof", l |-> [i \in 1..n |-> RandV(t.e)]]
    [] OTHER -> RandomElement(LeafVals(t))

(* a path that goes only through parts that are there: [p |-> path, t |-> type at its end, c |-> "m", "o", "d" for a component, "" otherwise] *)
RECURSIVE RandP(_, _)
Deeper(h, t, v, kind) == IF Flat(t) \/ v = NoD \/ Coin(2) THEN [p |-> <<h>>, t |-> t, c |-> kind] ELSE LET r == RandP(t, v) IN [p |-> <<h>> \o r.p, t |-> r.t, c |-> r.c]
RandP(t, v) ==
  CASE t.k = "seq" -> LET c == OneOf(AllComps(t)) IN Deeper(c.n, c.t, IF Has(v, c.n) THEN Get(v, c.n) ELSE NoD, c.p)
    [] t.k = "choice" -> IF v.n = "" \/ Coin(2) THEN LET c == OneOf(AllComps(t)) IN [p |-> <<c.n>>, t |-> c.t, c |-> ""]
                         ELSE Deeper(v.n, CompType(t, v.n), v.v, "")
    [] t.k = "seqof" -> IF v.l = <<>> \/ Coin(3) THEN [p |-> <<Len(v.l) + 1>>, t |-> t.e, c |-> ""]
                        ELSE LET i == RandomElement(1..Len(v.l)) IN Deeper(i, t.e, v.l[i], "")
RECURSIVE ParentOf(_, _, _)
ParentOf(t, v, p) == IF Len(p) = 1 THEN v
                     ELSE CASE t.k = "seq" -> IF Has(v, p[1]) THEN ParentOf(CompType(t, p[1]), Get(v, p[1]), Tail(p)) ELSE NoD
                            [] t.k = "choice" -> ParentOf(CompType(t, p[1]), v.v, Tail(p))
                            [] t.k = "seqof" -> ParentOf(t.e, v.l[p[1]], Tail(p))

Hs == 1..MaxH
LiveHs == {h \in Hs : store[h].t # 0}
Ty(h) == ts[store[h].t]
Room == hist # <<>> /\ Len(hist) < Steps
Log(e) == hist' = Append(hist, e)

Init == ts = <<>> /\ store = [h \in Hs |-> NoMsg] /\ pkts = <<>> /\ hist = <<>>
Start == /\ hist = <<>>
         /\ \E a \in {OneOf(Pool)}, b \in {OneOf(Pool2)}, c \in {RandT(1)}, d \in {RandT(2)} : ts' = <<a, b, c, d>>
         /\ hist' = <<[op |-> "types", ts |-> ts']>>
         /\ UNCHANGED <<store, pkts>>
New == /\ Room
       /\ \E h \in {RandomElement(Hs)}, i \in {RandomElement(1..Len(ts))} :
            /\ store' = [store EXCEPT ![h] = [t |-> i, v |-> Unset(ts[i])]]
            /\ Log([op |-> "new", h |-> h, t |-> i])
       /\ UNCHANGED <<ts, pkts>>
Build == /\ Room
         /\ \E h \in {RandomElement(Hs)}, i \in {RandomElement(1..Len(ts))} : \E v \in {RandV(ts[i])} :
              /\ store' = [store EXCEPT ![h] = [t |-> i, v |-> v]]
              /\ Log([op |-> "build", h |-> h, t |-> i, v |-> v])
         /\ UNCHANGED <<ts, pkts>>
Set == /\ Room /\ LiveHs # {}
       /\ \E h \in {RandomElement(LiveHs)} : \E q \in {RandP(Ty(h), store[h].v)} : \E x \in {RandV(q.t)} :
            /\ store' = [store EXCEPT ![h].v = SetAt(Ty(h), @, q.p, x)]
            /\ Log([op |-> "set", h |-> h, p |-> q.p, v |-> x])
       /\ UNCHANGED <<ts, pkts>>
Drop == /\ Room /\ LiveHs # {}
        /\ \E h \in {RandomElement(LiveHs)} : \E q \in {RandP(Ty(h), store[h].v)} :
             /\ q.c \in {"o", "d"} /\ q.t.k # "choice"
             /\ LET par == ParentOf(Ty(h), store[h].v, q.p) IN
                /\ par # NoD
                /\ Len(q.p) > 1 => DropComp(par, q.p[Len(q.p)]).c # <<>>
             /\ store' = [store EXCEPT ![h].v = DropAt(Ty(h), @, q.p)]
             /\ Log([op |-> "unset", h |-> h, p |-> q.p])
        /\ UNCHANGED <<ts, pkts>>
Encode == /\ Room /\ LiveHs # {}
          /\ \E h \in {RandomElement(LiveHs)} :
               /\ pkts' = IF Legal(Ty(h), store[h].v) = "ok" /\ Len(pkts) < 6 THEN Append(pkts, [t |-> store[h].t, x |-> EncBytes(Ty(h), store[h].v)]) ELSE pkts
               /\ Log([op |-> "enc", h |-> h])
          /\ UNCHANGED <<ts, store>>
Decode == /\ Room /\ pkts # <<>>
          /\ \E h \in {RandomElement(Hs)}, p \in {OneOf(pkts)} :
               /\ store' = [store EXCEPT ![h] = [t |-> p.t, v |-> DecBytes(ts[p.t], p.x).v]]
               /\ Log([op |-> "dec", h |-> h, t |-> p.t, x |-> p.x])
          /\ UNCHANGED <<ts, pkts>>
Cut == /\ Room /\ pkts # <<>>
       /\ \E p \in {OneOf(pkts)} : \E n \in {RandomElement(0..(Len(p.x) - 1))} :
            Log([op |-> "cut", h |-> 0, t |-> p.t, x |-> SubSeq(p.x, 1, n)])
       /\ UNCHANGED <<ts, pkts, store>>
Look == /\ Room /\ LiveHs # {}
        /\ \E h \in {RandomElement(LiveHs)}, op \in {RandomElement({"view", "dict", "str", "repr", "read", "len"})} : Log([op |-> op, h |-> h])
        /\ UNCHANGED <<ts, pkts, store>>
(* actions listed twice are taken twice as often by the simulator *)
Next == Start \/ New \/ Build \/ Set \/ Set \/ Drop \/ Encode \/ Encode \/ Decode \/ Decode \/ Cut \/ Look
Spec == Init /\ [][Next]_vars

(* what the replay relies on: the store always holds values of the types *)
Sound == /\ \A h \in LiveHs : store[h].v.k = Ty(h).k
         /\ \A i \in 1..Len(pkts) : DecBytes(ts[pkts[i].t], pkts[i].x).s = "ok"
Printed == Len(hist) = Steps => PrintT("HIST " \o ToJson(hist))
=============================================================================
