------------------------------- MODULE Store -------------------------------
(* Live messages and the calls a program makes with them, as a generator of   *)
(* behaviours: which call comes next is open, what it does is Session's.      *)
(* Checked: a call changes at most one message (C17), encoding changes no     *)
(* message at all, a decoded message is legal, and the octets of a message    *)
(* depend on its value alone and tell different values apart (C07).           *)
EXTENDS Universe

CONSTANTS Hs,        \* handles
          Big1,      \* TRUE: the addition is a SEQUENCE OF, FALSE: a BOOLEAN
          Alias      \* TRUE: a wrong design, in which setting a component writes through to other messages of the class that lack it
VARIABLES store, pkt
vars == <<store, pkt>>

TS == <<SeqT(<<Comp("a", Bool, "m", NoD), Comp("d", IntT(Rng(0, 1), FALSE), "d", IV(1))>>, <<Single(Comp("y", IF Big1 THEN SofT(Z(0, 1, FALSE), Bool) ELSE Bool, "m", NoD))>>, TRUE),
        ChoT(<<Comp("w", Bool, "m", NoD)>>, <<Single(Comp("x", SeqT(<<Comp("q", Bool, "o", NoD)>>, <<>>, FALSE), "m", NoD))>>, TRUE)>>
Live(h) == store[h].t # 0
Ty(h) == TS[store[h].t]
NoPkt == [t |-> 0, x |-> <<>>]

Init == store = [h \in Hs |-> NoMsg] /\ pkt = NoPkt
New(h) == /\ \E i \in 1..Len(TS) : store' = [store EXCEPT ![h] = [t |-> i, v |-> Unset(TS[i])]]
          /\ UNCHANGED pkt
Through(h, n, x) == [g \in Hs |-> IF g = h THEN [t |-> store[h].t, v |-> SetAt(Ty(h), store[h].v, <<n>>, x)]
                                  ELSE IF Alias /\ store[g].t = store[h].t /\ Ty(h).k = "seq" /\ ~Has(store[g].v, n)
                                  THEN [t |-> store[g].t, v |-> SetAt(Ty(h), store[g].v, <<n>>, x)] ELSE store[g]]
Set(h) == /\ Live(h)
          /\ \E c \in Range(AllComps(Ty(h))) : \E x \in Vals(c.t) : store' = Through(h, c.n, x)
          /\ UNCHANGED pkt
Drop(h) == /\ Live(h) /\ Ty(h).k = "seq"
           /\ \E c \in Range(AllComps(Ty(h))) : Has(store[h].v, c.n) /\ store' = [store EXCEPT ![h].v = DropComp(@, c.n)]
           /\ UNCHANGED pkt
Encode(h) == /\ Live(h) /\ Legal(Ty(h), store[h].v) = "ok"
             /\ pkt' = [t |-> store[h].t, x |-> EncBytes(Ty(h), store[h].v)]
             /\ UNCHANGED store
Decode(h) == /\ pkt.t # 0
             /\ store' = [store EXCEPT ![h] = [t |-> pkt.t, v |-> DecBytes(TS[pkt.t], pkt.x).v]]
             /\ UNCHANGED pkt
Next == \E h \in Hs : New(h) \/ Set(h) \/ Drop(h) \/ Encode(h) \/ Decode(h)
Spec == Init /\ [][Next]_vars

Shallow == TLCGet("level") <= 7
Isolated == [][\A g, h \in Hs : store'[g] # store[g] /\ store'[h] # store[h] => g = h]_vars
ReadsOnly == [][pkt' # pkt => store' = store]_vars
Fine(h) == Live(h) /\ Legal(Ty(h), store[h].v) = "ok"
OctetsOfMessage == \A g, h \in Hs : Fine(g) /\ Fine(h) /\ store[g].t = store[h].t =>
    ((EncBytes(Ty(g), store[g].v) = EncBytes(Ty(h), store[h].v)) <=> (Norm(Ty(g), store[g].v) = Norm(Ty(h), store[h].v)))
WellFormed == /\ \A h \in Hs : Live(h) => store[h].v.k = Ty(h).k
              /\ pkt.t # 0 => LET r == DecBytes(TS[pkt.t], pkt.x) IN r.s = "ok" /\ Legal(TS[pkt.t], r.v) = "ok" /\ EncBytes(TS[pkt.t], r.v) = pkt.x
=============================================================================
