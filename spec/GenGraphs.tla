---------------------------- MODULE GenGraphs ----------------------------
(* Every acyclic dependency graph over the names of Process, in every textual order, written out for replay. *)
EXTENDS Process, Json, IOUtils
DAGs == SetToSeq({h \in Graphs : Acyclic(h)})
Ords == SetToSeq(Orders)
VARIABLES done
GInit == Init /\ done = FALSE
GNext == ~done /\ done' = TRUE /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_<<vars, done>>
Done == done => JsonSerialize(IOEnv.OUT, [graphs |-> Map(DAGs, LAMBDA g : [n \in Ns |-> SetToSeq(g[n])]), orders |-> Ords])
=============================================================================
