------------------------------ MODULE Process ------------------------------
(* A process that parses schemas one after the other. A parse reads the      *)
(* definitions of one module (in their textual order), forgets everything    *)
(* known from earlier modules, then defines names one at a time, each only   *)
(* when everything it needs is defined. Model checked for every dependency   *)
(* graph of a few definitions, every textual order and every earlier schema. *)
EXTENDS Schema, FiniteSetsExt

CONSTANTS Ns, MaxP, Keep      \* the names; Keep = TRUE: names of earlier modules stay known (must violate Honest)
VARIABLES D, todo, known, out, parses
vars == <<D, todo, known, out, parses>>

Comp1(n) == [i |-> "c", n |-> "f", t |-> [k |-> "ref", n |-> n], p |-> "m", d |-> NoVal]
(* a definition that needs the names of S (an alias if that is one name and alias holds) *)
Def1(n, S, alias) == [d |-> "type", n |-> n, t |-> IF alias /\ Cardinality(S) = 1 THEN [k |-> "ref", n |-> CHOOSE x \in S : TRUE]
                                                   ELSE [k |-> "seq", items |-> Map(SetToSeq(S), LAMBDA x : Comp1(x))]]
Graphs == [Ns -> SUBSET Ns]
RECURSIVE Reach(_, _, _)
Reach(g, S, k) == IF k = 0 THEN S ELSE Reach(g, S \cup UNION {g[x] : x \in S \cap DOMAIN g}, k - 1)
Acyclic(g) == \A n \in Ns : n \notin Reach(g, g[n], Cardinality(Ns))
Orders == {s \in [1..Cardinality(Ns) -> Ns] : \A i, j \in 1..Cardinality(Ns) : i # j => s[i] # s[j]}
Modules == {[i \in 1..Len(o) |-> Def1(o[i], g[o[i]], i % 2 = 1)] : o \in Orders, g \in {h \in Graphs : Acyclic(h)}}
(* modules that lack a definition they need *)
Lacking == {Tail(m) : m \in {x \in Modules : \E i \in 2..Len(x) : x[1].n \in Deps(x, x[i].n)}}

Init == D = <<>> /\ todo = {} /\ known = {} /\ out = <<>> /\ parses = 0
Start == /\ todo = {} /\ parses < MaxP
         /\ \E m \in Modules \cup Lacking : D' = m
         /\ todo' = Names(D')
         /\ known' = IF Keep THEN known ELSE {}
         /\ out' = <<>> /\ parses' = parses + 1
Needs(n) == LET d == DefOf(D, n) IN TDeps(D, d.t)
Define(n) == /\ n \in todo /\ Needs(n) \subseteq known
             /\ known' = known \cup {n} /\ todo' = todo \ {n} /\ out' = Append(out, n)
             /\ UNCHANGED <<D, parses>>
(* nothing can be defined: the schema is refused *)
Refuse == /\ todo # {} /\ \A n \in todo : ~(Needs(n) \subseteq known)
          /\ out' = <<"refused">> /\ todo' = {} /\ UNCHANGED <<D, known, parses>>
Next == Start \/ (\E n \in todo : Define(n)) \/ Refuse
Spec == Init /\ [][Next]_vars

Complete1 == \A n \in Names(D) : TDeps(D, DefOf(D, n).t) \subseteq Names(D)
(* C10: whatever the textual order, a complete acyclic module is emitted, and in an order Emits accepts *)
Emitted == todo = {} /\ D # <<>> /\ Complete1 => out # <<"refused">> /\ Emits(D, out, {}, "") = "" /\ Range(out) = Names(D)
(* C11: a module that lacks a definition is refused, whatever was parsed before *)
Honest == todo = {} /\ D # <<>> /\ ~Complete1 => out = <<"refused">>
=============================================================================
