------------------------------- MODULE Wire -------------------------------
(* A sender and a receiver. The sender picks a type and a value and encodes; *)
(* some octets arrive (all of them, or the connection breaks before); the    *)
(* receiver, whose type may be an older or the same version, decodes. The    *)
(* listed properties of the codec as invariants of this system.              *)
EXTENDS Universe, IOUtils

CONSTANTS Depth
VARIABLES phase, new, val, wire, old, n, got
vars == <<phase, new, val, wire, old, n, got>>
None == [k |-> "none"]

Types == CASE Depth = 1 -> Leaves [] Depth = 2 -> Nest1 [] Depth = 3 -> Nest2

(* the versions of a type: its additions cut back, here or further inside *)
RECURSIVE Versions(_)
Cutback(t) == IF t.k \in {"seq", "choice", "enum"} /\ t.ext THEN {[t EXCEPT !.adds = SubSeq(@, 1, i)] : i \in 0..Len(t.adds)} ELSE {t}
Versions(t) ==
  IF t.k = "seqof" THEN {[t EXCEPT !.e = u] : u \in Versions(t.e)}
  ELSE IF t.k \in {"seq", "choice"} /\ t.root # <<>> /\ t.root[Len(t.root)].t.k \in {"seq", "choice", "enum", "seqof"}
  THEN UNION {Cutback([t EXCEPT !.root[Len(t.root)].t = u]) : u \in Versions(t.root[Len(t.root)].t)}
  ELSE Cutback(t)

Init == phase = "idle" /\ new = None /\ val = None /\ wire = <<>> /\ old = None /\ n = 0 /\ got = Fail("none")
Send == /\ phase = "idle"
        /\ \E t \in Types : \E v \in Vals(t) :
             /\ new' = t /\ val' = v
             /\ wire' = EncBytes(t, v)
        /\ phase' = "sent"
        /\ UNCHANGED <<old, n, got>>
Receive == /\ phase = "sent"
           /\ \E o \in Versions(new) : old' = o
           /\ n' = Len(wire)
           /\ got' = DecBytes(old', wire)
           /\ phase' = "got"
           /\ UNCHANGED <<new, val, wire>>
Lose == /\ phase = "sent"
        /\ \E i \in 0..(Len(wire) - 1) : n' = i
        /\ old' = new
        /\ got' = DecBytes(new, SubSeq(wire, 1, n'))
        /\ phase' = "lost"
        /\ UNCHANGED <<new, val, wire>>
Next == Send \/ Receive \/ Lose
Spec == Init /\ [][Next]_vars

(* C02, C03 *)
RoundTrip == phase = "got" /\ old = new => got.s = "ok" /\ got.v = Norm(new, val) /\ EncBytes(new, got.v) = wire
(* C06 *)
PrefixRejected == phase = "lost" => got.s = "trunc"
(* C04 *)
Compatible == phase = "got" => VersionVerdict(old, new, val, IF got.s = "ok" THEN "ok" ELSE "err", got.v) = ""
(* C15: sending a DEFAULT component that holds its default is the same as not sending it *)
RECURSIVE Bare(_, _)
Bare(t, v) ==
  CASE t.k = "seq" -> LET all == AllComps(t) IN
                      [k |-> "seq", c |-> CatAll(Map(v.c, LAMBDA e : LET c == all[IndexOf(all, e.n)] IN
                                          IF c.p = "d" /\ e.v = c.d THEN <<>> ELSE <<[n |-> e.n, v |-> Bare(c.t, e.v)]>>))]
    [] t.k = "choice" -> LET all == AllComps(t) IN [v EXCEPT !.v = Bare(all[IndexOf(all, v.n)].t, @)]
    [] t.k = "seqof" -> [v EXCEPT !.l = Map(@, LAMBDA x : Bare(t.e, x))]
    [] OTHER -> v
DefaultsInvisible == phase = "sent" => EncBytes(new, Bare(new, val)) = wire /\ Norm(new, Bare(new, val)) = Norm(new, val)
(* C08: the dictionary of what arrives is that of what was sent *)
SameDict == phase = "got" /\ old = new => ToDict(new, got.v) = ToDict(new, Norm(new, val))
Octets == phase # "idle" => Len(wire) > 0 /\ \A i \in 1..Len(wire) : wire[i] \in 0..255
=============================================================================
