---------------------------- MODULE GenOctets ----------------------------
(* Octets derived from the specification alone: for each request a value of a type   *)
(* and a mode. "plain" = its encoding; "explicit" = the encoding of a sender that     *)
(* transmits DEFAULT components even when they hold their default.                    *)
EXTENDS Per, Json, IOUtils

Types == JsonDeserialize(IOEnv.TYPES)
Reqs == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE Explicit(_)
ExplComps(cs) == Map(cs, LAMBDA c : [c EXCEPT !.p = IF @ = "d" THEN "o" ELSE @, !.t = Explicit(@)])
Explicit(t) ==
  CASE t.k = "seq" -> [t EXCEPT !.root = ExplComps(@), !.adds = Map(@, LAMBDA a : [a EXCEPT !.c = ExplComps(@)])]
    [] t.k = "choice" -> [t EXCEPT !.root = ExplComps(@), !.adds = Map(@, LAMBDA a : [a EXCEPT !.c = ExplComps(@)])]
    [] t.k = "seqof" -> [t EXCEPT !.e = Explicit(@)]
    [] OTHER -> t

Answer(q) ==
  LET t == Types[q.t]
      fs == Enc(IF q.mode = "explicit" THEN Explicit(t) ELSE t, q.v)
  IN IF Unsup(fs) THEN [s |-> "unsup", x |-> <<>>] ELSE [s |-> "ok", x |-> BytesOf(Complete(fs))]

VARIABLES out
Init == out = <<>>
Next == out = <<>> /\ out' = [i \in 1..Len(Reqs) |-> Answer(Reqs[i])]
Spec == Init /\ [][Next]_out
Done == out # <<>> => JsonSerialize(IOEnv.OUT, out)
=============================================================================
