---------------------------- MODULE SchemaTypes ----------------------------
(* The types and values the definitions of schemas denote, for the end-to-end checks. *)
EXTENDS Schema, Json, IOUtils

Mods == JsonDeserialize(IOEnv.TYPES)
Answer(T) == LET D == PModule(T)
             IN Map(D, LAMBDA d : [n |-> d.n, d |-> d.d, t |-> Res(D, d.t),
                                   v |-> IF d.d = "val" THEN ValOf(D, d.t, d.v) ELSE [k |-> "none"]])
VARIABLES out
Init == out = <<>>
Next == out = <<>> /\ out' = [i \in 1..Len(Mods) |-> Answer(Mods[i])]
Spec == Init /\ [][Next]_out
Done == out # <<>> => JsonSerialize(IOEnv.OUT, out)
=============================================================================
