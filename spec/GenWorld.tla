----------------------------- MODULE GenWorld -----------------------------
(* The universe on which the specification is model checked, written out so  *)
(* that the same types and values are replayed into the real code. A shard   *)
(* takes every NSHARDS-th type, and at most a given number of values of each, *)
(* evenly spread from an offset.                                             *)
EXTENDS Universe, Json, IOUtils

Shard == atoi(IOEnv.SHARD)
NShards == atoi(IOEnv.NSHARDS)
Off == atoi(IOEnv.OFF)
Caps == <<atoi(IOEnv.CAP1), atoi(IOEnv.CAP2), atoi(IOEnv.CAP3)>>
Worlds == <<SetToSeq(Leaves), SetToSeq(Nest1), SetToSeq(Nest2)>>
Mine(s) == SelectSeq([i \in 1..Len(s) |-> IF i % NShards = Shard THEN <<s[i]>> ELSE <<>>], LAMBDA x : x # <<>>)
Some(s, cap) == IF Len(s) <= cap THEN s ELSE [i \in 1..cap |-> s[1 + ((((i - 1) * Len(s)) \div cap + Off) % Len(s))]]
Of(t, cap) == LET vs == SetToSeq(Vals(t)) IN [t |-> t, all |-> Len(vs), vs |-> Some(vs, cap)]
World(d) == IF Caps[d] = 0 THEN <<>> ELSE LET m == Mine(Worlds[d]) IN [i \in 1..Len(m) |-> Of(m[i][1], Caps[d])]

VARIABLES out
Init == out = <<>>
Next == out = <<>> /\ out' = World(1) \o World(2) \o World(3)
Spec == Init /\ [][Next]_out
Done == out # <<>> => JsonSerialize(IOEnv.OUT, out)
=============================================================================
