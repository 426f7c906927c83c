------------------------------ MODULE Garble ------------------------------
(* A receiver on a line that anybody may write to: octets arrive one by one, *)
(* each of them anything. Whatever arrived, the decoder says "wait for more"  *)
(* (trunc), "this is v" (ok) or "no" (unk, bad) - and                         *)
(*   what it accepts is a value of the type, which can be sent on,            *)
(*   what it once decided it never takes back: octets that follow are not     *)
(*   its business,                                                            *)
(*   a value is decided by the shortest prefix that carries it.               *)
EXTENDS Universe
CONSTANTS Depth, Alphabet, Reach
Octet == 0..255
VARIABLES t, x, got
vars == <<t, x, got>>
Types == CASE Depth = 1 -> Leaves [] Depth = 2 -> Nest1 [] Depth = 3 -> Nest2
Init == t \in Types /\ x = <<>> /\ got = DecBytes(t, <<>>)
Next == /\ Len(x) < Reach
        /\ \E b \in Alphabet : x' = Append(x, b)
        /\ got' = DecBytes(t, x')
        /\ t' = t
Spec == Init /\ [][Next]_vars
Outcome == got.s \in {"ok", "trunc", "unk", "bad"}
Accepted == got.s = "ok" => /\ Legal(t, got.v) = "ok"
                            /\ LET back == DecBytes(t, EncBytes(t, got.v)) IN back.s = "ok" /\ back.v = got.v
                            /\ Len(EncBytes(t, got.v)) <= Len(x) + 2   \* a sloppy sender may only be longer, up to DEFAULTs spelled out
Settled == [][got.s # "trunc" => got' = got]_vars
Empty == x = <<>> => got.s = "trunc"
=============================================================================
