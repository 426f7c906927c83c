------------------------------ MODULE Threads ------------------------------
(* Calls that run at the same time. A call is not one step: it appends its   *)
(* fields to a buffer one after the other, other calls run in between. With  *)
(* buffers of their own (Shared = FALSE, what the library promises) every    *)
(* call returns what it returns alone (C13); with one buffer it does not -   *)
(* the configuration ThreadsShared.cfg must fail.                            *)
EXTENDS Universe

CONSTANTS Calls, Shared
VARIABLES msg, pc, buf, res
vars == <<msg, pc, buf, res>>

Msgs == UNION {{[t |-> t, v |-> v] : v \in Vals(t)} :
               t \in {SeqT(<<Comp("u", Bool, "m", NoD), Comp("x", StrT("bits", Z(1, 1, FALSE)), "o", NoD)>>, <<Single(Comp("y", Bool, "m", NoD))>>, TRUE),
                      SofT(Z(0, 2, FALSE), Bool)}}
Buf(c) == IF Shared THEN 0 ELSE c
Init == /\ msg \in [Calls -> Msgs]
        /\ pc = [c \in Calls |-> 1]
        /\ buf = [b \in Calls \cup {0} |-> <<>>]
        /\ res = [c \in Calls |-> <<>>]
Step(c) == LET fs == Enc(msg[c].t, msg[c].v) IN
           /\ pc[c] > 0
           /\ IF pc[c] <= Len(fs)
              THEN /\ buf' = [buf EXCEPT ![Buf(c)] = (IF pc[c] = 1 THEN <<>> ELSE @) \o <<fs[pc[c]]>>]
                   /\ pc' = [pc EXCEPT ![c] = @ + 1]
                   /\ res' = res
              ELSE /\ res' = [res EXCEPT ![c] = BytesOf(Complete(buf[Buf(c)]))]
                   /\ pc' = [pc EXCEPT ![c] = 0]
                   /\ buf' = buf
           /\ msg' = msg
Next == \E c \in Calls : Step(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Calls : WF_vars(Step(c))

AsAlone == \A c \in Calls : pc[c] = 0 => res[c] = EncBytes(msg[c].t, msg[c].v)
Returns == \A c \in Calls : <>(pc[c] = 0)
=============================================================================
