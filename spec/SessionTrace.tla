--------------------------- MODULE SessionTrace ---------------------------
(* Validates a recorded session of the real library against Session.        *)
(* One line of the trace is one call; `bad` collects every line whose       *)
(* outcome the specification does not admit (the rest of the trace is still  *)
(* examined).                                                               *)
EXTENDS Session, Json, IOUtils

Types == JsonDeserialize(IOEnv.TYPES)
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l, store, bad
vars == <<l, store, bad>>

Init == l = 1 /\ store = [h \in {} |-> NoMsg] /\ bad = <<>>

T(e) == Types[e.t]
Judge(s) == IF s = "" THEN bad ELSE Append(bad, [line |-> l, kind |-> s])
Ev(op) == l <= N /\ Trace[l].op = op /\ l' = l + 1
Put(h, t, v) == store' = (h :> [t |-> t, v |-> v]) @@ store
Same == store' = store

(* forget all live messages (start of an independent case) *)
Reset == Ev("reset") /\ store' = [h \in {} |-> NoMsg] /\ bad' = bad

(* build a message holding v *)
Build == Ev("build") /\ LET e == Trace[l] IN
         /\ IF e.r = "ok" THEN Put(e.h, e.t, e.v) ELSE Same
         /\ bad' = Judge(IF e.r # "ok" /\ Legal(T(e), e.v) = "ok" THEN "build-refused" ELSE "")

New == Ev("new") /\ LET e == Trace[l] IN Put(e.h, e.t, Unset(T(e))) /\ bad' = bad

(* assign at a path *)
SetV == Ev("set") /\ LET e == Trace[l]
                        m == store[e.h]
                        t == Types[m.t]
                        v2 == SetAt(t, m.v, e.p, e.v)
                    IN /\ IF e.r = "ok" THEN Put(e.h, m.t, v2) ELSE Same
                       /\ bad' = Judge(IF e.r # "ok" /\ e.legal THEN "set-refused" ELSE "")

(* unset the component at a path *)
Unset1 == Ev("unset") /\ LET e == Trace[l]
                             m == store[e.h]
                         IN /\ IF e.r = "ok" THEN Put(e.h, m.t, DropAt(Types[m.t], m.v, e.p)) ELSE Same
                            /\ bad' = Judge(IF e.r # "ok" THEN "unset-refused" ELSE "")

Encode == Ev("enc") /\ Same /\ LET e == Trace[l]
                                   m == store[e.h]
                               IN bad' = Judge(EncVerdict(Types[m.t], m.v, e.r, e.x))

(* the octets must be those an earlier encode gave *)
ReEncode == Ev("same") /\ Same /\ LET e == Trace[l] IN
            bad' = Judge(IF e.r # "ok" \/ e.x # e.y THEN "rt-octets" ELSE "")

Decode == Ev("dec") /\ LET e == Trace[l] IN
          /\ IF e.r = "ok" /\ e.h # 0 THEN Put(e.h, e.t, e.v) ELSE Same
          /\ bad' = Judge(DecVerdict(T(e), e.x, e.r, e.v))

(* decode of the octets encode() returned for message e.of *)
DecodeBack == Ev("back") /\ LET e == Trace[l]
                                m == store[e.of]
                            IN /\ IF e.r = "ok" THEN Put(e.h, e.t, e.v) ELSE Same
                               /\ bad' = Judge(RoundVerdict(Types[m.t], m.v, e.r, e.v))

(* decode, with another version of the type, of the octets of message e.of *)
DecodeVersion == Ev("ver") /\ LET e == Trace[l]
                                  m == store[e.of]
                              IN /\ IF e.r = "ok" THEN Put(e.h, e.t, e.v) ELSE Same
                                 /\ bad' = Judge(VersionVerdict(T(e), Types[m.t], m.v, e.r, e.v))

Cuts == Ev("cuts") /\ Same /\ LET e == Trace[l] IN bad' = Judge(CutVerdict(T(e), e.x, e.acc))

Dict == Ev("dict") /\ Same /\ LET e == Trace[l]
                                  m == store[e.h]
                              IN bad' = Judge(DictVerdict(Types[m.t], m.v, e.r, e.d))

Show == Ev("view") /\ Same /\ LET e == Trace[l]
                                  m == store[e.h]
                              IN bad' = Judge(ViewVerdict(Types[m.t], m.v, e.r, e.v))

(* a call whose result carries no claim but that must not disturb anything *)
Noise == Ev("noise") /\ Same /\ bad' = bad

(* a condition the driver measured directly (1 = violated) *)
Flag == Ev("flag") /\ Same /\ LET e == Trace[l] IN bad' = Judge(IF e.n # 0 THEN e.kind ELSE "")

Next == Reset \/ Build \/ New \/ SetV \/ Unset1 \/ Encode \/ ReEncode \/ Decode \/ DecodeBack
        \/ DecodeVersion \/ Cuts \/ Dict \/ Show \/ Noise \/ Flag
Spec == Init /\ [][Next]_vars

(* written once the last line is consumed; a missing file means the trace got stuck *)
Done == l = N + 1 => JsonSerialize(IOEnv.OUT, [lines |-> N, bad |-> bad])
=============================================================================
