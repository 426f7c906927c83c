--------------------------- MODULE SchemaTrace ---------------------------
(* Validates recorded calls of parse_asn1_schema(): a state machine of one    *)
(* process in which schemas are parsed one after the other. The text a schema *)
(* gives is a function of the schema alone (`texts`), the files of a folder   *)
(* change only by the file of the parsed module.                              *)
EXTENDS SchemaSyntax, Json, IOUtils

Mods == JsonDeserialize(IOEnv.TYPES)         \* the tokens of every schema
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l, texts, bad, tally
vars == <<l, texts, bad, tally>>
Init == l = 1 /\ texts = [s \in {} |-> ""] /\ bad = <<>> /\ tally = [c \in {} |-> 0]
Judge(s) == IF s = "" THEN bad ELSE Append(bad, [line |-> l, kind |-> s])
Ev(op) == l <= N /\ Trace[l].op = op /\ l' = l + 1
Count(c) == tally' = IF c \in DOMAIN tally THEN [tally EXCEPT ![c] = @ + 1] ELSE (c :> 1) @@ tally

Reset == Ev("reset") /\ UNCHANGED tally /\ texts' = [s \in {} |-> ""] /\ bad' = bad

(* parse, execute the generated module, look at what it defines *)
Parse == Ev("parse") /\ UNCHANGED tally /\ texts' = texts /\ bad' = Judge(ParseVerdict(PModule(Mods[Trace[l].t]), Trace[l]))

(* the same for token sequences that need not be a module *)
Malformed == Ev("malformed") /\ texts' = texts
             /\ LET c == Class(Mods[Trace[l].t]) IN bad' = Judge(NearVerdict(c, Mods[Trace[l].t], Trace[l])) /\ Count(c)

(* the text (or refusal) for schema s, whatever happened before and however it is laid out *)
Text == Ev("text") /\ UNCHANGED tally /\ LET e == Trace[l] IN
        IF e.s \in DOMAIN texts THEN texts' = texts /\ bad' = Judge(IF texts[e.s] # e.h THEN e.kind ELSE "")
        ELSE texts' = (e.s :> e.h) @@ texts /\ bad' = bad

(* parse with an output folder: before/after are the files <<[f, h]>> of the folder *)
Files(s) == {s[i] : i \in 1..Len(s)}
File == Ev("file") /\ UNCHANGED tally /\ texts' = texts /\ LET e == Trace[l]
                                            want == {x \in Files(e.before) : x.f # e.name} \cup {[f |-> e.name, h |-> texts[e.s]]}
                                        IN bad' = Judge(IF e.r # "ok" THEN "file-refused" ELSE IF Files(e.after) # want THEN "file-content" ELSE "")

Next == Reset \/ Parse \/ Malformed \/ Text \/ File
Spec == Init /\ [][Next]_vars
Done == l = N + 1 => JsonSerialize(IOEnv.OUT, [lines |-> N, bad |-> bad, tally |-> tally])
=============================================================================
