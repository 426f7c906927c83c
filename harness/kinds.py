"""Which verdicts of the specification are violations of which property, and what each check covers."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def matches(f, d):
    """a known finding names the kind and exact substrings of the failing case"""
    if f["kind"] != d["kind"]:
        return False
    text = json.dumps(d, sort_keys=True)
    return all(s in text for s in f["match"])


ENC = ["enc-octets", "enc-refused", "enc-unsupported", "enc-hang", "build-refused"]
DEC = ["dec-value", "dec-refused", "dec-hang"]
SESSION = ENC + DEC + ["enc-illegal", "dec-truncated", "dec-unknown", "set-refused", "unset-refused", "view-refused", "view-value",
                       "dict-refused", "dict-value", "rt-value", "rt-refused", "rt-octets"]
KINDS = {
    "C01": ENC,
    "C02": ["rt-value", "rt-refused", "rt-octets"],
    "C03": DEC + ["dec-class"],
    "C04": ["ver-hang", "ver-unknown", "ver-refused", "ver-value", "dec-value", "dec-refused", "dec-unknown", "dec-hang"],
    "C05": ["enc-illegal", "enc-refused", "build-refused", "set-refused", "enc-hang"],
    "C06": ["cut", "dec-truncated", "dec-hang"],
    "C07": SESSION,
    "C08": ["dict-value", "dict-refused"],
    "C13": SESSION,
    "C14": SESSION + ["log-format", "log-differs"],
    "C15": SESSION,
    "C17": SESSION,
}
KINDS["C19"] = ["dec-illegal", "dec-truncated", "dec-unknown", "dec-value", "dec-refused", "dec-hang"]
KINDS["C18"] = ["accepted-" + c for c in ("syntax", "dup", "ref", "bounds", "value")] + ["schema-hang"]
SCHEMA = ["schema-hang", "schema-refused", "schema-import", "schema-extra-name", "schema-defined-twice", "schema-order", "schema-missing-name", "schema-struct", "schema-value"]
KINDS["C09"] = KINDS["C10"] = SCHEMA
KINDS["C16"] = ENC + DEC + ["enc-illegal", "rt-value", "rt-refused", "rt-octets"]
KINDS["C11"] = ["text-history", "text-hashseed", "text-packrat"]
KINDS["C12"] = ["text-layout", "file-refused", "file-content"]

PAIRS = "distinct (type, value) pairs: systematic leaf types x boundary values x contexts, structures at coding boundaries, random nested types"
TV = "TLA+ model of ALIGNED PER (spec/Per.tla) + TLC validation of recorded library calls (spec/SessionTrace.tla)"
GEN = TV + ", driven by octets TLC derives from the model"
B_ = "bounded: generated types to nesting depth 4, values at every coding boundary plus seeded random ones; every outcome is judged by TLC against the specification"
META = {
    "C01": {"rule": PAIRS, "technique": TV, "note": B_},
    "C02": {"rule": PAIRS, "technique": TV, "note": B_},
    "C03": {"rule": PAIRS + "; octets derived by TLC from the specification", "technique": GEN, "note": B_},
    "C04": {"rule": "distinct (newer type, older type, value) triples", "technique": GEN, "note": B_ + "; old/new pairs made by cutting additions at any nesting level"},
    "C05": {"rule": "distinct (type, value) pairs just outside and just inside each constraint, at every kind of position", "technique": TV, "note": B_},
    "C06": {"rule": "distinct (type, value) pairs whose encoding is cut; every cut point of encodings up to 40 octets", "technique": GEN, "note": B_ + "; all cut points of encodings up to 40 octets"},
    "C07": {"rule": "distinct sessions (seeded histories of operations over several live messages)", "technique": "TLA+ session state machine (spec/Session.tla) + TLC validation of recorded histories", "note": "bounded: seeded histories of 40-60 operations over up to ten live messages of one to five types"},
    "C08": {"rule": PAIRS, "technique": GEN, "note": B_},
    "C13": {"rule": "distinct pairs of operations; every line event of the first is a switch point", "technique": "systematic injection of a whole call at every line of another call, and real threads; outcomes validated by TLC against spec/Session.tla", "note": "one context switch per run, at every traced line (sampled above a cap); plus preemptive threads"},
    "C14": {"rule": "distinct (operation, logging configuration) pairs", "technique": TV + " under each logging configuration", "note": "8 configurations x generated operations"},
    "C15": {"rule": "distinct (type with DEFAULT components, value) pairs", "technique": GEN, "note": B_},
    "C17": {"rule": "distinct sessions (seeded histories of operations over several live messages)", "technique": "TLA+ session state machine (spec/Session.tla) + TLC validation of recorded histories", "note": "bounded: seeded histories of 40-60 operations over up to ten live messages of one to five types, with classes sharing names"},
}
META["C19"] = {"rule": "distinct (type, value) pairs whose encoding is damaged, each in up to 18 (thorough 86) ways; plus every string of up to 2 (3) octets over 8 octets for every type of the universe", "technique": GEN, "note": "bounded: generated types to nesting depth 4; damage of one or two bits, octets or fields, and random octets"}
SC = "TLA+ grammar and meaning of the schema notation (spec/Schema.tla) + TLC validation of what generated modules define (spec/SchemaTrace.tla)"
META["C09"] = {"rule": "distinct schemas (token sequences): systematic constructs x positions plus seeded random modules", "technique": SC, "note": "bounded: generated schemas; packrat parsing is switched on for speed"}
META["C10"] = {"rule": "distinct schemas (token sequences): every textual order of small dependency families, seeded orders of random dependency graphs", "technique": SC, "note": "bounded: families of up to 6 definitions in all orders (sampled above 120 in the quick tier), graphs of up to 20 definitions in sampled orders"}
ST = "TLA+ state machine of a process that parses schemas and writes files (spec/SchemaTrace.tla) + TLC validation of recorded calls"
META["C11"] = {"rule": "distinct histories (groups of schemas reusing names, wrong schemas in between, seeded orders)", "technique": ST, "note": "bounded: seeded histories of up to 60 parses; references from processes of their own under two hash seeds, and without packrat for tiny schemas"}
META["C12"] = {"rule": "distinct schemas, each in eleven layouts, a third of them also written to files", "technique": ST, "note": "bounded: seeded layouts and comments of generated schemas"}
META["C18"] = {"rule": "distinct texts (token sequences) that are wrong, or nearly right", "technique": "TLA+ recogniser and static rules of the schema notation (spec/SchemaSyntax.tla) + TLC validation of recorded calls (spec/SchemaTrace.tla)", "note": "bounded: one wrong construct of every kind in every kind of position, and one or two token edits of generated schemas"}
META["C16"] = {"rule": "distinct (schema, type, value) triples", "technique": "TLA+ meaning of the schema notation (spec/Schema.tla) composed with the TLA+ model of ALIGNED PER (spec/Per.tla) + TLC validation of recorded library calls on generated classes", "note": "bounded: generated schemas, seeded values of every type they define"}
for p, m in (("wire", "C01 C02 C03 C04 C06 C08 C15"), ("threads", "C13"), ("process", "C10 C11"), ("store", "C07 C17"), ("garble", "C19")):
    for q in m.split():
        META[q]["mc"] = p
NOT_APPLICABLE = []
