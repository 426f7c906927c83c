"""Scenarios for the schema parser and generator (C09-C12, C16)."""
import itertools
import random
import os
import shutil
import subprocess
import sys
import tempfile
import time

import tlc
from asn import *
from gen import *
from gschema import *
from rec import broken
from scen import scenario, MODULE, big

for p in ("C09", "C10", "C11", "C12"):
    MODULE[p] = "SchemaTrace"


def parse(s, **kw):
    return asn1PERser.parse_asn1_schema(s, **kw)


def check_schema(ctx, toks, defs, style="canonical", given=None):
    """parse (or take the outcome given), execute, observe: one 'parse' event"""
    rec = ctx.rec
    s = layout(ctx.rnd, toks, style)
    r, code = given or guarded(parse, s, seconds=60)
    x, order, obs, why = "", [], [], "" if r == "ok" else code
    if r == "ok":
        x, res = guarded(run_module, code)
        if x == "ok":
            x, res = guarded(observe_module, defs, *res)
            if x == "ok":
                order, obs = res
            else:
                why = res
        else:
            why = res
    rec.ev("parse", t=rec.t(toks), r=r, x=x, order=order, defs=obs, note=why, what=s)
    return code if r == "ok" else None


def defs_of(g):
    return [(d[0], d[1]) for d in g.defs]


# a known finding: an addition written after an addition group
MIXED = "Main ::= SEQUENCE { a BOOLEAN , ... , b BOOLEAN , [[ d BOOLEAN ]] , c INTEGER ( 0 .. 7 ) }"


@scenario("C09")
def c09(ctx):
    rec, r = ctx.rec, ctx.rnd
    if ctx.shard == 0:
        toks, defs = mod(MIXED)
        rec.case(MIXED)
        check_schema(ctx, toks, defs, "oneline")
    for i, (toks, defs) in enumerate(ctx.mine(systematic_schemas())):
        rec.case([t["s"] for t in toks])
        check_schema(ctx, toks, defs)
    for i in range(ctx.n(180, 600)):
        g = G_(r, r.choice((1, 2, 3, 5, 8)), r.choice((0, 1, 3, 5)), r.choice((1, 2, 2, 3)))
        toks = module([d[2] for d in g.defs], tags=r.random() < .7)
        if len(toks) > 900:
            continue
        rec.case([t["s"] for t in toks])
        check_schema(ctx, toks, defs_of(g), "oneline")
    base = [t for t, d in systematic_schemas()]
    for _ in range(ctx.n(30, 400)):
        if r.random() < .4:
            toks = r.choice(base)
        else:
            g = G_(r, r.choice((1, 2, 3)), r.choice((0, 1, 3)), r.choice((1, 2)))
            toks = module([d[2] for d in g.defs], tags=r.random() < .7)
        if len(toks) > 300:
            continue
        for t in gentle(r, toks, 6):
            check_malformed(ctx, t, look=True)
    plain_schemas(ctx, ctx.mine(flat_schemas()), ctx.n(12, 90))


def flat_schemas():
    """schemas the parser can read in seconds without packrat parsing"""
    out = []
    for c in CONS_INT[1:]:
        out.append(mod(*([l for l in CONSTS if l.split()[0] in c.split() or l[0] == "S" and "top" in c] + ["Ty ::= INTEGER " + c])))
    for i, c in enumerate(CONS_SIZE[1:]):
        out.append(mod(*([l for l in CONSTS if l.split()[0] in c.split() or l[0] == "S" and "top" in c] + ["Ty ::= %s %s" % (("BIT STRING", "OCTET STRING")[i % 2], c)])))
    for e in ENUMS:
        out.append(mod("En ::= ENUMERATED { %s }" % e, "cv En ::= " + e.split()[0]))
    for s in ("SEQUENCE { }", "SEQUENCE { ... }", "SEQUENCE { a Other }", "CHOICE { a Other }", "SEQUENCE { a Other OPTIONAL }", "SEQUENCE { a Other DEFAULT 4 }", "SEQUENCE { a BOOLEAN DEFAULT FALSE }", "SEQUENCE { a Other , ... }",
              "SEQUENCE OF Other", "SEQUENCE OF SEQUENCE OF Other", "SEQUENCE ( SIZE ( 1 .. 3 ) ) OF Other", "SEQUENCE { ... , a Other }", "CHOICE { a Other , ... }", "SEQUENCE { a Other , b Other }", "CHOICE { a Other , b Other }"):
        out.append(mod("Main ::= " + s, "Other ::= INTEGER"))
    return out


def mod(*lines):
    toks = module([text(l) for l in lines])
    defs = [(l.split()[0], "type" if l.split()[0][0].isupper() else "val") for l in lines]
    return toks, defs


CONS_INT = ["", "( 5 )", "( -5 )", "( 0 .. 7 )", "( -8 .. -1 )", "( MIN .. 0 )", "( 0 .. MAX )", "( MIN .. MAX )", "( 0 .. 0 )", "( -1 .. 1 , ... )", "( 5 , ... )",
            "( 0 .. 255 , ... , 256 .. 300 )", "( MIN .. 5 , ... )", "( 1 .. MAX , ... )", "( lo .. hi )", "( lo .. 300 )", "( -300 .. hi )", "( hi )", "( lo .. hi , ... )",
            "( lo .. MAX )", "( MIN .. hi )", "( 0 .. 18446744073709551615 )", "( -9223372036854775808 .. 9223372036854775807 )", "( 0 .. top )", "( lo .. top , ... , 99999 )"]
CONS_SIZE = ["", "( SIZE ( 5 ) )", "( SIZE ( 0 ) )", "( SIZE ( 1 .. 4 ) )", "( SIZE ( 0 .. 4 ) )", "( SIZE ( 2 .. MAX ) )", "( SIZE ( 0 .. MAX ) )", "( SIZE ( MIN .. 4 ) )", "( SIZE ( 1 .. 4 , ... ) )",
             "( SIZE ( 1 .. 4 ) , ... )", "( SIZE ( 3 , ... ) )", "( SIZE ( 3 ) , ... )", "( SIZE ( 1 .. 4 , ... , 5 .. 9 ) )", "( SIZE ( 1 .. 4 ) , ... , SIZE ( 5 .. 9 ) )", "( SIZE ( hi ) )",
             "( SIZE ( 1 .. hi ) )", "( SIZE ( one .. hi ) )", "( SIZE ( one .. MAX ) )", "( SIZE ( one .. hi , ... ) )", "( SIZE ( one .. hi ) , ... )", "( SIZE ( 1 .. 65535 ) )", "( SIZE ( one .. top ) )"]
CONSTS = ["lo INTEGER ::= -10", "hi INTEGER ::= 255", "one INTEGER ::= 1", "top Small ::= 300", "Small ::= INTEGER ( 0 .. 1000 )"]
ENUMS = ["a", "a , b", "a , b , ...", "a , ... , b", "a , b , ... , c , d-e , f", "a ( 0 ) , b ( 5 )", "a ( 5 ) , b , c ( 0 )", "a ( 3 ) , b ( 1 ) , c ( 2 )", "a , b ( 3 ) , ... , c", "a , b , ... , c ( 3 ) , d",
         "a , z ( 25 ) , d", "a ( 1 ) , b , ... , c ( 5 ) , d , e ( 9 )", "a ( 2 ) , ... , b , c , d", "x-1 , y-2 , ..."]
DEFAULTS = [("INTEGER", ["0", "5", "-5", "cint", "c-int"]), ("INTEGER ( -10 .. 10 )", ["0", "-10", "cint"]), ("BOOLEAN", ["TRUE", "FALSE", "ctrue", "c-false"]),
            ("OCTET STRING", ["'AB'H", "''H", "''B", "'ABC'H", "'1'B", "'0000000011'B", "coct", "c-octB"]), ("OCTET STRING ( SIZE ( 0 .. 4 ) )", ["'AB'H", "''B", "coct"]),
            ("BIT STRING", ["'101'B", "''B", "''H", "'0F'H", "cbits", "c-bitH"]), ("BIT STRING ( SIZE ( 0 .. 12 ) )", ["'0001'B", "'A'H", "cbits"]),
            ("Int1", ["3", "cint", "ctyped"]), ("Int2", ["3", "cint", "ctyped"]), ("Int3", ["3", "ctyped", "c-al"]), ("Bool1", ["TRUE", "FALSE", "ctrue"]), ("Bool2", ["TRUE", "FALSE", "c-false"]),
            ("Oct2", ["'0A'H", "''B", "coct"]), ("Bits2", ["'0101'B", "cbits"]), ("Enum1", ["two", "cenum"]), ("Enum2", ["two", "one-1", "cenum"]), ("ENUMERATED { red , blue-1 , ... , two }", ["red", "blue-1", "two"])]
DEF_DEFS = ["cint INTEGER ::= 7", "c-int INTEGER ::= -7", "ctrue BOOLEAN ::= TRUE", "c-false BOOLEAN ::= FALSE", "coct OCTET STRING ::= 'DEAD'H", "c-octB OCTET STRING ::= '11110000'B", "cbits BIT STRING ::= '0110'B",
            "c-bitH BIT STRING ::= '0F'H", "Int1 ::= INTEGER ( 0 .. 9 )", "Int2 ::= Int1", "Int3 ::= Int2", "ctyped Int1 ::= 4", "c-al Int3 ::= 6", "Bool1 ::= BOOLEAN", "Bool2 ::= Bool1", "Oct1 ::= OCTET STRING ( SIZE ( 0 .. 9 ) )",
            "Oct2 ::= Oct1", "Bits1 ::= BIT STRING", "Bits2 ::= Bits1", "Enum1 ::= ENUMERATED { one-1 , two , three }", "Enum2 ::= Enum1", "cenum Enum1 ::= three"]
SHAPES = ["SEQUENCE { }", "SEQUENCE { ... }", "SEQUENCE { ... , ... }", "SEQUENCE { a INTEGER }", "SEQUENCE { a INTEGER , ... }", "SEQUENCE { a INTEGER , ... , ... }", "SEQUENCE { a INTEGER , ... , b BOOLEAN }",
          "SEQUENCE { a INTEGER , ... , b BOOLEAN , ... }", "SEQUENCE { a INTEGER , ... , b BOOLEAN , ... , c INTEGER }", "SEQUENCE { a INTEGER , ... , ... , c INTEGER , d BOOLEAN OPTIONAL }", "SEQUENCE { ... , b BOOLEAN }",
          "SEQUENCE { ... , b BOOLEAN , ... , c INTEGER }", "SEQUENCE { a INTEGER OPTIONAL , ... , [[ b BOOLEAN ]] }", "SEQUENCE { a INTEGER , ... , [[ b BOOLEAN , c INTEGER OPTIONAL ]] , [[ d BOOLEAN DEFAULT TRUE ]] }",
          "SEQUENCE { a INTEGER , ... , b BOOLEAN , c INTEGER ( 0 .. 5 ) OPTIONAL , [[ d BIT STRING ]] , ... , e OCTET STRING DEFAULT 'AB'H }", "SEQUENCE { ... , [[ a INTEGER ]] }",
          "CHOICE { a INTEGER }", "CHOICE { a INTEGER , ... }", "CHOICE { a INTEGER , ... , ... }", "CHOICE { a INTEGER , ... , b BOOLEAN }", "CHOICE { a INTEGER , b BOOLEAN , ... , c BIT STRING , d OCTET STRING , ... }",
          "CHOICE { a INTEGER , ... , [[ b BOOLEAN ]] }", "CHOICE { a INTEGER , ... , b BOOLEAN , [[ c BOOLEAN , d INTEGER ( 0 .. 3 ) ]] , ... }",
          "SEQUENCE OF INTEGER", "SEQUENCE OF BOOLEAN", "SEQUENCE OF Other", "SEQUENCE OF SEQUENCE OF Other", "SEQUENCE OF INTEGER ( 0 .. 7 )", "SEQUENCE ( SIZE ( 1 .. 4 ) ) OF OCTET STRING ( SIZE ( 2 ) )",
          "SEQUENCE OF ENUMERATED { x , y , ... }", "SEQUENCE OF SEQUENCE { a Other , b INTEGER ( 0 .. 1 ) }", "SEQUENCE OF CHOICE { a Other , b SEQUENCE OF BOOLEAN }", "SEQUENCE ( SIZE ( 0 .. 3 ) ) OF SEQUENCE ( SIZE ( 1 .. 2 ) ) OF SEQUENCE OF BIT STRING ( SIZE ( 3 ) )",
          "SEQUENCE { l SEQUENCE OF INTEGER , m SEQUENCE OF Other , n SEQUENCE ( SIZE ( 1 .. 2 ) ) OF INTEGER ( 0 .. 3 ) OPTIONAL }", "CHOICE { l SEQUENCE OF INTEGER , m SEQUENCE OF BIT STRING ( SIZE ( 1 .. 4 ) ) , ... , n SEQUENCE OF SEQUENCE OF Other }",
          "SEQUENCE { a SEQUENCE { b SEQUENCE { c CHOICE { d ENUMERATED { e , f } , g Other } , h INTEGER ( 0 .. 5 ) } OPTIONAL } , i Other OPTIONAL }", "Other", "SEQUENCE { a Other , b Other OPTIONAL , ... , c Other , [[ d Other ]] , ... , e Other }",
          "SEQUENCE { items SEQUENCE OF INTEGER , values ENUMERATED { keys , items } , clone INTEGER ( 0 .. 1 ) , tagSet BIT STRING ( SIZE ( 1 ) ) , from CHOICE { import INTEGER ( 0 .. 1 ) , items SEQUENCE { } } }",
          "CHOICE { items SEQUENCE OF INTEGER , getName ENUMERATED { keys } , subtypeSpec INTEGER ( 0 .. 1 ) , rootComponent BIT STRING ( SIZE ( 1 ) ) , componentType SEQUENCE { a BOOLEAN } }"]


def systematic_schemas():
    out = []
    for c in CONS_INT:
        out.append(mod(*(CONSTS + ["Ty ::= INTEGER " + c, "Sq ::= SEQUENCE { f INTEGER %s , g INTEGER %s OPTIONAL , ... , h INTEGER %s , [[ i INTEGER %s ]] }" % (c, c, c, c),
                                   "Ch ::= CHOICE { f INTEGER %s , ... , h INTEGER %s }" % (c, c), "Li ::= SEQUENCE OF INTEGER " + c])))
    for c in CONS_SIZE:
        for b in ("BIT STRING", "OCTET STRING"):
            out.append(mod(*(CONSTS + ["Ty ::= %s %s" % (b, c), "Sq ::= SEQUENCE { f %s %s , g %s %s OPTIONAL , ... , h %s %s , [[ i %s %s ]] }" % ((b, c) * 4),
                                       "Ch ::= CHOICE { f %s %s , ... , h %s %s }" % ((b, c) * 2), "Li ::= SEQUENCE %s OF %s %s" % (c, b, c)])))
    for e in ENUMS:
        out.append(mod("En ::= ENUMERATED { %s }" % e, "Sq ::= SEQUENCE { f ENUMERATED { %s } , g En OPTIONAL , ... , h ENUMERATED { %s } }" % (e, e), "Ch ::= CHOICE { f ENUMERATED { %s } , g En }" % e,
                       "Li ::= SEQUENCE OF ENUMERATED { %s }" % e, "cv En ::= a" if e[0] == "a" else "cv En ::= y-2"))
    for ty, vals in DEFAULTS:
        comps = ["c%d %s DEFAULT %s" % (i, ty, v) for i, v in enumerate(vals)]
        out.append(mod(*(DEF_DEFS + ["Root ::= SEQUENCE { %s }" % " , ".join(comps), "Add ::= SEQUENCE { a BOOLEAN , ... , %s }" % " , ".join(comps), "Grp ::= SEQUENCE { a BOOLEAN , ... , [[ %s ]] , ... , last BOOLEAN }" % " , ".join(comps),
                                     "Inn ::= SEQUENCE { a SEQUENCE { %s } OPTIONAL , l SEQUENCE OF SEQUENCE { %s } }" % (comps[0], comps[-1])])))
    for s in SHAPES:
        out.append(mod("Main ::= " + s, "Other ::= INTEGER ( 0 .. 9 )", "Use ::= SEQUENCE { m Main , n Main OPTIONAL , l SEQUENCE OF Main }"))
        out.append(mod("Main ::= SEQUENCE { in-ner %s , o Other , ... , ad-d %s }" % (s, s), "Other ::= SEQUENCE { k BOOLEAN }"))
        if not s.startswith("Other"):
            out.append(mod("Main ::= CHOICE { in-ner %s , o Other , ... , [[ ad-d %s ]] }" % (s, s), "Other ::= ENUMERATED { k , l }"))
    for t, v in (("INTEGER", "5"), ("INTEGER", "-5"), ("INTEGER", "0"), ("BOOLEAN", "TRUE"), ("BOOLEAN", "FALSE"), ("OCTET STRING", "'AB0'H"), ("OCTET STRING", "''H"), ("OCTET STRING", "''B"), ("BIT STRING", "'010'B"), ("BIT STRING", "''H"),
                 ("BIT STRING", "'0'H"), ("INTEGER ( 0 .. 9 )", "9"), ("OCTET STRING ( SIZE ( 1 ) )", "'00'H")):
        lines = ["x-1 %s ::= %s" % (t, v), "Ty ::= " + t, "Ali ::= Ty", "x-2 Ty ::= " + v, "lambda Ali ::= " + v, "x3 Ty ::= x-1", "x4 %s ::= lambda" % t, "x5 Ali ::= x3"]
        out.append(mod(*lines))
    return out


# ---------------------------------------------------------------- C10: order of definitions
# every way one definition can need another, in chains and diamonds; all textual orders of each family
ORDER_FAMILIES = [
    ["A ::= B", "B ::= C", "C ::= D", "D ::= INTEGER ( 0 .. 9 )"],
    ["A ::= SEQUENCE { x B }", "B ::= SEQUENCE { y C OPTIONAL }", "C ::= SEQUENCE { ... , z D }", "D ::= SEQUENCE { ... , [[ w E ]] }", "E ::= BOOLEAN"],
    ["A ::= CHOICE { x B }", "B ::= CHOICE { y BOOLEAN , ... , z C }", "C ::= CHOICE { y BOOLEAN , ... , [[ w D ]] }", "D ::= SEQUENCE OF E", "E ::= ENUMERATED { p , q }"],
    ["A ::= SEQUENCE OF B", "B ::= SEQUENCE ( SIZE ( 1 .. n ) ) OF C", "C ::= SEQUENCE OF SEQUENCE OF D", "D ::= BIT STRING ( SIZE ( m ) )", "n INTEGER ::= 4", "m INTEGER ::= n"],
    ["A ::= INTEGER ( lo .. hi )", "lo INTEGER ::= 1", "hi B ::= 9", "B ::= INTEGER ( 0 .. top )", "top INTEGER ::= 99"],
    ["A ::= OCTET STRING ( SIZE ( one .. two ) )", "one B ::= 1", "two B ::= 2", "B ::= C", "C ::= INTEGER"],
    ["A ::= SEQUENCE { x INTEGER DEFAULT v , y B DEFAULT u }", "v INTEGER ::= w", "w B ::= 3", "B ::= INTEGER ( 0 .. 9 )", "u B ::= v"],
    ["A ::= SEQUENCE { x SEQUENCE { y SEQUENCE { z B } } }", "B ::= SEQUENCE { x CHOICE { y SEQUENCE OF C } }", "C ::= SEQUENCE { ... , x SEQUENCE { y INTEGER ( 0 .. n ) } }", "n D ::= 7", "D ::= INTEGER"],
    ["A ::= SEQUENCE { b B , c C }", "B ::= SEQUENCE { d D }", "C ::= SEQUENCE { d D , e E }", "D ::= SEQUENCE { e E }", "E ::= INTEGER"],
    ["A ::= SEQUENCE { x INTEGER ( 0 .. n ) DEFAULT k , y E DEFAULT q , z E DEFAULT ev }", "n INTEGER ::= 5", "k INTEGER ::= 2", "E ::= ENUMERATED { p , q }", "ev E ::= p"],
    ["A ::= SEQUENCE { ... , x OCTET STRING DEFAULT o , [[ y BIT STRING DEFAULT b , z BOOLEAN DEFAULT t ]] , ... , u B DEFAULT t }", "o OCTET STRING ::= 'AB'H", "b BIT STRING ::= '101'B", "t B ::= TRUE", "B ::= BOOLEAN"],
    ["A ::= SEQUENCE { ... , ... , x B }", "B ::= SEQUENCE { ... , x C , ... , y D }", "C ::= D", "D ::= SEQUENCE ( SIZE ( n ) ) OF INTEGER ( MIN .. n )", "n INTEGER ::= 3"],
    ["Ab ::= SEQUENCE { x A , y Abc }", "A ::= SEQUENCE { x Abc }", "Abc ::= B", "B ::= INTEGER ( 0 .. a )", "a INTEGER ::= 1"],      # names that are prefixes of others
    ["C-B ::= SEQUENCE { c C }", "C ::= SEQUENCE { c B-C }", "B-C ::= CHOICE { b B }", "B ::= SEQUENCE OF A-1", "A-1 ::= INTEGER"],
    ["Z ::= A", "A ::= M", "M ::= SEQUENCE { n N }", "N ::= SEQUENCE OF B", "B ::= OCTET STRING ( SIZE ( z ) )", "z INTEGER ::= 2"],
    ["X ::= SEQUENCE { x INTEGER , y BOOLEAN }", "Y ::= SEQUENCE { x INTEGER }", "Z ::= ENUMERATED { x , y }"],                        # nothing needed
    ["None ::= SEQUENCE { x True }", "True ::= SEQUENCE OF Class", "Class ::= INTEGER ( pass .. MAX )", "pass INTEGER ::= lambda", "lambda INTEGER ::= 4"],
]


def order_cases(ctx):
    r = ctx.rnd
    for fam in ORDER_FAMILIES:
        ps = list(itertools.permutations(fam))
        if not ctx.full and len(ps) > 120:
            ps = random.Random(len(fam)).sample(ps, 120)
        for p in ps:
            yield p


def rand_graph(r):
    """a module of n definitions in dependency order, each using several earlier ones"""
    n = r.choice((3, 5, 8, 12, 20))
    types, ints, lines = [], [], []
    for i in range(n):
        if r.random() < .25:
            name = "v%d" % i
            lines.append("%s INTEGER ::= %s" % (name, r.choice(ints) if ints and r.random() < .5 else r.randint(1, 9)))
            ints.append(name)
            continue
        name = "T%d%s" % (r.randrange(10), chr(65 + i % 26) + str(i))

        def ref():
            x = r.random()
            if types and x < .7:
                return r.choice(types)
            if ints and x < .85:
                return r.choice(["INTEGER ( 0 .. %s )", "OCTET STRING ( SIZE ( %s ) )", "SEQUENCE ( SIZE ( 1 .. %s , ... ) ) OF BOOLEAN", "BIT STRING ( SIZE ( %s .. MAX ) )"]) % r.choice(ints)
            return r.choice(["INTEGER", "BOOLEAN", "ENUMERATED { a , b }"])
        k = r.randrange(6)
        if k == 0:
            body = ref()
        elif k == 1:
            body = "SEQUENCE { a %s , b %s OPTIONAL , ... , c %s , [[ d %s , e INTEGER DEFAULT %s ]] , ... , f %s }" % (ref(), ref(), ref(), ref(), r.choice(ints or ["3"]), ref())
        elif k == 2:
            body = "CHOICE { a %s , b %s , ... , c %s }" % (ref(), ref(), ref())
        elif k == 3:
            body = "SEQUENCE OF " + ref()
        elif k == 4:
            body = "SEQUENCE { a SEQUENCE { b CHOICE { c SEQUENCE OF %s , d %s } } , e INTEGER DEFAULT %s }" % (ref(), ref(), r.choice(ints or ["1"]))
        else:
            body = "SEQUENCE { a %s , b INTEGER DEFAULT %s }" % (ref(), r.choice(ints or ["2"]))
        lines.append("%s ::= %s" % (name, body))
        types.append(name)
    return lines


def graphs(ctx, n):
    """every acyclic dependency graph of n names, and every textual order, from spec/GenGraphs.tla"""
    out = os.path.join(ctx.work, "graphs%d_%d.json" % (n, ctx.shard))
    rc, text_ = tlc.run("GenGraphs", {"OUT": out}, cfg="GenGraphs%d.cfg" % n, stack="100m")
    if not os.path.exists(out):
        raise RuntimeError("GenGraphs failed: " + text_[-2000:])
    d = json.load(open(out))
    return [(g, o) for g in d["graphs"] for o in d["orders"]]


def render(r, names, g, o):
    """definitions in order o whose references are those of g"""
    def one(ds):
        ds = [names[x] for x in ds]
        if not ds:
            return r.choice(("INTEGER ( 0 .. 7 )", "SEQUENCE { }", "ENUMERATED { a , b }", "OCTET STRING ( SIZE ( 2 ) )", "BOOLEAN"))
        if len(ds) == 1:
            return r.choice(("%s", "%s", "SEQUENCE OF %s", "SEQUENCE ( SIZE ( 1 .. 4 ) ) OF %s", "SEQUENCE { x %s }", "CHOICE { x %s , y NULL-X }".replace("NULL-X", "BOOLEAN"),
                             "SEQUENCE { ... , x %s }", "SEQUENCE OF SEQUENCE { x %s }", "SEQUENCE { a BOOLEAN , ... , [[ x %s OPTIONAL ]] }")) % ds[0]
        cs = [r.choice(("%s", "%s OPTIONAL", "SEQUENCE OF %s", "SEQUENCE { y %s }", "CHOICE { y %s }")) % x for x in ds]
        k = r.randrange(4)
        if k == 0:
            return "CHOICE { " + " , ".join("c%d %s" % (i, c.replace(" OPTIONAL", "")) for i, c in enumerate(cs)) + " }"
        at = r.randrange(len(cs)) if k == 1 else None
        items = []
        for i, c in enumerate(cs):
            if i == at:
                items.append("...")
            items.append("c%d %s" % (i, c))
        return "SEQUENCE { " + " , ".join(items) + " }"
    return ["%s ::= %s" % (names[n], one(g[n])) for n in o]


@scenario("C10")
def c10(ctx):
    rec, r = ctx.rec, ctx.rnd
    for lines in ctx.mine(order_cases(ctx)):
        toks, defs = mod(*lines)
        rec.case(list(lines))
        check_schema(ctx, toks, defs, "oneline")
    gs = ctx.mine(graphs(ctx, 3)) * 2 + (ctx.mine(graphs(ctx, 4)) if ctx.full else r.sample(graphs(ctx, 4), 120))
    for g, o in gs:
        names = dict(zip("ABCD", r.choice((("A", "B", "C", "D"), ("D", "C", "B", "A"), ("Foo", "Foo-Bar", "FooBar", "Fo"), ("T1", "T10", "T2", "T-1")))))
        lines = render(r, names, g, o)
        toks, defs = mod(*lines)
        rec.case(lines)
        check_schema(ctx, toks, defs, "oneline")
    for i in range(ctx.n(30, 250)):
        if i % 2:
            g = G_(r, r.choice((4, 6, 9)), r.choice((1, 3, 5)), 2)
            dl = [(d[2], (d[0], d[1])) for d in g.defs]
        else:
            lines = rand_graph(r)
            dl = [(text(l), (l.split()[0], "type" if l[0].isupper() else "val")) for l in lines]
        if sum(len(d[0]) for d in dl) > 900:
            continue
        for how in ("reversed", "shuffled", "shuffled"):
            if how == "reversed":
                dl = dl[::-1]
            else:
                r.shuffle(dl)
            toks = module([d[0] for d in dl])
            rec.case([t["s"] for t in toks])
            check_schema(ctx, toks, [d[1] for d in dl], "oneline")
    small = [p for f in (["A ::= B", "B ::= C", "C ::= SEQUENCE OF D", "D ::= INTEGER"], ["v B ::= w", "w A ::= 5", "A ::= INTEGER", "B ::= A"], ["A ::= SEQUENCE { x B }", "B ::= C", "C ::= INTEGER ( 0 .. n )", "n INTEGER ::= 3"])
             for p in itertools.permutations(f)]
    plain_schemas(ctx, [mod(*p) for p in ctx.mine(small)], ctx.n(8, 60))


# ---------------------------------------------------------------- C11: history
def outcome(s, **kw):
    r, code = guarded(parse, s, seconds=20, **kw)
    return digest(code) if r == "ok" and isinstance(code, str) else "err" if r == "err" else r


def fresh(ctx, tag, texts, hashseed="0", plain=False, seconds=20):
    """outcomes [r, code] from processes of their own"""
    base = os.path.join(ctx.work, "%s%d" % (tag, ctx.shard))
    json.dump(texts, open(base + ".in", "w"))
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "fresh.py"), base + ".in", base + ".out", str(seconds)] + (["plain"] if plain else []),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode:
        raise RuntimeError("fresh.py: " + p.stdout.decode()[-2000:])
    return json.load(open(base + ".out"))


def dig(res):
    return digest(res[1]) if res[0] == "ok" else res[0]


def plain_schemas(ctx, schemas, budget):
    """the same through the parser as it runs without packrat, for as many as fit the budget (seconds)"""
    t0, n = time.time(), 0
    todo = list(schemas)
    for i in range(0, len(todo), 4):
        left = budget - (time.time() - t0)
        if left < 2:
            break
        part = todo[i:i + 4]
        for (toks, defs), res in zip(part, fresh(ctx, "pl_", [canonical(t) for t, d in part], plain=True, seconds=max(2, int(left / 2)))):
            if res[0] != "hang":
                ctx.rec.case([t["s"] for t in toks])
                check_schema(ctx, toks, defs, given=res)
                n += 1
    ctx.rec.info["parsed without packrat"] = ctx.rec.info.get("parsed without packrat", 0) + n


def plain_texts(ctx, tag, texts, budget):
    """{text: digest} for as many texts as can be parsed without packrat parsing within the budget (seconds)"""
    out, t0 = {}, time.time()
    for i in range(0, len(texts), 3):
        left = budget - (time.time() - t0)
        if left < 2:
            break
        part = texts[i:i + 3]
        for s, res in zip(part, fresh(ctx, tag, part, str(1 + ctx.rnd.randrange(4000000000)), plain=True, seconds=max(2, int(left / 2)))):
            if res[0] != "hang":
                out[s] = dig(res)
    ctx.rec.info["parsed without packrat"] = ctx.rec.info.get("parsed without packrat", 0) + len(out)
    return out


# groups of schemas that reuse each other's names with other meanings; some are wrong and must stay wrong
CONFLICTS = [
    ["A ::= INTEGER | B ::= SEQUENCE { a A }", "A ::= BOOLEAN | B ::= SEQUENCE { a A }", "A ::= SEQUENCE { x BOOLEAN } | B ::= SEQUENCE { a A }", "B ::= SEQUENCE { a A }", "A ::= B | B ::= ENUMERATED { a , b }", "B ::= A | A ::= SEQUENCE OF B1 | B1 ::= INTEGER"],
    ["n INTEGER ::= 5 | A ::= INTEGER ( 0 .. n )", "n INTEGER ::= 7 | A ::= INTEGER ( 0 .. n )", "A ::= INTEGER ( 0 .. n )", "A ::= SEQUENCE { x INTEGER DEFAULT n } | n INTEGER ::= 9", "A ::= SEQUENCE { x INTEGER DEFAULT n }", "n B ::= 5 | B ::= INTEGER | A ::= SEQUENCE OF B"],
    ["E ::= ENUMERATED { a , b , n } | S ::= SEQUENCE { e E DEFAULT n }", "E ::= ENUMERATED { n ( 5 ) , b } | S ::= SEQUENCE { e E DEFAULT n }", "E ::= INTEGER | n E ::= 3 | S ::= SEQUENCE { e E DEFAULT n }", "E ::= F | F ::= BIT STRING | n F ::= '01'B | S ::= SEQUENCE { e E DEFAULT n }", "S ::= SEQUENCE { e E DEFAULT n }", "E ::= BOOLEAN | S ::= SEQUENCE { e E DEFAULT TRUE }"],
    ["D ::= INTEGER | S ::= SEQUENCE { d D DEFAULT 3 }", "D ::= BOOLEAN | S ::= SEQUENCE { d D DEFAULT TRUE }", "D ::= OCTET STRING | S ::= SEQUENCE { d D DEFAULT 'AB'H }", "D ::= BIT STRING | S ::= SEQUENCE { d D DEFAULT 'AB'H }", "D ::= BIT STRING ( SIZE ( 8 ) ) | S ::= SEQUENCE { d D DEFAULT '00000000'B }", "D ::= C | C ::= D1 | D1 ::= ENUMERATED { three } | S ::= SEQUENCE { d D DEFAULT three }", "D ::= ENUMERATED { true } | S ::= SEQUENCE { d D DEFAULT true }"],
    ["A ::= SEQUENCE { x SEQUENCE { y INTEGER } }", "A ::= SEQUENCE { x SEQUENCE { y BOOLEAN } }", "A ::= SEQUENCE { x SEQUENCE OF INTEGER }", "A ::= CHOICE { x ENUMERATED { y } }", "A ::= SEQUENCE { x CHOICE { y ENUMERATED { z } , z SEQUENCE { } } , y SEQUENCE { y ENUMERATED { y } } }", "x INTEGER ::= 4 | A ::= SEQUENCE OF SEQUENCE OF INTEGER"],
    ["A ::= SEQUENCE OF B | B ::= C | C ::= INTEGER", "B ::= SEQUENCE OF A | A ::= C | C ::= BOOLEAN", "C ::= SEQUENCE { a A , b B } | A ::= INTEGER | B ::= A", "C ::= SEQUENCE { a A , b B } | A ::= INTEGER", "A ::= SEQUENCE { ... , [[ b B ]] } | B ::= SEQUENCE { ... , c C } | C ::= ENUMERATED { a , ... , b }", "A ::= A1"],
    ["a A ::= 4 | A ::= INTEGER", "a A ::= TRUE | A ::= BOOLEAN", "a A ::= '00'H | A ::= OCTET STRING", "a A ::= '00'H | A ::= BIT STRING", "a A ::= b | A ::= ENUMERATED { b }", "a A ::= b | b A ::= 4 | A ::= INTEGER", "a A ::= b | A ::= INTEGER", "a A ::= 4"],
]
BROKEN = ["M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a INTEGER , END", "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= B B ::= SEQUENCE { x Undefined-Type } n INTEGER ::= END", "", "not a schema",
          "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a B DEFAULT 5 } END", "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a ENUMERATED { x } DEFAULT y } END", "M DEFINITIONS ::= BEGIN A ::= INTEGER ( 5 .. END",
          "M DEFINITIONS ::= BEGIN A ::= A END", "M DEFINITIONS ::= BEGIN A ::= B B ::= A C ::= SEQUENCE { a A DEFAULT 4 } END"]


def conflict_text(c):
    return canonical(mod(*[x.strip() for x in c.split("|")])[0])


@scenario("C11")
def c11(ctx):
    rec, r = ctx.rec, ctx.rnd
    groups = []
    for g in CONFLICTS:
        groups.append([conflict_text(c) for c in g] + BROKEN)
    groups.append([conflict_text(c) for g in CONFLICTS for c in g])
    nrand = ctx.n(5, 40)
    for i in range(nrand):
        g = []
        names = None
        for j in range(r.choice((3, 5, 8))):
            q = G_(r, r.choice((1, 2, 3, 5)), r.choice((0, 2, 4)), 2)
            ds = [d[2] for d in q.defs]
            toks = module(ds)
            if len(toks) > 500:
                continue
            g.append(canonical(toks))
            if len(ds) > 2 and r.random() < .7:             # drop a definition: others may now be undefined
                del ds[r.randrange(len(ds))]
                g.append(canonical(module(ds)))
            if r.random() < .4:
                r.shuffle(ds)
                g.append(canonical(module(ds)))
        g += r.sample(BROKEN, 2)
        groups.append(g)
    mine = [g for i, g in enumerate(groups) if i >= len(CONFLICTS) + 1 or i % ctx.nshards == ctx.shard]
    pool = sorted({s for g in mine for s in g})
    ref = dict(zip(pool, map(dig, fresh(ctx, "f0_", pool, "0"))))
    alt = dict(zip(pool, map(dig, fresh(ctx, "f1_", pool, str(1 + r.randrange(4000000000))))))
    tiny = sorted((s for s in pool if len(s) < 150 and s.count("{") <= 1), key=lambda s: s.count("{") * 1000 + len(s) + r.randrange(60))
    plain = plain_texts(ctx, "f2_", tiny, ctx.n(8, 60))
    key = {s: digest(s) for s in pool}
    for g in mine:
        for k in range(ctx.n(2, 6)):
            rec.case(json.dumps([sorted(g), k, ctx.shard]))
            for s in g:
                rec.ev("text", s=key[s], h=ref[s], kind="text-history", what=s)
            for s in g:
                rec.ev("text", s=key[s], h=alt[s], kind="text-hashseed", what=s)
                if s in plain:
                    rec.ev("text", s=key[s], h=plain[s], kind="text-packrat", what=s)
            hist = list(g) * 2
            r.shuffle(hist)
            if k == 0:
                hist = list(g) + list(g)[::-1] + hist
            for s in hist[:60]:
                h = outcome(s)
                rec.ev("text", s=key[s], h=h, kind="text-history", what=s)
                if r.random() < .1:
                    rec.ev("text", s=key[s], h=outcome(s), kind="text-history", what=s)
                if h == "hang":
                    break


# ---------------------------------------------------------------- C12: layout, comments, files
def listing(d):
    return [{"f": f, "h": digest(open(os.path.join(d, f), newline="").read()) if os.path.isfile(os.path.join(d, f)) else "dir"} for f in sorted(os.listdir(d))]


MODULE_NAMES = ["My-Module", "M", "Module-1-x", "SimpleProtocol", "NONE", "ENDmodule", "Import"]


@scenario("C12")
def c12(ctx):
    rec, r = ctx.rec, ctx.rnd
    sch = list(ctx.mine([t for t, d in systematic_schemas()]))
    r.shuffle(sch)
    sch = sch[:ctx.n(25, 1000)]
    for i in range(ctx.n(15, 120)):
        g = G_(r, r.choice((1, 2, 4, 6)), r.choice((0, 2, 4)), 2)
        toks = module([d[2] for d in g.defs], tags=r.random() < .7, name=r.choice(MODULE_NAMES))
        if len(toks) < 600:
            sch.append(toks)
    scratch = os.path.join(ctx.work, "out%d" % ctx.shard)
    for n, toks in enumerate(sch):
        s0 = canonical(toks)
        key = digest(s0)
        rec.case([t["s"] for t in toks])
        rec.ev("text", s=key, h=outcome(s0), kind="text-layout", what=s0)
        kinds = LAYOUTS + ["comments", "wild"]
        for k in kinds:
            s = layout(r, toks, k)
            rec.ev("text", s=key, h=outcome(s), kind="text-layout", what=s)
        if n % 3 == 0:
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
            name = toks[0]["s"] + ".py"
            others = [("other.py", "x = 1\n"), ("My.py", "y = 2\n"), (toks[0]["s"], "z"), (toks[0]["s"] + ".pyc", "q"), ("notes.txt", "hello")]
            for f, c in r.sample(others, r.randint(0, 3)):
                open(os.path.join(scratch, f), "w").write(c)
            if r.random() < .6:
                open(os.path.join(scratch, name), "w").write("# old\n" * r.choice((1, 3000)))
            folder = r.choice([scratch, scratch + "/"])
            cwd = os.getcwd()
            if r.random() < .3:
                os.chdir(os.path.dirname(scratch))
                folder = os.path.basename(scratch)
            try:
                for s in (s0, layout(r, toks, "comments"), s0):
                    before = listing(scratch)
                    x, why = guarded(parse, s, output_folder=folder)
                    rec.ev("file", s=key, r=x, name=name, before=before, after=listing(scratch), note="" if x == "ok" else str(why), what=s)
                    rec.ev("text", s=key, h=outcome(s), kind="text-layout", what=s)
            finally:
                os.chdir(cwd)
    shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------- C16: from schema to octets
def meanings(ctx, schemas):
    """for each token list, what its definitions denote according to the specification: [{n, d, t, v}]"""
    out = []
    for k in range(0, len(schemas), 200):
        base = os.path.join(ctx.work, "m%d_%d" % (ctx.shard, k))
        json.dump(schemas[k:k + 200], open(base + ".in", "w"))
        rc, txt = tlc.run("SchemaTypes", {"TYPES": base + ".in", "OUT": base + ".out"})
        if not os.path.exists(base + ".out"):
            raise RuntimeError("SchemaTypes failed: " + txt[-3000:])
        out += json.load(open(base + ".out"))
    return out


@scenario("C16")
def c16(ctx):
    rec, r = ctx.rec, ctx.rnd
    sch = [t for t, d in systematic_schemas()]
    random.Random(7).shuffle(sch)
    sch = list(ctx.mine(sch))
    if ctx.shard == 0:
        sch.append(mod(MIXED)[0])
    for i in range(ctx.n(100, 500)):
        g = G_(r, r.choice((1, 2, 4, 6)), r.choice((0, 2, 4)), r.choice((1, 2, 3)))
        defs = [d[2] for d in g.defs]
        r.shuffle(defs)
        toks = module(defs, tags=r.random() < .7)
        if len(toks) < 700:
            sch.append(toks)
    for toks, defs in zip(sch, meanings(ctx, sch)):
        s = layout(r, toks, "oneline")
        x, code = guarded(parse, s, seconds=60)
        ns = {}
        if x == "ok":
            x, res = guarded(run_module, code)
            ns = res[0] if x == "ok" else {}
        for d in defs:
            t = d["t"]
            obj = ns.get(py_name(d["n"]))
            if d["d"] == "val":
                rec.case([s, d["n"]])
                rec.ev("build", h=1, t=rec.t(t), v=d["v"], r="ok" if obj is not None else "err", what=s)
                if obj is not None:
                    rec.enc(1, obj)
                continue
            cls = obj if isinstance(obj, type) else broken(KeyError(d["n"]))
            rec.classes[rec.t(t)] = cls
            mixed = s.split("BEGIN")[1].split("END")[0].strip() == MIXED
            for j in range(1 if mixed else ctx.n(3, 6)):
                v = SQ(("a", B(False)), ("b", B(False)), ("d", B(True)), ("c", I(7))) if mixed else rand_value(r, t, cap=40)
                if big(v, 20000):
                    continue
                rec.case([s, d["n"], v])
                rec.ev("noise", what=s, r="ok")
                m = rec.build(1, t, v, r.randrange(4), cls=cls)
                if m is None:
                    continue
                o = rec.enc(1, m)
                if o is not None:
                    rec.back(2, 1, t, o)
            bad = rand_illegal(r, t)
            if bad is not None and not mixed and not big(bad, 20000):
                rec.case([s, d["n"], bad])
                rec.ev("noise", what=s, r="ok")
                m = rec.build(1, t, bad, r.randrange(4), cls=cls)
                if m is not None:
                    rec.enc(1, m)


# ---------------------------------------------------------------- C18: texts that are no schema
SPARE = ["INTEGER", "BOOLEAN", "SEQUENCE", "OF", "SIZE", "OPTIONAL", "DEFAULT", "{", "}", "(", ")", ",", "..", "...", "::=",
         "Undefined-Type", "undefined-value", "0", "7", "-3", "99", "MIN", "MAX", "TRUE", "END", "BEGIN", "[[", "]]", "CHOICE", "ENUMERATED"]


def edits(r, toks, n):
    """token lists that differ from toks by an edit or two; the first and last tokens are edited more often than others"""
    for _ in range(n):
        t = list(toks)
        for _ in range(1 if r.random() < .8 else 2):
            i = r.choice((r.randrange(len(t)), r.randrange(len(t)), r.randrange(len(t)), 0, len(t) - 1)) if r.random() < .2 else r.randrange(len(t))
            how = r.choice(("drop", "drop", "double", "swap", "put", "put", "copy", "cut", "tail", "def", "num"))
            if how == "drop":
                del t[i]
            elif how == "double":
                t.insert(i, t[i])
            elif how == "swap" and i + 1 < len(t):
                t[i], t[i + 1] = t[i + 1], t[i]
            elif how == "put":
                t[i] = w(r.choice(SPARE))[0]
            elif how == "copy":
                t[i] = r.choice(t)
            elif how == "cut":
                j = min(len(t), i + r.choice((2, 3, 4, 8)))
                del t[i:j]
            elif how == "tail":
                t += r.choice((w("x"), w("END"), w("Foo ::= INTEGER"), w("Foo ::= INTEGER END"), w("Other DEFINITIONS ::= BEGIN Foo ::= INTEGER END"), w("::="), w("}"), [t[i]]))
            elif how == "def":
                at = [k for k in range(1, len(t)) if t[k]["s"] == "::=" and t[k - 1]["k"] in "Ti" and t[k - 2]["s"] not in ("OF", "AUTOMATIC")]
                names = [t[k - 1]["s"] for k in at if t[k - 1]["k"] == "T"]
                if names and t[-1]["s"] == "END":
                    t[-1:] = w(r.choice(names), "::=", r.choice(("INTEGER", "BOOLEAN", "OCTET STRING", "INTEGER ( 0 .. 7 )", "SEQUENCE { a BOOLEAN }"))) + [t[-1]]
            elif how == "num":
                at = [k for k in range(len(t)) if t[k]["k"] == "n"]
                if at:
                    t[r.choice(at)] = num(r.choice((-1, 0, 1, 2, 3, 9, 300, 70000)))[0]
            if not t:
                break
        yield t


def wrong_modules():
    """a wrong construct of every kind in every kind of position"""
    types = ["Undefined", "SEQUENCE OF Undefined", "SEQUENCE { z Undefined }", "CHOICE { z Undefined }", "INTEGER ( 0 .. undefined )", "INTEGER ( undefined .. 5 )",
             "OCTET STRING ( SIZE ( undefined ) )", "BIT STRING ( SIZE ( 0 .. undefined ) )", "SEQUENCE ( SIZE ( 1 .. undefined ) ) OF BOOLEAN",
             "INTEGER ( 9 .. 3 )", "INTEGER ( 5 .. -5 )", "INTEGER ( -3 .. -4 , ... )", "OCTET STRING ( SIZE ( 9 .. 3 ) )", "BIT STRING ( SIZE ( 1 .. 0 ) )", "SEQUENCE ( SIZE ( 2 .. 1 ) ) OF BOOLEAN",
             "OCTET STRING ( SIZE ( -1 .. 3 ) )", "BIT STRING ( SIZE ( -1 ) )", "SEQUENCE ( SIZE ( -2 .. 2 ) ) OF BOOLEAN", "INTEGER ( nine .. three )", "OCTET STRING ( SIZE ( nine .. three ) )", "INTEGER ( nine .. 3 )",
             "INTEGER ( truth .. 5 )",
             "SEQUENCE { z BOOLEAN , z INTEGER }", "SEQUENCE { z BOOLEAN , y INTEGER , z BOOLEAN OPTIONAL }", "SEQUENCE { z BOOLEAN , ... , z INTEGER }", "SEQUENCE { z BOOLEAN , ... , [[ z INTEGER ]] }",
             "SEQUENCE { ... , z BOOLEAN , [[ z INTEGER ]] }", "SEQUENCE { ... , [[ z BOOLEAN , z INTEGER ]] }", "SEQUENCE { z BOOLEAN , ... , ... , z INTEGER }",
             "CHOICE { z BOOLEAN , z INTEGER }", "CHOICE { z BOOLEAN , ... , z INTEGER }",
             "ENUMERATED { z , z }", "ENUMERATED { z , ... , z }", "ENUMERATED { z ( 1 ) , y ( 1 ) }", "ENUMERATED { z ( 1 ) , ... , y ( 1 ) }",
             "SEQUENCE { z INTEGER DEFAULT undefined }", "SEQUENCE { z BOOLEAN DEFAULT undefined }", "SEQUENCE { z ENUMERATED { y , x } DEFAULT undefined }", "SEQUENCE { z OCTET STRING DEFAULT undefined }",
             "SEQUENCE { z INTEGER DEFAULT TRUE }", "SEQUENCE { z BOOLEAN DEFAULT 5 }", "SEQUENCE { z INTEGER ( 0 .. 3 ) DEFAULT 4 }", "SEQUENCE { z INTEGER ( 0 .. 3 ) DEFAULT nine }", "SEQUENCE { z INTEGER ( 0 .. 3 ) DEFAULT -1 }",
             "SEQUENCE { z BIT STRING ( SIZE ( 2 ) ) DEFAULT '101'B }", "SEQUENCE { z OCTET STRING ( SIZE ( 2 ) ) DEFAULT 'AA'H }", "SEQUENCE { z BIT STRING DEFAULT 5 }", "SEQUENCE { z OCTET STRING DEFAULT TRUE }", "SEQUENCE { z INTEGER DEFAULT 'AA'H }",
             "SEQUENCE ( SIZE ( 3 .. nine , ... ) ) OF BOOLEAN", "SEQUENCE ( SIZE ( nine .. three , ... ) ) OF BOOLEAN", "BIT STRING ( SIZE ( MIN .. -1 ) )", "SEQUENCE ( SIZE ( -1 .. MAX ) ) OF BOOLEAN", "SEQUENCE ( SIZE ( -1 ) ) OF BOOLEAN",
             "SEQUENCE { ... , z INTEGER ( 0 .. 3 ) DEFAULT 4 }", "SEQUENCE { ... , [[ z INTEGER ( 0 .. 3 ) DEFAULT 4 ]] }", "SEQUENCE { z Small DEFAULT 4 }", "SEQUENCE { z Small DEFAULT truth }",
             "SEQUENCE { z BOOLEAN y INTEGER }", "SEQUENCE { z BOOLEAN , }", "SEQUENCE { , z BOOLEAN }", "SEQUENCE { z BOOLEAN , , y INTEGER }", "SEQUENCE { z BOOLEAN OPTIONAL DEFAULT TRUE }", "SEQUENCE { z BOOLEAN OPTIONAL OPTIONAL }",
             "SEQUENCE { Z BOOLEAN }", "SEQUENCE { z }", "SEQUENCE { BOOLEAN }", "SEQUENCE { z BOOLEAN , ... , ... , ... }", "SEQUENCE { [[ z BOOLEAN ]] }", "SEQUENCE { ... , [[ z BOOLEAN }", "SEQUENCE { ... , z BOOLEAN ]] }", "SEQUENCE { ... , [[ ]] }",
             "SEQUENCE z BOOLEAN", "SEQUENCE ( z BOOLEAN )", "SEQUENCE OF", "SEQUENCE BOOLEAN", "SEQUENCE ( 1 .. 3 ) OF BOOLEAN", "SEQUENCE { z BOOLEAN ... }", "SEQUENCE { z BOOLEAN , ... , [[ y BOOLEAN ]] [[ x BOOLEAN ]] }",
             "CHOICE { }", "CHOICE { z BOOLEAN OPTIONAL }", "CHOICE { z BOOLEAN DEFAULT TRUE }", "CHOICE { z BOOLEAN y INTEGER }", "CHOICE { z BOOLEAN , }", "CHOICE { ... , z BOOLEAN }",
             "ENUMERATED { }", "ENUMERATED { Z }", "ENUMERATED { z y }", "ENUMERATED { z , }", "ENUMERATED { ... , z }", "ENUMERATED { z ( ) }", "ENUMERATED { z ( y ) , y }", "ENUMERATED z",
             "INTEGER ( )", "INTEGER ( 0 .. )", "INTEGER ( .. 5 )", "INTEGER ( 0 5 )", "INTEGER ( 0 , 5 )", "INTEGER 0 .. 5", "INTEGER ( 0 .. 5", "INTEGER 0 .. 5 )", "INTEGER ( 0 .. 5 ) )", "INTEGER ( SIZE ( 0 .. 5 ) )", "INTEGER ( 0 .. 5 , ... , )", "INTEGER ( 0 .. 5 ... )",
             "INTEGER ( 0 .. TRUE )", "INTEGER ( 0 .. Small )", "INTEGER ( 0 ... 5 )", "OCTET STRING ( 0 .. 5 )", "BIT STRING ( 1 )", "OCTET STRING ( SIZE 5 )", "OCTET STRING ( SIZE ( ) )", "OCTET ( SIZE ( 5 ) )", "BIT", "STRING", "OCTET STRING STRING", "BOOLEAN ( 0 .. 1 )", "BOOLEAN BOOLEAN", "small", "5", "TRUE"]
    ctxs = ["Main ::= %s", "Main ::= SEQUENCE { a BOOLEAN , b %s , c INTEGER }", "Main ::= SEQUENCE OF %s", "Main ::= CHOICE { a BOOLEAN , b %s }", "Main ::= SEQUENCE { a BOOLEAN , ... , b %s OPTIONAL }",
            "Main ::= SEQUENCE { ... , [[ a BOOLEAN , b %s ]] }", "Main ::= CHOICE { a BOOLEAN , ... , b %s }", "Main ::= SEQUENCE { a SEQUENCE OF CHOICE { b %s } }"]
    extra = ["Small ::= INTEGER ( 0 .. 3 )", "nine INTEGER ::= 9", "three INTEGER ::= 3", "truth BOOLEAN ::= TRUE"]
    for t in types:
        for c in ctxs:
            yield mod(c % t, *extra)[0]
    for d in ["v INTEGER ::= TRUE", "v BOOLEAN ::= 5", "v INTEGER ( 0 .. 3 ) ::= 4", "v Small ::= 4", "v Small ::= nine", "v Small ::= truth", "v OCTET STRING ::= 5", "v BIT STRING ( SIZE ( 2 ) ) ::= '101'B", "v INTEGER ::= undefined", "v Undefined ::= 5",
              "v INTEGER", "v INTEGER ::=", "v ::= 5", "INTEGER ::= 5", "V INTEGER ::= 5", "v INTEGER 5", "v INTEGER = 5", "v INTEGER ::= 5 6", "v INTEGER ::= INTEGER", "Main", "Main ::=", "Main ::= ::= INTEGER", "Main INTEGER", "main ::= INTEGER", "::= INTEGER", "Main ::= INTEGER ,", "Main ::= { INTEGER }",
              "Small ::= INTEGER ( 0 .. 3 )", "Small ::= BOOLEAN", "Small ::= SEQUENCE { a BOOLEAN }", "nine INTEGER ::= 9", "nine INTEGER ::= 8", "nine BOOLEAN ::= TRUE", "v ENUMERATED { a , b } ::= c"]:
        yield mod(d, *extra)[0]
        yield mod(*(extra + [d]))[0]
    kinds = {"INTEGER": "5", "BOOLEAN": "TRUE", "BIT STRING": "'101'B", "OCTET STRING": "'0F'H", "ENUMERATED { e , f }": "e", "INTEGER ( 0 .. 3 )": "2", "OCTET STRING ( SIZE ( 2 ) )": "'0F00'H", "BIT STRING ( SIZE ( 1 .. 3 ) )": "'1'B"}
    for t in kinds:                          # a value of every kind for every type, in every place a value can stand
        for v in list(kinds.values()) + ["-5", "0", "1", "FALSE", "''H", "''B", "g", "'0102030405'H"]:
            yield mod("v %s ::= %s" % (t, v))[0]
            yield mod("v Ty ::= %s" % v, "Ty ::= " + t)[0]
            yield mod("Main ::= SEQUENCE { a %s DEFAULT %s }" % (t, v))[0]
            yield mod("Main ::= SEQUENCE { a BOOLEAN , ... , b Ty DEFAULT %s }" % v, "Ty ::= " + t)[0]
            yield mod("Main ::= SEQUENCE { ... , [[ a BOOLEAN , b Ty DEFAULT %s ]] }" % v, "Ty ::= Tz", "Tz ::= " + t)[0]
    for s in ["", "My-Module", "DEFINITIONS ::= BEGIN END", "My-Module DEFINITIONS BEGIN END", "My-Module DEFINITIONS ::= END", "My-Module DEFINITIONS ::= BEGIN", "My-Module ::= BEGIN END", "my-module DEFINITIONS ::= BEGIN END", "My-Module DEFINITIONS AUTOMATIC ::= BEGIN END", "My-Module DEFINITIONS TAGS ::= BEGIN END",
              "My-Module DEFINITIONS ::= BEGIN END END", "My-Module DEFINITIONS ::= BEGIN END A ::= INTEGER", "My-Module DEFINITIONS ::= BEGIN A ::= INTEGER END B ::= INTEGER END", "My-Module DEFINITIONS ::= BEGIN A ::= INTEGER END Other DEFINITIONS ::= BEGIN B ::= INTEGER END", "My-Module DEFINITIONS ::= BEGIN BEGIN A ::= INTEGER END END"]:
        yield text(s)


def check_malformed(ctx, toks, look=False):
    """a text which may or may not be a module; look: also observe what its generated module defines"""
    rec = ctx.rec
    s = " ".join(t["s"] for t in toks)
    rec.case(s)
    r, code = guarded(parse, s, seconds=60)
    x, order, obs, why = "", [], [], "" if r == "ok" else code
    if r == "ok":
        x, res = guarded(run_module, code)
        if x == "ok" and look:
            bound = set(res[1])
            defs, seen = [], set()
            for t in toks:
                if t["k"] in "Ti" and t["s"] not in seen and py_name(t["s"]) in bound:
                    seen.add(t["s"])
                    defs.append((t["s"], "type" if t["k"] == "T" else "val"))
            x, res = guarded(observe_module, defs, *res)
            if x == "ok":
                order, obs = res
        if x != "ok":
            why = res
    rec.ev("malformed", t=rec.t(toks), r=r, x=x, order=order, defs=obs, look=look, note=why, what=s)


TYPES_ = ["INTEGER", "BOOLEAN", "OCTET STRING", "BIT STRING", "INTEGER ( 0 .. 3 )", "INTEGER ( MIN .. 5 , ... )", "OCTET STRING ( SIZE ( 1 .. 2 ) )", "ENUMERATED { e1 , e2 , ... , e3 }", "SEQUENCE OF INTEGER", "SEQUENCE { q BOOLEAN OPTIONAL , ... }",
          "CHOICE { q BOOLEAN , p INTEGER }", "SEQUENCE ( SIZE ( 0 .. 4 ) ) OF SEQUENCE { }", "SEQUENCE { q INTEGER DEFAULT 5 }"]


def gentle(r, toks, n):
    """token lists near toks, most of them modules still: references, numbers, names, components, markers and definitions changed or moved"""
    for _ in range(n):
        t = list(toks)
        fresh_ = 0
        for _ in range(r.choice((1, 1, 2, 3))):
            S = [x["s"] for x in t]
            how = r.choice(("num", "ref", "type", "addcomp", "delcomp", "opt", "dots", "group", "name", "newdef", "movedef", "swapval"))
            fresh_ += 1
            if how == "num":
                at = [k for k in range(len(t)) if t[k]["k"] == "n"]
                if at:
                    t[r.choice(at)] = num(r.choice((0, 1, 2, 3, 5, 9, 255, 256, 65535, 65536, 70000, -1, -129)))[0]
            elif how == "ref":                       # another name of the same sort
                at = [k for k in range(5, len(t)) if t[k]["k"] in "Ti" and k + 1 < len(t) and S[k + 1] != "::="]
                if at:
                    k = r.choice(at)
                    t[k] = r.choice([x for x in t[1:] if x["k"] == t[k]["k"]])
            elif how == "type":                      # another type where a simple one stands
                at = [k for k in range(len(t)) if S[k] in ("INTEGER", "BOOLEAN") and (k + 1 == len(t) or S[k + 1] not in ("(", "::=", "DEFAULT")) or t[k]["k"] == "T" and k > 4 and S[k + 1] != "::="]
                if at:
                    k = r.choice(at)
                    t[k:k + 1] = w(*r.choice(TYPES_).split())
            elif how == "addcomp":
                at = [k for k in range(len(t)) if S[k] in (",", "{", "[[") and k + 1 < len(t) and t[k + 1]["k"] == "i" and k + 2 < len(t) and S[k + 2] not in (",", "}", "(")]
                if at:
                    k = r.choice(at)
                    t[k + 1:k + 1] = w("new%d" % fresh_, *r.choice(TYPES_).split()) + r.choice(([], [], w("OPTIONAL"))) + w(",")
            elif how == "delcomp":                   # everything from one comma to the next at the same depth
                at = [k for k in range(len(t)) if S[k] == ","]
                if at:
                    k = r.choice(at)
                    j, d = k + 1, 0
                    while j < len(t) and not (d == 0 and S[j] in (",", "}", "]]", ")")):
                        d += S[j] in ("{", "[[", "(")
                        d -= S[j] in ("}", "]]", ")")
                        j += 1
                    del t[k:j]
            elif how == "opt":
                at = [k for k in range(len(t)) if S[k] == "OPTIONAL"]
                if at and r.random() < .5:
                    del t[r.choice(at)]
                else:
                    at = [k for k in range(1, len(t)) if S[k] in (",", "}", "]]") and (S[k - 1] in ("INTEGER", "BOOLEAN", "STRING", "}", ")") or t[k - 1]["k"] == "T")]
                    if at:
                        k = r.choice(at)
                        t[k:k] = w("OPTIONAL")
            elif how == "dots":
                at = [k for k in range(len(t)) if S[k] == "}"]
                if at:
                    k = r.choice(at)
                    t[k:k] = w("...") if S[k - 1] == "{" else w(",", "...")
            elif how == "group":
                at = [k for k in range(len(t)) if S[k] == "}"]
                if at:
                    k = r.choice(at)
                    t[k:k] = w(",", "[[", "grp%d" % fresh_, *r.choice(TYPES_).split()) + w("]]")
            elif how == "name":                      # one name, changed everywhere
                at = [x["s"] for x in t[1:] if x["k"] in "Ti"]
                if at:
                    old = r.choice(at)
                    new = r.choice((old + "X", old + "-2", old[0] + "9", old * 2))
                    t = [w(new)[0] if x["s"] == old and x["k"] in "Ti" else x for x in t]
            elif how == "newdef" and S[-1] == "END":
                t[-1:] = w("Extra%d" % fresh_, "::=", *r.choice(TYPES_).split()) + [t[-1]]
            elif how == "movedef" and S[-1] == "END" and "BEGIN" in S:
                b = S.index("BEGIN") + 1             # rotate the definitions
                at = [k for k in range(b + 1, len(t) - 2) if t[k]["k"] == "T" and S[k + 1] == "::=" and t[k - 1]["k"] != "i"]
                if at:
                    k = r.choice(at)
                    t[b:-1] = t[k:-1] + t[b:k]
            elif how == "swapval":
                at = [k for k in range(len(t)) if S[k] in ("TRUE", "FALSE") or t[k]["k"] in "bh"]
                if at:
                    k = r.choice(at)
                    t[k] = w(r.choice(("TRUE", "FALSE")))[0] if t[k]["k"] not in "bh" else r.choice((bstr([1, 0, 1, 1]), bstr([0]), hstr([0, 15]), hstr([])))[0]
        yield t


@scenario("C18")
def c18(ctx):
    r = ctx.rnd
    for toks in ctx.mine(list(wrong_modules())):
        check_malformed(ctx, toks)
    base = [t for t, d in systematic_schemas()]
    for _ in range(ctx.n(60, 700)):
        if r.random() < .5:
            toks = r.choice(base)
        else:
            g = G_(r, r.choice((1, 2, 3)), r.choice((0, 1, 3)), r.choice((1, 2)))
            toks = module([d[2] for d in g.defs], tags=r.random() < .7)
        if len(toks) > 300:
            continue
        for t in edits(r, toks, 12):
            check_malformed(ctx, t)


MODULE["C18"] = "SchemaTrace"
