"""What each property's check does with the real code (the judging is the specification's)."""
import itertools
import json
import os

import tlc
from asn import *
from gen import *

SCENARIOS, MODULE = {}, {}


class Ctx:
    def __init__(self, rec, rnd, shard, nshards, tier, work):
        self.rec, self.rnd, self.shard, self.nshards, self.tier, self.work = rec, rnd, shard, nshards, tier, work
        self.full = tier == "thorough"

    def mine(self, seq):
        return [x for i, x in enumerate(seq) if i % self.nshards == self.shard]

    def n(self, quick, thorough):
        return thorough if self.full else quick


def scenario(*props):
    def deco(f):
        for p in props:
            SCENARIOS[p] = f
        return f
    return deco


def spec_octets(ctx, reqs, tag="g"):
    """octets the specification derives for (type, value, mode); None where the form is unsupported"""
    if not reqs:
        return []
    rec = ctx.rec
    out = []
    B_ = 3000
    for k in range(0, len(reqs), B_):
        part = reqs[k:k + B_]
        base = os.path.join(ctx.work, "%s%d_%d" % (tag, ctx.shard, k))
        idx = [rec.t(t) for t, v, m in part]
        used = sorted(set(idx))
        pos = {u: i + 1 for i, u in enumerate(used)}
        json.dump([rec.types[u - 1] for u in used], open(base + ".types", "w"))
        with open(base + ".req", "w") as f:
            for (t, v, m), i in zip(part, idx):
                f.write(json.dumps({"t": pos[i], "v": v, "mode": m}) + "\n")
        rc, text = tlc.run("GenOctets", {"TYPES": base + ".types", "TRACE": base + ".req", "OUT": base + ".out"})
        if not os.path.exists(base + ".out"):
            raise RuntimeError("GenOctets failed: " + text[-3000:])
        out += [bytes(a["x"]) if a["s"] == "ok" else None for a in json.load(open(base + ".out"))]
    return out


def legal_cases(ctx, n_random, per_leaf, depth=3, heavy_n=None, contexts=CONTEXTS, caps=None):
    """(type, value) pairs, all legal: systematic corpus, special structures, random nested types"""
    r = ctx.rnd
    yield from systematic(r, ctx.shard, ctx.nshards, per_leaf, contexts=contexts)
    yield from ctx.mine(special(r))
    hv = ctx.mine(heavy(r))
    yield from (hv if heavy_n is None else hv[:heavy_n])
    yield from world(ctx, caps)
    yield from many_random(ctx, n_random, depth)


def world(ctx, caps=None):
    """the universe of spec/Universe.tla, on which the specification itself is model checked, as (type, value) pairs"""
    caps = caps or ctx.n((19, 6, 12), (10 ** 6, 10 ** 6, 10 ** 6))
    out = os.path.join(ctx.work, "world%d.json" % ctx.shard)
    rc, text = tlc.run("GenWorld", {"SHARD": str(ctx.shard), "NSHARDS": str(ctx.nshards), "OFF": str(ctx.rnd.randrange(1000)), "OUT": out,
                                    "CAP1": str(caps[0]), "CAP2": str(caps[1]), "CAP3": str(caps[2])})
    if not os.path.exists(out):
        raise RuntimeError("GenWorld failed: " + text[-3000:])
    for w in json.load(open(out)):
        for v in w["vs"]:
            yield w["t"], v


def many_random(ctx, n, depth=3):
    r = ctx.rnd
    while n > 0:
        t = rand_type(r, r.choice((1, 2, 3, depth)))
        if big(t, 40000):
            continue
        n -= 1
        for _ in range(3):
            v = rand_value(r, t)
            if not big(v, 60000):
                yield t, v


def big(x, limit):
    return len(json.dumps(x)) > limit


# ---------------------------------------------------------------- C01
@scenario("C01")
def c01(ctx):
    rec = ctx.rec
    for i, (t, v) in enumerate(legal_cases(ctx, ctx.n(300, 2500), ctx.n(9, 60), depth=ctx.n(3, 4))):
        rec.case([t, v])
        m = rec.build(1, t, v, i % 4)
        if m is not None:
            rec.enc(1, m)


# ---------------------------------------------------------------- C02
@scenario("C02")
def c02(ctx):
    rec = ctx.rec
    for i, (t, v) in enumerate(legal_cases(ctx, ctx.n(250, 2000), ctx.n(7, 50), depth=ctx.n(3, 4))):
        rec.case([t, v])
        m = rec.build(1, t, v, i % 4)
        if m is None:
            continue
        r, x = guarded(encode, m)
        rec.ev("noise", r=r)
        if r != "ok":
            continue
        d = rec.back(2, 1, t, x)
        if d is not None:
            rec.same(d, x)


# ---------------------------------------------------------------- C03
def mutate(r, x):
    """octets near a valid encoding"""
    x = bytearray(x)
    k = r.randrange(4)
    if k == 0 and x:
        x[r.randrange(len(x))] ^= 1 << r.randrange(8)
    elif k == 1 and x:
        x[r.randrange(len(x))] = r.choice((0, 1, 127, 128, 255, r.randrange(256)))
    elif k == 2:
        x.insert(r.randint(0, len(x)), r.choice((0, 128, r.randrange(256))))
    elif x:
        del x[r.randrange(len(x))]
    return bytes(x)


def has_default(t):
    return '"d": {"k": "' in json.dumps(t) and '"p": "d"' in json.dumps(t)


@scenario("C03")
def c03(ctx):
    rec, r = ctx.rec, ctx.rnd
    cases = list(legal_cases(ctx, ctx.n(220, 1600), ctx.n(7, 45), heavy_n=ctx.n(3, 8)))
    reqs = []
    for t, v in cases:
        reqs.append((t, v, "plain"))
        if has_default(t):
            reqs.append((t, v, "explicit"))
    xs = spec_octets(ctx, reqs)
    specs = {}
    for i, ((t, v, mode), x) in enumerate(zip(reqs, xs)):
        if x is None:
            continue
        rec.case([t, v, mode])
        cls = rec.cls(t)
        tail = (b"", b"", bytes([r.randrange(256) for _ in range(r.choice((1, 2, 9)))]), b"\x00" * 3, b"\xff\xff")[i % 5]
        d = rec.dec(1, t, x + tail)
        if d is not None:
            rec.flag("dec-class", type(d) is not cls)
        if len(x) < 400 and i % 2 == 0:
            rec.dec(0, t, mutate(r, x))


# ---------------------------------------------------------------- C04
def older(r, t, p=.6):
    """an older version of t: some trailing additions not yet there"""
    k = t["k"]
    comp = lambda c: c if c["p"] == "d" else dict(c, t=older(r, c["t"], p))
    if k == "seqof":
        return dict(t, e=older(r, t["e"], p))
    if k == "enum":
        return dict(t, adds=t["adds"][:r.randint(0, len(t["adds"]))]) if t["ext"] and r.random() < p else t
    if k not in ("seq", "choice"):
        return t
    adds = t["adds"]
    if t["ext"] and r.random() < p:
        adds = adds[:r.choice((0, r.randint(0, len(adds))))]
    return dict(t, root=[comp(c) for c in t["root"]], adds=[{"g": a["g"], "c": [comp(c) for c in a["c"]]} for a in adds])


def ext_type(r, depth):
    """an extensible type, wrapped so that something follows it"""
    k = r.random()
    inner = rand_seq(r, depth, ext=True) if k < .65 else rand_choice(r, depth, ext=True) if k < .85 else rand_enum(r)
    w = r.randrange(5)
    if w == 0:
        return inner
    if w == 1:
        return TSeq([C("b", TBool), C("f", inner, r.choice("mo")), C("z", TInt(rng(0, 300))), TAIL])
    if w == 2:
        return TSeq([C("b", TBool), C("f", TSeqOf(inner, r.choice((NOZ, Z(1, 4)))))], [S(C("y", inner, "o")), S(C("w", TOcts(), "o"))])
    if w == 3:
        return TChoice([C("a", TBool), C("f", inner)], [S(C("y", inner)), S(C("w", TOcts()))])
    return TSeq([C("a", TBool)], [S(C("x", TBool, "o")), G(C("f", inner, "o"), C("q", TBool))])


def version_pairs(r):
    """growing numbers of additions x how many of them the reader knows"""
    for n in (1, 2, 3, 7, 8, 9, 16, 17, 62, 63, 64):
        for body in (TOcts(), TInt(rng(0, 15)), TSeq([C("p", TBool), C("q", TOcts(), "o")], ext=True)):
            def val(i):
                return (OS([i, 0] * (i % 3)) if body["k"] == "octs" else I(i % 16) if body["k"] == "int"
                        else SQ(("p", B(i % 2 == 0)), ("q", OS([7] * (i * 37 % 140)))))
            inner = TSeq([C("a", TBool), C("o", TInt(rng(0, 9)), "o")], [S(C("x%d" % i, body, "o")) for i in range(n)])
            for known in sorted({0, 1, n // 2, n - 1, n}):
                for which in (list(range(n)), [n - 1], [known] if known < n else [0], list(range(0, n, 2))):
                    v = SQ(("a", B(True)), *[("x%d" % i, val(i)) for i in which])
                    wrap = lambda s: TSeq([C("b", TBool), C("f", s), C("z", TInt(rng(0, 300))), TAIL])
                    old = dict(inner, adds=inner["adds"][:known])
                    yield wrap(inner), wrap(old), SQ(("b", B(True)), ("f", v), ("z", I(299)), ("tail", TAILV))
    for n in (1, 3, 63, 64, 65, 130):
        ch = TChoice([C("r", TBool), C("s", TInt())], [S(C("x%d" % i, TOcts())) for i in range(n)])
        en = TEnum(["r", "s"], ["x%d" % i for i in range(n)], True)
        for known in sorted({0, 1, n // 2, n - 1, n}):
            for i in sorted({0, known - 1, known, known + 1, n - 1}):
                if 0 <= i < n:
                    w = lambda s: TSeq([C("b", TBool), C("f", s), C("z", TBool)])
                    yield w(ch), w(dict(ch, adds=ch["adds"][:known])), SQ(("b", B(True)), ("f", CH("x%d" % i, OS([1, 2]))), ("z", B(True)))
                    yield w(en), w(dict(en, adds=en["adds"][:known])), SQ(("b", B(True)), ("f", E("x%d" % i)), ("z", B(True)))


@scenario("C04")
def c04(ctx):
    rec, r = ctx.rec, ctx.rnd
    cases = ctx.mine(list(version_pairs(r)))
    if not ctx.full:
        cases = r.sample(cases, min(len(cases), 150))
    for i in range(ctx.n(260, 2500)):
        new = ext_type(r, r.choice((1, 2, 3)))
        if big(new, 30000):
            continue
        old = older(r, new)
        if old == new:
            continue
        for _ in range(2):
            cases.append((new, old, rand_value(r, new, 60)))
        cases.append((old, new, rand_value(r, old, 60)))
    for t, v in world(ctx, ctx.n((19, 6, 15), (99, 10 ** 6, 10 ** 6))):
        if '"adds": [{' in json.dumps(t):
            cases.append((t, older(r, t, .8), v))
    xs = spec_octets(ctx, [(n, v, "plain") for n, o, v in cases])
    for i, ((new, old, v), x) in enumerate(zip(cases, xs)):
        rec.case([new, old, v])
        m = rec.build(1, new, v, i % 4)
        if m is not None:
            rc, y = guarded(encode, m)
            rec.ev("noise", r=rc)
            if rc == "ok":
                rec.ver(2, 1, old, y)
        if x is not None:
            rec.dec(3, old, x)


# ---------------------------------------------------------------- C05
def raw_leaf(t, v):
    """an object of the unconstrained builtin class, as a user might assign"""
    base = {"bool": BooleanType, "int": IntegerType, "bits": BitStringType, "octs": OctetStringType}[t["k"]]
    return simple(base, t, v)


@scenario("C05")
def c05(ctx):
    rec, r = ctx.rec, ctx.rnd
    cases = list(systematic(r, ctx.shard, ctx.nshards, ctx.n(6, 40), want="illegal"))
    cases += list(systematic(r, ctx.shard, ctx.nshards, ctx.n(4, 12)))
    for z in ctx.mine([Z(0, 0), Z(1, 1), Z(2, 2), Z(0, 1), Z(1, 4), Z(3, 5), Z(0, 16), Z(2, None), Z(64, 64), Z(1, 255), Z(0, 256), Z(130, None)]):
        for e, v in ((TBool, B(True)), (TInt(rng(0, 7)), I(5)), (TSeq([C("q", TBool)]), SQ(("q", B(False))))):
            for n in sorted({0, z["lo"] - 1, z["lo"], z["hi"], z["hi"] + 1, z["hi"] + 7} - {-1}):
                if n < 0:
                    continue
                for ctxf in CONTEXTS[:-1]:
                    cases.append(ctxf(TSeqOf(e, z), SO(*[v] * n), SO(*[v] * max(z["lo"], 0)), r.randrange(999)))
    for i in range(ctx.n(500, 5000)):
        t = rand_type(r, r.choice((1, 2, 3)))
        for _ in range(3):
            bad = rand_illegal(r, t)
            if bad is not None:
                cases.append((t, bad))
    for i in range(ctx.n(120, 1500)):                       # missing mandatory additions and group members
        t = rand_seq(r, r.choice((1, 2)), ext=True)
        full = rand_value(r, t, 20)
        have = [e["n"] for e in full["c"]]
        for gone in have:
            cases.append((t, {"k": "seq", "c": [e for e in full["c"] if e["n"] != gone]}))
        cases.append((t, full))
    for i, (t, v) in enumerate(cases):
        rec.case([t, v])
        m = rec.build(1, t, v, i % 4)
        if m is not None:
            rec.enc(1, m)
    # values handed over as objects of the unconstrained builtin classes, and changes to an already legal message
    for i in range(ctx.n(250, 2500)):
        leaf = rand_leaf(r)
        lg, il = leaf_values(leaf, r, 40)
        if leaf["k"] == "enum" or not il or not lg:
            continue
        ty = r.choice((TSeq([C("a", TBool), C("f", leaf), C("z", TBool)]), TSeq([C("a", TBool), C("z", TBool)], [S(C("f", leaf))]),
                       TSeq([C("a", TBool), C("z", TBool)], [G(C("f", leaf), C("h", TBool))])))
        good = r.choice(lg)
        v = SQ(("a", B(True)), ("f", good), ("z", B(False)))
        if ty["adds"] and ty["adds"][0]["g"]:
            v["c"].append({"n": "h", "v": B(True)})
        rec.case([ty, v])
        m = rec.build(1, ty, v)
        if m is None:
            continue
        for x in r.sample(il, min(3, len(il))) + [r.choice(lg)]:
            how = r.randrange(3)
            rc, e = guarded(assign, m, "f", leaf, x, how)
            rec.ev("set", h=1, p=["f"], v=x, r=rc, legal=how == 0 and x not in il, note=str(e) if rc != "ok" else "")
            rec.enc(1, m)


def assign(m, name, t, v, how):
    if how == 0 or t["k"] == "enum":
        m[name] = simple(m.componentType.getTypeByPosition(m.componentType.getPositionByName(name)).__class__, t, v)
    elif how == 1:
        m[name] = raw_leaf(t, v)
    else:
        m.setComponentByName(name, raw_leaf(t, v) if t["k"] == "bits" else native(t, v))


# ---------------------------------------------------------------- C06
def shorter_fields(r, x, n):
    """x with the content of a length-prefixed region cut short (and its length octet adjusted), the rest moved up"""
    at = [p for p in range(len(x)) if 1 <= x[p] <= 127 and p + x[p] < len(x)]
    r.shuffle(at)
    for p in at[:n]:
        k = x[p]
        drop = r.choice((1, 1, 2, k))
        if drop <= k:
            yield x[:p] + bytes([k - drop]) + x[p + 1:p + 1 + k - drop] + x[p + 1 + k:]


@scenario("C06")
def c06(ctx):
    rec, r = ctx.rec, ctx.rnd
    cases = list(systematic(r, ctx.shard, ctx.nshards, ctx.n(3, 14))) + ctx.mine(special(r)) + list(many_random(ctx, ctx.n(120, 1200)))
    cases += list(world(ctx, ctx.n((19, 2, 6), (99, 60, 300))))
    xs = spec_octets(ctx, [(t, v, "plain") for t, v in cases])
    n = 0
    for i, ((t, v), x) in enumerate(zip(cases, xs)):
        rec.case([t, v])
        if x is None:
            continue
        pts = None
        if len(x) > 40:
            pts = sorted(set(range(8)) | set(range(len(x) - 6, len(x))) | {r.randrange(len(x)) for _ in range(12)})
        n += rec.cuts(t, x, pts)
        if i % 2 == 0:
            rec.dec(0, t, bytes(r.randrange(256) for _ in range(r.choice((0, 1, 1, 2, 3, 5, 9)))))
            y = mutate(r, x)
            rec.dec(0, t, y[:r.randint(0, len(y))])
        if '"adds": [{' in json.dumps(t):
            for y in shorter_fields(r, x, ctx.n(5, 30)):
                rec.dec(0, t, y)
    rec.info["cut_points_decoded"] = n


# ---------------------------------------------------------------- C19
@scenario("C19")
def c19(ctx):
    """octets nobody should have sent: what decode() makes of them is a value of the type, or nothing"""
    rec, r = ctx.rec, ctx.rnd
    cases = list(systematic(r, ctx.shard, ctx.nshards, ctx.n(2, 8))) + ctx.mine(special(r)) + list(many_random(ctx, ctx.n(150, 1500)))
    cases += list(world(ctx, ctx.n((9, 1, 2), (60, 20, 60))))
    xs = spec_octets(ctx, [(t, v, "plain") for t, v in cases])
    nbits = ctx.n(12, 80)
    for (t, v), x in zip(cases, xs):
        if x is None or len(x) > 200:
            continue
        rec.case([t, v])
        tail = bytes(r.choice((0, 0, 255, r.randrange(256))) for _ in range(9))
        bits = list(range(8 * len(x)))
        if len(bits) > nbits:
            bits = bits[:nbits * 2 // 3] + r.sample(bits[nbits * 2 // 3:], nbits // 3)
        for i in bits:
            y = bytearray(x)
            y[i // 8] ^= 128 >> i % 8
            rec.dec(0, t, bytes(y) + tail)
        for j in range(3):
            y = bytearray(x)
            for i in r.sample(range(8 * len(x)), min(len(x) * 8, r.randint(2, 5))):
                y[i // 8] ^= 128 >> i % 8
            rec.dec(0, t, bytes(y) + tail)
        rec.dec(0, t, mutate(r, mutate(r, x)) + tail)
        rec.dec(0, t, b"\xff" * 9 + tail)
        rec.dec(0, t, bytes(r.randrange(256) for _ in range(12)))
    # the behaviours of spec/Garble.tla: everything a line can carry in a few octets, to every type of the universe
    types = []
    for t, v in world(ctx, ctx.n((1, 1, 0), (1, 1, 1))):
        if t not in types:
            types.append(t)
    n = 0
    for t in types:
        rec.case([t])
        for k in range(1, ctx.n(2, 3) + 1):
            for y in itertools.product((0, 1, 2, 64, 128, 129, 192, 255), repeat=k):
                rec.dec(0, t, bytes(y))
                n += 1
    rec.info["octet_strings_of_Garble_replayed"] = n


# ---------------------------------------------------------------- C08
@scenario("C08")
def c08(ctx):
    rec, r = ctx.rec, ctx.rnd
    cases = list(systematic(r, ctx.shard, ctx.nshards, ctx.n(4, 30))) + ctx.mine(special(r)) + list(many_random(ctx, ctx.n(300, 2500), 4))
    cases += list(world(ctx, ctx.n((19, 4, 10), (99, 10 ** 6, 10 ** 6))))
    xs = spec_octets(ctx, [(t, v, "plain") for t, v in cases])
    for i, ((t, v), x) in enumerate(zip(cases, xs)):
        rec.case([t, v])
        if x is not None:
            d = rec.dec(1, t, x)
            if d is not None:
                rec.dict(1, d)
        m = rec.build(2, t, v, i % 4)
        if m is not None:
            rec.dict(2, m)


# ---------------------------------------------------------------- C15
def default_type(r):
    """a SEQUENCE rich in DEFAULT components in root, additions and groups"""
    def dc(n):
        t = rand_leaf(r)
        lg, _ = leaf_values(t, r, 20)
        falsy = [x for x in lg if not native(t, x)] if t["k"] != "enum" else lg[:1]
        d = r.choice(falsy) if falsy and r.random() < .4 else r.choice(lg) if lg else rand_value(r, t, 20)
        return C(n, t, "d", d)
    def oc(n):
        return C(n, rand_leaf(r), r.choice("mo"))
    root = [dc("d%d" % i) if r.random() < .7 else oc("m%d" % i) for i in range(r.choice((1, 2, 3, 4)))]
    adds = []
    if r.random() < .7:
        adds = [S(dc("x%d" % i) if r.random() < .7 else C("x%d" % i, rand_leaf(r), "o")) for i in range(r.choice((0, 1, 2, 3)))]
        adds += [G(*[dc("g%d%s" % (i, "abc"[j])) if r.random() < .7 else oc("g%d%s" % (i, "abc"[j])) for j in range(r.choice((1, 2, 3)))])
                 for i in range(r.choice((0, 1, 2)))]
    t = TSeq(root, adds, ext=bool(adds) or r.random() < .2)
    w = r.random()
    if w < .2:
        return TSeq([C("b", TBool), C("f", t), TAIL]), lambda v: SQ(("b", B(True)), ("f", v), ("tail", TAILV)), t
    if w < .3:
        return TSeqOf(t), lambda v: SO(v, v), t
    return t, lambda v: v, t


def near(r, t, d):
    """values of leaf type t close to d: differing in leading zeros, length, sign, emptiness"""
    lg, _ = leaf_values(t, r, 40)
    k = t["k"]
    out = []
    if k in ("bits", "octs"):
        x = d["x"]
        for y in ([0] + x, x + [0], x[:-1], x[1:], [], [0] * len(x), [1 - b if k == "bits" else b ^ 128 for b in x[:1]] + x[1:], [0]):
            out.append({"k": k, "x": y})
        out = [v for v in out if (t["z"]["has"] and t["z"]["ext"]) or in_z(t["z"], len(v["x"]))]
    if k == "int":
        n = pi(d["n"])
        out = [I(q) for q in (n + 1, n - 1, -n, 0, n + 256) if cmember(t["c"], q)]
    return out + r.sample(lg, min(3, len(lg)))


def in_z(z, n):
    return not z["has"] or (z["lo"] <= n and (z["hi"] == -1 or n <= z["hi"]))


@scenario("C15")
def c15(ctx):
    rec, r = ctx.rec, ctx.rnd
    plan = []
    # every leaf type as DEFAULT component in turn, at each position
    for li, t in enumerate(ctx.mine(leaf_types())):
        lg, _ = leaf_values(t, r, 20)
        if not lg:
            continue
        for d in ([lg[0], lg[-1]] if not ctx.full else lg[:2] + r.sample(lg, min(4, len(lg))) + lg[-2:]):
            c = C("f", t, "d", d)
            ty = (TSeq([C("a", TBool), c, C("z", TBool)]), TSeq([C("a", TBool), C("z", TBool)], [S(C("x", TBool, "o")), S(c)]),
                  TSeq([C("a", TBool), C("z", TBool)], [G(c, C("y", TBool, "o"))]))[li % 3]
            for v in [None, d] + r.sample(near(r, t, d), min(ctx.n(2, 6), len(near(r, t, d)))):
                plan.append((ty, SQ(("a", B(True)), ("z", B(True)), *([] if v is None else [("f", v)])), ty))
    for i in range(ctx.n(300, 3000)):
        t, wrap, inner = default_type(r)
        for _ in range(3):
            v = rand_value(r, inner, 20)
            for e in v["c"]:
                c = [c for c in all_comps(inner) if c["n"] == e["n"]][0]
                if c["p"] == "d" and r.random() < .5:
                    nr = near(r, c["t"], c["d"])
                    e["v"] = r.choice(nr) if nr else c["d"]
            plan.append((t, wrap(v), inner))
    plan += [(t, v, t) for t, v in world(ctx, ctx.n((0, 8, 15), (0, 10 ** 6, 10 ** 6))) if '"p": "d"' in json.dumps(t)]
    reqs = [(t, v, m) for t, v, _ in plan for m in ("plain", "explicit")]
    xs = spec_octets(ctx, reqs)
    for i, (t, v, inner) in enumerate(plan):
        rec.case([t, v])
        m = rec.build(1, t, v, i % 4)
        if m is not None:
            if i % 3 == 1:
                rec.dict(1, m)
                rec.noise("str", str, m)
            if i % 3 == 2:
                rec.view(1, m, t)
            rec.enc(1, m)
            rc, y = guarded(encode, m)
            if rc == "ok":
                rec.back(2, 1, t, y)
        for x in xs[2 * i:2 * i + 2]:
            if x is not None:
                d = rec.dec(3, t, x)
                if d is not None and i % 2:
                    rec.dict(3, d)
                    rec.enc(3, d)
        # set, read, unset on a live message
        if m is not None and t["k"] == "seq" and t is inner:
            ds = [c for c in all_comps(t) if c["p"] == "d"]
            for c in r.sample(ds, min(2, len(ds))):
                rec.noise("read", lambda: m[c["n"]])
                x = c["d"] if r.random() < .5 else r.choice(near(r, c["t"], c["d"]) or [c["d"]])
                rc, e = guarded(assign, m, c["n"], c["t"], x, 0)
                rec.ev("set", h=1, p=[c["n"]], v=x, r=rc, legal=True, note="" if rc == "ok" else str(e))
                rec.enc(1, m)
                if r.random() < .5:
                    rc, e = guarded(m.setComponentByName, c["n"])
                    rec.ev("unset", h=1, p=[c["n"]], r=rc, note="" if rc == "ok" else str(e))
                    rec.enc(1, m)
                    rec.view(1, m, t)
