"""Types and values: systematic boundary corpus and seeded random generation (JSON form of spec/Per.tla)."""
from asn import *

P = [2 ** k for k in range(0, 130)]
RANGES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 1000,
          32768, 65535, 65536, 65537, 65538, 100000, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
          2 ** 32 + 1, 2 ** 40, 2 ** 56, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 128 + 7]
LOWS = [0, 1, -1, 5, -128, -129, 255, -65536, 10000, -2 ** 31, 2 ** 33, -10 ** 20]
UNC = sorted({s * (2 ** (8 * k - 1)) + d for k in (1, 2, 3, 4, 5, 8, 9, 16) for s in (1, -1) for d in (-1, 0, 1)}
             | {s * 2 ** (8 * k) + d for k in (1, 2, 3, 4, 8) for s in (1, -1) for d in (-1, 0, 1)} | {0, 1, -1, 2, -2, 100, -100})
BIGK = (126, 127, 128, 129, 200, 300)
SIZES = [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (8, 8), (15, 15), (16, 16), (17, 17), (20, 20), (24, 24), (32, 32), (64, 64),
         (128, 128), (200, 200), (0, 1), (0, 2), (1, 2), (0, 3), (1, 4), (2, 5), (0, 7), (0, 8), (1, 8), (0, 15), (1, 16),
         (0, 16), (0, 17), (15, 17), (1, 20), (1, 64), (0, 127), (1, 127), (0, 128), (0, 254), (1, 255), (0, 255), (1, 256),
         (1, 257), (0, 256), (0, 300), (5, 1000), (0, 65534), (0, 65535), (1, 65535), (0, 65536), (1, 65536), (3, 70000),
         (0, None), (1, None), (2, None), (5, None), (130, None)]


def I(n):
    return {"k": "int", "n": zi(n)}


def B(b):
    return {"k": "bool", "b": b}


def BS(s):
    return {"k": "bits", "x": [int(c) for c in s]}


def OS(b):
    return {"k": "octs", "x": list(b)}


def E(n):
    return {"k": "enum", "e": n}


def SQ(*kv):
    return {"k": "seq", "c": [{"n": n, "v": v} for n, v in kv]}


def SO(*l):
    return {"k": "seqof", "l": list(l)}


def CH(n, v):
    return {"k": "choice", "n": n, "v": v}


# ---------------------------------------------------------------- bounds helpers (mirror of CLo/CHi, for choosing values)
def cbounds(c):
    if c["op"] == "none":
        return None, None
    if c["op"] == "range":
        return (None if c["lo"]["inf"] else pi(c["lo"]["n"])), (None if c["hi"]["inf"] else pi(c["hi"]["n"]))
    if c["op"] == "single":
        v = [pi(x) for x in c["vs"]]
        return min(v), max(v)
    bs = [cbounds(a) for a in c["args"]]
    los, his = [b[0] for b in bs], [b[1] for b in bs]
    if c["op"] == "or":
        return (None if None in los else min(los)), (None if None in his else max(his))
    los, his = [x for x in los if x is not None], [x for x in his if x is not None]
    return (max(los) if los else None), (min(his) if his else None)


def cmember(c, n):
    if c["op"] == "none":
        return True
    if c["op"] == "range":
        lo, hi = cbounds(c)
        return (lo is None or lo <= n) and (hi is None or n <= hi)
    if c["op"] == "single":
        return n in [pi(x) for x in c["vs"]]
    f = any if c["op"] == "or" else all
    return f(cmember(a, n) for a in c["args"])


# ---------------------------------------------------------------- leaf values
def int_values(t, rnd=None, big=True):
    """(legal, illegal) lists of interesting integers for INTEGER type t"""
    lo, hi = cbounds(t["c"])
    cand = set()
    if lo is not None:
        cand |= {lo, lo + 1, lo + 2, lo - 1, lo - 2, lo + 127, lo + 128, lo + 255, lo + 256, lo + 65535, lo + 65536}
        for k in (1, 2, 3, 4, 8):
            cand |= {lo + 2 ** (8 * k) - 1, lo + 2 ** (8 * k)}
    if hi is not None:
        cand |= {hi, hi - 1, hi + 1, hi + 2}
    if lo is not None and hi is not None:
        cand |= {(lo + hi) // 2, lo + (hi - lo) // 3}
    for a in (t["c"].get("args") or []):
        for b in cbounds(a):
            if b is not None:
                cand |= {b - 1, b, b + 1}
    if t["c"]["op"] == "single":
        for x in t["c"]["vs"]:
            cand |= {pi(x) - 1, pi(x), pi(x) + 1}
    if lo is None or hi is None or t["ext"]:
        cand |= set(UNC)
        if lo is not None and hi is None:
            cand |= {lo + u for u in UNC if u >= 0}
        if big:
            for k in BIGK[:3] + (129,):
                for s in (1, -1):
                    cand |= {s * 2 ** (8 * k - 1), s * 2 ** (8 * k - 1) - 1, s * 2 ** (8 * k), s * 2 ** (8 * k) - 1}
                    if lo is not None:
                        cand |= {lo + 2 ** (8 * k) - 1, lo + 2 ** (8 * k)}
    if rnd:
        for _ in range(4):
            if lo is not None and hi is not None:
                cand.add(rnd.randint(lo, hi))
            else:
                cand.add((lo or 0) + rnd.choice([1, -1]) * rnd.getrandbits(rnd.choice([3, 8, 15, 16, 24, 31, 33, 64, 90])))
    legal, illegal = [], []
    for n in sorted(cand):
        if cmember(t["c"], n):
            legal.append(n)
        elif t["ext"]:
            # outside the root of an extensible constraint; a value in a hole of the root is left out (see DESIGN)
            if not ((lo is None or lo <= n) and (hi is None or n <= hi)):
                legal.append(n)
        else:
            illegal.append(n)
    return legal, illegal


def lens(z, cap, rnd=None):
    """interesting lengths for a size constraint: (legal, illegal), none above cap"""
    lo, hi = (z["lo"], z["hi"]) if z["has"] else (0, -1)
    cand = {0, 1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257,
            lo, lo + 1, lo - 1, lo + 2}
    if hi >= 0:
        cand |= {hi, hi - 1, hi + 1}
    if rnd:
        cand |= {rnd.randint(0, 40), rnd.randint(0, 300)}
    cand = {c for c in cand if 0 <= c <= cap}
    ok = lambda n: lo <= n and (hi == -1 or n <= hi)
    legal = sorted(n for n in cand if (z["has"] and z["ext"]) or ok(n))
    illegal = sorted(n for n in cand if not ((z["has"] and z["ext"]) or ok(n)))
    return legal, illegal


PATTERNS = ("zero", "ones", "lead", "trail", "rand")


def bits(n, pat, rnd):
    if pat == "zero":
        return [0] * n
    if pat == "ones":
        return [1] * n
    if pat == "lead":
        return ([0] * (n // 2 + 1) + [1] * n)[:n]
    if pat == "trail":
        return ([1] + [0] * n)[:n]
    return [rnd.getrandbits(1) for _ in range(n)]


def octs(n, pat, rnd):
    if pat == "zero":
        return [0] * n
    if pat == "ones":
        return [255] * n
    if pat == "lead":
        return ([0] * (n // 2 + 1) + [1] * n)[:n]
    if pat == "trail":
        return ([128] + [0] * n)[:n]
    return [rnd.getrandbits(8) for _ in range(n)]


# ---------------------------------------------------------------- leaf types
def int_types(rnd=None):
    out = [TInt()]
    for lo in LOWS:
        for r in RANGES:
            out.append(TInt(rng(lo, lo + r - 1)))
    for i, r in enumerate(RANGES):
        lo = LOWS[i % len(LOWS)]
        out.append(TInt(rng(lo, lo + r - 1), ext=True))
        out.append(TInt(rng(LOWS[(i + 5) % len(LOWS)], LOWS[(i + 5) % len(LOWS)] + r - 1), ext=True))
    for lo in LOWS:
        out += [TInt(rng(lo, None)), TInt(rng(None, lo)), TInt(rng(lo, None), ext=True), TInt(rng(None, lo), ext=True)]
    out += [TInt(rng(None, None)), TInt(rng(None, None), ext=True)]
    out += [TInt(single(7)), TInt(single(-3)), TInt(single(0)), TInt(single(1, 3, 9)), TInt(single(-5, 250)), TInt(single(0, 255)),
            TInt(single(0, 256)), TInt(single(9, 70000)), TInt(single(-2 ** 40, 0, 2 ** 40)), TInt(single(4), ext=True),
            TInt(single(2, 3), ext=True)]
    out += [TInt(union(rng(0, 5), rng(10, 20))), TInt(union(rng(10, 20), rng(0, 5))), TInt(union(single(1, 2), rng(100, 300))),
            TInt(union(rng(-10, -5), single(7), rng(1000, 70000))), TInt(union(rng(None, 3), rng(10, 20))),
            TInt(union(rng(0, 3), rng(10, None))), TInt(union(rng(None, 0), rng(10, None))),
            TInt(union(rng(0, 255), rng(256, 256))), TInt(union(rng(0, 5), rng(3, 9)), ext=True),
            TInt(union(rng(-1, 4), rng(5, None)), ext=True)]
    out += [TInt(inter(rng(0, 100), rng(50, 200))), TInt(inter(rng(None, 100), rng(0, None))), TInt(inter(rng(0, 300), rng(10, None))),
            TInt(inter(rng(0, 1000), rng(0, 255))), TInt(inter(rng(1, 70000), rng(-5, 65536))),
            TInt(inter(rng(0, None), rng(5, None))), TInt(inter(rng(0, 1000), rng(100, 500), rng(None, 355))),
            TInt(inter(rng(0, 50), rng(10, 90)), ext=True)]
    out += [TInt(inter(union(rng(0, 5), rng(10, 20)), rng(3, 15))), TInt(union(inter(rng(0, 50), rng(20, 90)), single(100, 120)))]
    return out


def enum_types():
    out = []
    nm = lambda p, n: ["%s%d" % (p, i) for i in range(n)]
    for n in (1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 128, 129, 255, 256, 257, 300):
        out.append(TEnum(nm("e", n)))
    for n, a in ((1, 0), (2, 0), (3, 1), (1, 1), (4, 2), (2, 63), (2, 64), (5, 65), (3, 66), (256, 3), (257, 130), (2, 257), (1, 300)):
        out.append(TEnum(nm("e", n), nm("x", a), ext=True))
    out += [TEnum([("a", 5), ("b", 1), ("c", 3)]), TEnum([("a", 0), ("b", 10), ("c", 200)]), TEnum([("z", 2), ("y", 1), ("x", 0)]),
            TEnum([("a", 7), ("b", 2)], [("c", 9), ("d", 12)], True), TEnum([("b", 4), ("a", 1), ("d", 3), ("c", 0)], [("x", 5)], True),
            TEnum([("m", -3), ("n", 0), ("o", -1)])]
    return out


def str_types(mk):
    out = [mk(None)]
    for i, (lo, hi) in enumerate(SIZES):
        out.append(mk(Z(lo, hi)))
        out.append(mk(Z(lo, hi, True)))
    return out


def leaf_types():
    return [TBool] + int_types() + enum_types() + str_types(TBits) + str_types(TOcts)


def leaf_values(t, rnd, cap=300):
    """(legal, illegal) values of a leaf type"""
    k = t["k"]
    if k == "bool":
        return [B(True), B(False)], []
    if k == "int":
        lg, il = int_values(t, rnd)
        return [I(n) for n in lg], [I(n) for n in il]
    if k == "enum":
        names = [e["n"] for e in t["root"]]
        add = [e["n"] for e in t["adds"]]
        pick = lambda l: sorted({i for i in (0, 1, 2, len(l) // 2, 62, 63, 64, 65, 127, 128, 254, 255, 256, 257, len(l) - 2, len(l) - 1)
                                 if 0 <= i < len(l)})
        return [E(names[i]) for i in pick(names)] + [E(add[i]) for i in pick(add)], [E("nosuch")]
    mk, data = (("bits", bits), ("octs", octs))[k == "octs"]
    lg, il = lens(t["z"], cap, rnd)
    out = []
    for i, n in enumerate(lg):
        pats = PATTERNS if n <= 40 else (PATTERNS[i % 5], "lead")
        if n == 0:
            pats = ("zero",)
        for p in pats:
            out.append({"k": mk, "x": data(n, p, rnd)})
    return out, [{"k": mk, "x": data(n, PATTERNS[i % 5], rnd)} for i, n in enumerate(il)]


# ---------------------------------------------------------------- contexts: where a leaf sits in a message
TAIL = C("tail", TOcts(Z(1, 2)))
TAILV = OS([0xA5, 0x01])


def ctx_top(t, v, w, i):
    return t, v


def ctx_offset(t, v, w, i):
    k = i % 8
    pre = [C("b%d" % j, TBool) for j in range(k)]
    return (TSeq(pre + [C("f", t), C("z", TBool), TAIL]),
            SQ(*[("b%d" % j, B((i >> j) & 1 == 1)) for j in range(k)], ("f", v), ("z", B(True)), ("tail", TAILV)))


def ctx_opt(t, v, w, i):
    ty = TSeq([C("a", TBool), C("f", t, "o"), C("g", TInt(rng(0, 7)), "o"), C("h", t, "o"), TAIL], ext=i % 2 == 0)
    cs = [("a", B(i % 3 == 0)), ("f", v)]
    if i % 2:
        cs.append(("g", I(i % 8)))
    if i % 3 == 1:
        cs.append(("h", w))
    return ty, SQ(*cs, ("tail", TAILV))


def ctx_add(t, v, w, i):
    n = i % 4
    adds = [S(C("x%d" % j, TBool, "o")) for j in range(n)] + [S(C("f", t, "o" if i % 2 else "m"))]
    cs = [("a", B(True)), ("f", v), ("tail", TAILV)] + [("x%d" % j, B(True)) for j in range(n) if (i >> j) & 1]
    return TSeq([C("a", TBool), TAIL], adds), SQ(*cs)


def ctx_group(t, v, w, i):
    g = G(C("p", TBool), C("f", t, "o" if i % 2 else "m"), C("q", TInt(rng(0, 300)), "o"))
    cs = [("a", I(i % 5)), ("p", B(i % 3 > 0)), ("f", v)] + ([("q", I(299))] if i % 4 == 0 else [])
    adds = [S(C("s", TBool, "o"))] + [g] if i % 3 else [g]
    return TSeq([C("a", TInt(rng(0, 4)))], adds), SQ(*cs)


def ctx_choice(t, v, w, i):
    alts = [C("c%d" % j, TBool) for j in range(i % 3)] + [C("f", t)] + [C("d%d" % j, TInt()) for j in range((i // 3) % 3)]
    return TSeq([C("a", TBool), C("c", TChoice(alts, ext=i % 2 == 1)), C("z", TBool)]), SQ(("a", B(False)), ("c", CH("f", v)), ("z", B(True)))


def ctx_choice_ext(t, v, w, i):
    n = (0, 1, 2, 62, 63, 64, 65)[i % 7]
    adds = [S(C("x%d" % j, TBool)) for j in range(n)] + ([G(C("f", t), C("y", TInt()))] if i % 2 else [S(C("f", t))])
    return TSeq([C("c", TChoice([C("r", TBool), C("s", TInt())], adds)), C("z", TBool)]), SQ(("c", CH("f", v)), ("z", B(True)))


def ctx_list(t, v, w, i):
    z = (NOZ, Z(1, 4), Z(2, 2), Z(0, 300), Z(1, 1, True), Z(0, None), Z(0, 255))[i % 7]
    l = [v, w, v][:2 if i % 2 == 0 or z["hi"] == 2 else 3]
    return TSeq([C("b", TBool), C("l", TSeqOf(t, z)), C("z", TBool)]), SQ(("b", B(True)), ("l", SO(*l)), ("z", B(True)))


CONTEXTS = (ctx_top, ctx_offset, ctx_opt, ctx_add, ctx_group, ctx_choice, ctx_choice_ext, ctx_list)


def systematic(rnd, shard, nshards, per_leaf=None, want="legal", leaves=None, contexts=CONTEXTS, cap=300):
    """leaf x boundary value x rotating context; yields (type, value)"""
    i = 0
    for li, t in enumerate(leaves or leaf_types()):
        if li % nshards != shard:
            continue
        lg, il = leaf_values(t, rnd, cap)
        vals = lg if want == "legal" else il
        if not vals or not lg:
            continue
        if per_leaf and len(vals) > per_leaf:
            # the first four (lowest) and last ones matter most; sample the rest
            keep = vals[:2] + vals[-2:] + rnd.sample(vals[2:-2], max(0, per_leaf - 4))
            vals = keep
        for j, v in enumerate(vals):
            w = lg[(j * 7 + 3) % len(lg)]
            i += 1
            c = contexts[(li + j) % len(contexts)]
            yield c(t, v, w, i + li)


# ---------------------------------------------------------------- random types
def rand_int(r):
    k = r.random()
    if k < 0.15:
        return TInt()
    if k < 0.75:
        lo = r.choice(LOWS + [0, 0, 0])
        n = r.choice(RANGES) if r.random() < .7 else r.randint(1, 70000)
        return TInt(rng(lo, lo + n - 1), ext=r.random() < .25)
    if k < 0.88:
        b = r.choice(LOWS)
        return TInt(rng(b, None) if r.random() < .7 else rng(None, b), ext=r.random() < .3)
    return dict(r.choice(SPECIAL_INTS))


SPECIAL_INTS = [t for t in int_types() if t["c"]["op"] in ("single", "or", "and")]


def rand_size(r, small=False):
    if r.random() < .25:
        return NOZ
    lo, hi = r.choice(SIZES[:30] if small else SIZES)
    return Z(lo, hi, r.random() < .25)


def rand_leaf(r):
    k = r.randrange(10)
    if k < 2:
        return TBool
    if k < 5:
        return rand_int(r)
    if k == 5:
        return rand_enum(r)
    if k < 8:
        return TBits(rand_size(r))
    return TOcts(rand_size(r))


def rand_enum(r):
    n = r.choice((1, 2, 3, 3, 4, 5, 9, 17))
    a = r.choice((0, 0, 1, 2, 3, 5, 66)) if r.random() < .5 else 0
    names = ["e%d" % i for i in range(n)]
    if r.random() < .3:
        xs = r.sample(range(0, 40), n)
        names = list(zip(names, xs))
    return TEnum(names, ["x%d" % i for i in range(a)], a > 0 or r.random() < .2)


def rand_default(r, t):
    return rand_value(r, t)


def rand_comp(r, n, depth, allow=("m", "o", "d")):
    t = rand_type(r, depth)
    p = r.choice(allow)
    if p == "d" and t["k"] not in ("bool", "int", "enum", "bits", "octs"):
        p = "o"
    return C(n, t, p, rand_default(r, t) if p == "d" else ABSENT)


def rand_type(r, depth):
    if depth <= 0 or r.random() < .35:
        return rand_leaf(r)
    k = r.random()
    if k < .5:
        return rand_seq(r, depth)
    if k < .75:
        return TSeqOf(rand_type(r, depth - 1), rand_size(r, True))
    return rand_choice(r, depth)


def rand_seq(r, depth, ext=None, nroot=None):
    n = r.choice((0, 1, 1, 2, 2, 3, 4, 6)) if nroot is None else nroot
    root = [rand_comp(r, "r%d" % i, depth - 1, "mmood") for i in range(n)]
    ext = r.random() < .5 if ext is None else ext
    adds = []
    if ext:
        for i in range(r.choice((0, 1, 1, 2, 3))):
            adds.append(S(rand_comp(r, "x%d" % i, depth - 1, "mmod")))
        for i in range(r.choice((0, 0, 1, 1, 2))):
            m = r.choice((1, 2, 3))
            adds.append(G(*[rand_comp(r, "g%d%s" % (i, "abc"[j]), depth - 1, "mmod") for j in range(m)]))
    return {"k": "seq", "root": root, "adds": adds, "ext": ext}


def rand_choice(r, depth, ext=None):
    n = r.choice((1, 2, 2, 3, 4, 5, 9))
    root = [C("c%d" % i, rand_type(r, depth - 1)) for i in range(n)]
    ext = r.random() < .5 if ext is None else ext
    adds = []
    if ext:
        for i in range(r.choice((0, 1, 2, 3))):
            adds.append(S(C("x%d" % i, rand_type(r, depth - 1))))
        for i in range(r.choice((0, 0, 1, 2))):
            adds.append(G(*[C("g%d%s" % (i, "abc"[j]), rand_type(r, depth - 1)) for j in range(r.choice((1, 2, 3)))]))
    return {"k": "choice", "root": root, "adds": adds, "ext": ext}


def rand_len(r, z, cap):
    lg, _ = lens(z, cap, r)
    if not lg:
        return z["lo"]
    small = [n for n in lg if n <= 8]
    return r.choice(small) if small and r.random() < .7 else r.choice(lg)


def rand_value(r, t, cap=140):
    k = t["k"]
    if k == "bool":
        return B(r.random() < .5)
    if k == "int":
        lg, _ = int_values(t, r, big=r.random() < .05)
        if not lg:
            lo, hi = cbounds(t["c"])
            return I(lo if lo is not None else hi or 0)
        return I(r.choice(lg))
    if k == "enum":
        return E(r.choice(t["root"] + t["adds"])["n"])
    if k in ("bits", "octs"):
        n = rand_len(r, t["z"], cap)
        return {"k": k, "x": (bits if k == "bits" else octs)(n, r.choice(PATTERNS), r)}
    if k == "seqof":
        n = rand_len(r, t["z"], 6)
        if n > 6 and t["z"]["hi"] != t["z"]["lo"]:
            n = max(t["z"]["lo"], 1)
        if n > 40:
            one = rand_value(r, t["e"], 4)
            return SO(*[one] * n)
        return SO(*[rand_value(r, t["e"], 20) for _ in range(n)])
    if k == "choice":
        c = r.choice(all_comps(t))
        return CH(c["n"], rand_value(r, c["t"], cap))
    out = []
    for c in t["root"]:
        if c["p"] == "m" or r.random() < .55:
            out.append((c["n"], comp_value(r, c, cap)))
    # additions: present ones must form a prefix as far as mandatory ones go
    m = r.choice((0, 0, len(t["adds"]), r.randint(0, len(t["adds"]))))
    for i, a in enumerate(t["adds"]):
        if i >= m:
            break
        if not a["g"]:
            c = a["c"][0]
            if c["p"] == "m" or r.random() < .6:
                out.append((c["n"], comp_value(r, c, cap)))
        else:
            mand = any(c["p"] == "m" for c in a["c"])
            if not mand and r.random() < .3:
                continue
            for c in a["c"]:
                if c["p"] == "m" or r.random() < .6:
                    out.append((c["n"], comp_value(r, c, cap)))
    return SQ(*out)


def comp_value(r, c, cap):
    if c["p"] == "d" and r.random() < .4:
        return c["d"]
    return rand_value(r, c["t"], cap)


# ---------------------------------------------------------------- illegal values at any depth
def rand_illegal(r, t, cap=40):
    """a value that breaks t somewhere, or None"""
    k = t["k"]
    if k in ("bool",):
        return None
    if k in ("int", "enum", "bits", "octs"):
        _, il = leaf_values(t, r, cap)
        return r.choice(il) if il else None
    if k == "seqof":
        z = t["z"]
        opts = []
        if z["has"] and not z["ext"]:
            if z["lo"] > 0:
                opts.append(z["lo"] - 1)
                opts.append(0)
            if 0 <= z["hi"] < 60:
                opts.append(z["hi"] + 1)
        if opts and r.random() < .6:
            n = r.choice(opts)
            one = rand_value(r, t["e"], 4)
            return SO(*[one] * n)
        bad = rand_illegal(r, t["e"], cap)
        if bad is None:
            return None
        n = rand_len(r, z, 5)
        if n < 1 or n > 30:
            return None
        l = [rand_value(r, t["e"], 4) for _ in range(n)]
        l[r.randrange(n)] = bad
        return SO(*l)
    if k == "choice":
        if r.random() < .15:
            return {"k": "choice", "n": "", "v": ABSENT}
        cs = all_comps(t)
        r.shuffle(cs)
        for c in cs:
            bad = rand_illegal(r, c["t"], cap)
            if bad is not None:
                return CH(c["n"], bad)
        return None
    v = rand_value(r, t, cap)
    have = {e["n"] for e in v["c"]}
    mand = [c["n"] for c in t["root"] if c["p"] == "m" and c["t"]["k"] not in ("seq", "seqof")]
    for a in t["adds"]:
        if a["g"] and any(c["n"] in have for c in a["c"]):
            mand += [c["n"] for c in a["c"] if c["p"] == "m" and c["t"]["k"] not in ("seq", "seqof")]
    mand = [n for n in mand if n in have]
    if mand and r.random() < .5:
        gone = r.choice(mand)
        left = [e for e in v["c"] if e["n"] != gone]
        return {"k": "seq", "c": left}
    if r.random() < .07:
        return {"k": "seq", "c": v["c"] + [{"n": "nosuch", "v": B(True)}]}
    cs = [c for c in all_comps(t) if c["n"] in have]
    r.shuffle(cs)
    for c in cs:
        bad = rand_illegal(r, c["t"], cap)
        if bad is not None:
            return {"k": "seq", "c": [{"n": e["n"], "v": bad if e["n"] == c["n"] else e["v"]} for e in v["c"]]}
    return None


# ---------------------------------------------------------------- special structures: counts at coding boundaries
def special(r):
    """(type, value) pairs for counts and lengths at the boundaries of the coding rules"""
    out = []
    for n in (2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 128, 255, 256, 257):          # CHOICE index
        t = TChoice([C("c%d" % i, TBool) for i in range(n)])
        for i in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            out.append((t, CH("c%d" % i, B(True))))
        te = TChoice([C("c%d" % i, TInt(rng(0, 7))) for i in range(n)], ext=True)
        out.append((te, CH("c%d" % (n - 1), I(5))))
    for n in (1, 2, 62, 63, 64, 65, 66, 127, 128, 129, 256, 257):                  # CHOICE extension index
        t = TChoice([C("r", TBool), C("q", TBool)], [S(C("x%d" % i, TOcts())) for i in range(n)])
        for i in sorted({0, 1, 62, 63, 64, 65, 127, 128, 255, 256, n - 1} & set(range(n))):
            out.append((t, CH("x%d" % i, OS(b"\x00\x01"))))
    for n in (1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64):                              # additions bitmap
        t = TSeq([C("a", TBool), C("b", TInt(rng(0, 300)))], [S(C("x%d" % i, TInt(rng(0, 15)), "o")) for i in range(n)])
        for which in ([0], [n - 1], list(range(n)), list(range(0, n, 3)), [n // 2]):
            out.append((t, SQ(("a", B(True)), ("b", I(299)), *[("x%d" % i, I(i % 16)) for i in which])))
        g = TSeq([C("a", TBool)], [G(C("y%d" % i, TBool), C("z%d" % i, TInt(rng(0, 9)), "o")) for i in range(n)])
        for m in sorted({1, n}):
            cs = []
            for i in range(m):
                cs.append(("y%d" % i, B(i % 2 == 0)))
                if i % 3 == 0:
                    cs.append(("z%d" % i, I(i % 10)))
            out.append((g, SQ(("a", B(False)), *cs)))
    for n in (65, 66, 70, 128):                                                    # more than 64 additions: refused
        t = TSeq([C("a", TBool)], [S(C("x%d" % i, TBool, "o")) for i in range(n)])
        out.append((t, SQ(("a", B(True)), ("x0", B(True)))))
        out.append((t, SQ(("a", B(True)), ("x%d" % (n - 1), B(True)))))
        out.append((t, SQ(("a", B(True)))))
    for n in (7, 8, 9, 16, 17, 33, 64, 65, 70):                                    # OPTIONAL bitmap width
        t = TSeq([C("o%d" % i, TBool, "o") for i in range(n)] + [C("m", TOcts())])
        for which in ([], [0], [n - 1], list(range(n)), list(range(1, n, 2))):
            out.append((t, SQ(*[("o%d" % i, B(i % 2 == 0)) for i in which], ("m", OS(b"\xff")))))
    for n in (0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 300, 1000):              # list lengths
        for z in (NOZ, Z(0, None), Z(0, 65535), Z(0, 65536), Z(0, 2000), Z(1, 4, True), Z(n, n), Z(0, 255, True), Z(1, None)):
            if z["has"] and not z["ext"] and not (z["lo"] <= n and (z["hi"] == -1 or n <= z["hi"])):
                continue
            e, v = ((TBool, B(True)), (TInt(rng(0, 7)), I(5)), (TOcts(), OS(b"\x00")))[n % 3]
            if n > 300 and e["k"] == "octs":
                e, v = TBool, B(True)
            out.append((TSeq([C("b", TBool), C("l", TSeqOf(e, z)), C("z", TBool)]), SQ(("b", B(True)), ("l", SO(*[v] * n)), ("z", B(True)))))
    for n in (125, 126, 127, 128, 129, 200, 300):                                  # open type lengths
        body = octs(n, "rand", r)
        out.append((TSeq([C("a", TBool)], [S(C("x", TOcts(Z(n, n)))), S(C("y", TBool))]),
                    SQ(("a", B(True)), ("x", {"k": "octs", "x": body}), ("y", B(True)))))
        out.append((TSeq([C("a", TBool)], [G(C("x", TOcts()), C("y", TBool, "o"))]),
                    SQ(("a", B(True)), ("x", {"k": "octs", "x": [0] * 3 + body}), ("y", B(True)))))
        out.append((TSeq([C("c", TChoice([C("a", TBool)], [S(C("x", TOcts()))])), C("z", TBool)]),
                    SQ(("c", CH("x", {"k": "octs", "x": [0] + body})), ("z", B(True)))))
    empty = TSeq([])
    out += [(empty, SQ()), (TSeq([], ext=True), SQ()), (TSeq([C("e", empty), C("z", TBool)]), SQ(("e", SQ()), ("z", B(True)))),
            (TSeq([C("e", empty, "o"), C("z", TBool)]), SQ(("e", SQ()), ("z", B(True)))),
            (TSeq([C("e", empty, "o"), C("z", TBool)]), SQ(("z", B(True)))),
            (TSeq([C("z", TBool)], [S(C("e", empty))]), SQ(("z", B(True)), ("e", SQ()))),
            (TSeq([C("z", TBool)], [S(C("e", empty, "o")), S(C("l", TSeqOf(TBool), "o"))]), SQ(("z", B(True)), ("l", SO()))),
            (TSeqOf(empty), SO(SQ(), SQ(), SQ())), (TSeqOf(empty, Z(0, 3)), SO()),
            (TSeqOf(TSeqOf(TBool)), SO(SO(), SO(B(True)), SO())),
            (TSeqOf(TSeq([C("a", TBool, "o")])), SO(SQ(), SQ(("a", B(True))), SQ())),
            (TChoice([C("e", empty), C("l", TSeqOf(TBool))]), CH("e", SQ())),
            (TChoice([C("e", empty), C("l", TSeqOf(TBool))]), CH("l", SO())),
            (TChoice([C("a", TBool)], [S(C("e", empty)), S(C("l", TSeqOf(TBool)))]), CH("e", SQ())),
            (TChoice([C("a", TBool)], [S(C("e", empty)), S(C("l", TSeqOf(TBool)))]), CH("l", SO())),
            (TSeq([C("o", TSeq([C("p", TSeq([C("q", TBool, "o")]), "o")]), "o"), C("z", TBool)]), SQ(("o", SQ(("p", SQ()))), ("z", B(True))))]
    return out


def heavy(r):
    """few, large: fragmentation limits"""
    out = []
    for n in (16382, 16383, 16384, 16385, 32768, 65535, 65536):
        for t in (TOcts(), TOcts(Z(0, None)), TOcts(Z(0, 70000)), TOcts(Z(1, 4, True))):
            out.append((t, {"k": "octs", "x": octs(n, "lead", r)}))
        for t in (TBits(), TBits(Z(0, None)), TBits(Z(0, 70000)), TBits(Z(1, 4, True))):
            out.append((t, {"k": "bits", "x": bits(n, "lead", r)}))
    for n in (16383, 16384, 40000, 65535):
        out.append((TOcts(Z(0, 65535)), {"k": "octs", "x": octs(n, "trail", r)}))
        out.append((TBits(Z(0, 65535)), {"k": "bits", "x": bits(n, "lead", r)}))
        out.append((TBits(Z(n, n)), {"k": "bits", "x": bits(n, "rand", r)}))
    out.append((TOcts(Z(65535, 65535)), {"k": "octs", "x": octs(65535, "lead", r)}))
    out.append((TOcts(Z(65536, 65536)), {"k": "octs", "x": octs(65536, "lead", r)}))
    out.append((TBits(Z(65536, 65536)), {"k": "bits", "x": bits(65536, "lead", r)}))
    for n in (16383, 16384, 16385):
        out.append((TSeqOf(TBool), SO(*[B(True)] * n)))
        out.append((TSeqOf(TBool, Z(0, 65535)), SO(*[B(True)] * n)))
        out.append((TSeqOf(TBool, Z(0, 4, True)), SO(*[B(True)] * n)))
        out.append((TSeq([C("a", TBool)], [S(C("x", TOcts(Z(n, n))))]), SQ(("a", B(True)), ("x", {"k": "octs", "x": octs(n, "rand", r)}))))
        out.append((TInt(), I(2 ** (8 * n - 2))))
        out.append((TInt(rng(0, None)), I(2 ** (8 * n) - 1)))
    return out
