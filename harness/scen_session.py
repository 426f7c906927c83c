"""Histories: several live messages of several types, one process (C07, C17), interleavings (C13), logging (C14)."""
import io
import json
import logging
import sys
import threading

import tlc
from asn import *
from gen import *
from scen import scenario, spec_octets, big, mutate, assign

LEAF = ("bool", "int", "enum", "bits", "octs")


# ---------------------------------------------------------------- mirror of SetAt/DropAt, to choose sensible operations
def ctype(t, n):
    return [c["t"] for c in all_comps(t) if c["n"] == n][0]


def cget(v, n):
    for e in v["c"]:
        if e["n"] == n:
            return e["v"]
    return None


def unset_value(t):
    return {"seq": {"k": "seq", "c": []}, "seqof": {"k": "seqof", "l": []},
            "choice": {"k": "choice", "n": "", "v": ABSENT}}.get(t["k"], ABSENT)


def set_at(t, v, p, x):
    if not p:
        return x
    h = p[0]
    if t["k"] == "seq":
        old = cget(v, h)
        new = set_at(ctype(t, h), unset_value(ctype(t, h)) if old is None else old, p[1:], x)
        if old is None:
            return {"k": "seq", "c": v["c"] + [{"n": h, "v": new}]}
        return {"k": "seq", "c": [{"n": h, "v": new} if e["n"] == h else e for e in v["c"]]}
    if t["k"] == "choice":
        old = v["v"] if v["n"] == h else unset_value(ctype(t, h))
        return {"k": "choice", "n": h, "v": set_at(ctype(t, h), old, p[1:], x)}
    l = list(v["l"])
    if h > len(l):
        l.append(set_at(t["e"], unset_value(t["e"]), p[1:], x))
    else:
        l[h - 1] = set_at(t["e"], l[h - 1], p[1:], x)
    return {"k": "seqof", "l": l}


def drop_at(t, v, p):
    h = p[0]
    if len(p) == 1:
        return {"k": "seq", "c": [e for e in v["c"] if e["n"] != h]}
    if t["k"] == "seq":
        return set_at(t, v, [h], drop_at(ctype(t, h), cget(v, h), p[1:]))
    if t["k"] == "choice":
        return {"k": "choice", "n": h, "v": drop_at(ctype(t, h), v["v"], p[1:])}
    l = list(v["l"])
    l[h - 1] = drop_at(t["e"], l[h - 1], p[1:])
    return {"k": "seqof", "l": l}


def pick_path(r, t, v):
    """a path into the message: only through parts that are there; ends at a component, element or alternative"""
    p = []
    while True:
        if t["k"] == "seq":
            cs = all_comps(t)
            if not cs:
                return (p, t, None) if p else None
            c = r.choice(cs)
            p, sub, t2 = p + [c["n"]], cget(v, c["n"]), c["t"]
            if sub is None or t2["k"] in LEAF or r.random() < .4:
                return p, t2, c
            t, v = t2, sub
        elif t["k"] == "choice":
            if v["n"] == "" or r.random() < .4:
                c = r.choice(all_comps(t))
                return p + [c["n"]], c["t"], None
            t2 = ctype(t, v["n"])
            p = p + [v["n"]]
            if t2["k"] in LEAF:
                return p, t2, None
            t, v = t2, v["v"]
        elif t["k"] == "seqof":
            n = len(v["l"])
            if n == 0 or r.random() < .3:
                if n > 12:
                    return None
                return p + [n + 1], t["e"], None
            i = r.randint(1, n)
            p = p + [i]
            if t["e"]["k"] in LEAF or r.random() < .4:
                return p, t["e"], None
            t, v = t["e"], v["l"][i - 1]
        else:
            return None


def walk(m, t, p):
    for h in p:
        if t["k"] == "seqof":
            m, t = m[h - 1], t["e"]
        else:
            m, t = m[h], ctype(t, h)
    return m, t


def real_set(m, t, p, x, how):
    m, t = walk(m, t, p[:-1])
    h = p[-1]
    if t["k"] == "seqof":
        obj = build(m.componentType.__class__, t["e"], x, how % 4)
        if h > len(m):
            m.append(obj)
        else:
            m[h - 1] = obj
    else:
        put(m, ctype(t, h), h, x, 0 if how == 1 else how)


def real_unset(m, t, p):
    m, t = walk(m, t, p[:-1])
    m.setComponentByName(p[-1])


# ---------------------------------------------------------------- the session driver
class Session:
    def __init__(self, ctx, types, names):
        self.ctx, self.rec, self.r = ctx, ctx.rec, ctx.rnd
        self.types = types
        for t in types:
            ctx.rec.t(t)
        ctx.rec.name = names
        self.cls = [ctx.rec.cls(t, fresh=True) for t in types]
        self.spec = {}
        self.live = {}        # h -> [type index, object, value, complete]
        self.next = 1
        self.octets = []      # (type index, bytes)

    def handle(self):
        self.next += 1
        return self.next

    def op_build(self):
        i = self.r.randrange(len(self.types))
        t = self.types[i]
        v = rand_value(self.r, t, 30)
        h = self.handle()
        m = self.rec.build(h, t, v, self.r.randrange(4), cls=self.cls[i])
        if m is not None:
            self.live[h] = [i, m, v]
        return h

    def op_build_bad(self):
        i = self.r.randrange(len(self.types))
        bad = rand_illegal(self.r, self.types[i])
        if bad is not None:
            h = self.handle()
            m = self.rec.build(h, self.types[i], bad, self.r.randrange(4), cls=self.cls[i])
            if m is not None:
                self.rec.enc(h, m)

    def op_new(self):
        i = self.r.randrange(len(self.types))
        r, m = guarded(self.cls[i])
        if r == "ok":
            h = self.handle()
            self.rec.ev("new", h=h, t=self.rec.t(self.types[i]))
            self.live[h] = [i, m, unset_value(self.types[i])]
            self.rec.view(h, m, self.types[i])

    def some(self):
        return self.r.choice(list(self.live)) if self.live else None

    def op_set(self, illegal=False):
        h = self.some()
        if h is None:
            return
        i, m, v = self.live[h]
        pk = pick_path(self.r, self.types[i], v)
        if pk is None:
            return
        p, t, c = pk
        x = rand_illegal(self.r, t) if illegal else rand_value(self.r, t, 20)
        if x is None or x["k"] != t["k"] or (illegal and t["k"] not in LEAF):
            return
        rc, e = guarded(real_set, m, self.types[i], p, x, self.r.randrange(4))
        self.rec.ev("set", h=h, p=p, v=x, r=rc, legal=not illegal, note="" if rc == "ok" else str(e))
        if rc == "ok":
            self.live[h][2] = set_at(self.types[i], v, p, x)

    def op_set_bad(self):
        self.op_set(True)

    def op_unset(self):
        h = self.some()
        if h is None:
            return
        i, m, v = self.live[h]
        pk = pick_path(self.r, self.types[i], v)
        if pk is None:
            return
        p, t, c = pk
        if c is None or c["p"] == "m" or t["k"] in ("choice",):
            return
        old = drop_at(self.types[i], v, p)
        # unsetting the last component of a nested SEQUENCE is left out (empty versus absent is ambiguous there)
        if len(p) > 1 and not parent(self.types[i], old, p)["c"]:
            return
        rc, e = guarded(real_unset, m, self.types[i], p)
        self.rec.ev("unset", h=h, p=p, r=rc, note="" if rc == "ok" else str(e))
        if rc == "ok":
            self.live[h][2] = old

    def op_enc(self):
        h = self.some()
        if h is None:
            return
        x = self.rec.enc(h, self.live[h][1])
        if x is not None and len(x) < 600:
            self.octets.append((self.live[h][0], x))

    def op_view(self):
        h = self.some()
        if h is not None:
            self.rec.view(h, self.live[h][1], self.types[self.live[h][0]])

    def op_dict(self):
        h = self.some()
        if h is not None:
            self.rec.dict(h, self.live[h][1])

    def op_noise(self):
        h = self.some()
        if h is None:
            return
        m, t = self.live[h][1], self.types[self.live[h][0]]
        k = self.r.randrange(6)
        if k == 0:
            self.rec.noise("str", str, m)
        elif k == 1:
            self.rec.noise("prettyPrint", m.prettyPrint)
        elif k == 2:
            self.rec.noise("repr", repr, m)
        elif k == 3 and t["k"] == "seq":
            for c in all_comps(t):
                self.rec.noise("read", lambda: m[c["n"]])
        elif k == 4:
            self.rec.noise("len", len, m)
        elif k == 5:
            self.rec.noise("eq", lambda: m == m)

    def op_dec(self):
        if not self.octets:
            return
        i, x = self.r.choice(self.octets)
        if self.r.random() < .25:
            i = self.r.randrange(len(self.types))
        if self.r.random() < .3:
            x = x[:self.r.randint(0, len(x))] if self.r.random() < .6 else mutate(self.r, x)
        t = self.types[i]
        if self.r.random() < .6:
            if i not in self.spec:
                rc, s = guarded(self.cls[i])
                self.spec[i] = s if rc == "ok" else None
            spec = self.spec[i]
        else:
            rc, spec = guarded(self.cls[i])
            spec = spec if rc == "ok" else None
        h = self.handle()
        d = self.rec.dec(h, t, x, spec)
        if d is not None and self.rec.events[-1]["v"]["k"] == t["k"]:
            self.live[h] = [i, d, self.rec.events[-1]["v"]]

    def op_drop(self):
        if len(self.live) > 5:
            del self.live[self.some()]

    def finish(self):
        for h, (i, m, v) in list(self.live.items()):
            self.rec.view(h, m, self.types[i])
            self.rec.enc(h, m)
            self.rec.dict(h, m)
        for i, t in enumerate(self.types):
            rc, m = guarded(self.cls[i])
            if rc == "ok":
                h = self.handle()
                self.rec.ev("new", h=h, t=self.rec.t(t))
                self.rec.view(h, m, t)


def parent(t, v, p):
    for h in p[:-1]:
        if t["k"] == "seq":
            t, v = ctype(t, h), cget(v, h)
        elif t["k"] == "choice":
            t, v = ctype(t, h), v["v"]
        else:
            t, v = t["e"], v["l"][h - 1]
    return v


def some_type(r):
    while True:
        k = r.random()
        t = rand_seq(r, r.choice((1, 2, 2))) if k < .6 else rand_choice(r, 2) if k < .8 else TSeqOf(rand_type(r, 1), rand_size(r, True))
        if not big(t, 9000):
            return t


def tweak(r, t):
    """a type that looks alike (same component names) but differs in constraints"""
    if t["k"] not in ("seq", "choice"):
        return some_type(r)
    def one(c):
        nt = rand_leaf(r) if c["t"]["k"] in LEAF else c["t"]
        p = c["p"] if c["p"] != "d" else "o"
        if t["k"] == "seq" and r.random() < .3:
            p = r.choice("mo")
        return C(c["n"], nt, p)
    return dict(t, root=[one(c) for c in t["root"]], adds=[{"g": a["g"], "c": [one(c) for c in a["c"]]} for a in t["adds"]])


OPS = (("build", 4), ("new", 1), ("set", 7), ("set_bad", 2), ("build_bad", 1), ("unset", 2), ("enc", 7), ("view", 3), ("dict", 2), ("noise", 4),
       ("dec", 6), ("drop", 1))


def run_sessions(ctx, n, steps, bias):
    r = ctx.rnd
    weights = dict(OPS)
    weights.update(bias)
    ops, ws = zip(*weights.items())
    for k in range(n):
        types = [some_type(r) for _ in range(r.choice((1, 2, 3)))]
        if r.random() < .7:
            types.append(tweak(r, types[0]))
        if r.random() < .3:
            types.append(types[0])              # the same definition as a distinct class of the same name
        names = (lambda t: "Message") if k % 2 else (lambda t: "T_" + t["k"])
        ctx.rec.case("session %d/%d %s" % (ctx.shard, k, r.random()))
        s = Session(ctx, types, names)
        s.op_build()
        for _ in range(steps):
            getattr(s, "op_" + r.choices(ops, ws)[0])()
        s.finish()
    ctx.rec.name = lambda t: "T"


def walks(ctx, n):
    """histories generated by TLC from spec/Walk.tla"""
    rc, text = tlc.run("Walk", {}, extra=("-simulate", "num=%d" % n, "-depth", "41", "-seed", str(ctx.rnd.randrange(1, 10 ** 9))), stack="200m")
    hs = [json.loads(json.loads(line)[5:]) for line in text.splitlines() if line.startswith('"HIST ')]
    if len(hs) < n:
        raise RuntimeError("Walk gave %d of %d histories: %s" % (len(hs), n, text[-2000:]))
    return hs


def replay(ctx, hist):
    """make the calls of a generated history on the real library"""
    rec, r = ctx.rec, ctx.rnd
    ts = hist[0]["ts"]
    names = (lambda t: "Message") if r.random() < .5 else (lambda t: "T_" + t["k"])
    rec.name = names
    cls = [rec.cls(t, fresh=True) for t in ts]
    specs = {}
    live = {}
    rec.case(json.dumps(hist))
    for e in hist[1:]:
        op, h = e["op"], e["h"]
        if op in ("new", "build", "dec"):
            live.pop(h, None)
        elif op != "cut" and h not in live:
            continue                               # an earlier call failed (and was judged)
        if op == "new":
            rc, m = guarded(cls[e["t"] - 1])
            if rc == "ok":
                rec.ev("new", h=h, t=rec.t(ts[e["t"] - 1]))
                live[h] = (e["t"], m)
        elif op == "build":
            m = rec.build(h, ts[e["t"] - 1], e["v"], r.randrange(4), cls=cls[e["t"] - 1])
            if m is not None:
                live[h] = (e["t"], m)
        elif op in ("dec", "cut"):
            i = e["t"]
            if i not in specs or r.random() < .3:
                rc, s = guarded(cls[i - 1])
                specs[i] = s if rc == "ok" else None
            d = rec.dec(h, ts[i - 1], bytes(e["x"]), specs[i])
            if d is not None and op == "dec":
                live[h] = (i, d)
        else:
            i, m = live[h]
            t = ts[i - 1]
            if op == "set":
                rc, x = guarded(real_set, m, t, e["p"], e["v"], r.randrange(4))
                rec.ev("set", h=h, p=e["p"], v=e["v"], r=rc, legal=True, note="" if rc == "ok" else str(x))
                if rc != "ok":
                    del live[h]
            elif op == "unset":
                rc, x = guarded(real_unset, m, t, e["p"])
                rec.ev("unset", h=h, p=e["p"], r=rc, note="" if rc == "ok" else str(x))
                if rc != "ok":
                    del live[h]
            elif op == "enc":
                rec.enc(h, m)
            elif op == "view":
                rec.view(h, m, t)
            elif op == "dict":
                rec.dict(h, m)
            elif op == "read":
                for c in all_comps(t) if t["k"] == "seq" else ():
                    rec.noise("read", lambda: m[c["n"]])
            else:
                rec.noise(op, {"str": str, "repr": repr, "len": len}[op], m)
    for h, (i, m) in live.items():
        rec.view(h, m, ts[i - 1])
        rec.enc(h, m)
    rec.name = lambda t: "T"


def replay_walks(ctx, n):
    for h in walks(ctx, n):
        replay(ctx, h)


@scenario("C07")
def c07(ctx):
    run_sessions(ctx, ctx.n(110, 900), ctx.n(40, 60), {"enc": 10, "noise": 6, "dict": 3})
    replay_walks(ctx, ctx.n(60, 800))


@scenario("C17")
def c17(ctx):
    run_sessions(ctx, ctx.n(110, 900), ctx.n(40, 60), {"new": 4, "build": 6, "dec": 9, "view": 6, "set": 9})
    replay_walks(ctx, ctx.n(60, 800))


# ---------------------------------------------------------------- C13
class Op:
    """one codec call on its own message, repeatable"""
    def __init__(self, kind, h, i, t, cls, msg, x, v=None):
        self.kind, self.h, self.i, self.t, self.cls, self.msg, self.x, self.v = kind, h, i, t, cls, msg, x, v

    def cold(self, cls):
        """the same call on a class which no call used before"""
        return Op(self.kind, self.h, self.i, self.t, cls, None if self.msg is None else build(cls, self.t, self.v, 0), self.x, self.v)

    def run(self):
        if self.kind == "enc":
            return guarded_nosig(encode, self.msg)
        if self.kind == "dict":
            return guarded_nosig(self.msg.to_dict)
        return guarded_nosig(lambda: decode(self.x, self.cls()))

    def record(self, rec, res):
        r, y = res
        if self.kind == "enc":
            rec.ev("enc", h=self.h, r=r, x=list(y) if r == "ok" else [], note="" if r == "ok" else y)
        elif self.kind == "dict":
            rec.ev("dict", h=self.h, r=r, d=project_dict(y) if r == "ok" else {"d": "none"}, note="" if r == "ok" else y)
        else:
            v = ABSENT
            if r == "ok":
                r2, v = guarded(project, y, self.t)
                if r2 != "ok":
                    v = ABSENT
            rec.ev("dec", h=0, t=self.i, x=list(self.x), r=r, v=v, note="" if r == "ok" else str(y))

    def key(self, res):
        r, y = res
        if self.kind == "dec" and r == "ok":
            r, y = guarded_nosig(project, y, self.t)
        return (self.kind, self.h, r, repr(y) if r == "ok" else "")


def guarded_nosig(fn, *a):
    try:
        return "ok", fn(*a)
    except Exception as e:
        try:
            return "err", "%s: %s" % (type(e).__name__, str(e)[:200])
        except Exception:
            return "err", type(e).__name__


def interleave(a, b, at, files):
    """run a; at the at-th line event inside the library, run b to completion. Returns (res_a, [res_b], number of line events)"""
    count = [0]
    got = []

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == at:
                sys.settrace(None)
                got.append(b.run())
                sys.settrace(glob)
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        return local if any(s in f for s in files) else None

    sys.settrace(glob)
    try:
        ra = a.run()
    finally:
        sys.settrace(None)
    return ra, got, count[0]


def make_ops(ctx, types, names):
    r, rec = ctx.rnd, ctx.rec
    rec.name = names
    ops = []
    h = 1
    cases = []
    for t in types:
        cls = rec.cls(t, fresh=True)
        for _ in range(2):
            cases.append((t, cls, max((rand_value(r, t, 20) for _ in range(3)), key=lambda v: len(str(v)))))
    xs = spec_octets(ctx, [(t, v, "plain") for t, c, v in cases], tag="i%d_" % rec.cases)
    for (t, cls, v), x in zip(cases, xs):
        h += 1
        m = rec.build(h, t, v, 0, cls=cls)
        if m is None or x is None or len(x) > 300:
            continue
        ops.append(Op("enc", h, rec.t(t), t, cls, m, None, v))
        ops.append(Op("dict", h, rec.t(t), t, cls, m, None, v))
        ops.append(Op("dec", h, rec.t(t), t, cls, None, x, v))
        if r.random() < .4:
            ops.append(Op("dec", h, rec.t(t), t, cls, None, x[:len(x) // 2], v))
    bad = rand_illegal(r, types[0])
    if bad is not None:
        h += 1
        m = rec.build(h, types[0], bad, 0)
        if m is not None:
            ops.append(Op("enc", h, rec.t(types[0]), types[0], None, m, None))
    return ops


FIXED = [
    TSeq([C("a", TBool), C("o", TInt(rng(0, 300)), "o"), C("d", TInt(), "d", I(5)), C("l", TSeqOf(TOcts(Z(1, 20)), Z(0, 4)), "o")],
         [S(C("x", TOcts(), "o")), S(C("y", TSeq([C("p", TBool), C("q", TInt(), "o")], ext=True), "o")), G(C("g", TBool), C("k", TEnum(["r", "s"], ["u"], True), "o"))]),
    TChoice([C("a", TSeq([C("p", TInt(rng(0, 65536))), C("q", TBits(Z(1, 40)))])), C("b", TEnum(["r", "s", "t"]))],
            [S(C("x", TSeqOf(TBool))), G(C("g", TOcts(Z(3, 3))), C("h", TInt(rng(5, None))))]),
    TSeqOf(TChoice([C("a", TSeq([C("p", TInt(rng(0, 9))), C("q", TBool, "o")])), C("b", TChoice([C("r", TSeqOf(TBool)), C("s", TOcts(Z(1, 2)))])), C("c", TBits(Z(3, 3)))])),
]


@scenario("C13")
def c13(ctx):
    rec, r = ctx.rec, ctx.rnd
    files = ("/asn1PERser/", "/pyasn1/")
    points = pairs = 0
    for k in range(ctx.n(5, 40)):
        types = [some_type(r) for _ in range(2)]
        fixed = FIXED[(k + ctx.shard) % len(FIXED)]
        types = [types[0], fixed, tweak(r, types[0])] if k % 2 else [types[0], types[1], fixed]
        names = (lambda t: "Message") if k % 3 else (lambda t: "T_" + t["k"])
        rec.case("interleavings %d/%d %s" % (ctx.shard, k, r.random()))
        ops = make_ops(ctx, types, names)
        seen = set()

        def note(op, res):
            key = op.key(res)
            if key not in seen:
                seen.add(key)
                op.record(rec, res)
        for op in ops:
            note(op, op.run())
        todo = [(a, b) for a in ops for b in ops if a is not b and (a.msg is None or a.msg is not b.msg)]
        r.shuffle(todo)
        same = [(a, b) for a, b in todo if a.cls is b.cls and a.kind == b.kind and a.h != b.h]
        todo = same[:ctx.n(7, 40)] + todo[:ctx.n(7, 60)]
        for a, b in todo:
            pairs += 1
            n = interleave(a, b, -1, files)[2]
            cap = ctx.n(160, 1500)
            pts = range(1, n + 1) if n <= cap else sorted(r.sample(range(1, n + 1), cap))
            for p in pts:
                ra, rb, _ = interleave(a, b, p, files)
                points += 1
                note(a, ra)
                for x in rb:
                    note(b, x)
        # the first calls which ever use a class: both on classes of their own making at every switch point
        names2 = rec.name
        first = [(a, b) for a, b in same if a.v is not None and a.v != b.v]
        for a, b in first[:ctx.n(3, 30)]:
            pairs += 1
            cap, p = ctx.n(120, 1500), 0
            def pair():
                c = make_class(a.t, names2)
                return a.cold(c), b.cold(c)
            n = interleave(*pair(), -1, files)[2]
            for p in range(1, n + 1) if n <= cap else sorted(r.sample(range(1, n + 1), cap)):
                x, y = pair()
                ra, rb, _ = interleave(x, y, p, files)
                points += 1
                note(a, ra)
                for z in rb:
                    note(b, z)
        # real threads
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            groups = {}
            for op in ops:
                groups.setdefault(op.h, []).append(op)
            res = []

            def work(mine):
                for _ in range(ctx.n(6, 30)):
                    for op in mine:
                        res.append((op, op.run()))
            ts = [threading.Thread(target=work, args=(g,)) for g in groups.values()]
            for th in ts:
                th.start()
            for th in ts:
                th.join(120)
            if any(th.is_alive() for th in ts):
                rec.flag("enc-hang", True)
            for op, x in res:
                note(op, x)
        finally:
            sys.setswitchinterval(old)
    rec.name = lambda t: "T"
    rec.info["operation_pairs"] = pairs
    rec.info["switch_points"] = points


# ---------------------------------------------------------------- C14
class Probe(logging.Handler):
    """formats every record; failures to format are counted, never printed"""
    def __init__(self):
        logging.Handler.__init__(self, logging.NOTSET)
        self.records, self.failed = 0, []
        self.setFormatter(logging.Formatter("%(asctime)s %(name)s %(levelname)s %(message)s"))

    def emit(self, record):
        self.records += 1
        try:
            self.format(record)
        except Exception as e:
            self.failed.append("%s in %s:%s" % (type(e).__name__, record.name, record.lineno))


class LogConfig:
    """one logging configuration, undone afterwards"""
    def __init__(self, name):
        self.name = name

    def loggers(self):
        return [logging.getLogger()] + [logging.getLogger(n) for n in list(logging.root.manager.loggerDict) if n.lower().startswith("asn1perser")]

    def __enter__(self):
        self.saved = [(l, l.level, list(l.handlers), l.propagate, l.disabled) for l in self.loggers()]
        self.disable = logging.root.manager.disable
        self.probe = Probe()
        n = self.name
        if n == "root-debug":
            logging.getLogger().addHandler(self.probe)
            for l in self.loggers():
                l.setLevel(logging.DEBUG)
                l.propagate = True
        elif n == "each-logger":
            for l in self.loggers():
                l.setLevel(1)
                l.addHandler(self.probe)
                l.propagate = False
        elif n == "package":
            for l in self.loggers()[1:]:
                l.propagate = True
                if "." not in l.name:
                    l.addHandler(self.probe)
                    l.setLevel(logging.DEBUG)
        elif n == "disabled":
            logging.disable(logging.CRITICAL)
        elif n == "stream":
            sh = logging.StreamHandler(io.StringIO())
            for l in self.loggers():
                l.setLevel(logging.DEBUG)
                l.propagate = True
            logging.getLogger().addHandler(sh)
        elif n == "info":
            logging.getLogger().addHandler(self.probe)
            for l in self.loggers():
                l.setLevel(logging.INFO)
                l.propagate = True
        elif n == "setup":
            from asn1PERser import asn1perser_logging_setup
            asn1perser_logging_setup(self.probe, logging.DEBUG)
        elif n == "no-handlers":
            for l in self.loggers():
                l.handlers = []
                l.setLevel(logging.DEBUG)
        self.err = io.StringIO()
        self.stderr, sys.stderr = sys.stderr, self.err
        return self

    def __exit__(self, *a):
        sys.stderr = self.stderr
        for l, level, handlers, prop, dis in self.saved:
            l.level, l.handlers, l.propagate, l.disabled = level, handlers, prop, dis
            l.setLevel(level)
        logging.disable(self.disable)


CONFIGS = ("default", "root-debug", "each-logger", "package", "disabled", "stream", "info", "no-handlers", "setup")
LOGSCHEMA = """M DEFINITIONS AUTOMATIC TAGS ::= BEGIN
A ::= SEQUENCE { a INTEGER (0..7), b BOOLEAN OPTIONAL, c OCTET STRING (SIZE(1..4)) DEFAULT '0A'H, ..., d BIT STRING, [[ e ENUMERATED {x, y, ...}, f NULLLIKE OPTIONAL ]] }
NULLLIKE ::= CHOICE { one INTEGER, two SEQUENCE OF A2, ... }
A2 ::= SEQUENCE (SIZE(1..maxN)) OF BOOLEAN
maxN INTEGER ::= 10
END
"""


@scenario("C14")
def c14(ctx):
    from scen import systematic, special
    rec, r = ctx.rec, ctx.rnd
    cases = list(systematic(r, ctx.shard, ctx.nshards, 1)) + ctx.mine(special(r))
    cases = r.sample(cases, min(len(cases), ctx.n(70, 400)))
    for i in range(ctx.n(40, 400)):
        t = some_type(r)
        cases.append((t, rand_value(r, t, 20)))
        bad = rand_illegal(r, t)
        if bad is not None:
            cases.append((t, bad))
    from scen import many_random
    xs = {}
    good = [(i, t, v) for i, (t, v) in enumerate(cases)]
    records = failures = 0
    import asn1PERser
    base = guarded(asn1PERser.parse_asn1_schema, LOGSCHEMA, seconds=120) if ctx.shard == 0 else None
    for k, (t, v) in enumerate(cases):
        for name in CONFIGS:
            if not ctx.full and (k + CONFIGS.index(name)) % 2:
                continue
            rec.case([t, v, name])
            with LogConfig(name) as lc:
                m = rec.build(1, t, v, k % 4)
                if m is not None:
                    x = rec.enc(1, m)
                    rec.dict(1, m)
                    if x is not None:
                        d = rec.dec(2, t, x)
                        if d is not None:
                            rec.dict(2, d)
                            rec.noise("str", str, d)
                        rec.dec(0, t, x[:len(x) // 2])
                        rec.dec(0, t, mutate(r, x))
            bad = lc.probe.failed + (["traceback"] if "--- Logging error ---" in lc.err.getvalue() else [])
            rec.flag("log-format", bool(bad), note=str(bad[:3]), cfg=name)
            records += lc.probe.records
            failures += len(bad)
    if ctx.shard == 0:
        for name in CONFIGS:
            rec.case(["parse", name])
            with LogConfig(name) as lc:
                got = guarded(asn1PERser.parse_asn1_schema, LOGSCHEMA, seconds=120)
            same = got == base or (got[0] == base[0] == "err")
            rec.flag("log-differs", not same, cfg=name)
            bad = lc.probe.failed + (["traceback"] if "--- Logging error ---" in lc.err.getvalue() else [])
            rec.flag("log-format", bool(bad), note=str(bad[:3]), cfg=name)
    rec.info["log_records_formatted"] = records
