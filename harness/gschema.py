"""Schemas: generation (as token lists), layout as text, and observation of generated modules."""
import hashlib
import json
import keyword

import asn1PERser
from asn import *
from gen import I, B, BS, OS, E, rand_value

KEYWORDS = set("DEFINITIONS AUTOMATIC TAGS BEGIN END BOOLEAN INTEGER BIT OCTET STRING ENUMERATED SEQUENCE CHOICE OF "
               "OPTIONAL DEFAULT SIZE MIN MAX TRUE FALSE".split())


# ---------------------------------------------------------------- tokens
def w(*words):
    out = []
    for s in words:
        for x in s.split():
            if x in KEYWORDS:
                out.append({"k": "w", "s": x})
            elif x[0].isalpha():
                out.append({"k": "T" if x[0].isupper() else "i", "s": x})
            elif x[0].isdigit() or x[0] == "-" and len(x) > 1:
                out.append({"k": "n", "s": x, "n": zi(int(x))})
            else:
                out.append({"k": "p", "s": x})
    return out


def num(i):
    return [{"k": "n", "s": str(i), "n": zi(i)}]


def bstr(bits):
    return [{"k": "b", "s": "'%s'B" % "".join(map(str, bits)), "x": list(bits)}]


def hstr(digits):
    return [{"k": "h", "s": "'%s'H" % "".join("%X" % d for d in digits), "x": list(digits)}]


def lit(r, t, v):
    """tokens of a literal for value v of type t"""
    k = t["k"]
    if k == "bool":
        return w("TRUE" if v["b"] else "FALSE")
    if k == "int":
        return num(pi(v["n"]))
    if k == "enum":
        return w(v["e"])
    if k == "bits":
        x = v["x"]
        if len(x) % 4 == 0 and r.random() < .5:
            return hstr([int("".join(map(str, x[i:i + 4])), 2) for i in range(0, len(x), 4)])
        return bstr(x)
    x = v["x"]
    if r.random() < .3:
        bits = [int(c) for o in x for c in format(o, "08b")]
        if r.random() < .4:                     # trailing zero bits need not be written, except a whole octet of them
            n = 0
            while bits and bits[-1] == 0 and n < 7:
                bits.pop()
                n += 1
        return bstr(bits)
    d = [int(c, 16) for c in bytes(x).hex()]
    if d and d[-1] == 0 and r.random() < .5:
        d = d[:-1]
    return hstr(d)


# ---------------------------------------------------------------- layout
def glue(a, b):
    """must tokens a and b be separated?"""
    word = lambda c: c.isalnum() or c == "-"
    return word(a["s"][-1]) and word(b["s"][0]) or a["s"][-1] == "." and b["s"][0] == "." or a["s"][-1] == "-" and b["s"][0] == "-" \
        or a["s"][-1] in "[]" and a["s"][-1] == b["s"][0]


def canonical(toks):
    out, depth = "", 0
    prev = None
    for t in toks:
        s = t["s"]
        if s == "}":
            depth -= 1
            out += "\n" + "    " * depth + s
        elif prev is not None and (prev["s"] in (",", "{", "BEGIN") and depth and prev["s"] != "BEGIN" and not _inline(out)):
            out += "\n" + "    " * depth + s
        else:
            out += (" " if prev is not None else "") + s
        if s == "{":
            depth += 1
        prev = t
    out = out.replace(" BEGIN ", " BEGIN\n") + "\n"
    return out


def _inline(out):
    line = out.rsplit("\n", 1)[-1]
    return line.count("(") != line.count(")")


COMMENTS = ["-- plain comment", "--", "-- END", "-- Foo ::= INTEGER (0..5)", "-- { a INTEGER, ... }", "-- it's 'quoted' \"text\"",
            "-- x INTEGER OPTIONAL,", "-- BEGIN ( [[ ]] )", "-- comment --", "--tight", "-- ---- ----", "-- a ::= b -- c", "-- ::=", "-- 'AB'H"]


def layout(r, toks, kind):
    """text for the tokens; kind names the style"""
    if kind == "canonical":
        return canonical(toks)
    nl = {"crlf": "\r\n", "cr": "\r"}.get(kind, "\n")
    out = ""
    if kind in ("wild", "comments", "crlf") and r.random() < .5:
        out = r.choice(["\n", "  ", "\t", nl + nl]) if kind != "comments" else r.choice(COMMENTS) + nl
    for i, t in enumerate(toks):
        s = t["s"]
        if t["k"] in "bh" and kind == "wild" and len(s) > 4 and r.random() < .5:
            j = r.randrange(2, len(s) - 2)
            s = s[:j] + r.choice([" ", "\n", "\t"]) + s[j:]
        if t["k"] == "n" and s[0] == "-" and kind == "wild" and r.random() < .3:
            s = "- " + s[1:]
        out += s
        if i + 1 == len(toks):
            break
        need = glue(t, toks[i + 1])
        if kind == "tight":
            out += " " if need else ""
        elif kind == "oneline":
            out += " "
        elif kind == "lines":
            out += "\n"
        elif kind == "tabs":
            out += r.choice(["\t", "\t\t", " \t"])
        elif kind == "crlf":
            out += r.choice([" ", nl, nl + nl, " " + nl + "  "])
        elif kind == "cr":
            out += r.choice([" ", nl])
        elif kind == "comments":
            out += r.choice([" ", " ", nl, " " + r.choice(COMMENTS) + nl, nl + r.choice(COMMENTS) + nl, ("" if not need and s[-1] != "-" else " ") + r.choice(COMMENTS) + nl])
        else:
            ws = r.choice(["", " ", "  ", "\n", "\t", "\n\n", " \n ", "\r\n", "   \t "])
            out += ws if ws or not need else " "
    if kind == "comments":
        out += r.choice([" ", "\n"]) + r.choice(COMMENTS)
    elif kind != "tight":
        out += r.choice(["", nl, nl + nl])
    return out


LAYOUTS = ["tight", "oneline", "lines", "tabs", "crlf", "cr", "comments", "wild"]


# ---------------------------------------------------------------- generation
TYPE_NAMES = ["Alpha", "Beta-Type", "Gamma3", "Delta-X-1", "Eps", "Zeta-List", "Eta", "Theta", "Iota-9", "Kappa", "Lambda", "Mu-Nu", "Pdu", "Header",
              "SETup", "ENDpoint", "DATEstamp", "BITmap", "INTEGERs", "Sequence-Number", "OPTIONALs", "SIZEd", "True", "None", "False", "RealWorld"]
VAL_NAMES = ["max-1", "lim", "c-two", "maxNumber", "loB", "defH", "pass", "lambda", "zeroB", "k9", "val-x", "not", "upTo"]
COMP_NAMES = ["a", "b1", "my-field", "data", "items", "values", "from", "class", "x-y-z", "len", "count", "clone", "id", "in", "is", "seqNo", "f7", "type",
              "name", "tagSet", "rootComponent", "element", "end", "size", "int", "list", "z", "components", "update", "keys"]
ENUM_NAMES = ["one", "two", "three-3", "red", "green", "true", "none", "max", "off", "on", "x1", "data", "from"]


def py_name(n):
    n = n.replace("-", "_")
    return n + "_" if keyword.iskeyword(n) else n


class G_:
    """generator of one schema; keeps for every definition the tokens and the type it denotes"""
    def __init__(self, r, ntypes=5, nvals=3, depth=2, mixed=False):
        self.r, self.depth = r, depth
        self.defs = []          # [name, kind, tokens, type, value]
        self.tn, self.vn = r.sample(TYPE_NAMES, min(ntypes + 2, len(TYPE_NAMES))), r.sample(VAL_NAMES, min(nvals, len(VAL_NAMES)))
        todo = ["t"] * ntypes + ["v"] * nvals
        r.shuffle(todo)
        for k in todo:
            if k == "t":
                n = self.tn.pop()
                toks, t = self.type(depth, top=True)
                self.defs.append([n, "type", w(n, "::=") + toks, t, None])
            elif self.vn:
                self.value(self.vn.pop())

    def types(self, pred=lambda t: True):
        return [(d[0], d[3]) for d in self.defs if d[1] == "type" and pred(d[3])]

    def vals(self, pred):
        return [(d[0], d[4]) for d in self.defs if d[1] == "val" and pred(d[3], d[4])]

    # ---- values
    def value(self, n):
        r = self.r
        k = r.choice(["int", "int", "int", "bool", "bits", "octs", "enum"])
        refs = self.types(lambda t: t["k"] == k)
        if r.random() < .3:                  # a type of its own
            tt, t = self.leaf()
            k = t["k"]
        elif refs and r.random() < .6 or k == "enum":
            if not refs:
                return
            tn, t = r.choice(refs)
            tt = w(tn)
        else:
            tt, t = {"int": (w("INTEGER"), TInt()), "bool": (w("BOOLEAN"), TBool), "bits": (w("BIT STRING"), TBits()), "octs": (w("OCTET STRING"), TOcts())}[k]
        if k == "int" and t["c"]["op"] == "none" and r.random() < .7:
            v = I(r.choice([0, 1, 2, 3, 5, 8, 16, 255, 256, 65535, -1, -10, 100000]))
        else:
            v = self.val_of(t)
        same = self.vals(lambda t2, v2: t2["k"] == k and v2 == v)
        other = self.vals(lambda t2, v2: t2["k"] == k) if not (k == "enum") else []
        if other and r.random() < .25:
            on, ov = r.choice(other)
            if self.fits(t, ov):
                self.defs.append([n, "val", w(n) + tt + w("::=", on), t, ov])
                return
        self.defs.append([n, "val", w(n) + tt + w("::=") + lit(r, t, v), t, v])

    def val_of(self, t):
        v = rand_value(self.r, t, cap=12)
        return v

    def fits(self, t, v):
        from gen import cmember
        k = t["k"]
        if v["k"] != k:
            return False
        if k == "int":
            return t["c"]["op"] == "none" or cmember(t["c"], pi(v["n"])) or t["ext"]
        if k in ("bits", "octs"):
            z = t["z"]
            return not z["has"] or z["ext"] or z["lo"] <= len(v["x"]) and (z["hi"] == -1 or len(v["x"]) <= z["hi"])
        return True

    # ---- constraints
    def end(self, x, lo=None, hi=None):
        """tokens for bound x, maybe through a constant of that value"""
        same = self.vals(lambda t, v: t["k"] == "int" and pi(v["n"]) == x)
        if same and self.r.random() < .8:
            return w(self.r.choice(same)[0])
        return num(x)

    def int_con(self):
        r = self.r
        consts = sorted({pi(v["n"]) for _, v in self.vals(lambda t, v: t["k"] == "int")})
        pool = [0, 1, -1, -5, 7, 10, 100, 255, 256, 65535, 65536, -32768, 4294967295, 1000000] + consts * 3
        a, b = sorted((r.choice(pool), r.choice(pool)))
        kind = r.randrange(8)
        if kind == 0:
            toks, c, b = self.end(a), rng(a, a), a
        elif kind == 1:
            toks, c = w("MIN ..") + self.end(b), rng(None, b)
        elif kind == 2:
            toks, c = self.end(a) + w(".. MAX"), rng(a, None)
        elif kind == 3 and r.random() < .3:
            toks, c = w("MIN .. MAX"), rng(None, None)
        else:
            toks, c = self.end(a) + w("..") + self.end(b), rng(a, b)
        ext = r.random() < .35
        if ext:
            toks += w(", ...")
            if r.random() < .4 and kind not in (2, 3):
                toks += w(",") + num(b + 5) + w("..") + num(b + 20)
        return w("(") + toks + w(")"), TInt(c, ext)

    def size_con(self):
        r = self.r
        consts = sorted({pi(v["n"]) for _, v in self.vals(lambda t, v: t["k"] == "int" and 0 <= pi(v["n"]) <= 300)})
        pool = [0, 1, 2, 3, 4, 8, 16, 17, 20, 64] + consts * 3
        a, b = sorted((r.choice(pool), r.choice(pool)))
        kind = r.randrange(7)
        if kind == 0:
            toks, z = self.end(a), (a, a)
            b = a
        elif kind == 1:
            toks, z = self.end(a) + w(".. MAX"), (a, None)
        elif kind == 2 and r.random() < .5:
            toks, z = w("MIN ..") + self.end(b), (0, b)
        else:
            toks, z = self.end(a) + w("..") + self.end(b), (a, b)
        ext = r.random() < .35
        inside = r.random() < .6
        tail = []
        if ext:
            tail = w(", ...")
            if kind != 1 and r.random() < .3:
                tail += w(",") + (w("SIZE (") if not inside else []) + num(b + 1) + w("..") + num(b + 4) + (w(")") if not inside else [])
        toks = w("( SIZE (") + toks + (tail if inside else []) + w(")") + ([] if inside else tail) + w(")")
        return toks, Z(z[0], z[1], ext)

    # ---- types
    def leaf(self):
        r = self.r
        k = r.choice(["bool", "int", "int", "bits", "octs", "enum"])
        if k == "bool":
            return w("BOOLEAN"), TBool
        if k == "int":
            if r.random() < .35:
                return w("INTEGER"), TInt()
            toks, t = self.int_con()
            return w("INTEGER") + toks, t
        if k == "enum":
            return self.enum()
        kw, mk = ("BIT STRING", TBits) if k == "bits" else ("OCTET STRING", TOcts)
        if r.random() < .35:
            return w(kw), mk()
        toks, z = self.size_con()
        return w(kw) + toks, mk(z)

    def enum(self):
        r = self.r
        names = r.sample(ENUM_NAMES, r.randint(1, 7))
        na = r.randint(0, min(3, len(names) - 1)) if r.random() < .5 else 0
        root, adds = names[:len(names) - na], names[len(names) - na:]
        ext = bool(adds) or r.random() < .3
        explicit = r.random() < .4
        used, rt, toks = set(), [], []
        xs = r.sample(range(0, 12), len(root))
        has = [explicit and r.random() < .6 for _ in root]
        used = {x for x, h in zip(xs, has) if h}
        nxt = 0
        for n, x, h in zip(root, xs, has):
            if not h:
                while nxt in used:
                    nxt += 1
                x = nxt
                used.add(x)
            rt.append((n, x))
            toks += (w(",") if toks else []) + w(n) + (w("(") + num(x) + w(")") if h else [])
        at, last = [], -1
        if ext:
            toks += w(", ...")
        for n in adds:
            x = last + 1
            while x in used:
                x += 1
            h = explicit and r.random() < .5
            if h:
                x += r.choice((0, 0, 1, 4))
                while x in used:
                    x += 1
            at.append((n, x))
            last = x
            toks += w(",", n) + (w("(") + num(x) + w(")") if h else [])
        return w("ENUMERATED {") + toks + w("}"), TEnum(rt, at, ext)

    def type(self, depth, top=False):
        """(tokens, denoted type)"""
        r = self.r
        refs = self.types()
        if refs and r.random() < (.15 if top else .4):
            n, t = r.choice(refs)
            return w(n), t
        if depth <= 0 or r.random() < (.35 if top else .45):
            return self.leaf()
        k = r.choice(["seq", "seq", "choice", "seqof"])
        if k == "seqof":
            et, e = self.type(depth - 1)
            if r.random() < .6:
                ct, z = self.size_con()
                return w("SEQUENCE") + ct + w("OF") + et, TSeqOf(e, z)
            return w("SEQUENCE OF") + et, TSeqOf(e)
        return self.seq(depth) if k == "seq" else self.choice(depth)

    def comp(self, n, depth):
        r = self.r
        toks, t = self.type(depth - 1)
        p = r.choice("mmod")
        if p == "d" and t["k"] not in ("bool", "int", "bits", "octs", "enum"):
            p = "o"
        if p == "o":
            return w(n) + toks + w("OPTIONAL"), C(n, t, "o")
        if p == "m":
            return w(n) + toks, C(n, t, "m")
        cands = [x for x in self.vals(lambda t2, v: t2["k"] == t["k"] and self.fits(t, v))
                 if t["k"] != "enum"] or [x for x in self.enum_vals(t)]
        if cands and r.random() < .7:
            cn, v = r.choice(cands)
            return w(n) + toks + w("DEFAULT", cn), C(n, t, "d", v)
        v = self.val_of(t)
        return w(n) + toks + w("DEFAULT") + lit(r, t, v), C(n, t, "d", v)

    def enum_vals(self, t):
        """constants of the very same enumeration, whose names are not items of it"""
        if t["k"] != "enum":
            return []
        items = {e["n"] for e in t["root"] + t["adds"]}
        return [(d[0], d[4]) for d in self.defs if d[1] == "val" and d[3] is t and d[0] not in items]

    def seq(self, depth):
        r = self.r
        names = r.sample(COMP_NAMES, 10)
        mk = lambda: self.comp(names.pop(), depth)
        parts, root, adds = [], [], []
        for _ in range(r.choice((0, 1, 1, 2, 2, 3))):
            toks, c = mk()
            parts.append(toks)
            root.append(c)
        ext = r.random() < .5
        if ext:
            parts.append(w("..."))
            for _ in range(r.choice((0, 0, 1, 2))):
                toks, c = mk()
                parts.append(toks)
                adds.append(S(c))
            for _ in range(r.choice((0, 0, 0, 1, 2))):
                g = [mk() for _ in range(r.choice((1, 1, 2)))]
                if len(names) < 3:
                    break
                toks = w("[[")
                for i, (x, c) in enumerate(g):
                    toks += (w(",") if i else []) + x
                parts.append(toks + w("]]"))
                adds.append(G(*[c for x, c in g]))
            if r.random() < .4:
                parts.append(w("..."))
                if len(names) > 2:
                    for _ in range(r.choice((0, 1, 1, 2))):
                        toks, c = mk()
                        parts.append(toks)
                        root.append(c)
        toks = w("SEQUENCE {")
        for i, x in enumerate(parts):
            toks += (w(",") if i else []) + x
        t = TSeq(root, adds, ext)
        return toks + w("}"), t

    def choice(self, depth):
        r = self.r
        names = r.sample(COMP_NAMES, 8)

        def mk():
            n = names.pop()
            toks, t = self.type(depth - 1)
            return w(n) + toks, C(n, t)
        parts, root, adds = [], [], []
        for _ in range(r.choice((1, 1, 2, 3))):
            toks, c = mk()
            parts.append(toks)
            root.append(c)
        ext = r.random() < .5
        if ext:
            parts.append(w("..."))
            for _ in range(r.choice((0, 0, 1, 2))):
                toks, c = mk()
                parts.append(toks)
                adds.append(S(c))
            for _ in range(r.choice((0, 0, 0, 1))):
                g = [mk() for _ in range(r.choice((1, 2)))]
                toks = w("[[")
                for i, (x, c) in enumerate(g):
                    toks += (w(",") if i else []) + x
                parts.append(toks + w("]]"))
                adds.append(G(*[c for x, c in g]))
            if r.random() < .3:
                parts.append(w("..."))
        toks = w("CHOICE {")
        for i, x in enumerate(parts):
            toks += (w(",") if i else []) + x
        return toks + w("}"), TChoice(root, adds, ext)


def module(defs, name="My-Module", tags=True):
    """tokens of a module; defs: list of token lists"""
    toks = w(name, "DEFINITIONS") + (w("AUTOMATIC TAGS") if tags else []) + w("::= BEGIN")
    for d in defs:
        toks = toks + d
    return toks + w("END")


def text(s):
    """a schema given as text in canonical spacing (tokens separated by blanks)"""
    toks = []
    for x in s.split():
        if x[0] == "'":
            x, k = x[1:-2], x[-1]
            toks += bstr([int(c) for c in x]) if k == "B" else hstr([int(c, 16) for c in x])
        else:
            toks += w(x)
    return toks


# ---------------------------------------------------------------- observation of a generated module
class Rec_(dict):
    """a namespace that records the order of definitions"""
    def __init__(self):
        dict.__init__(self)
        self.order = []

    def __setitem__(self, k, v):
        self.order.append(k)
        dict.__setitem__(self, k, v)


_header = None


def header_names():
    global _header
    if _header is None:
        ns = Rec_()
        exec(asn1PERser.parse_asn1_schema("M DEFINITIONS ::= BEGIN END"), ns)
        _header = set(ns)
    return _header


def run_module(code):
    ns = Rec_()
    ns["__name__"] = "generated"
    del ns.order[:]
    exec(compile(code, "generated.py", "exec"), ns)
    hd = header_names()
    order, started = [], False
    seen = set()
    for k in ns.order:
        if k in hd and k not in seen:           # first binding of a header name is the header's own import
            seen.add(k)
            continue
        if k.startswith("__"):
            continue
        order.append(k)
    return ns, order


def _e(x):
    if x is None:
        return {"inf": True, "n": zi(0)}
    if isinstance(x, float):
        return {"inf": True, "n": zi(0)}
    return {"inf": False, "n": zi(int(x))}


def observe(o, names):
    """structure of type object o (an instance or class); names: id(class) -> names in the module"""
    cls = o if isinstance(o, type) else o.__class__
    out = {"cls": names.get(id(cls), [])}
    ss = getattr(o, "subtypeSpec", None)
    ext = bool(getattr(ss, "extensionMarker", False))
    if issubclass(cls, BooleanType):
        out["k"] = "bool"
    elif issubclass(cls, EnumeratedType):
        root = [{"n": str(n), "x": int(x)} for n, x in o.enumerationRoot.items()]
        adds = [{"n": str(n), "x": int(x)} for n, x in o.extensionAddition.items()] if o.extensionAddition else []
        alls = [{"n": str(n), "x": int(x)} for n, x in o.namedValues.items()]
        out.update(k="enum", root=root, adds=adds, ext=ext)
        if sorted(map(str, alls)) != sorted(map(str, root + adds)):
            out["k"] = "enum with other namedValues"
    elif issubclass(cls, IntegerType):
        lo, hi = getattr(ss, "lowerEndpoint", None), getattr(ss, "upperEndpoint", None)
        c = NONE if ss is None or type(ss).__name__ == "NoConstraint" else {"op": "range", "lo": _e(lo), "hi": _e(hi)}
        out.update(k="int", c=c, ext=ext)
    elif issubclass(cls, (BitStringType, OctetStringType, SequenceOfType)):
        out["k"] = "bits" if issubclass(cls, BitStringType) else "octs" if issubclass(cls, OctetStringType) else "seqof"
        if ss is None or type(ss).__name__ == "NoConstraint":
            out["z"] = NOZ
        else:
            lo, hi = ss.lowerEndpoint, ss.upperEndpoint
            out["z"] = Z(int(lo or 0), None if hi is None else int(hi), ext)
        if out["k"] == "seqof":
            out["e"] = observe(o.componentType, names)
    elif issubclass(cls, (SequenceType, ChoiceType)):
        out.update(k="seq" if issubclass(cls, SequenceType) else "choice", ext=ext)

        def comps(nts):
            return [comp(nt) for nt in nts.namedTypes]

        def comp(nt):
            p = "o" if nt.isOptional else "d" if nt.isDefaulted else "m"
            c = {"n": str(nt.name), "p": p, "t": observe(nt.asn1Object, names), "d": ABSENT}
            if p == "d":
                c["d"] = project(nt.asn1Object, {"k": c["t"]["k"]})
            return c
        out["root"] = comps(o.rootComponent)
        adds = [{"g": False, "c": [c]} for c in (comps(o.extensionAddition) if o.extensionAddition is not None else [])]
        adds += [{"g": True, "c": comps(g)} for g in o.extensionAdditionGroups]
        out["adds"] = adds
        flat = [c["n"] for c in out["root"]] + [c["n"] for a in adds for c in a["c"]]
        if [str(nt.name) for nt in o.componentType.namedTypes] != flat:
            out["k"] += " with other componentType"
    else:
        out["k"] = "other"
    return out


def observe_module(defs, ns, order):
    """defs: [(ASN.1 name, 'type'|'val')] -> (order in ASN.1 names, [{n, o}])"""
    back = {py_name(n): n for n, k in defs}
    names = {}
    for n, k in defs:
        c = ns.get(py_name(n))
        if isinstance(c, type):
            names.setdefault(id(c), []).append(n)
    out = []
    for n, k in defs:
        x = ns.get(py_name(n))
        if k == "type":
            o = observe(x, names) if isinstance(x, type) else {"k": "no class", "cls": []}
        else:
            o = {"cls": [], "v": {"k": "no value"}}
            if x is not None and not isinstance(x, type):
                t = observe(x, names)
                o = {"cls": t["cls"], "v": project(x, {"k": t["k"]}), "t": t}
        out.append({"n": n, "o": o})
    return [back.get(k, "?" + k) for k in order], out


def digest(s):
    return hashlib.sha1(s.encode("utf-8")).hexdigest()[:16]
