"""Bridge between the specification's JSON types/values (see spec/Per.tla) and the real
asn1PERser classes. Only the public surface a user has is used here."""
import signal
from contextlib import contextmanager

from pyasn1.type.namedtype import NamedType, OptionalNamedType, DefaultedNamedType
from pyasn1.type.namedval import NamedValues
from pyasn1.type.univ import noValue
import asn1PERser
from asn1PERser.classes.data.builtin import (IntegerType, BooleanType, EnumeratedType, BitStringType,
                                             OctetStringType, SequenceType, SequenceOfType, ChoiceType)
from asn1PERser.classes.types.type import AdditiveNamedTypes
from asn1PERser.classes.types.constraint import (MIN, MAX, ExtensionMarker, SequenceOfValueSize, ValueRange,
                                                 SingleValue, ValueSize, ConstraintOr, ConstraintAnd)


# ---------------------------------------------------------------- integers
def zi(i):
    m = abs(i)
    return {"s": 1 if i < 0 else 0, "m": list(m.to_bytes((m.bit_length() + 7) // 8, "big"))}


def pi(z):
    n = int.from_bytes(bytes(z["m"]), "big")
    return -n if z["s"] else n


# ---------------------------------------------------------------- types
def bound(x):
    return {"inf": True, "n": zi(0)} if x is None else {"inf": False, "n": zi(x)}


def rng(lo, hi):
    return {"op": "range", "lo": bound(lo), "hi": bound(hi)}


def single(*vs):
    return {"op": "single", "vs": [zi(v) for v in vs]}


def union(*a):
    return {"op": "or", "args": list(a)}


def inter(*a):
    return {"op": "and", "args": list(a)}


NONE = {"op": "none"}
NOZ = {"has": False, "lo": 0, "hi": -1, "ext": False}


def Z(lo, hi, ext=False):
    return {"has": True, "lo": lo, "hi": -1 if hi is None else hi, "ext": ext}


def TInt(c=None, ext=False):
    return {"k": "int", "c": c or NONE, "ext": ext}


TBool = {"k": "bool"}


def TBits(z=None):
    return {"k": "bits", "z": z or NOZ}


def TOcts(z=None):
    return {"k": "octs", "z": z or NOZ}


def TEnum(root, adds=None, ext=False):
    """root/adds: list of names or (name, number)"""
    def norm(l, start):
        out = []
        for i, e in enumerate(l):
            out.append({"n": e, "x": start + i} if isinstance(e, str) else {"n": e[0], "x": e[1]})
        return out
    r = norm(root, 0)
    return {"k": "enum", "root": r, "adds": norm(adds or [], max([e["x"] for e in r]) + 1), "ext": ext or bool(adds)}


def TSeqOf(e, z=None):
    return {"k": "seqof", "z": z or NOZ, "e": e}


ABSENT = {"k": "none"}


def C(n, t, p="m", d=ABSENT):
    return {"n": n, "t": t, "p": p, "d": d}


def TSeq(root, adds=None, ext=False):
    return {"k": "seq", "root": root, "adds": adds or [], "ext": ext or bool(adds)}


def TChoice(root, adds=None, ext=False):
    return {"k": "choice", "root": root, "adds": adds or [], "ext": ext or bool(adds)}


def S(c):
    return {"g": False, "c": [c]}


def G(*cs):
    return {"g": True, "c": list(cs)}


def add_comps(t):
    return [c for a in t["adds"] for c in a["c"]]


def all_comps(t):
    return t["root"] + add_comps(t)


# ---------------------------------------------------------------- classes
def _end(b, default):
    return default if b["inf"] else pi(b["n"])


def _constraint(c, ext):
    if c["op"] == "range":
        return ValueRange(_end(c["lo"], MIN), _end(c["hi"], MAX), extensionMarker=ext)
    if c["op"] == "single":
        return SingleValue(ext, *[pi(v) for v in c["vs"]])
    args = [_constraint(a, False) for a in c["args"]]
    return (ConstraintOr if c["op"] == "or" else ConstraintAnd)(ext, *args)


def _size(cls, z):
    return cls(z["lo"], MAX if z["hi"] == -1 else z["hi"], extensionMarker=z["ext"])


def _named(c, name_of):
    cls = make_class(c["t"], name_of)
    if c.get("p") == "o":
        return OptionalNamedType(c["n"], cls())
    if c.get("p") == "d":
        return DefaultedNamedType(c["n"], build(cls, c["t"], c["d"]))
    return NamedType(c["n"], cls())


def make_class(t, name_of=lambda t: "T"):
    """The class a user (or the generator) would write for type t. name_of gives its __name__."""
    k = t["k"]
    body = {}
    if k == "bool":
        base = BooleanType
    elif k == "int":
        base = IntegerType
        if t["c"]["op"] != "none":
            body["subtypeSpec"] = _constraint(t["c"], t["ext"])
    elif k in ("bits", "octs"):
        base = BitStringType if k == "bits" else OctetStringType
        if t["z"]["has"]:
            body["subtypeSpec"] = _size(ValueSize, t["z"])
    elif k == "enum":
        base = EnumeratedType
        root = NamedValues(*[(e["n"], e["x"]) for e in t["root"]])
        body["enumerationRoot"] = root
        body["namedValues"] = root
        if t["ext"]:
            body["subtypeSpec"] = ExtensionMarker(True)
        if t["adds"]:
            body["extensionAddition"] = NamedValues(*[(e["n"], e["x"]) for e in t["adds"]])
            body["namedValues"] = root + body["extensionAddition"]
    elif k == "seqof":
        base = SequenceOfType
        if t["z"]["has"]:
            body["subtypeSpec"] = _size(SequenceOfValueSize, t["z"])
        body["componentType"] = make_class(t["e"], name_of)()
    else:
        base = SequenceType if k == "seq" else ChoiceType
        if t["ext"]:
            body["subtypeSpec"] = ExtensionMarker(True)
        comp = body["rootComponent"] = AdditiveNamedTypes(*[_named(c, name_of) for c in t["root"]])
        singles = [a["c"][0] for a in t["adds"] if not a["g"]]
        groups = [a["c"] for a in t["adds"] if a["g"]]
        assert [a["g"] for a in t["adds"]] == [False] * len(singles) + [True] * len(groups)
        if singles:
            body["extensionAddition"] = AdditiveNamedTypes(*[_named(c, name_of) for c in singles])
            comp = comp + body["extensionAddition"]
        if groups:
            body["extensionAdditionGroups"] = [AdditiveNamedTypes(*[_named(c, name_of) for c in g]) for g in groups]
            comp = comp + body["extensionAdditionGroups"]
        body["componentType"] = comp
    return type(name_of(t), (base,), body)


# ---------------------------------------------------------------- values -> objects
def native(t, v):
    k = t["k"]
    if k == "bool":
        return v["b"]
    if k == "int":
        return pi(v["n"])
    if k == "enum":
        return v["e"]
    if k == "bits":
        return "".join(map(str, v["x"]))
    if k == "octs":
        return bytes(v["x"])
    raise ValueError(k)


def simple(cls, t, v, how=0):
    k = t["k"]
    x = native(t, v)
    if k == "bits":
        return cls(binValue=x) if how % 2 == 0 or not x else cls("'%s'B" % x)
    if k == "octs" and how % 2:
        return cls(hexValue=x.hex())
    return cls(x)


def _proto(obj, name):
    ct = obj.componentType
    return ct.getTypeByPosition(ct.getPositionByName(name))


def build(cls, t, v, how=0):
    """A message of class cls holding v. how: 0 assign objects, 1 fill in place/natives, 2 mixed"""
    k = t["k"]
    if k in ("bool", "int", "enum", "bits", "octs"):
        return simple(cls, t, v, how)
    msg = cls()
    fill(msg, t, v, how)
    return msg


def fill(msg, t, v, how=0):
    k = t["k"]
    if k == "seqof":
        msg.clear()
        et = t["e"]
        for i, x in enumerate(v["l"]):
            ec = msg.componentType
            if et["k"] in ("bool", "int", "enum", "bits", "octs") and how == 1:
                msg.append(simple(ec.__class__, et, x) if et["k"] == "bits" else native(et, x))
            elif how == 2:
                msg.setComponentByPosition(i, build(ec.__class__, et, x, how))
            elif how == 3:
                msg.extend([build(ec.__class__, et, x, how)])
            else:
                msg.append(build(ec.__class__, et, x, how))
        return
    if k == "choice":
        comps = {c["n"]: c["t"] for c in all_comps(t)}
        if v["n"] == "":
            return
        put(msg, comps.get(v["n"]), v["n"], v["v"], how)
        return
    comps = {c["n"]: c["t"] for c in all_comps(t)}
    if not v["c"]:
        msg.clear()
    order = list(v["c"])
    if how in (2, 3):
        order = order[::-1]
    for e in order:
        put(msg, comps.get(e["n"]), e["n"], e["v"], how)


def put(msg, ct, name, v, how):
    if ct is None:                    # unknown component: a user would assign some value
        msg[name] = native({"k": v["k"]}, v)
        return
    if v["k"] != ct["k"]:
        ct = {"k": v["k"]}
        msg[name] = native(ct, v)
        return
    if ct["k"] in ("bool", "int", "enum", "bits", "octs"):
        if how == 1 and ct["k"] != "bits":
            msg[name] = native(ct, v)
        elif how == 2:
            msg.setComponentByName(name, simple(_proto(msg, name).__class__, ct, v, 1))
        else:
            msg[name] = simple(_proto(msg, name).__class__, ct, v)
        return
    if how == 1:                       # fill in place
        if isinstance(msg, ChoiceType):
            msg.setComponentByName(name)
        sub = msg[name]
        fill(sub, ct, v, how)
        return
    sub = build(_proto(msg, name).__class__, ct, v, how)
    msg[name] = sub


# ---------------------------------------------------------------- objects -> values

def project(obj, t):
    """The value obj holds, as JSON. DEFAULT components are read as a user reads them."""
    k = t["k"]
    if k == "seqof" and obj is not None and obj is not noValue and not obj.isValue and not len(obj):
        return {"k": k, "l": []}
    if obj is None or obj is noValue or not obj.isValue and k not in ("seq", "choice"):
        return ABSENT
    if k == "bool":
        return {"k": k, "b": bool(obj)}
    if k == "int":
        return {"k": k, "n": zi(int(obj))}
    if k == "enum":
        return {"k": k, "e": str(obj.namedValues[int(obj)])}
    if k == "bits":
        return {"k": k, "x": [int(b) for b in tuple(obj)]}
    if k == "octs":
        return {"k": k, "x": list(obj.asNumbers())}
    if k == "seqof":
        return {"k": k, "l": [project(e, t["e"]) for e in obj]}
    if k == "choice":
        try:
            name = obj.getName()
        except Exception:
            return {"k": k, "n": "", "v": ABSENT}
        ct = [c["t"] for c in all_comps(t) if c["n"] == name]
        return {"k": k, "n": str(name), "v": project(obj.getComponent(), ct[0]) if ct else ABSENT}
    out = []
    for c in all_comps(t):
        if c["p"] == "d":
            x = obj[c["n"]]
        else:
            x = obj.getComponentByName(c["n"], instantiate=False)
        if x is noValue or x is None or not x.isValue:
            continue
        out.append({"n": c["n"], "v": project(x, c["t"])})
    known = {c["n"] for c in all_comps(t)}
    for n in obj.componentType.keys():
        if n not in known:
            out.append({"n": str(n), "v": ABSENT})
    return {"k": k, "c": out}


def project_dict(d):
    if isinstance(d, bool):
        return {"d": "bool", "b": d}
    if isinstance(d, int):
        return {"d": "int", "n": zi(int(d))}
    if isinstance(d, str):
        return {"d": "str", "s": str(d)}
    if isinstance(d, list):
        return {"d": "list", "l": [project_dict(x) for x in d]}
    if isinstance(d, dict):
        return {"d": "map", "m": [{"n": str(n), "v": project_dict(x)} for n, x in d.items()]}
    return {"d": "other", "s": repr(type(d))}


# ---------------------------------------------------------------- guarded calls
class Hang(BaseException):
    pass


@contextmanager
def limit(seconds):
    def on(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def guarded(fn, *a, seconds=30, **kw):
    """('ok', result) | ('err', text) | ('hang', '')"""
    try:
        with limit(seconds):
            return "ok", fn(*a, **kw)
    except Hang:
        return "hang", "no result after %ss" % seconds
    except Exception as e:
        try:
            return "err", "%s: %s" % (type(e).__name__, str(e)[:200])
        except Exception:
            return "err", type(e).__name__


def encode(msg):
    return bytes(asn1PERser.encode(msg))


def decode(x, spec):
    return asn1PERser.decode(per_stream=bytes(x), asn1Spec=spec)
