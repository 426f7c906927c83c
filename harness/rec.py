"""Recording of real calls as trace lines for spec/SessionTrace.tla."""
import json

from asn import *


def broken(e):
    def cls(*a, **k):
        raise e
    return cls


class Rec:
    def __init__(self):
        self.types, self.index, self.classes = [], {}, {}
        self.events, self.case_of = [], []
        self.cases = 0
        self.info = {}
        self.distinct = set()
        self.name = lambda t: "T"

    # ---- types
    def t(self, ty):
        key = json.dumps(ty, sort_keys=True)
        if key not in self.index:
            self.types.append(ty)
            self.index[key] = len(self.types)
        return self.index[key]

    def cls(self, ty, fresh=False):
        i = self.t(ty)
        if fresh or i not in self.classes:
            try:
                self.classes[i] = make_class(ty, self.name)
            except Exception as e:                      # every use of the class then fails with this error
                self.classes[i] = broken(e)
        return self.classes[i]

    # ---- events
    def ev(self, op, **kw):
        kw["op"] = op
        self.events.append(kw)
        self.case_of.append(self.cases)

    def case(self, key=None):
        self.cases += 1
        if key is not None:
            self.distinct.add(hash(key if isinstance(key, str) else json.dumps(key, sort_keys=True)))
        self.ev("reset")

    # ---- calls
    def build(self, h, ty, v, how=0, cls=None):
        cls = cls or self.cls(ty)
        r, m = guarded(build, cls, ty, v, how)
        self.ev("build", h=h, t=self.t(ty), v=v, r=r, note="" if r == "ok" else str(m))
        return m if r == "ok" else None

    def enc(self, h, m):
        r, x = guarded(encode, m)
        self.ev("enc", h=h, r=r, x=list(x) if r == "ok" else [], note="" if r == "ok" else x)
        return x if r == "ok" else None

    def _dec(self, op, ty, x, spec, h, **kw):
        cls = self.cls(ty)
        r, d = guarded(lambda: decode(x, cls() if spec is None else spec))
        v, note = ABSENT, "" if r == "ok" else d
        if r == "ok":
            r2, v = guarded(project, d, ty)
            if r2 != "ok":
                note, v = "unreadable result: " + v, ABSENT
        self.ev(op, h=h, t=self.t(ty), x=list(x), r=r, v=v, note=note, **kw)
        return d if r == "ok" else None

    def dec(self, h, ty, x, spec=None):
        return self._dec("dec", ty, x, spec, h)

    def back(self, h, of, ty, x, spec=None):
        return self._dec("back", ty, x, spec, h, of=of)

    def ver(self, h, of, ty, x, spec=None):
        return self._dec("ver", ty, x, spec, h, of=of)

    def same(self, m, y):
        r, x = guarded(encode, m)
        self.ev("same", r=r, x=list(x) if r == "ok" else [], y=list(y), note="" if r == "ok" else x)

    def cuts(self, ty, x, points=None):
        acc = []
        cls = self.cls(ty)
        for n in (range(len(x)) if points is None else points):
            r, d = guarded(lambda: decode(x[:n], cls()))
            if r != "err":
                acc.append(n)
        self.ev("cuts", t=self.t(ty), x=list(x), acc=acc)
        return len(x) if points is None else len(points)

    def dict(self, h, m):
        r, d = guarded(m.to_dict)
        self.ev("dict", h=h, r=r, d=project_dict(d) if r == "ok" else {"d": "none"}, note="" if r == "ok" else d)

    def view(self, h, m, ty):
        r, v = guarded(project, m, ty)
        self.ev("view", h=h, r=r, v=v if r == "ok" else ABSENT, note="" if r == "ok" else v)

    def noise(self, what, fn, *a):
        r, d = guarded(fn, *a)
        self.ev("noise", what=what, r=r)
        return d if r == "ok" else None

    def flag(self, kind, n, **kw):
        self.ev("flag", kind=kind, n=1 if n else 0, **kw)

    # ---- files
    def chunks(self, max_lines=6000, max_bytes=25_000_000):
        """lists of event indexes, split at resets"""
        out, cur, size = [], [], 0
        for i, e in enumerate(self.events):
            s = len(e.get("x", ())) * 4 + 200
            if e["op"] == "reset" and cur and (len(cur) > max_lines or size > max_bytes):
                out.append(cur)
                cur, size = [], 0
            cur.append(i)
            size += s
        if cur:
            out.append(cur)
        return out
