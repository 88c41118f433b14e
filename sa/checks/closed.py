"""Closedness of composite curves and the flags of B-splines (part of P12)."""
import engine
from engine import C, TRUE, isc

SELF = ("deref", ("this",))


class K(engine.Check):
    max_depth = 3

    def __init__(self, P, L):
        self.P = P
        self.list = L
        self.found = []

    def joinkey(self, st):
        return st.prop

    def inline(self, E, st, c, callee):
        return not callee.virt and callee.nel < 300 and callee.cls == "IGES_ENTITY_102"

    def place(self, E, st, v):
        """which item of the list of curves v is: 0 the first, 1 the last"""
        v = E.strip(v) if v is not None else None
        while v and v[0] in ("v", "ref", "op") and v[0] != "op":
            v = v[1]
        if v and v[0] == "elem" and v[1] == ("fld", SELF, self.list):
            i = v[2]
            if i in (0, ("c", 0)):
                return 0
            if i == "last" or i == "rb" or i == ("c", "last"):
                return 1
            if isinstance(i, tuple) and i[0] == "iter":
                p = i[2]
                return 0 if p == 0 else 1 if p in ("rb", "last") else None
        return None

    def on_call(self, E, st, c):
        if c.short in ("GetStartPoint", "GetEndPoint") and c.objval is not None and len(c.args) == 2:
            E.opaque_call(st, c)
            out = c.argloc(st, 0)
            a, b = st, st.copy()
            a.prop = frozenset({x for x in a.prop if x[:2] != ("pt", out)} | {("pt", out, ("deref", E.load(st, out)), c.short, self.place(E, st, c.objval), c.args[1] == TRUE or isc(c.args[1]) and bool(c.args[1][1]))})
            b.prop = frozenset(b.prop | {("fail",)})
            return [(a, C(True)), (b, C(False))]
        if c.short == "GetNSegments" and c.objval is not None:
            E.opaque_call(st, c)
            a, b = st, st.copy()
            a.prop = frozenset(a.prop | {("seg",)})
            b.prop = frozenset(b.prop | {("noseg",)})
            return [(a, C(1)), (b, C(0))]
        if c.short == "GetEntityType" and c.objval is not None:
            w = self.place(E, st, c.objval)
            a, b = st, st.copy()
            a.prop = frozenset(a.prop | {("arc", w)})
            b.prop = frozenset(b.prop | {("curve", w)})
            return [(a, C(100)), (b, C(102)), ]
        if c.name == "PointMatches" and len(c.args) == 3:
            pts = []
            for i in (0, 1):
                ls = (c.argloc(st, i), c.args[i])
                pts.append([x[3:] for x in st.prop if x[0] == "pt" and (x[1] in ls or x[2] in ls)])
            good = all(len(p) == 1 for p in pts) and {p[0] for p in pts} == {("GetStartPoint", 0, True), ("GetEndPoint", 1, True)}
            tol = not isc(c.args[2]) or E.truth(st, ("v", ("fld", SELF, "IGES_ENTITY::parent"))) is False
            a, b = st, st.copy()
            a.prop = frozenset(a.prop | {("match", good, True, tol)})
            b.prop = frozenset(b.prop | {("match", good, False, tol)})
            return [(a, C(True)), (b, C(False))]
        return None


def composite(P, rep, R):
    cls = "IGES_ENTITY_102"
    f = P.method(cls, "IsClosed")
    L = [q for q, t in P.fields(cls, True) if "list" in t and "IGES_CURVE" in t]
    if f is None or f.cls != cls or len(L) != 1:
        rep.undecided(R, cls + "::IsClosed")
        return
    rep.fn(f)
    ck = K(P, L[0])
    E = engine.Engine(P, ck, cls)
    where = "%s:%d" % (f.file, f.line)
    st0 = engine.State()
    st0.prop = frozenset()
    res = E.run(f, st0)
    if E.limit_hit:
        rep.undecided(R, f.sig)
        return
    for st, rv, th in res:
        m = [x for x in st.prop if x[0] == "match"]
        v = rv if rv is not None and isc(rv) else None
        r = bool(v[1]) if v is not None else None
        if r is None:
            t = E.truth(st, rv) if rv is not None else None
            r = t
        if r is None:
            rep.undecided(R, f.sig + ": result")
            return
        size = E.iv(st, E.size(st, ("fld", SELF, L[0])))
        if any(not x[3] for x in m):
            rep.violate(R, f.sig + " resolution", "%s compares points with a fixed tolerance although the model defines one" % f.name, where)
            return
        if r and ("match", True, True, True) not in m:
            rep.violate(R, f.sig, "%s reports a closed curve without the start of its first and the end of its last curve having been found equal" % f.name, where)
            return
        one = size[0] == size[1] == 1 and not any(x == ("arc", 0) for x in st.prop)
        empty = size[0] == size[1] == 0
        noseg = ("seg",) not in st.prop and ("noseg",) in st.prop
        if not r and ("match", True, True, True) in m and not (one or noseg):
            rep.violate(R, f.sig, "%s reports an open curve although its ends meet" % f.name, where)
            return
        if not r and not m and not (one or empty or noseg or ("fail",) in st.prop):
            rep.violate(R, f.sig, "%s reports an open curve without comparing its ends" % f.name, where)
            return
        if not r and not m and ("seg",) in st.prop and not (one or empty or ("fail",) in st.prop):
            rep.violate(R, f.sig, "%s reports an open curve without comparing its ends" % f.name, where)
            return
        if m and not all(x[1] for x in m):
            rep.violate(R, f.sig, "%s compares other points than the start of its first and the end of its last curve" % f.name, where)
            return
        rep.ok(R)


# flag getters: the parameter item (1 = first after the entity number) that holds the flag, and whether the answer is its negation
FLAGS = {
    "IGES_ENTITY_126": {"IsPlanar": (3, False), "IsClosed": (4, False), "IsRational": (5, True), "isPeriodic": (6, False)},
    "IGES_ENTITY_128": {"isClosed1": (5, False), "isClosed2": (6, False), "IsRational": (7, True), "isPeriodic1": (8, False), "isPeriodic2": (9, False)},
}
# GetNURBSData: what each parameter receives
DATA = {
    "IGES_ENTITY_126": ["n0", "o2", "k0", "c", "-5", "+4", "+6", "t0", "t1"],
    "IGES_ENTITY_128": ["n0", "n1", "o3", "o4", "k0", "k1", "c", "-7", "+5", "+6", "+8", "+9", "t0", "t1", "t2", "t3"],
}


class Plain(engine.Check):
    max_depth = 2

    def inline(self, E, st, c, callee):
        return not callee.virt and callee.nel < 100


def flags(P, rep, R):
    from checks import algebra, layout
    for cls in sorted(FLAGS):
        seq, end, tail = algebra.items(P, cls)

        def member(i):
            return ("fld", SELF, algebra.field(P, cls, seq[i])[2])

        def run(f, pos=None, val=None, order=None):
            E = engine.Engine(P, Plain(), cls)
            st = engine.State()
            st.prop = frozenset()
            for i in range(1, len(seq)):
                m = member(i) if not seq[i][0].endswith("[]") else None
                if m is not None and pos is not None:
                    st.env[m] = C(val if i == pos else 1 - val)
            if order is not None:
                st.env[member(order)] = C(3)
            res = E.run(f, st)
            if E.limit_hit:
                raise algebra.Undecided("limit")
            return E, res
        for name, (pos, neg) in sorted(FLAGS[cls].items()):
            f = P.method(cls, name)
            if f is None or f.cls != cls:
                rep.undecided(R, cls + "::" + name)
                continue
            rep.fn(f)
            for v in (0, 1):
                E, res = run(f, pos, v)
                got = {E.truth(st, rv) for st, rv, th in res if not th}
                if got == {bool(v) != neg}:
                    rep.ok(R)
                elif None in got or not got:
                    rep.undecided(R, f.sig)
                else:
                    rep.violate(R, f.sig, "%s answers %s where the flag in parameter %d is %d" % (f.name, got.pop(), pos, v), "%s:%d" % (f.file, f.line))
        f = P.method(cls, "GetNURBSData")
        if f is None or f.cls != cls or len(f.params) != len(DATA[cls]):
            rep.undecided(R, cls + "::GetNURBSData")
            continue
        rep.fn(f)
        W = layout.extract(P, cls)[0]
        arrays = {l for n in W.nodes.values() if n.kind != "extras" for l in n.labels if l.endswith("[]")}
        first, last = seq[-1][0], tail[0][0]
        knots = [first] + sorted(arrays - {first, last})
        counts = [q for q, t in P.fields(cls, False) if q.split("::")[-1].startswith("nCoeff") and t == "int"]
        ends = [("fld", SELF, algebra.field(P, cls, t)[2]) for t in tail if not t[0].endswith("[]")]
        where = "%s:%d" % (f.file, f.line)
        base = {"n": lambda i: ("fld", SELF, counts[i]), "t": lambda i: ends[i],
                "k": lambda i: ("fld", SELF, "%s::%s" % (cls, knots[i][:-2])), "c": lambda i: ("fld", SELF, "%s::%s" % (cls, last[:-2]))}
        bad = None
        for val in (0, 1):
            for pos in range(len(DATA[cls])):
                d = DATA[cls][pos]
                item = int(d[1:]) if d[0] in "+-" else None
                if item is None and val:
                    continue
                E, res = run(f, item, val, int(d[1:]) if d[0] == "o" else None)
                good = [st for st, rv, th in res if not th and E.truth(st, rv) is not False]
                if not good:
                    bad = "never succeeds"
                for st in good:
                    got = st.env.get(("deref", ("p", pos, f.params[pos]["n"])))
                    if item is not None:
                        t = E.truth(st, got) if got is not None else None
                        ok = t is not None and t == (bool(val) != (d[0] == "-"))
                    elif d[0] == "o":
                        ok = got == C(4)
                    else:
                        want = base[d[0]](int(d[1:] or 0))
                        ok = got == ("v", want) or got is not None and got == E.load(st, want)
                    if not ok:
                        bad = "does not give parameter %s the value the entity holds" % f.params[pos]["n"]
                if bad:
                    break
                rep.ok(R)
            if bad:
                break
        if bad:
            rep.violate(R, f.sig, "%s %s" % (f.name, bad), where)
