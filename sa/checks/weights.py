"""Line weights of merged models and quotients of integers (part of P04)."""
import engine
from engine import C, isc


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from walk(x)


def factor(t, num, den, sign=1):
    """a product as members in the numerator and in the denominator"""
    if t[0] == "op" and t[1] in ("*", "/") and len(t) == 4:
        return factor(t[2], num, den, sign) and factor(t[3], num, den, sign if t[1] == "*" else -sign)
    if t[0] == "op" and t[1] in ("i2f", "cast", "f2i") and len(t) == 3 and t[1] != "f2i":
        return factor(t[2], num, den, sign)
    if isc(t):
        if t[1] != 1:
            (num if sign > 0 else den).append(t[1])
        return True
    if t[0] == "op" or t[0] == "j":
        return False
    for x in walk(t):
        if x[0] == "fld":
            n = x[2].split("::")[-1]
            own = any(y == ("this",) for y in walk(x[1]))
            (num if sign > 0 else den).append((n, own if n == "maxLinewidthGrad" else None))
            return True
    return False


class W(engine.Check):
    max_depth = 2

    def __init__(self, member):
        self.member = member
        self.seen = []

    def inline(self, E, st, c, g):
        return not g.virt and g.nel < 60 and not g.name.startswith("IGES_ENTITY")

    def on_store(self, E, st, loc, val, func, line):
        if loc[0] == "fld" and loc[2] == self.member:
            self.seen.append((val, line))


def weights(P, rep):
    R = "unit-weight"
    f = P.method("IGES", "Export")
    rep.fn(f)
    w = W("IGES_ENTITY::lineWeightNum")
    E = engine.Engine(P, w, "IGES")
    st = engine.State()
    st.prop = frozenset()
    E.run(f, st)
    conv, unknown = 0, 0
    for val, line in set(w.seen):
        t = val
        while t[0] == "op" and t[1] in ("f2i", "cast", "i2f") and len(t) == 3:
            t = t[2]
        num, den = [], []
        if t[0] == "j" or isc(t):
            continue
        if not factor(t, num, den):
            unknown += 1
            continue
        if (sorted(map(str, num)), sorted(map(str, den))) == ([str(("lineWeightNum", None))], []):
            continue
        if sorted(map(str, num)) == sorted(map(str, [("lineWeightNum", None), ("maxLinewidthGrad", False)])) and den == [("maxLinewidthGrad", True)]:
            conv += 1
            continue
        rep.violate(R, "factor", "Export() does not convert line weights by the ratio of the two models' gradations", "%s:%d" % (f.file, line))
        return
    if conv:
        rep.ok(R, conv)
    elif unknown or E.limit_hit:
        rep.undecided(R, f.sig)
    else:
        rep.violate(R, "none", "Export() does not convert line weights to the gradations of the other model", "%s:%d" % (f.file, f.line))


def quotients(P, rep):
    R = "unit-quotient"
    real = ("double", "float", "long double", "const double", "const float")

    def whole(t):
        return t.replace("const ", "").replace("unsigned ", "") in ("int", "long", "short", "char", "unsigned", "size_t", "unsigned long", "long long")
    for f in sorted(P.funcs.values(), key=lambda f: f.sig):
        qs = [i for i, n in f.x.items() if n[0] == "bin" and n[3] == "/" and whole(n[2])]
        if not qs:
            continue
        rep.fn(f)
        for i in qs:
            keep = {i}
            grow = True
            bad = False
            while grow:
                grow = False
                for j, n in f.x.items():
                    if j in keep:
                        continue
                    if n[0] == "cast" and n[4] in keep:
                        if n[2] in real:
                            bad = True
                        keep.add(j)
                        grow = True
                    elif n[0] in ("bin", "asg") and len(n) > 5 and (n[5] in keep or n[0] == "bin" and n[4] in keep):
                        if n[2] in real:
                            bad = True
                        elif n[0] == "bin" and n[3] in ("+", "-", "*"):
                            keep.add(j)
                            grow = True
            for b in f.blocks.values():
                for e in b["e"]:
                    if isinstance(e, list) and e[0] == "decl" and e[3] in keep and f.v[e[2]]["t"] in real:
                        bad = True
            if bad:
                rep.violate(R, "%s:%d" % (f.sig, qs.index(i)), "%s uses the whole-number quotient of two integers as a real number" % f.name, "%s:%d" % (f.file, f.x[i][1]))
            else:
                rep.ok(R)
