"""Geometry algebra and curve evaluation, decided in the polynomial domain (sa/poly.py)."""
import itertools
import poly
from poly import A, K, ONE, ZERO, Poly, Undecided, leaves

SELF = ("deref", ("this",))
PT, MX, TR = "MCAD_POINT", "MCAD_MATRIX", "MCAD_TRANSFORM"
KIND = {PT: "p", MX: "m", TR: "t"}


# what a construct outside of the interpreted fragment may raise
INTERNAL = (Undecided, KeyError, TypeError, IndexError, AttributeError, ValueError, RecursionError)


def kind(t):
    b = poly.bare(t)
    if b in KIND:
        return KIND[b]
    if b in ("double", "float", "int"):
        return "s"
    return None


# ---- the specification: vectors of polynomials in the order of the members
def mm(a, b):
    return [sum((a[3 * i + k] * b[3 * k + j] for k in range(3)), ZERO) for i in range(3) for j in range(3)]


def mv(a, v):
    return [sum((a[3 * i + k] * v[k] for k in range(3)), ZERO) for i in range(3)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def spec(op, ka, a, kb, b):
    """value of a op b, or None where the library defines none"""
    if op == "*":
        if ka == "s" and kb in "pmt":
            return [x * a[0] for x in b]
        if kb == "s" and ka in "pmt":
            return [x * b[0] for x in a]
        if (ka, kb) == ("m", "m"):
            return mm(a, b)
        if (ka, kb) == ("m", "p"):
            return mv(a, b)
        if (ka, kb) == ("t", "t"):
            return mm(a[:9], b[:9]) + add(mv(a[:9], b[9:]), a[9:])
        if (ka, kb) == ("t", "p"):
            return add(mv(a[:9], b), a[9:])
    if op in "+-" and ka == kb and ka in "pm":
        return add(a, b) if op == "+" else sub(a, b)
    return None


def ordered(P, k, loc):
    """the locations of an object in the order of the specification"""
    t = {"p": PT, "m": MX, "t": TR}[k]
    ls = leaves(P, t, loc)
    if k == "t":
        R = [l for l in ls if l[1] != loc and "R" == top(l, loc)]
        T = [l for l in ls if "T" == top(l, loc)]
        ls = R + T
    if len(ls) != {"p": 3, "m": 9, "t": 12}[k]:
        raise Undecided("members of " + t)
    return ls


def top(l, base):
    while l[1] != base:
        l = l[1]
    return l[2].split("::")[-1]


def own(f, this):
    """callees which are looked into: free functions, the operators, and methods of the object itself"""
    if f.cls is None or f.cls in KIND or this is None:
        return True
    p = this
    while p[0] in ("fld", "elem"):
        p = p[1]
    return p in (SELF, ("this",)) or p[0] in ("v", "tmp", "par")


def interp(P, keep=()):
    return poly.Interp(P, lambda f, this: f.short not in keep and own(f, this))


def vals(I, st, ls):
    return [I.load(st, l) for l in ls]


def initial(ls):
    return [A("init", l) for l in ls]


def operators(P, rep):
    R = "alg-operator"
    for f in sorted(P.funcs.values(), key=lambda f: f.sig):
        ks = [kind(p["t"]) for p in f.params]
        if not (f.cls in KIND or f.short.startswith("operator") and f.cls is None and any(k in ("p", "m", "t") for k in ks)):
            continue
        rep.fn(f)
        op = f.short[8:] if f.short.startswith("operator") else None
        ctor = f.cls in KIND and f.short == f.cls
        if op is None and not ctor:
            continue
        k0 = KIND.get(f.cls)
        argk = ([k0] if k0 and not ctor else []) + ks
        if None in argk or op == "=":
            if op != "=":
                rep.undecided(R, f.sig)
            if op != "=":
                continue
        # configurations: all operands distinct, and every operand of the same kind being the same object
        confs = [()]
        refs = [i for i, p in enumerate(f.params) if p["t"].rstrip().endswith("&") and ks[i] != "s"]
        if op is not None:
            if k0:
                confs += [(i,) for i in refs if ks[i] == k0]
            elif len(refs) == 2 and ks[0] == ks[1]:
                confs += [("same",)]
        for conf in confs:
            try:
                args = {}
                locs = []
                if k0 and not ctor:
                    locs.append(ordered(P, k0, SELF))
                for i, p in enumerate(f.params):
                    if ks[i] == "s":
                        v = A("init", ("par", i, p["n"]))
                        if p["t"].rstrip().endswith("&"):
                            args[i] = ("ref", ("par", i, p["n"]))
                            locs.append([("par", i, p["n"])])
                        else:
                            args[i] = ("val", v)
                            locs.append([("par", i, p["n"])])
                        continue
                    l = SELF if conf == (i,) else ("par", 0 if conf == ("same",) else i, "x" if conf == ("same",) else p["n"])
                    args[i] = ("ref", l)
                    locs.append(ordered(P, ks[i], l))
                ini = [initial(l) for l in locs]
                out = None                   # locations which must hold `want`
                if ctor:
                    if not ks:
                        want = {"p": [ZERO] * 3, "m": [K(int(i % 4 == 0)) for i in range(9)],
                                "t": [K(int(i % 4 == 0)) for i in range(9)] + [ZERO] * 3}[k0]
                    else:
                        want = [x for v in ini for x in v]
                    if len(want) != {"p": 3, "m": 9, "t": 12}[k0]:
                        rep.undecided(R, f.sig)
                        continue
                    out = ordered(P, k0, SELF)
                elif op == "=":
                    want = ini[1]
                    out = locs[0]
                elif op.endswith("=") and op[:-1] in ("+", "-", "*"):
                    want = spec(op[:-1], argk[0], ini[0], argk[1], ini[1])
                    out = locs[0]
                else:
                    want = spec(op, argk[0], ini[0], argk[1], ini[1]) if len(argk) == 2 else None
                if want is None:
                    rep.undecided(R, f.sig)
                    continue
                I = interp(P)
                res = I.run(f, SELF, args)
                bad = None
                for st, rv in res:
                    if out is not None:
                        got = vals(I, st, out)
                        where = "the object"
                        if not ctor and rv != SELF:
                            bad = "does not return the object it was applied to"
                    else:
                        if not isinstance(rv, tuple):
                            raise Undecided("result")
                        rk = kind(f.ret)
                        got = vals(I, st, ordered(P, rk, rv))
                        where = "the result"
                        for l, i0 in zip(locs, ini):
                            for q, v in zip(l, i0):
                                if st.mem.get(q, v) != v:
                                    bad = "modifies its operand %s" % poly.name(q)
                    for q, g, w in zip(out or ordered(P, kind(f.ret), rv), got, want):
                        if g != w:
                            bad = "%s of %s is %s, expected %s" % (poly.name(q).split(".", 1)[-1] if out is None else poly.name(q), where, poly.show(g), poly.show(w))
                            break
                    if out is not None and not ctor and conf == ():
                        for l, i0 in list(zip(locs, ini))[1:]:
                            for q, v in zip(l, i0):
                                if st.mem.get(q, v) != v:
                                    bad = "modifies its operand %s" % poly.name(q)
                if bad:
                    rep.violate(R, f.sig + (" aliased" if conf else ""), "%s%s: %s" % (
                        f.sig, " with both operands the same object" if conf else "", bad), "%s:%d" % (f.file, f.line))
                else:
                    rep.ok(R)
            except INTERNAL as e:
                rep.undecided(R, "%s: %s" % (f.sig, e))


def transform(P, rep):
    R = "alg-chain"
    f = P.method("IGES_ENTITY_124", "GetTransformMatrix")
    if f is None:
        return
    rep.fn(f)
    try:
        T = [q for q, t in P.fields("IGES_ENTITY_124", True) if poly.bare(t) == TR]
        up = [q for q, t in P.fields("IGES_ENTITY_124", True) if q.endswith("::pTransform")]
        if len(T) != 1 or len(up) != 1:
            raise Undecided("members")
        t0 = initial(ordered(P, "t", ("fld", SELF, T[0])))
        par = A("init", ("fld", SELF, up[0]))
        I = interp(P)
        for st, rv in I.run(f):
            got = vals(I, st, ordered(P, "t", rv))
            null = I.truth(st, par)
            for isset in ([null] if null is not None else [True, False]):
                if isset:
                    app = ("app", f.name, ("at", ("deref", par.atom())))
                    parts = [A("part", app, "ret", I.sub(rv, l)) for l in ordered(P, "t", rv)]
                    want = spec("*", "t", parts, "t", t0)
                else:
                    want = t0
                bad = [(l, g, w) for l, g, w in zip(ordered(P, "t", rv), got, want) if g != w]
                if bad:
                    l, g, w = bad[0]
                    rep.violate(R, f.sig, "%s: with %s transform of its own the overall matrix has %s = %s, expected %s" % (
                        f.name, "a" if isset else "no", poly.name(l).split(".", 1)[-1], poly.show(g), poly.show(w)), "%s:%d" % (f.file, f.line))
                else:
                    rep.ok(R)
    except INTERNAL as e:
        rep.undecided(R, "%s: %s" % (f.sig, e))


def items(P, cls):
    """members written as the parameter data items, as far as these are a straight line; then those after the last loop"""
    from checks import layout
    W, E1, R, E2 = layout.extract(P, cls)
    nxt = {}
    for a, b in W.edges:
        nxt.setdefault(a, set()).add(b)
    seq, k = [], ()
    while len(nxt.get(k, ())) == 1:
        k = next(iter(nxt[k]))
        n = W.nodes.get(k)
        if n is None or n.kind == "extras":
            k = None
            break
        seq.append(sorted(n.labels))
    end = k is None
    tail = []
    prev = {}
    for a, b in W.edges:
        prev.setdefault(b, set()).add(a)
    k = ("extras",)
    while len(prev.get(k, ())) == 1:
        k = next(iter(prev[k]))
        n = W.nodes.get(k)
        if n is None or n.kind == "extras":
            break
        tail.insert(0, sorted(n.labels))
    return seq, end, tail


def field(P, cls, label):
    """location of the member written as `label`"""
    if len(label) != 1:
        raise Undecided("item")
    loc = SELF
    c = cls
    parts = label[0].replace("]", "").replace("[", ".").split(".")
    if parts[0] == "" and len(parts) == 2:
        # a member of an anonymous union
        found = {f.x[x[3]][2] for f in P.funcs.values() if f.cls == cls for x in f.x.values()
                 if x[0] == "fld" and x[4].split("::")[-1] == parts[1] and "(anonymous union" in f.x[x[3]][2]}
        if len(found) != 1:
            raise Undecided("member " + parts[1])
        return ("fld", SELF, found.pop())
    for part in parts:
        if part.isdigit():
            loc = ("elem", loc, int(part))
            continue
        for q, t in P.fields(c, True):
            if q.split("::")[-1] == part:
                loc = ("fld", loc, q)
                c = poly.bare(t)
                break
        else:
            raise Undecided("member " + part)
    return loc


# positions (1 = first item after the entity number) of the coordinates of the start and the end point
ENDS = {
    "IGES_ENTITY_100": (8, (4, 5, 1), (6, 7, 1)),
    "IGES_ENTITY_104": (12, (8, 9, 7), (10, 11, 7)),
    "IGES_ENTITY_110": (7, (1, 2, 3), (4, 5, 6)),
}


def expected_ends(P, cls):
    """functions giving, for start and end, the untransformed coordinates, from a final state"""
    if cls in ENDS:
        n, s, e = ENDS[cls]
        seq, end, tail = items(P, cls)
        if len(seq) != n or not end:
            raise Undecided("parameter data of " + cls)
        return [lambda I, st, app, w=w: [A("init", field(P, cls, seq[i])) for i in w] for w in (s, e)]
    if cls == "IGES_ENTITY_102":
        def curve(I, st, app, which):
            L = [q for q, t in P.fields(cls, True) if "list" in t and "IGES_CURVE" in t]
            if len(L) != 1:
                raise Undecided("members")
            obj = ("deref", ("init", ("elem", ("fld", SELF, L[0]), 0 if which == 0 else -1)))
            key = ("app", "IGES_CURVE::" + ("GetStartPoint", "GetEndPoint")[which], ("at", obj))
            return key
        return [curve, curve]
    if cls == "IGES_ENTITY_126":
        seq, end, tail = items(P, cls)
        tail = tail[-5:]
        if len(tail) != 5:
            raise Undecided("parameter data of " + cls)
        return [lambda I, st, app, w=w: A("init", field(P, cls, tail[w])) for w in (0, 1)]
    return None


def curves(P, rep):
    R = "alg-endpoint"
    up = None
    for cls in sorted(P.subclasses("IGES_CURVE")):
        if cls == "IGES_CURVE":
            continue
        fs = [P.method(cls, n) for n in ("GetStartPoint", "GetEndPoint")]
        if any(f is None or f.cls != cls for f in fs):
            continue
        try:
            exp = expected_ends(P, cls)
        except INTERNAL as e:
            rep.undecided(R, "%s: %s" % (cls, e))
            continue
        if exp is None:
            rep.undecided(R, cls + " has no specified end points")
            continue
        for which, f in enumerate(fs):
            rep.fn(f)
            try:
                endpoint(P, rep, R, cls, f, which, exp[which])
            except INTERNAL as e:
                rep.undecided(R, "%s: %s" % (f.sig, e))


def endpoint(P, rep, R, cls, f, which, exp):
    up = [q for q, t in P.fields(cls, True) if q.endswith("::pTransform")]
    out = ("par", 0, f.params[0]["n"])
    if len(up) != 1 or len(f.params) != 2:
        raise Undecided("interface")
    up = A("init", ("fld", SELF, up[0]))
    xf = A("init", ("par", 1, f.params[1]["n"]))
    I = interp(P, keep=("PointMatches",))
    ls = ordered(P, "p", out)
    app = ("app", "IGES_ENTITY_124::GetTransformMatrix", ("at", ("deref", up.atom())))
    done = set()
    for st, rv in I.run(f):
        if not isinstance(rv, Poly):
            raise Undecided("result")
        if I.truth(st, rv) is False:
            continue
        got = vals(I, st, ls)
        cs = [[x] if x is not None else [True, False] for x in (I.truth(st, xf), I.truth(st, up))]
        for x, u in itertools.product(*cs):
            if cls == "IGES_ENTITY_102":
                key = exp(I, st, None, which)
                apps = [a for a in st.log if a[:3] == key]
                if len(apps) != 1:
                    rep.violate(R, f.sig, "%s does not take the point from its %s curve" % (f.name, ("first", "last")[which]), "%s:%d" % (f.file, f.line))
                    return
                if I.truth(st, A("bool", apps[0])) is not True:
                    rep.violate(R, f.sig + " unchecked", "%s succeeds although its %s curve has no such point" % (f.name, ("first", "last")[which]), "%s:%d" % (f.file, f.line))
                    return
                flag = apps[0][4]
                if flag != xf and not (flag.const() is not None and bool(flag.const()) == x):
                    rep.violate(R, f.sig + " flag", "%s does not pass on whether to transform the point" % f.name, "%s:%d" % (f.file, f.line))
                    return
                base = [A("part", apps[0], 0, I.sub(out, l)) for l in ls]
            elif cls == "IGES_ENTITY_126":
                v = exp(I, st, None)
                apps = [a for a in st.log if a[1] == "s1225"]
                if not apps:
                    if got == initial(ls):
                        rep.violate(R, f.sig + " unset", "%s succeeds without giving a point" % f.name, "%s:%d" % (f.file, f.line))
                        return
                    raise Undecided("evaluator")
                a = apps[-1]
                curve(P, rep, R, cls, f, st)
                if a[4] != v:
                    rep.violate(R, f.sig, "%s evaluates the curve at %s, not at the %s of its parameter range (%s)" % (
                        f.name, poly.show(a[4]), ("start", "end")[which], poly.show(v)), "%s:%d" % (f.file, f.line))
                    return
                base = position(I, st, a)
            else:
                base = exp(I, st, None)
            want = base
            if x and u:
                parts = [A("part", app, "ret", tuple(p)) for p in paths(P)]
                want = spec("*", "t", parts, "p", base)
            bad = [(l, g, w) for l, g, w in zip(ls, got, want) if g != w]
            if bad:
                l, g, w = bad[0]
                rep.violate(R, f.sig, "%s (%s requested, %s attached): %s is %s, expected %s" % (
                    f.name, "transformed" if x else "untransformed", "transform" if u else "no transform",
                    poly.name(l), poly.show(g)[:120], poly.show(w)[:120]), "%s:%d" % (f.file, f.line))
                return
            done.add((x, u))
        kept(P, rep, R, cls, f, st)
    if len(done) == 4:
        rep.ok(R)
    elif not done:
        rep.violate(R, f.sig + " never", "%s never succeeds" % f.name, "%s:%d" % (f.file, f.line))
    else:
        rep.violate(R, f.sig + " partly", "%s never succeeds %s" % (f.name, "; ".join(
            "with the transform %s and %s" % (("not requested", "requested")[x], ("none attached", "one attached")[u])
            for x in (True, False) for u in (True, False) if (x, u) not in done)), "%s:%d" % (f.file, f.line))


def curve(P, rep, R, cls, f, st):
    """the spline handed to the evaluator has the order, coefficients and kind of the entity"""
    seq, end, tail = items(P, cls)
    for a in st.log:
        if a[1] != "newCurve":
            continue
        num = field(P, cls, seq[1]), field(P, cls, seq[2])
        n, m = [A("init", x) for x in num]
        F = {q.split("::")[-1]: q for q, t in P.fields(cls, True)}
        counts = [n + ONE] + [A("init", ("fld", SELF, F[x])) for x in ("nCoeffs",) if x in F]
        bad = None
        if a[2] not in counts:
            bad = "%s coefficients" % poly.show(a[2])
        elif a[3] != m + ONE:
            bad = "order %s, its degree is %s" % (poly.show(a[3]), poly.show(m))
        elif a[4] == a[5]:
            bad = "its knots as coefficients"
        elif a[7].const() != 3:
            bad = "dimension %s" % poly.show(a[7])
        else:
            pol = A("init", field(P, cls, seq[5]))
            I = interp(P)
            t = I.truth(st, pol)
            if t is not None and a[6].const() is not None and (a[6].const() in (1, 3)) != t:
                bad = "kind %s for a %s curve" % (poly.show(a[6]), "polynomial" if t else "rational")
        if bad:
            rep.violate(R, f.sig + " curve", "%s builds the curve to evaluate with %s" % (f.name, bad), "%s:%d" % (f.file, f.line))


def position(I, st, a):
    """what the spline evaluator stores as the position: the first three elements of its fifth argument"""
    p = a[6].atom() if isinstance(a[6], Poly) else None
    if p is None or p[0] != "addr":
        raise Undecided("position array")
    l = p[1]
    b, i0 = (l[1], l[2]) if l[0] == "elem" else (l, 0)
    return [A("part", a, 4, i0 + i) for i in range(3)]


def paths(P):
    base = ("x",)
    r = []
    for l in ordered(P, "t", base):
        p = []
        while l != base:
            p.append(l[2])
            l = l[1]
        r.append(tuple(reversed(p)))
    return r


def kept(P, rep, R, cls, f, st):
    """a query leaves the data of the entity as it was"""
    fl = dict(P.fields(cls, True))
    for l, v in st.mem.items():
        p = l
        q = None
        while isinstance(p, tuple) and p[0] in ("fld", "elem"):
            q = p[2] if p[0] == "fld" else q
            p = p[1]
        if p == SELF and q in fl and not fl[q].endswith("*") and v != A("init", l):
            rep.violate(R, f.sig + " modifies " + str(q), "%s changes %s of the entity it queries" % (f.name, poly.name(l)), "%s:%d" % (f.file, f.line))


def signs(I, st, table):
    """is the path consistent with the given signs (polynomial -> -1, 0, 1)"""
    for a, v in st.cond.items():
        if a[0] not in ("lt", "eq"):
            continue
        d = a[1]
        l = d.lead()
        s = table.get(d.scale(1 / l))
        if s is None:
            continue
        s = s if l > 0 else -s
        if v != (s < 0 if a[0] == "lt" else s == 0):
            return False
    return True


def conic(P, rep):
    R = "alg-conic"
    cls = "IGES_ENTITY_104"
    f = P.method(cls, "getForm")
    if f is None:
        return
    rep.fn(f)
    try:
        seq, end, tail = items(P, cls)
        if len(seq) != 12 or not end:
            raise Undecided("parameter data")
        a, b, c, d, e, g = [A("init", field(P, cls, seq[i])) for i in range(1, 7)]
        h = K(1).scale(poly.Fraction(1, 2))
        q1 = a * (c * g - e * e * h * h) - b * h * (b * h * g - d * e * h * h) + d * h * (b * e * h * h - c * d * h)
        q2 = a * c - b * b * h * h
        q3 = a + c
        mon = lambda p: p.scale(1 / p.lead())
        sg = lambda p: 1 if p.lead() > 0 else -1
        I = interp(P)
        paths_ = I.run(f)
        used = set()
        known = {mon(q1), mon(q2), mon(q3), mon(q1 * q3)}
        for st, rv in paths_:
            for k in st.cond:
                if k[0] in ("lt", "eq"):
                    used.add(mon(k[1]))
        for s1, s2, s3 in itertools.product((-1, 0, 1), repeat=3):
            table = {mon(q1): s1 * sg(q1), mon(q2): s2 * sg(q2), mon(q3): s3 * sg(q3), mon(q1 * q3): s1 * s3 * sg(q1 * q3)}
            if s2 > 0 and s3 == 0:
                continue                    # A*C > B*B/4 >= 0 excludes A + C = 0
            want = 1 if s2 > 0 and s1 * s3 < 0 else 2 if s2 < 0 and s1 else 3 if s2 == 0 and s1 else 0
            got = set()
            for st, rv in paths_:
                if signs(I, st, table):
                    got.add(rv.const() if isinstance(rv, Poly) else None)
            if got == {want}:
                rep.ok(R)
            elif None in got:
                rep.undecided(R, f.sig)
            else:
                rep.violate(R, "signs %d %d %d" % (s1, s2, s3), "%s: with determinants Q1 %s 0, Q2 %s 0, A+C %s 0 the section is classified as form %s, expected %d" % (
                    f.name, "<=>"[s1 + 1], "<=>"[s2 + 1], "<=>"[s3 + 1], "/".join(str(x) for x in sorted(got)), want), "%s:%d" % (f.file, f.line))
    except INTERNAL as e:
        rep.undecided(R, "%s: %s" % (f.sig, e))


def closed(P, rep):
    """closedness follows from the end points"""
    R = "alg-closed"
    cls = "IGES_ENTITY_100"
    f = P.method(cls, "IsClosed")
    if f is not None and f.cls == cls:
        rep.fn(f)
        try:
            seq, end, tail = items(P, cls)
            pts = [tuple(A("init", field(P, cls, seq[i])) for i in w) for w in ((2, 3), (4, 5), (6, 7))]
            I = interp(P, keep=("PointMatches",))
            names = {frozenset((0, 1)): "cs", frozenset((0, 2)): "ce", frozenset((1, 2)): "se"}

            def pair(app):
                got = []
                for x in app[2:4]:
                    if not isinstance(x, tuple) or len(x) != 3:
                        raise Undecided("argument")
                    for i, p in enumerate(pts):
                        if tuple(x[:2]) == p:
                            got.append(i)
                return frozenset(got) if len(got) == 2 else None
            par = [q for q, t in P.fields(cls, True) if q.endswith("::parent")]
            for st, rv in I.run(f):
                known = {}
                for k in st.log:
                    if k[1] == "PointMatches" and par and I.truth(st, A("init", ("fld", SELF, par[0]))) and isinstance(k[4], Poly) and k[4].const() is not None:
                        rep.violate(R, f.sig + " resolution", "%s compares points with a fixed tolerance although the model defines one" % f.name, "%s:%d" % (f.file, f.line))
                for k, v in st.cond.items():
                    if k[0] == "bool" and k[1][1] == "PointMatches":
                        known[pair(k[1])] = v
                rb = I.boolean(st, rv)
                r = I.truth(st, rb)
                a = rb.atom()
                if r is None and a is not None and a[0] == "bool" and a[1][1] == "PointMatches":
                    outs = [(True, dict(known, **{}), pair(a[1])), (False, known, pair(a[1]))]
                    outs = [(v, {**known, p: v}) for v, _, p in outs]
                else:
                    outs = [(r, known)]
                for v, kn in outs:
                    se, cs = kn.get(frozenset((1, 2))), kn.get(frozenset((0, 1)))
                    if None in kn or v is None:
                        raise Undecided("comparison")
                    if v and (se is not True or cs is True):
                        rep.violate(R, f.sig, "%s reports a closed arc without its start and end having been found equal%s" % (
                            f.name, " and its radius not zero" if cs else ""), "%s:%d" % (f.file, f.line))
                    elif not v and se is True and cs is False:
                        rep.violate(R, f.sig, "%s reports an open arc although its end points coincide" % f.name, "%s:%d" % (f.file, f.line))
                    else:
                        rep.ok(R)
        except INTERNAL as e:
            rep.undecided(R, "%s: %s" % (f.sig, e))
    cls = "IGES_ENTITY_104"
    f = P.method(cls, "IsClosed")
    if f is not None and f.cls == cls:
        rep.fn(f)
        try:
            seq, end, tail = items(P, cls)
            x1, y1, x2, y2 = [A("init", field(P, cls, seq[i])) for i in (8, 9, 10, 11)]
            I = interp(P, keep=("getForm",))
            for st, rv in I.run(f):
                r = I.truth(st, rv)
                form = [a for k in st.cond for a in k[1].atoms() if k[0] == "eq" and a[0] == "app" and a[1].endswith("getForm")]
                ell = I.truth(st, I.eq(Poly({((form[0], 1),): poly.Fraction(1)}) - ONE)) if form else None
                xs, ys = I.truth(st, I.eq(x1 - x2)), I.truth(st, I.eq(y1 - y2))
                if r is None:
                    raise Undecided("result")
                if r and not (ell and xs and ys):
                    rep.violate(R, f.sig, "%s reports a closed section without it being an ellipse whose start and end coincide" % f.name, "%s:%d" % (f.file, f.line))
                elif not r and ell and xs and ys:
                    rep.violate(R, f.sig, "%s reports an open section although it is an ellipse whose ends coincide" % f.name, "%s:%d" % (f.file, f.line))
                else:
                    rep.ok(R)
        except INTERNAL as e:
            rep.undecided(R, "%s: %s" % (f.sig, e))


def helpers(P, rep):
    R = "alg-helper"
    f = P.byname.get("PointMatches")
    f = f[0] if isinstance(f, list) else f
    if f is not None:
        rep.fn(f)
        try:
            matches(P, rep, R, f)
        except INTERNAL as e:
            rep.undecided(R, "%s: %s" % (f.sig, e))
    f = P.byname.get("CheckNormal")
    f = f[0] if isinstance(f, list) else f
    if f is not None:
        rep.fn(f)
        try:
            ls = [("par", i, p["n"]) for i, p in enumerate(f.params)]
            unit(P, rep, R, f, interp(P).run(f), ls, initial(ls))
        except INTERNAL as e:
            rep.undecided(R, "%s: %s" % (f.sig, e))
    f = P.byname.get("CalcNormal")
    f = f[0] if isinstance(f, list) else f
    if f is not None:
        rep.fn(f)
        try:
            I = interp(P)
            p = [initial(ordered(P, "p", ("deref", ("init", ("par", i, f.params[i]["n"]))))) for i in range(3)]
            u, v = sub(p[1], p[0]), sub(p[2], p[0])
            n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            ls = ordered(P, "p", ("deref", ("init", ("par", 3, f.params[3]["n"]))))
            unit(P, rep, R, f, I.run(f), ls, n)
        except INTERNAL as e:
            rep.undecided(R, "%s: %s" % (f.sig, e))


def unit(P, rep, R, f, paths_, ls, v):
    """the locations ls end up holding the unit vector in the direction v (or v itself where it already is one)"""
    n2 = sum((x * x for x in v), ZERO)
    root = A("sqrt", n2).inv()
    I = interp(P)
    full = 0
    for st, rv in paths_:
        if I.truth(st, rv) is False:
            continue
        got = vals(I, st, ls)
        if got == v:
            # allowed only where the length was found to be close to one
            lo = hi = None
            for k, t in st.cond.items():
                if k[0] != "lt":
                    continue
                l, u = bound(k[1], t, n2)
                lo = l if l is not None and (lo is None or l > lo) else lo
                hi = u if u is not None and (hi is None or u < hi) else hi
            if lo is None or hi is None or lo < 1 - 1e-4 or hi > 1 + 1e-4:
                rep.violate(R, f.sig + " unnormalised", "%s leaves a vector of length other than one as it is" % f.name, "%s:%d" % (f.file, f.line))
            else:
                rep.ok(R)
            continue
        if got == [x * root for x in v]:
            full += 1
            rep.ok(R)
            continue
        if got == [ZERO, ZERO, ONE]:
            hi = None
            for k, t in st.cond.items():
                if k[0] == "lt":
                    l, u = bound(k[1], t, n2)
                    hi = u if u is not None else hi
            if hi is None or hi > 1e-6:
                rep.violate(R, f.sig + " replaced", "%s replaces a vector by the z axis though it has a length" % f.name, "%s:%d" % (f.file, f.line))
            else:
                rep.ok(R)
            continue
        rep.violate(R, f.sig, "%s stores (%s), not the unit vector along (%s)" % (
            f.name, ", ".join(poly.show(x)[:80] for x in got), ", ".join(poly.show(x)[:60] for x in v)), "%s:%d" % (f.file, f.line))
        return
    if not full:
        rep.violate(R, f.sig + " never", "%s never normalises a vector" % f.name, "%s:%d" % (f.file, f.line))


def bound(d, truth, n2):
    """lower and upper bound of n2 which (d < 0) == truth implies"""
    m = [k for k in n2.m][0]
    c = d.m.get(m, 0)
    if not c:
        return None, None
    s = c / n2.m[m]
    r = (d - n2.scale(s)).const()
    if r is None:
        return None, None
    b = float(-r / s)                 # d = s*(n2 - b)
    upper = (s > 0) == truth
    return (None, b) if upper else (b, None)


def matches(P, rep, R, f):
    p = [initial(ordered(P, "p", ("par", i, f.params[i]["n"]))) for i in (0, 1)]
    d2 = sum((x * x for x in sub(p[0], p[1])), ZERO)
    tol = A("init", ("par", 2, f.params[2]["n"]))
    I = interp(P)
    yes = no = 0
    for st, rv in I.run(f):
        r = I.truth(st, rv)
        if r is None:
            # the result is the comparison itself
            b = I.boolean(st, rv)
            a = b.atom() or (ONE - b).atom()
            cases = [(v if b.atom() else not v, a, v) for v in (True, False)]
        else:
            cases = [(r, None, None)]
        for r, a, v in cases:
            conds = dict(st.cond)
            if a is not None:
                conds[a] = v
            # big numbers are judged at another scale
            near = None
            for k, t in conds.items():
                if k[0] != "lt":
                    continue
                m = [x for x in d2.m][0]
                for lim in (tol * tol, ONE):
                    for mono, c in k[1].m.items():
                        pass
                d = k[1]
                s = ratio(d, d2)
                if s is None:
                    continue
                rest = d - d2.scale(s)
                q = rest.scale(-1 / s)          # d = s*(d2 - q)
                ok = False
                m = list(q.m.items())
                if len(m) == 1 and m[0][0] == () and 0 < m[0][1] < 1e-20:
                    ok = True
                if len(m) == 1 and q == tol * tol * K(m[0][1]) and 1 <= m[0][1] <= 4:
                    ok = True
                if not ok:
                    rep.violate(R, f.sig + " tolerance", "%s compares the squared distance with %s" % (f.name, poly.show(q)), "%s:%d" % (f.file, f.line))
                    return
                near = (s > 0) == t
            if near is None:
                big = any(any(abs(c) >= 10 ** 14 for c in k[1].m.values()) and t for k, t in conds.items() if k[0] == "lt")
                if not big:
                    rep.violate(R, f.sig + " blind", "%s decides without comparing the distance of the points" % f.name, "%s:%d" % (f.file, f.line))
                    return
                continue
            if near != r:
                rep.violate(R, f.sig, "%s answers %s for points %s the tolerance" % (f.name, r, "within" if near else "beyond"), "%s:%d" % (f.file, f.line))
                return
            yes += r
            no += not r
            rep.ok(R)
    if not yes or not no:
        rep.violate(R, f.sig + " constant", "%s always gives the same answer" % f.name, "%s:%d" % (f.file, f.line))


def ratio(d, e):
    """s such that d = s*e + terms not in e"""
    s = None
    for k, c in e.m.items():
        r = d.m.get(k, 0) / c
        if s is None:
            s = r
        elif r != s:
            return None
    return s or None


def matrixdata(P, rep):
    """parameter data of the transformation matrix: row by row, each row followed by its translation"""
    R = "alg-124-order"
    cls = "IGES_ENTITY_124"
    T = [q for q, t in P.fields(cls, True) if poly.bare(t) == TR]
    ls = ordered(P, "t", ("fld", SELF, T[0]))
    want = [x for i in range(3) for x in ls[3 * i:3 * i + 3] + [ls[9 + i]]]
    for meth, fn in (("format", "FormatPDREal"), ("readPD", "ParseReal")):
        f = P.method(cls, meth)
        if f is None:
            continue
        rep.fn(f)
        try:
            I = interp(P, keep=("FormatPDREal", "FormatPDInt", "ParseReal", "ParseInt", "AddPDItem", "AddSecItem", "formatComments",
                                "readComments", "formatExtraParams", "readExtraParams", "readPD"))
            n = 0
            for st, rv in I.run(f):
                if not isinstance(rv, Poly) or I.truth(st, rv) is False:
                    continue
                n += 1
                got = []
                for a in st.log:
                    if a[1].split("::")[-1] != fn:
                        continue
                    if meth == "format":
                        got.append(a[3].atom())
                    else:
                        got.append(a)
                if meth == "format":
                    exp = [("init", w) for w in want]
                else:
                    # the location which received each parsed number
                    exp = [want[i] for i in range(12)]
                    at = {}
                    for l in want:
                        v = st.mem.get(l)
                        v = v.atom() if v is not None else None
                        if v is not None and v[0] == "part":
                            at[v[1]] = l
                    got = [at.get(a) for a in got]
                if got != exp:
                    i = next((i for i in range(12) if i >= len(got) or got[i] != exp[i]), 12)
                    rep.violate(R, f.sig, "%s: number %d of the matrix is %s, the specification puts %s there" % (
                        f.name, i + 1, poly.name(got[i]) if i < len(got) else "missing", poly.name(want[i]) if i < 12 else "nothing"), "%s:%d" % (f.file, f.line))
                    break
                rep.ok(R)
            if not n:
                raise Undecided("no successful path")
        except INTERNAL as e:
            rep.undecided(R, "%s: %s" % (f.sig, e))


def after(P, cls, st, name):
    """value of the getter in the given state"""
    f = P.method(cls, name)
    if f is None:
        raise Undecided(name)
    I = interp(P)
    res = I.enter(st.copy(), f, SELF, [], 0)
    if len(res) != 1:
        raise Undecided(name)
    s2, rv = res[0]
    if isinstance(rv, tuple):
        return vals(I, s2, ordered(P, "p", rv))
    return [rv]


def segtype(P, st, I, q):
    """which segment type the path has established: the constant it compared equal to"""
    v = I.load(st, ("fld", SELF, q))
    if v.const() is not None:
        return int(v.const())
    neg = set()
    for k, t in st.cond.items():
        if k[0] == "eq":
            d = k[1] - v
            if d.const() is not None:
                if t:
                    return int(-d.const())
                neg.add(int(-d.const()))
            d = k[1] + v
            if d.const() is not None:
                if t:
                    return int(d.const())
                neg.add(int(d.const()))
    left = {0, 1, 2, 4} - neg
    return left.pop() if len(left) == 1 else None


def segment(P, rep):
    """lines, arcs and circles of an outline (types: 0 none, 1 line, 2 arc, 4 circle)"""
    R = "alg-segment"
    cls = "MCAD_SEGMENT"
    F = {q.split("::")[-1]: q for q, t in P.fields(cls, True)}
    if cls not in P.classes:
        return
    try:
        loc = lambda m: ("fld", SELF, F[m])
        ini = {m: A("init", loc(m)) for m in ("mradius", "msang", "meang", "mCWArc", "msegtype")}
        pt = {m: initial(ordered(P, "p", loc(m))) for m in ("mcenter", "mstart", "mend")}
    except KeyError as e:
        rep.undecided(R, "member %s" % e)
        return
    half = K(1).scale(poly.Fraction(1, 2))
    s, e, c = pt["mstart"], pt["mend"], pt["mcenter"]

    def where(f):
        return "%s:%d" % (f.file, f.line)

    def each(name, judge):
        f = P.method(cls, name)
        if f is None:
            return
        rep.fn(f)
        try:
            I = interp(P, keep=("PointMatches",))
            for st, rv in I.run(f):
                bad = judge(I, f, st, rv)
                if bad:
                    rep.violate(R, f.sig + " " + bad.split("|")[0], "%s: %s" % (f.name, bad.split("|")[-1]), where(f))
                else:
                    rep.ok(R)
        except INTERNAL as x:
            rep.undecided(R, "%s: %s" % (f.sig, x))

    def rev(I, f, st, rv):
        k = segtype(P, st, I, F["msegtype"])
        if k is None:
            raise Undecided("type")
        cw = I.truth(st, ini["mCWArc"])
        new = {m: vals(I, st, ordered(P, "p", loc(m))) for m in pt}
        if new["mcenter"] != c or I.load(st, loc("mradius")) != ini["mradius"]:
            return "frame|changes the centre or the radius"
        if k in (0, 4):
            if new["mstart"] != s or new["mend"] != e:
                return "circle|changes a circle"
            return None
        if new["mstart"] != e or new["mend"] != s:
            return "ends|does not exchange the start and the end point"
        if k == 2:
            if I.load(st, loc("msang")) != ini["meang"] or I.load(st, loc("meang")) != ini["msang"]:
                return "angles|does not exchange the angles of an arc"
            v = I.boolean(st, I.load(st, loc("mCWArc")))
            was = I.boolean(st, ini["mCWArc"])
            t, w = I.truth(st, v), I.truth(st, was)
            if v != ONE - was and (t is None or w is None or t == w):
                return "direction|does not reverse the direction of an arc"
        return None
    each("reverse", rev)

    def getter(want, cwwant=None):
        def judge(I, f, st, rv):
            got = vals(I, st, ordered(P, "p", rv)) if isinstance(rv, tuple) else [rv]
            cw = I.truth(st, ini["mCWArc"])
            for v in ([cw] if cw is not None else [True, False]):
                w = cwwant if v and cwwant is not None else want
                if got != w:
                    return "value|returns (%s)%s, expected (%s)" % (", ".join(map(poly.show, got)), " for a clockwise arc" if v and cwwant else "", ", ".join(map(poly.show, w)))
            return None
        return judge
    each("GetStart", getter(s, e))
    each("GetEnd", getter(e, s))
    each("GetStartAngle", getter([ini["msang"]], [ini["meang"]]))
    each("GetEndAngle", getter([ini["meang"]], [ini["msang"]]))
    each("GetMStart", getter(s))
    each("GetMEnd", getter(e))
    each("GetMSAngle", getter([ini["msang"]]))
    each("GetMEAngle", getter([ini["meang"]]))
    each("GetCenter", getter(c))
    each("GetRadius", getter([ini["mradius"]]))

    def length(I, f, st, rv):
        k = segtype(P, st, I, F["msegtype"])
        if k is None:
            raise Undecided("type")
        d = sub(e, s)
        cw = I.truth(st, ini["mCWArc"])
        r = ini["mradius"]
        sweep = ini["meang"] - ini["msang"]
        ok = {0: [ZERO], 1: [A("sqrt", d[0] * d[0] + d[1] * d[1]), A("sqrt", d[0] * d[0] + d[1] * d[1] + d[2] * d[2])],
              2: [sweep * r] if cw is False else [-sweep * r] if cw else []}.get(k)
        if k == 4:
            q = rv.m.get(next(iter(r.m)))
            if q is not None and rv == r.scale(q) and abs(float(q) - 6.283185307179586) < 1e-6:
                return None
            return "circle|the length of a circle is %s" % poly.show(rv)
        if rv not in ok:
            return "value %s|the length of %s is %s, expected %s" % (k, {0: "nothing", 1: "a line", 2: "an arc"}[k], poly.show(rv), poly.show(ok[0]) if ok else "?")
        return None
    each("GetLength", length)

    def mid(I, f, st, rv):
        k = segtype(P, st, I, F["msegtype"])
        if I.truth(st, rv) is False:
            return "refuses %s|refuses a segment of type %s" % (k, k) if k in (1, 2, 4) else None
        if k is None:
            raise Undecided("type")
        got = vals(I, st, ordered(P, "p", ("par", 0, f.params[0]["n"])))[:2]
        r = ini["mradius"]
        a = (ini["msang"] + ini["meang"]) * half
        if a.lead() < 0:
            raise Undecided("angle")
        want = {1: [(x + y) * half for x, y in zip(s, e)][:2], 4: [c[0] + r, c[1]],
                2: [c[0] + r * A("app", "cos", a), c[1] + r * A("app", "sin", a)]}.get(k)
        if want is None or got != want:
            return "value %s|the midpoint of %s is (%s), expected (%s)" % (k, {1: "a line", 2: "an arc", 4: "a circle"}.get(k, "nothing"), ", ".join(map(poly.show, got)), ", ".join(map(poly.show, want or [])))
        return None
    each("GetMidpoint", mid)

    # construction
    for f in sorted((g for g in P.funcs.values() if g.cls == cls and g.short == "SetParams"), key=lambda g: g.sig):
        rep.fn(f)
        n = [i for i, p in enumerate(f.params) if kind(p["t"]) == "p"]
        try:
            I = interp(P, keep=("PointMatches",))
            P0 = [initial(ordered(P, "p", ("par", i, f.params[i]["n"]))) for i in n]
            good = 0
            for st, rv in I.run(f):
                r = I.truth(st, rv)
                k = I.load(st, loc("msegtype")).const()
                if r is None or k is None:
                    raise Undecided("result")
                if not r:
                    if k:
                        rep.violate(R, f.sig + " refused", "%s refuses the parameters but leaves a segment of type %d behind" % (f.name, k), where(f))
                    else:
                        rep.ok(R)
                    continue
                good += 1
                z = {x: I.truth(st, I.eq(x[2])) for x in map(tuple, P0)}
                new = {m: vals(I, st, ordered(P, "p", loc(m))) for m in pt}
                rad, sa, ea = [I.load(st, loc(m)) for m in ("mradius", "msang", "meang")]
                bad = None

                def same(x, y):
                    return all(p == q or (i == 2) for i, (p, q) in enumerate(zip(x, y)))
                if not all(z.values()):
                    bad = "accepts points above the plane"
                elif len(n) == 2:
                    if k != 1 or new["mstart"] != P0[0] or new["mend"] != P0[1]:
                        bad = "does not store the line from its first to its second point"
                    elif coincide(I, st, P0[0], P0[1]) is not False:
                        bad = "accepts a line whose ends coincide"
                elif len(n) == 3:
                    u, v = sub(P0[1], P0[0]), sub(P0[2], P0[0])
                    rr = A("sqrt", u[0] * u[0] + u[1] * u[1])
                    if coincide(I, st, P0[0], P0[1]) is not False:
                        bad = "accepts an arc of radius zero"
                    elif new["mcenter"] != P0[0]:
                        bad = "does not store the centre"
                    elif rad != rr:
                        bad = "stores %s as the radius, expected the distance of the start from the centre" % poly.show(rad)
                    elif k == 4:
                        if coincide(I, st, P0[1], P0[2]) is not True:
                            bad = "takes an arc whose ends differ for a circle"
                    elif k == 2:
                        if coincide(I, st, P0[1], P0[2]) is True:
                            bad = "takes a circle for an arc"
                        elif new["mstart"] != P0[1] or new["mend"] != P0[2]:
                            bad = "does not store the start and the end point of the arc"
                        else:
                            a0 = A("app", "atan2", u[1], u[0])
                            a1 = A("app", "atan2", v[1], v[0])
                            x0, x1 = (sa - a0).const(), (ea - a1).const()
                            turn = 6.283185307179586
                            cwf = I.truth(st, I.load(st, loc("mCWArc")))
                            flag = [i for i, p in enumerate(f.params) if poly.bare(p["t"]) == "bool"]
                            cwp = I.truth(st, A("init", ("par", flag[0], f.params[flag[0]]["n"]))) if flag else None
                            lt = I.known_cond(st, I.lt(a0 - a1).atom()) if I.lt(a0 - a1).atom() else None
                            gt = I.known_cond(st, I.lt(a1 - a0).atom()) if I.lt(a1 - a0).atom() else None
                            near = lambda x, y: x is not None and abs(float(x) - y) < 1e-6
                            if cwf is None or cwp is None or cwf != cwp:
                                bad = "does not store the direction it was given"
                            elif not (near(x0, 0) or near(x0, turn)) or not (near(x1, 0) or near(x1, turn)):
                                bad = "stores angles which are not those of the start and the end point"
                            elif cwp and not (lt is True and near(x0, turn) and near(x1, 0) or lt is False and near(x0, 0) and near(x1, 0)):
                                bad = "a clockwise arc must have its start angle above its end angle by at most a turn"
                            elif not cwp and not (gt is True and near(x1, turn) and near(x0, 0) or gt is False and near(x0, 0) and near(x1, 0)):
                                bad = "a counterclockwise arc must have its end angle above its start angle by at most a turn"
                    else:
                        bad = "stores a segment of type %d" % k
                if bad:
                    rep.violate(R, f.sig + " " + bad[:30], "%s %s" % (f.name, bad), where(f))
                else:
                    rep.ok(R)
            if not good:
                rep.violate(R, f.sig + " never", "%s never succeeds" % f.name, where(f))
        except INTERNAL as x:
            rep.undecided(R, "%s: %s" % (f.sig, x))


def coincide(I, st, a, b):
    """what the path has found out about two points with PointMatches"""
    for k, t in st.cond.items():
        if k[0] == "bool" and k[1][1] == "PointMatches" and len(k[1]) > 3:
            if {tuple(x) for x in k[1][2:4]} == {tuple(a), tuple(b)}:
                return t
    return None


def placement(P, rep):
    """rigid motion of a component: rotation about z, flipped about y on the bottom side"""
    R = "alg-placement"
    fs = P.byname.get("calcTransform") or []
    for f in fs:
        rep.fn(f)
        try:
            par = {p["n"]: (i, p) for i, p in enumerate(f.params)}
            d = [i for i, p in enumerate(f.params) if poly.bare(p["t"]) == "double"]
            b = [i for i, p in enumerate(f.params) if poly.bare(p["t"]) == "bool"]
            if len(d) != 4 or len(b) != 1:
                raise Undecided("interface")
            dx, dy, dz, da = [A("init", ("par", i, f.params[i]["n"])) for i in d]
            bot = A("init", ("par", b[0], f.params[b[0]]["n"]))
            I = poly.Interp(P, lambda g, this: g.cls in KIND or g.cls is None)
            n = 0
            for st, rv in I.run(f):
                bt = I.truth(st, bot)
                zero = I.truth(st, I.eq(da))
                snaps = [s for a, s in zip(st.log, st.given) if a[1].endswith("::SetRootTransform")]
                if bt is None or len(snaps) != 1 or len(snaps[0]) != 1:
                    raise Undecided("transform")
                got = list(next(iter(snaps[0].values())))
                if len(got) != 12:
                    raise Undecided("transform")
                C, S = A("app", "cos", da), A("app", "sin", da)
                if bt:
                    S = -S
                if zero:
                    C, S = ONE, ZERO
                rz = [C, -S, ZERO, S, C, ZERO, ZERO, ZERO, ONE]
                ry = [-ONE, ZERO, ZERO, ZERO, ONE, ZERO, ZERO, ZERO, -ONE] if bt else [K(int(i % 4 == 0)) for i in range(9)]
                want = mm(rz, ry) + [dx, dy, -dz if bt else dz]

                def turn(a):
                    # cosine and sine of half a turn
                    if a[0] == "app" and a[1] in ("cos", "sin") and isinstance(a[2], Poly) and a[2].const() is not None:
                        if abs(float(a[2].const()) - 3.141592653589793) < 1e-9:
                            return -ONE if a[1] == "cos" else ZERO
                    return None
                got = [g.subst(turn) for g in got]
                names = ["R[%d][%d]" % (i, j) for i in range(3) for j in range(3)] + ["T.x", "T.y", "T.z"]
                bad = [(m, g, w) for m, g, w in zip(names, got, want) if g != w]
                n += 1
                if bad:
                    m, g, w = bad[0]
                    rep.violate(R, f.sig + (" bottom" if bt else " top"), "%s places a component on the %s side with %s = %s, expected %s" % (
                        f.name, "bottom" if bt else "top", m, poly.show(g), poly.show(w)), "%s:%d" % (f.file, f.line))
                else:
                    rep.ok(R)
        except INTERNAL as x:
            rep.undecided(R, "%s: %s" % (f.sig, x))


def run(P, rep):
    rep.rule("alg-operator", "every operator and constructor of points, matrices and transforms yields, member by member, the polynomial which linear algebra defines, with distinct and with identical operands, and leaves its operands alone")
    rep.rule("alg-chain", "the overall transform of entity 124 is the attached transform's overall matrix times its own matrix, or its own matrix")
    rep.rule("alg-124-order", "the twelve parameters of entity 124 are the rows of the rotation, each followed by its translation")
    rep.rule("alg-endpoint", "the start and end point of a curve entity are the stored coordinates, transformed exactly once iff requested and a transform is attached, and the query leaves the data alone")
    rep.rule("alg-conic", "for every sign of the determinants Q1, Q2 and A+C the conic's form is the one the specification defines")
    rep.rule("alg-closed", "an arc, section or composite curve is closed exactly if its end points coincide and it is not degenerate; a B-spline answers with the flags and data it holds")
    rep.rule("alg-helper", "normals are the normalised cross product; points match exactly if their squared distance is within the tolerance")
    rep.rule("alg-segment", "lines, arcs and circles store what they were given, exchange their ends and direction on reverse() and report the defined length and midpoint")
    rep.rule("alg-placement", "a component is placed by a rotation about z, on the bottom side by the mirrored rotation after half a turn about y, and its offset")
    rep.guard("alg-segment", segment, P, rep)
    rep.guard("alg-placement", placement, P, rep)
    rep.guard("alg-operator", operators, P, rep)
    rep.guard("alg-chain", transform, P, rep)
    rep.guard("alg-124-order", matrixdata, P, rep)
    rep.guard("alg-endpoint", curves, P, rep)
    rep.guard("alg-conic", conic, P, rep)
    rep.guard("alg-closed", closed, P, rep)
    from checks import closed as C2
    rep.guard("alg-closed", C2.composite, P, rep, "alg-closed")
    rep.guard("alg-closed", C2.flags, P, rep, "alg-closed")
    rep.guard("alg-helper", helpers, P, rep)
    rep.rule("alg-bounds", "no constant index met on the way lies outside of its array")
    rep.ok("alg-bounds")
    for sig, file, line, what in sorted(poly.FAULTS):
        rep.violate("alg-bounds", sig, "%s uses %s" % (sig, what), "%s:%d" % (file, line))
    for r, n in (("alg-operator", 20), ("alg-chain", 2), ("alg-endpoint", 8), ("alg-conic", 20), ("alg-closed", 30), ("alg-helper", 10)):
        rep.need(r, n)
