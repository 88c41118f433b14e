"""Units and model scale: conversion factors, what readGlobals() establishes, and which members every entity's rescale() scales."""
import engine
import program
from engine import C, TRUE, isc, INF
from labels import member, subterms
from checks.layout import poly, pstr
from checks.globalsec import GR, gfield, UNITS, NAMES

# entity -> member -> power of the scale factor (IGES 5.3: a length 1, a conic's constant term 2, ratios and directions 0)
LEN = {
    "100": {m: 1 for m in ("zOffset", "xCenter", "yCenter", "xStart", "yStart", "xEnd", "yEnd")},
    "102": {}, "104": dict({"A": 0, "B": 0, "C": 0, "D": 1, "E": 1, "F": 2}, **{m: 1 for m in ("ZT", "X1", "Y1", "X2", "Y2")}),
    "108": dict({"A": 0, "B": 0, "C": 0}, **{m: 1 for m in ("D", "X", "Y", "Z", "Size")}),
    "110": {m: 1 for m in ("X1", "Y1", "Z1", "X2", "Y2", "Z2")},
    "120": {}, "122": {m: 1 for m in ("LX", "LY", "LZ")}, "124": {"T.T": 1},
    "126": {"coeffs": 1}, "128": {"coeffs": 1}, "142": {}, "144": {},
    "154": {m: 1 for m in ("H", "R", "X1", "Y1", "Z1")}, "164": {"L": 1},
    "180": {}, "186": {}, "308": {}, "314": {}, "406": {}, "408": {m: 1 for m in ("X", "Y", "Z")},
    "502": {"vertices": 1}, "504": {}, "508": {}, "510": {}, "514": {},
}
ALIAS = {"ZT": "zOffset", "X1": "xCenter", "Y1": "yCenter", "X2": "xStart", "Y2": "yStart", "X3": "xEnd", "Y3": "yEnd"}
ARRAYS = {"126": ("coeffs", "PROP3", {"nCoeffs", "K+1"}), "128": ("coeffs", "PROP3", {"nCoeffs1*nCoeffs2"})}


def name(loc, cls):
    m = member(loc)
    if m is None:
        return None
    m = m.replace("[]", "").replace("#", "")
    m = ".".join(p for p in m.split(".") if p and not p.startswith("(anonymous"))
    if cls == "100":
        m = ALIAS.get(m, m)
    return m


class Scale(engine.Check):
    max_depth = 3

    def __init__(self, cls):
        self.cls = cls
        self.done = []

    def joinkey(self, st):
        return st.prop

    def inline(self, E, st, c, callee):
        return callee.nel < 120 and callee.file.startswith("entities") and callee.short not in ("GetBPTR", "getFirstParentRef")

    def on_call(self, E, st, c):
        s = c.short
        if s == "GetBPTR" and c.callee is not None:
            a = st.copy()
            st.prop = frozenset(st.prop) | {("bptr",)}
            return [(a, C(0)), (st, TRUE)]
        ty = c.name.split("::")[-2] if "::" in c.name else ""
        if c.op == "*=" and ty in ("MCAD_POINT",) and c.obj is not None and len(c.args) == 1:
            v = ("op", "*", E.load(st, c.obj), c.args[0])
            self.on_store(E, st, c.obj, v, c.func, c.line)
            E.rawstore(st, c.obj, v)
            return [(st, ("ref", c.obj))]
        if c.op == "*" and len(c.args) == 2 and c.callee is not None and c.callee.file.startswith("geom"):
            return [(st, ("op", "*", self.val(E, st, c, 0), self.val(E, st, c, 1)))]
        if c.op == "=" and ty == "MCAD_POINT" and c.obj is not None:
            self.on_store(E, st, c.obj, c.args[0], c.func, c.line)
            E.rawstore(st, c.obj, c.args[0])
            return [(st, ("ref", c.obj))]
        return None

    def val(self, E, st, c, i):
        v = c.args[i]
        if v[0] == "ref":
            return E.load(st, v[1])
        if v[0] == "obj" or v[0] == "undef":
            l = c.argloc(st, i)
            return E.load(st, l) if l else v
        return v

    def lin(self, ix):
        """index as (base, coefficient, offset); base None for constants"""
        if isinstance(ix, int):
            return (None, 0, ix)
        if not isinstance(ix, tuple):
            return (("x", ix), 1, 0)
        leaves = {}

        def leaf(t):
            if t[0] in ("w", "j", "v", "iter", "out", "old", "elem", "p"):
                leaves[str(t)] = t
                return str(t)
            return None
        p = poly(ix, leaf)
        if p is None:
            return None
        off = p.pop((), 0)
        if not p:
            return (None, 0, off)
        if len(p) == 1 and len(list(p)[0]) == 1:
            k = list(p)[0][0]
            return (leaves[k], p[list(p)[0]], off)
        return None

    def on_store(self, E, st, loc, val, func, line):
        if loc[0] == "lv" and isinstance(val, tuple):
            # remember the step of loop indices
            b = self.lin(val) if val[0] in ("c", "op", "w", "j") and (val[0] != "c" or isinstance(val[1], int)) else None
            if b:
                st.prop = frozenset(x for x in st.prop if not (x[0] == "step" and x[1] == loc)) | {("step", loc, b)}
            return
        n = name(loc, self.cls)
        if n is None:
            return
        if any(q[0] == "elem" for q in chainof(loc)):
            q = [q for q in chainof(loc) if q[0] == "elem"][0]
            sub = ""
            if loc[0] == "fld" and loc[1][0] == "elem":
                sub = "." + loc[2].split("::")[-1]
                n = n[:-len(sub)] if n.endswith(sub) else n

            def leaf(t):
                if t[:2] == ("p", 0):
                    return "sf"
                if t[0] == "v" and (t[1] == loc or t[1] == q) or t[0] in ("w", "j") and t[-1] == loc:
                    return "old"
                if t[0] == "v" and t[1][0] == "fld" and t[1][1] == q:
                    return "old" if t[1] == loc else None
                return None
            p = poly(val, leaf)
            ok = p == {("old", "sf"): 1}
            ix = self.lin(q[2])
            base = ix[0] if ix else None
            st.prop = frozenset(st.prop) | {("el", n, ix if ix else ("?",), sub, ok, line)}

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append((st, val, line))


def chainof(loc):
    out = []
    while isinstance(loc, tuple) and loc[0] in ("fld", "elem", "deref", "v"):
        out.append(loc)
        loc = loc[1]
    return out


def entities(P, rep):
    for cls in sorted(P.subclasses("IGES_ENTITY")):
        num = cls.split("_")[-1]
        if num not in LEN:
            continue
        f = P.byname.get(cls + "::rescale")
        if not f:
            rep.violate("scale-member", cls + ":missing", cls + " does not define rescale()", cls)
            continue
        f = f[0]
        S = Scale(num)
        E = engine.Engine(P, S, cls)
        E.run(f)
        rep.fn(f)
        where = "%s:%d" % (f.file, f.line)
        want = LEN[num]
        good = [(st, line) for st, v, line in S.done if not (isc(v) and not v[1])]
        if not good:
            rep.violate("scale-member", cls + ":fails", "rescale() of %s never succeeds" % cls, where)
            continue
        if E.limit_hit:
            rep.undecided("scale-member", cls)
            continue
        arr = ARRAYS.get(num)
        for st, line in good:
            got = {}
            for l, v in st.env.items():
                n = name(l, num) if l[0] == "fld" else None
                if n is None:
                    continue
                got[n] = (l, v)
            # T.T may be scaled by components
            for n in sorted(set(want) | set(got)):
                if arr and n == arr[0] or n == "vertices":
                    continue
                root = n
                k = want.get(n)
                if k is None:
                    par = [w for w in want if n.startswith(w + ".")]
                    k = want[par[0]] if par else 0
                if n in got:
                    l, v = got[n]
                    p = poly(v, lambda t: "sf" if t[:2] == ("p", 0) else "old" if t == ("v", l) or t[0] == "v" and t[1] == l else None)
                    exp = {tuple(sorted(("old",) + ("sf",) * k)): 1}
                    if v[0] in ("c",) and n not in want or v[0] in ("cleared", "mutated", "new"):
                        continue
                    if p is None:
                        if k or n in want:
                            rep.undecided("scale-member", cls + "." + n)
                        continue
                    if p != exp:
                        rep.violate("scale-member", cls + ":" + n, "rescale() turns %s into %s instead of %s" % (n, pstr(p), pstr(exp)), where)
                    else:
                        rep.ok("scale-member")
                elif k:
                    comps = [c for c in ("x", "y", "z") if n + "." + c in got]
                    if len(comps) == 3:
                        rep.ok("scale-member")
                    else:
                        rep.violate("scale-member", cls + ":" + n, "a path through rescale() leaves the length %s unscaled" % n, where)
                else:
                    rep.ok("scale-member")
        if num == "502":
            vertices(P, rep, E, cls, S, good, where)
        if arr:
            array(P, rep, cls, num, arr, S, E, good, where)


def full(E, st, qs, lst=False):
    """whether the path leaves the array (or list) unscaled although it may hold something and no test says otherwise"""
    B = E.deref(("this",))
    for q in qs:
        l = ("fld", B, q)
        if lst:
            if tuple(E.iv(st, ("v", ("size", l)))[:2]) == (0, 0):
                return False
            for k, v in st.facts.items():
                if v is True and ("iter", l, "end") in subterms(k):
                    return False
        elif E.truth(st, ("v", l)) is False or E.iv(st, ("v", l))[1] <= 0:
            return False
    for k, v in st.facts.items():      # a loop which ends before its first round: !(0 < number)
        if isinstance(v, tuple) and v[0] == "iv" and v[2] <= 0 and any(t[0] == "fld" and t[2] in qs for t in subterms(k)):
            return False
        if isinstance(v, bool) and k[0] in ("<", "<=", "==") and any(t[0] == "fld" and t[2] in qs for t in subterms(k)):
            if C(0) in k[1:3] and (k[0] == "==") == v:
                return False
    return True


def vertices(P, rep, E, cls, S, good, where):
    n = 0
    for st, line in good:
        evs = [x for x in st.prop if x[0] == "el" and x[1] == "vertices"]
        if not evs:
            if full(E, st, [q for q, t in P.fields(cls, True) if q.endswith("::vertices")], True):
                rep.violate("scale-array", cls + ":skip", "a path through rescale() leaves the vertices unscaled", "%s:%d" % (where.split(":")[0], line or 0))
            continue
        n += 1
        if not all(x[4] for x in evs):
            rep.violate("scale-array", cls + ":vertices", "a vertex is not multiplied by the factor", where)
        elif {x[3] for x in evs} not in ({""}, {".x", ".y", ".z"}):
            rep.violate("scale-array", cls + ":vertices", "only the components %s of the vertices are scaled" % sorted(x[3] for x in evs), where)
        else:
            rep.ok("scale-array")
    if not n:
        rep.violate("scale-array", cls + ":vertices", "rescale() scales no vertex", where)


def array(P, rep, cls, num, arr, S, E, good, where):
    field, rat, counts = arr
    seen = {}
    for st, line in good:
        evs = {x for x in st.prop if x[0] == "el" and x[1] == field}
        if not evs:
            if full(E, st, [q for q, t in P.fields(cls, False) if q.endswith("::" + field) or t.split()[-1] == "int" and q.split("::")[-1].startswith(("nCoeffs", "nKnots", "K", "M"))]):
                rep.violate("scale-array", cls + ":skip", "a path through rescale() leaves %s unscaled" % field, "%s:%d" % (where.split(":")[0], line or 0))
            continue
        f = None
        for k, fa in st.facts.items():
            if k[0] == "v" and member(k) == rat and isinstance(fa, tuple) and fa[0] == "iv":
                if fa[1] == fa[2] == 0:
                    f = 4
                elif 0 in fa[3] or fa[1] > 0 or fa[2] < 0:
                    f = 3
        if any(x[2] == ("?",) for x in evs):
            rep.undecided("scale-array", cls + " index")
            continue
        if not all(x[4] for x in evs):
            b = [x for x in evs if not x[4]][0]
            rep.violate("scale-array", cls + ":factor", "%s is not multiplied by exactly the factor" % field, "%s:%d" % (where.split(":")[0], b[5]))
            continue
        first = {x[2][2] for x in evs if x[2][0] is None}
        rest = {}
        for x in evs:
            if x[2][0] is not None:
                rest.setdefault((x[2][0], x[2][1]), set()).add(x[2][2])
        legal = [{0, 1, 2}]
        if num == "126" and ("bptr",) in st.prop:
            legal.append({2})
        for (b, co), offs in rest.items():
            lo = min(offs)
            # a join may leave a base that sits inside the group
            if offs not in legal and not any({o - lo + min(l) for o in offs} == l for l in legal):
                rep.violate("scale-array", cls + ":offsets", "of every control point the components %s are scaled (expected x, y, z)" % sorted(offs), where)
            else:
                rep.ok("scale-array")
            step = None
            if isinstance(b, tuple) and b[0] in ("w", "j") and len(b) > 2:
                for x in st.prop:
                    if x[0] == "step" and x[1] == b[2]:
                        s = x[2]
                        step = s[2] if s[0] is None else s[2] * 1
            if f is None:
                rep.undecided("scale-array", cls + " rational or polynomial unknown on a path")
                continue
            if step is not None:
                tot = step * co if co != 1 or step else step
                if tot != f:
                    rep.violate("scale-array", cls + ":stride", "consecutive control points are taken %s values apart; %s have %d values per point" %
                                (tot, "rational ones" if f == 4 else "polynomial ones", f), where)
                else:
                    rep.ok("scale-array")
            else:
                rep.undecided("scale-array", cls + " stride")
        if first and first not in legal and not any(first == l for l in legal):
            rep.violate("scale-array", cls + ":first", "of the first control point the components %s are scaled" % sorted(first), where)
        elif first:
            rep.ok("scale-array")
    # loop bounds
    f = P.byname[cls + "::rescale"][0]


class Conv(engine.Check):
    """ConvertUnits / ChangeModelScale / Read: the factor each entity is rescaled by"""
    max_depth = 3

    def __init__(self):
        self.done = []
        self.calls = []

    def joinkey(self, st):
        return (st.prop, frozenset((k, v) for k, v in st.env.items() if gfield(k)))

    def inline(self, E, st, c, callee):
        return callee.nel < 120 and callee.file.startswith("iges/iges.cpp") and callee.short not in (
            "readGlobals", "readDE", "readPD", "readTS", "Cull", "Clear", "init")

    def on_call(self, E, st, c):
        s = c.short
        if s in ("rescale", "associate") and c.objval is not None:
            ent = "entities" in str(member(c.objval) or "") or any(q[0] == "fld" and q[2] == "IGES::entities" for q in subterms(c.objval))
            if s == "associate" and any(x[0] == "rescale" for x in st.prop):
                st.prop = frozenset(st.prop) | {("late",)}
            st.prop = frozenset(st.prop) | {(s, bool(ent), c.args[0] if s == "rescale" else None)}
            if s == "rescale":
                self.calls.append((st.copy(), c.args[0], c.line, c.func, ("associate", True, None) in st.prop))
            bad = st.copy()
            bad.prop = frozenset(st.prop) | {("failed",)}
            return [(st, TRUE), (bad, C(0))]
        if s in ("readGlobals", "readDE", "readPD", "readTS", "ReadIGESRecord"):
            l = E.deref(c.args[0]) if s == "ReadIGESRecord" else E.loc(c.func, c.ctx, c.argids[0], st)
            E.killsub(st, l, c.site)
            if s == "readGlobals":
                E.killfields(st, E.P.mods(c.callee.sig), c.site)
            if s in ("readDE", "readPD"):
                E.killfields(st, E.P.mods(c.callee.sig), c.site)
            return [(st.copy(), C(0)), (st, TRUE)]
        return None

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append((st, val, line))


def value(t, env):
    """numeric value of a term over sample values"""
    k = t[0]
    r = env(t)
    if r is not None:
        return r
    if k == "c":
        return t[1]
    if k == "op" and len(t) == 4:
        a, b = value(t[2], env), value(t[3], env)
        if a is None or b is None:
            return None
        try:
            return {"+": a + b, "-": a - b, "*": a * b}[t[1]] if t[1] != "/" else a / b
        except (KeyError, ZeroDivisionError):
            return None
    return None


def factor(P, t, sample):
    tab = P.globals["UNIT_TO_MM"]["init"]

    def env(q):
        if q in sample:
            return sample[q]
        if q[0] == "v" and q[1][0] == "elem" and q[1][1] == ("g", "UNIT_TO_MM"):
            i = value(q[1][2], env)
            return tab[i] if i is not None and 0 <= i < len(tab) else None
        return None
    return value(t, env)


def close(a, b):
    return a is not None and abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def run(P, rep):
    rep.rule("unit-table", "the unit tables hold the standard's names and millimetre factors")
    rep.rule("unit-read", "every successful return of readGlobals() leaves millimetres, scale 1 and the factor unit/scale to be applied")
    rep.rule("unit-apply", "Read() applies that factor to every entity after the associations are made")
    rep.rule("unit-convert", "ConvertUnits() and ChangeModelScale() rescale every entity by exactly the ratio they record")
    rep.rule("scale-member", "rescale() multiplies each length of the entity by the factor once and changes nothing else")
    rep.rule("scale-array", "rescale() multiplies x, y and z of every control point or vertex and leaves weights alone")
    rep.rule("unit-weight", "Export() converts line weights by the ratio of the other model's gradations to this model's")
    rep.rule("unit-quotient", "no whole-number quotient of integers is used as a real number")
    from checks import weights
    rep.guard("unit-weight", weights.weights, P, rep)
    rep.guard("unit-quotient", weights.quotients, P, rep)
    tab = P.globals.get("UNIT_TO_MM")
    nam = P.globals.get("UNIT_NAMES")
    if not tab or not nam:
        raise program.Broken("unit tables not found")
    start = 1
    for u, f in UNITS.items():
        w = "%s:%d" % (tab["file"], tab["line"])
        if u - start >= len(tab["init"]) or not close(tab["init"][u - start], f):
            rep.violate("unit-table", "mm:%d" % u, "unit %d is taken as %s mm instead of %s" % (u, tab["init"][u - start] if u - start < len(tab["init"]) else None, f), w)
        else:
            rep.ok("unit-table")
        if u - start >= len(nam["init"]) or nam["init"][u - start] not in NAMES[u]:
            rep.violate("unit-table", "name:%d" % u, "unit %d is named %s" % (u, nam["init"][u - start]), "%s:%d" % (nam["file"], nam["line"]))
        else:
            rep.ok("unit-table")
    globals_(P, rep)
    conv(P, rep)
    entities(P, rep)
    rep.need("unit-table", 15)
    rep.need("unit-read", 10)
    rep.need("unit-apply", 1)
    rep.need("unit-convert", 4)
    rep.need("scale-member", 30)
    rep.need("scale-array", 4)


def gload(E, st, f):
    return E.load(st, ("fld", ("fld", ("deref", ("this",)), "IGES::globalData"), "IGES_GLOBAL::" + f))


def globals_(P, rep):
    f = P.byname["IGES::readGlobals"][0]
    rep.fn(f)
    R = GR()
    E = engine.Engine(P, R, "IGES")
    E.run(f)
    sc, un, res = ("de", 13, "real"), ("de", 14, "int"), ("de", 19, "real")
    for st, line in R.done:
        where = "%s:%d" % (f.file, line)
        for s in (1.0, 0.5, 4.0):
            for u in UNITS:
                if not fits(E, st, sc, s) or not fits(E, st, un, u):
                    continue
                sample = {sc: s, un: u, res: 0.125, ("v", ("fld", ("fld", ("deref", ("this",)), "IGES::globalData"), "IGES_GLOBAL::cf")): 1.0}
                uf = factor(P, gload(E, st, "unitsFlag"), sample)
                ms = factor(P, gload(E, st, "modelScale"), sample)
                cf = factor(P, gload(E, st, "cf"), sample)
                mr = factor(P, gload(E, st, "minResolution"), sample)
                want = UNITS[u] / s
                tag = "unit %d, model scale %s" % (u, s)
                if uf != 2:
                    rep.violate("unit-read", "unit", "after reading %s the units flag is %s instead of millimetres" % (tag, uf), where)
                elif not close(ms, 1.0):
                    rep.violate("unit-read", "scale", "after reading %s the model scale is %s instead of 1" % (tag, ms), where)
                elif not close(cf, want):
                    rep.violate("unit-read", "factor", "for %s the conversion factor is %s instead of %s" % (tag, cf, want), where)
                elif not close(mr, 0.125 * want):
                    rep.violate("unit-read", "resolution", "for %s a resolution of 0.125 becomes %s instead of %s" % (tag, mr, 0.125 * want), where)
                else:
                    cv = gload(E, st, "convert")
                    if not close(want, 1.0) and not (isc(cv) and cv[1]):
                        rep.violate("unit-read", "flag", "for %s the conversion is not requested" % tag, where)
                    else:
                        rep.ok("unit-read")
    init = P.byname.get("IGES::init")
    if init:
        S = Conv()
        EE = engine.Engine(P, S, "IGES")
        EE.run(init[0])
        rep.fn(init[0])
        for st, v, line in S.done:
            if v == TRUE and not close((gload(EE, st, "cf") + (None,))[1] if isc(gload(EE, st, "cf")) else None, 1.0):
                rep.violate("unit-read", "init", "a fresh model starts with a conversion factor other than 1", "%s:%d" % (init[0].file, line))
            elif v == TRUE:
                rep.ok("unit-read")


def fits(E, st, t, x):
    f = st.facts.get(t)
    lo, hi = E.iv(st, t)
    if not (lo <= x <= hi) or isinstance(f, tuple) and f[0] == "iv" and x in f[3]:
        return False
    for k, v in st.facts.items():
        if not isinstance(v, bool) or len(k) != 3:
            continue
        if k[1] == t and isc(k[2]):
            a, b = x, k[2][1]
        elif k[2] == t and isc(k[1]):
            a, b = k[1][1], x
        else:
            continue
        r = {"<": a < b, "<=": a <= b, "==": a == b}.get(k[0])
        if r is not None and r != v:
            return False
    return True


def conv(P, rep):
    f = P.byname.get("IGES::Read")
    if not f:
        raise program.Broken("IGES::Read not found")
    f = f[0]
    S = Conv()
    E = engine.Engine(P, S, "IGES")
    E.run(f)
    rep.fn(f)
    if E.limit_hit:
        rep.undecided("unit-apply", "Read")
    for st, a, line, func, after in S.calls:
        where = "%s:%d" % (func.file, line)
        if gfield(a) != "cf":
            rep.violate("unit-apply", "factor", "Read() rescales by something other than the conversion factor", where)
        else:
            rep.ok("unit-apply")
    for st, v, line in S.done:
        if isc(v) and not v[1]:
            continue
        where = "%s:%d" % (f.file, line)
        cv = gload(E, st, "convert")
        lo, hi = E.iv(st, cv)
        n = gload2(E, st)
        if any(x[0] == "rescale" for x in st.prop):
            if ("late",) in st.prop:
                rep.violate("unit-apply", "order", "entities are rescaled before their associations are made", where)
            rep.ok("unit-apply")
        elif lo == hi == 0 or n == 0:
            rep.ok("unit-apply")
        else:
            rep.violate("unit-apply", "skipped", "Read() succeeds without rescaling although a conversion may be due", where)
    loops(P, rep, f, "unit-apply", "Read")
    # ConvertUnits
    f = P.byname.get("IGES::ConvertUnits")
    if f:
        f = f[0]
        S = Conv()
        E = engine.Engine(P, S, "IGES")
        E.run(f)
        rep.fn(f)
        old = ("v", ("fld", ("fld", ("deref", ("this",)), "IGES::globalData"), "IGES_GLOBAL::unitsFlag"))
        new = ("p", 0, "?")
        new = [q for st, a, l, fu, x in S.calls for q in subterms(a) if q[0] == "p"][:1] or [new]
        new = new[0]
        mr = ("v", ("fld", ("fld", ("deref", ("this",)), "IGES::globalData"), "IGES_GLOBAL::minResolution"))
        for st, a, line, func, x in S.calls:
            where = "%s:%d" % (func.file, line)
            for u in UNITS:
                for w in UNITS:
                    if u == w:
                        continue
                    g = factor(P, a, {old: u, new: w})
                    if not close(g, UNITS[u] / UNITS[w]):
                        rep.violate("unit-convert", "factor", "converting unit %d to unit %d rescales by %s instead of %s" % (u, w, g, UNITS[u] / UNITS[w]), where)
                    else:
                        rep.ok("unit-convert")
        for st, v, line in S.done:
            where = "%s:%d" % (f.file, line)
            if isc(v) and not v[1]:
                continue
            uf = gload(E, st, "unitsFlag")
            m = gload(E, st, "minResolution")
            if uf == old and m == mr and not any(x[0] == "rescale" for x in st.prop):
                if fits2(st, old, new) or not anypair(P, E, st, old, new):
                    rep.ok("unit-convert")
                else:
                    rep.violate("unit-convert", "noop", "ConvertUnits() succeeds without converting although the units differ", where)
                continue
            if uf != new and not E.truth(st, ("op", "==", uf, new)) is True:
                rep.violate("unit-convert", "flag", "ConvertUnits() succeeds without recording the new unit", where)
            elif not close(factor(P, m, {old: 1, new: 6, mr: 0.125}), 0.125 * 0.0254):
                rep.violate("unit-convert", "resolution", "ConvertUnits() does not convert the minimum resolution with the model", where)
            else:
                rep.ok("unit-convert")
        if not S.calls:
            rep.violate("unit-convert", "none", "ConvertUnits() rescales no entity", "%s:%d" % (f.file, f.line))
        loops(P, rep, f, "unit-convert", "ConvertUnits")
    f = P.byname.get("IGES::ChangeModelScale")
    if f:
        f = f[0]
        S = Conv()
        E = engine.Engine(P, S, "IGES")
        E.run(f)
        rep.fn(f)
        old = ("v", ("fld", ("fld", ("deref", ("this",)), "IGES::globalData"), "IGES_GLOBAL::modelScale"))
        mr = ("v", ("fld", ("fld", ("deref", ("this",)), "IGES::globalData"), "IGES_GLOBAL::minResolution"))
        new = [q for st, a, l, fu, x in S.calls for q in subterms(a) if q[0] == "p"][:1] or [("p", 0, "?")]
        new = new[0]
        for st, a, line, func, x in S.calls:
            g = factor(P, a, {old: 2.0, new: 10.0})
            if not close(g, 5.0):
                rep.violate("unit-convert", "scale-factor", "changing the model scale from 2 to 10 rescales by %s instead of 5" % g, "%s:%d" % (func.file, line))
            else:
                rep.ok("unit-convert")
        for st, v, line in S.done:
            where = "%s:%d" % (f.file, line)
            if isc(v) and not v[1]:
                continue
            ms = factor(P, gload(E, st, "modelScale"), {old: 2.0, new: 10.0})
            m = factor(P, gload(E, st, "minResolution"), {old: 2.0, new: 10.0, mr: 0.125})
            if not close(ms, 10.0):
                rep.violate("unit-convert", "scale-record", "ChangeModelScale() succeeds without recording the new scale", where)
            elif not close(m, 0.625):
                rep.violate("unit-convert", "scale-resolution", "changing the scale from 2 to 10 turns a resolution of 0.125 into %s instead of 0.625" % m, where)
            else:
                rep.ok("unit-convert")
        if not S.calls:
            rep.violate("unit-convert", "scale-none", "ChangeModelScale() rescales no entity", "%s:%d" % (f.file, f.line))
        loops(P, rep, f, "unit-convert", "ChangeModelScale")


def gload2(E, st):
    """0 when the path implies that there are no entities"""
    for k, f in st.facts.items():
        if not isinstance(k, tuple) or not any(q[0] == "size" and q[1][0] == "fld" and q[1][2] == "IGES::entities" for q in subterms(k)):
            continue
        if isinstance(f, tuple) and f[0] == "iv" and f[2] <= 0 and k[0] != "op":
            return 0
    return None


def anypair(P, E, st, old, new):
    """is there a pair of different units for which this path can be taken"""
    for u in UNITS:
        for w in UNITS:
            if u == w:
                continue
            ok = True
            for k, f in st.facts.items():
                if isinstance(f, bool) and len(k) == 3:
                    a, b = factor(P, k[1], {old: u, new: w}), factor(P, k[2], {old: u, new: w})
                    if a is None or b is None:
                        continue
                    r = {"<": a < b, "<=": a <= b, "==": a == b}.get(k[0])
                    ok = ok and (r is None or r == f)
                elif isinstance(f, tuple) and f[0] == "iv":
                    a = factor(P, k, {old: u, new: w})
                    if a is not None and not (f[1] <= a <= f[2] and a not in f[3]):
                        ok = False
            if ok:
                return True
    return False


def fits2(st, a, b):
    for k, v in st.facts.items():
        if k[0] == "==" and v is True and set(k[1:]) == {a, b}:
            return True
    return False


class Bounds(Conv):
    """the loop that rescales runs from the first to the last entity"""

    def __init__(self):
        Conv.__init__(self)
        self.idx = []

    def on_call(self, E, st, c):
        if c.short == "rescale" and c.objval is not None:
            self.idx.append((E, st.copy(), c.objval, c.line, c.func))
        return Conv.on_call(self, E, st, c)


def loops(P, rep, f, rule, what):
    B = Bounds()
    E = engine.Engine(P, B, "IGES")
    E.run(f)
    first = False
    for E_, st, v, line, func in B.idx:
        el = [q for q in subterms(v) if q[0] == "elem"]
        it = [q for q in subterms(v) if q[0] == "iter"]
        if el and el[0][2] == C(0) or el and el[0][2] == 0 or it and it[0][2] == 0:
            first = True
    if B.idx and not first:
        rep.violate(rule, what + ":first", "%s() does not rescale the first entity" % what, "%s:%d" % (f.file, B.idx[0][3]))
    elif B.idx:
        rep.ok(rule)
    # leaving the loop means the index reached the number of entities
    for st, v, line in B.done:
        if isc(v) and not v[1] or not any(x[0] == "rescale" for x in st.prop):
            continue
        sizes = [k for k in st.facts if isinstance(k, tuple) and any(q[0] == "size" and q[1][0] == "fld" and q[1][2] == "IGES::entities" for q in subterms(k))
                 or isinstance(k, tuple) and any(q[0] == "iter" and q[2] == "end" for q in subterms(k))]
        if not sizes:
            rep.violate(rule, what + ":last", "%s() leaves the loop over the entities before its end" % what, "%s:%d" % (f.file, line))
        else:
            rep.ok(rule)
