"""B-spline data: what SetNURBSData takes over (part of P11)."""
import engine
from engine import C, isc
from checks.layout import poly, pstr

SELF = ("deref", ("this",))

# parameters by position: "n" coefficients, "o" order, "k" knots, "c" coefficients, "r" rational, others: item of the tail
PARS = {
    "IGES_ENTITY_126": ("n0 o0 k0 c r t0 t1", {"K": "n0-1", "M": "o0-1"}),
    "IGES_ENTITY_128": ("n0 n1 o0 o1 k0 k1 c r - - t0 t1 t2 t3", {"K1": "n0-1", "K2": "n1-1", "M1": "o0-1", "M2": "o1-1"}),
}


class W(engine.Check):
    max_depth = 2
    join_cap = 400

    def __init__(self, names):
        self.names = names

    def joinkey(self, st):
        return st.prop

    def inline(self, E, st, c, g):
        return not g.virt and g.nel < 40 and g.access != 0

    def leaf(self, t):
        if t[0] == "p" and t[1] < len(self.names):
            return self.names[t[1]]
        return None

    def at(self, t):
        return "0" if t == C(0) else "i" if t[0] in ("w", "j") else str(t)

    def on_store(self, E, st, loc, val, func, line):
        if loc[0] == "elem" and loc[1][0] == "deref" and loc[1][1][0] == "new":
            src = None
            if val[0] == "v" and val[1][0] == "elem" and val[1][1][0] == "deref" and val[1][1][1][0] == "p":
                src = (val[1][1][1][1], val[1][2] == loc[2])
            st.prop = frozenset(x for x in st.prop if x[0] != "last") | {("st", loc[1][1], self.at(loc[2]), src, line), ("last", loc[1][1])}
        elif loc[0] in ("elem", "deref", "idx") and not (loc[0] == "elem" and loc[2] == "new"):
            st.prop = st.prop | {("bulk",)}

    def on_call(self, E, st, c):
        if c.short in ("memcpy", "copy", "memmove", "copy_n"):
            st.prop = st.prop | {("bulk",)}
        return None

    def on_assume(self, E, st, term, truth, func, line):
        if term[0] != "op" or len(term) != 4:
            return
        o, a, b = term[1:]
        if not truth:
            o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}.get(o)
        if o in (">=", "==", ">") and self.at(a) in ("0", "i"):
            p = poly(b, self.leaf)
            if p is not None and not any(p):
                p = None
            last = [x[1] for x in st.prop if x[0] == "last"]
            if p is not None and o == ">":
                p = dict(p)
                p[()] = p.get((), 0) + 1
            if last and self.at(a) == "i":
                st.prop = st.prop | {("end", last[0], pstr(p) if p is not None else None)}


def nurbs(P, rep, R):
    from checks import algebra, layout
    for cls in sorted(PARS):
        names, ints = PARS[cls]
        names = names.split()
        f = P.method(cls, "SetNURBSData")
        if f is None or f.cls != cls or len(f.params) != len(names):
            rep.undecided(R, cls + "::SetNURBSData")
            continue
        rep.fn(f)
        where = "%s:%d" % (f.file, f.line)
        seq, end, tail = algebra.items(P, cls)
        L = layout.extract(P, cls)[0]
        arrays = {l for n in L.nodes.values() if n.kind != "extras" for l in n.labels if l.endswith("[]")}
        first, last = seq[-1][0], tail[0][0]
        knots = [first] + sorted(arrays - {first, last})
        ends = [("fld", SELF, algebra.field(P, cls, t)[2]) for t in tail if not t[0].endswith("[]")]
        w = W(names)
        E = engine.Engine(P, w, cls)
        st = engine.State()
        st.prop = frozenset()
        res = E.run(f, st)
        if E.limit_hit:
            rep.undecided(R, f.sig)
            continue
        q = lambda n: ("fld", SELF, cls + "::" + n)
        rat = q([s[0] for s in seq if s[0].startswith("PROP")][2])
        copied = set()
        bad = None
        und = False
        n = 0
        for st, rv, th in res:
            if th or rv is None or E.truth(st, rv) is not True:
                if not th and (rv is None or E.truth(st, rv) is None):
                    und = True
                continue
            n += 1
            r = E.truth(st, ("p", names.index("r"), f.params[names.index("r")]["n"]))
            if r is None:
                und = True
                continue
            if E.load(st, rat) != C(0 if r else 1):
                bad = bad or "marks %s data as %s" % ("rational" if r else "polynomial", "polynomial" if r else "rational")
            for m, want in sorted(ints.items()):
                p = poly(E.load(st, q(m)), w.leaf)
                if p is None:
                    und = True
                elif pstr(p) != want:
                    bad = bad or "sets %s to %s instead of %s" % (m, pstr(p), want)
            for i, t in enumerate(names):
                if t[0] == "t":
                    v = E.load(st, ends[int(t[1])])
                    if v[:2] != ("p", i):
                        bad = bad or "does not store %s" % f.params[i]["n"]
            want = {k[:-2]: (names.index("k%d" % i), "n%d+o%d" % (i, i)) for i, k in enumerate(knots)}
            dim = "*".join(x for x in names if x[0] == "n")
            want[last[:-2]] = (names.index("c"), "+%d*%s" % (4 if r else 3, dim))
            for m, (src, cnt) in sorted(want.items()):
                v = E.load(st, q(m))
                if v[0] != "new":
                    bad = bad or "does not give %s storage of its own" % m
                    continue
                ev = [x for x in st.prop if x[0] == "st" and x[1] == v]
                if not ev:
                    continue
                copied.add(m)
                for x in ev:
                    if x[3] is None or x[3][0] != src or not x[3][1]:
                        if x[3] is None:
                            und = True
                        else:
                            bad = bad or "fills %s with other values than those of %s in their order" % (m, f.params[src]["n"])
                if "0" not in {x[2] for x in ev}:
                    if not any(x[2].startswith("('c'") for x in ev):
                        und = True
                    else:
                        bad = bad or "does not copy the first value of %s" % f.params[src]["n"]
                lim = {x[2] for x in st.prop if x[0] == "end" and x[1] == v}
                c = cnt.lstrip("+")
                if "i" in {x[2] for x in ev}:
                    if None in lim or not lim:
                        und = True
                    elif c not in {y.lstrip("+") for y in lim}:
                        bad = bad or "copies %s values of %s instead of %s" % ("/".join(sorted(lim)), f.params[src]["n"], c)
        bulk = any(("bulk",) in st.prop for st, rv, th in res)
        miss = {last[:-2]} | {k[:-2] for k in knots}
        if n and not bad and not bulk and miss - copied:
            bad = "leaves %s without values" % ", ".join(sorted(miss - copied))
        if bad:
            rep.violate(R, f.sig, "%s %s" % (f.name, bad), where)
        elif und or bulk or not n:
            rep.undecided(R, f.sig)
        else:
            rep.ok(R, n)
