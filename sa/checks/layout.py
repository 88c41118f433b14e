"""Writer/reader layout agreement of Parameter Data: item automata of format() and readPD()."""
import engine
from checks import attrs
from engine import C, TRUE, isc
from labels import member, qfields, subterms

PARSE = {"ParseInt": "int", "ParseReal": "real", "ParseHString": "str", "ParseLString": "str"}


class Node:
    __slots__ = ("key", "kind", "labels", "delim", "line", "file", "flow", "first", "const", "decided")


class Seq(engine.Check):
    max_depth = 5
    max_states = 6000
    join_cap = 40

    def __init__(self):
        self.nodes = {}
        self.edges = set()
        self.flow = {}
        self.ends = []
        self.through = {}
        self.emitloops = {}
        self.loopcond = {}
        self.exact = set()
        self.first = {}

    def node(self, key, kind, line, file):
        n = self.nodes.get(key)
        if n is None:
            n = Node()
            n.key = key; n.kind = kind; n.labels = set(); n.delim = set(); n.line = line; n.file = file
            n.flow = set(); n.first = set(); n.const = set(); n.decided = []
            self.nodes[key] = n
        return n

    def emit(self, st, key):
        self.edges.add((st.prop, key))
        st.prop = key
        for lk in st.loopc:
            self.emitloops.setdefault(lk, set()).add(key)

    def on_assume(self, E, st, term, truth, func, line):
        f, ctx, b = E.curbranch
        if f is not func:
            return
        best = None
        for h, body in f.loops().items():
            if b in body and (best is None or len(body) < len(f.loops()[best])):
                if any(s is not None and s not in body for s in f.blocks[b]["s"]):
                    best = h
        if best is None or term[0] != "op":
            return
        k = (ctx, best)
        d = self.loopcond.setdefault(k, {})
        tk = f.blocks[b]["t"]["k"]
        if tk in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") and (func.sig, b) not in d:
            d[(func.sig, b)] = (term, func.file, line)

    def inline(self, E, st, c, callee):
        if callee.short in ("formatExtraParams", "readExtraParams", "formatComments", "readComments", "getDESequence"):
            return False
        if callee.cls and callee.cls.startswith("IGES_ENTITY") and callee.short == "readPD":
            return False
        return callee.nel < 400 and callee.file.startswith("entities")

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.ends.append((st.prop, val, line, st))


def at(E, st, c, i):
    """value of argument i, tagged with the member it was read from"""
    v = c.args[i]
    if v[0] in ("c", "str", "r", "op") and c.func.x[c.argids[i]][0] in ("var", "fld", "idx", "drf"):
        l = E.loc(c.func, c.ctx, c.argids[i], st)
        if l[0] in ("fld", "elem") and member(l):
            return ("at", l, v)
    return v


def parts(v):
    return v[1] if v[0] == "txt" else (v,)


class Writer(Seq):
    def joinkey(self, st):
        return frozenset((k, v) for k, v in st.env.items() if v[0] == "txt")

    def on_call(self, E, st, c):
        s = c.short
        if s in ("FormatPDREal", "FormatPDReal") and len(c.args) >= 3:
            l = E.loc(c.func, c.ctx, c.argids[0], st)
            st.env[l] = ("txt", (("real", at(E, st, c, 1)), c.args[2]))
            return [(st, TRUE)]
        if s == "FormatDEInt" and len(c.args) == 2 and not (c.callee and c.callee.cls):
            l = E.loc(c.func, c.ctx, c.argids[0], st)
            st.env[l] = ("txt", (c.args[1],))
            return [(st, TRUE)]
        if s == "AddPDItem":
            lt = E.loc(c.func, c.ctx, c.argids[0], st)
            lf = E.loc(c.func, c.ctx, c.argids[1], st)
            self.items(E, st, c, parts(E.load(st, lf)), "f")
            self.items(E, st, c, parts(E.load(st, lt)), "t")
            st.env[lf] = ("txt", ())
            st.env[lt] = ("txt", ())
            return [(st, TRUE)]
        if s == "AddPDHStr":
            lt = E.loc(c.func, c.ctx, c.argids[0], st)
            lf = E.loc(c.func, c.ctx, c.argids[1], st)
            self.items(E, st, c, parts(E.load(st, lf)), "f")
            self.items(E, st, c, (("hstr", E.load(st, lt)), c.args[-1]), "t")
            st.env[lf] = ("txt", ())
            return [(st, TRUE)]
        if s == "formatExtraParams":
            lf = E.loc(c.func, c.ctx, c.argids[0], st)
            self.items(E, st, c, parts(E.load(st, lf)), "f")
            n = self.node(("extras",), "extras", c.line, c.func.file)
            self.emit(st, n.key)
            return [(st, TRUE)]
        if s == "formatComments":
            return [(st, TRUE)]
        if s == "getDESequence":
            return [(st, ("op", "DE", c.objval if c.objval is not None else ("this",)))]
        nm = c.name
        if c.op == "<<" and (nm.startswith("std::") or nm.startswith("operator")):
            if c.obj is not None:
                l, v = c.obj, at(E, st, c, 0)
            elif len(c.args) == 2:
                l, v = E.loc(c.func, c.ctx, c.argids[0], st), at(E, st, c, 1)
            else:
                return None
            if l[0] == "g":
                return [(st, ("ref", l))]
            st.env[l] = ("txt", (parts(E.load(st, l)) if E.load(st, l)[0] == "txt" else ()) + parts(v))
            return [(st, ("ref", l))]
        if s == "str" and c.obj is not None and nm.startswith("std::"):
            if c.args:
                v = c.args[0]
                st.env[c.obj] = ("txt", () if v == ("str", "") else parts(v))
                return [(st, ("void",))]
            v = E.load(st, c.obj)
            return [(st, v if v[0] == "txt" else ("txt", ()))]
        if c.op == "+=" and c.obj is not None and "basic_string" in nm:
            v = E.load(st, c.obj)
            st.env[c.obj] = ("txt", (parts(v) if v[0] == "txt" else ()) + parts(c.args[0]))
            return [(st, ("ref", c.obj))]
        return None

    def isdelim(self, v):
        q = qfields(v) if v[0] == "v" else []
        return q[-1].split("::")[-1] if q and q[-1].split("::")[-1] in ("pdelim", "rdelim") else None

    def items(self, E, st, c, ps, tag):
        cur = []
        k = 0
        for p in ps:
            d = self.isdelim(p)
            if d:
                self.item(E, st, c, tuple(cur), d, (tag, k))
                cur = []
                k += 1
            else:
                cur.append(p)
        if cur:
            self.item(E, st, c, tuple(cur), "none", (tag, k))

    def item(self, E, st, c, vals, delim, tag):
        kind = "int"
        labels = set()
        const = set()
        flags = set()
        size = False
        expr = set()
        for v in vals:
            if v[0] == "real":
                kind = "real"
                v = v[1]
            elif v[0] == "hstr":
                kind = "str"
                v = v[1]
            if v[0] == "at":
                m = member(v[1])
                labels.add(m)
                continue
            if isc(v) or v[0] == "str":
                const.add(v[1])
                for k, f in st.facts.items():
                    if isinstance(f, tuple) and f[0] == "iv" and k[0] == "v" and (f[1] == f[2] or 0 in f[3] or f[1] > 0 or f[2] < 0):
                        m = member(k)
                        if m and not m.endswith("#"):
                            flags.add(m)
                    elif isinstance(f, tuple) and f[0] == "iv" and k[0] == "op" and k[1] == "&":
                        m = member(k[2])
                        if m:
                            flags.add(m)
                continue
            w = v
            while w[0] == "op" and w[1] == "-" and len(w) == 3 or w[0] == "dyn":
                w = w[-1]
            if w[0] == "op" and w[1] != "DE":
                expr.add(w[1])
            for t in subterms(v):
                if t[0] == "op" and len(t) > 1 and t[1] == "DE":
                    kind = "int"
                    m = member(t[2]) if t[2][0] != "this" else "this"
                    if m:
                        labels.add("DE:" + m)
                elif t[0] == "v":
                    m = member(t)
                    if m:
                        labels.add(m)
                        if m.endswith("#"):
                            size = True
        # labels nested inside a DE: label are dropped
        de = {l[3:] for l in labels if l.startswith("DE:")}
        labels = {l for l in labels if l.startswith("DE:") or not any(d == l or d.startswith(l) for d in de)}
        labels = {l for l in labels if not any(o != l and (o.startswith(l + "[") or o.startswith(l + ".") or o == l + "#") for o in labels)}
        if "H" in const:
            kind = "str"
            labels = {l for l in labels if not l.endswith("#")} or {l[:-1] for l in labels}
        if not vals:
            kind = "empty"
        key = (c.site, tag, kind, tuple(sorted(labels)), tuple(sorted(map(str, const))))
        n = self.node(key, kind, c.line, c.func.file)
        n.labels |= labels
        n.const |= const
        n.decided.extend(expr)
        n.flow |= flags
        n.delim.add(delim)
        for t in vals:
            for q in subterms(t):
                if q[0] == "elem" and isinstance(q[2], tuple) and isc(q[2]):
                    n.first.add(q[2][1])
        self.emit(st, key)
        if delim == "rdelim":
            st.prop = key + ("R",)
            self.nodes[key + ("R",)] = n

class Reader(Seq):
    def on_call(self, E, st, c):
        s = c.short
        if s in PARSE and len(c.args) >= 6:
            l = E.loc(c.func, c.ctx, c.argids[2], st)
            key = (c.site,)
            n = self.node(key, PARSE[s], c.line, c.func.file)
            t = ("out", c.site, 2)
            if st.loopc:
                E.dropfacts2(st, t, l)
                for k in [k for k in st.facts if engine.contains(k, t)]:
                    del st.facts[k]
            E.killsub(st, l, c.site)
            self.note(E, st, l, t)
            st.env[l] = t
            le = E.loc(c.func, c.ctx, c.argids[3], st)
            if le[0] != "tmp":
                st.env[le] = ("out", c.site, 3)
                for k in [k for k in st.facts if engine.contains(k, ("out", c.site, 3))]:
                    del st.facts[k]
            self.emit(st, key)
            return [(st, TRUE)]
        if s == "readExtraParams":
            n = self.node(("extras",), "extras", c.line, c.func.file)
            self.emit(st, n.key)
            return [(st, TRUE)]
        if s in ("readComments",) or (s == "readPD" and c.callee is not None):
            return [(st, TRUE)]
        for i, v in enumerate(c.args):
            if i < len(c.modes) and c.modes[i] in ("r", "p"):
                ts = {q for q in subterms(v) if q[0] == "out"}
                if ts:
                    self.through.setdefault(("out", c.site, i), set()).update(ts)
        return None

    def sources(self, t, seen=None):
        seen = seen if seen is not None else set()
        for q in subterms(t):
            if q[0] == "out" and q not in seen:
                seen.add(q)
                if q in self.through:
                    for z in self.through[q]:
                        yield from self.sources(z, seen)
                elif q[2] == 2:
                    yield q

    def note(self, E, st, loc, val):
        m = member(loc)
        if m is None and loc[0] == "elem" and loc[1][0] == "deref" and loc[1][1][0] == "new":
            for k, v in st.env.items():
                if v == loc[1][1] and k[0] == "fld":
                    m = member(k) + "[]"
        if m is None and loc[0] == "fld":
            m = loc[2].split("::")[-1]
        if m is None:
            return
        for t in self.sources(val):
            self.flow.setdefault(t[1], set()).add(m)
            if val[0] == "out" or val[0] in ("obj", "il", "txt"):
                self.exact.add((t[1], canon(m)))
            if loc[0] == "elem" and isinstance(loc[2], tuple) and isc(loc[2]):
                self.first.setdefault((t[1], canon(m)), set()).add(loc[2][1])
        if isc(val):
            cand = {k[1] for k, f in st.facts.items() if k[0] == "out" and k[2] == 2 and isinstance(f, tuple) and f[0] == "iv"
                    and f[1] == f[2] and any(v == k for v in st.env.values())}
            if len(st.prop) == 1 and st.prop[0] in cand:
                cand = {st.prop[0]}
            for k in cand:
                self.flow.setdefault(k, set()).add(m)
                self.exact.add((k, canon(m)))

    def on_store(self, E, st, loc, val, func, line):
        self.note(E, st, loc, val)


def extract(P, cls):
    fw = P.method(cls, "format")
    fr = P.method(cls, "readPD")
    W = Writer(); E1 = engine.Engine(P, W, cls); rw = E1.run(fw)
    R = Reader(); E2 = engine.Engine(P, R, cls); rr = E2.run(fr)
    return W, E1, R, E2



def canon(l):
    if l.startswith("DE:"):
        l = l[3:]
    l = l.replace("#", "")
    while l.endswith(("[]", ".first", ".second")):
        l = l[:l.rindex("[")] if l.endswith("[]") else l[:l.rindex(".")]
    return l.split(".")[-1].replace("[]", "")


def compat(w, r, rflow, alias):
    if w.kind == "extras" or r.kind == "extras":
        return w.kind == r.kind
    if w.kind not in ("empty",) and w.kind != r.kind and not (w.kind == "str" and r.kind == "str"):
        return False
    fl = set()
    for f in rflow:
        f = canon(f)
        fl.add(f)
        fl |= alias.get(f, set())
    wl = {canon(x) for x in w.labels}
    if any(x.endswith("#") for x in w.labels):
        return not fl or bool(fl & wl) or True if not fl else bool(fl & wl)
    if wl:
        return bool(fl & wl)
    if w.const:
        return not fl or bool(fl & {canon(x) for x in w.flow})
    return True


def simulate(W, R, alias):
    """greatest simulation of the written item sequences by the sequences the reader accepts"""
    succW, succR = {}, {}
    for a, b in W.edges:
        if a and a[-1] == "R":
            a = a[:-1]
        if a == ():
            n = W.nodes[b]
            a = "pre" if n.labels == {"entityType"} else a
        succW.setdefault(a, set()).add(b)
    for a, b in R.edges:
        succR.setdefault(a, set()).add(b)
    bad = []
    for b in succW.get((), ()):
        bad.append((None, b, "first item is not the entity type number"))
    starts = succW.get("pre", set())
    wnodes = [k for k in W.nodes if not (k and k[-1] == "R") and k not in starts]

    def ok(w, r):
        n, m = W.nodes[w], R.nodes[r]
        if not compat(n, m, R.flow.get(r[0], ()), alias):
            return False
        if n.first and n.labels:
            for l in {canon(x) for x in n.labels}:
                f = R.first.get((r[0], l))
                if f and not (f & n.first):
                    return False
        return True
    rel = {(w, r) for w in wnodes for r in R.nodes if ok(w, r)}
    rel |= {(s, ()) for s in starts}

    def empty_tail(w, w2):
        """nothing follows a zero count"""
        n = W.nodes[w]
        return W.nodes[w2].kind == "extras" and (any(x.endswith("#") for x in n.labels) or 0 in n.const or "at0" in n.const)
    ch = True
    removed = {}
    while ch:
        ch = False
        for w, r in list(rel):
            for w2 in succW.get(w, ()):
                if not any((w2, r2) in rel for r2 in succR.get(r, ())):
                    if empty_tail(w, w2):
                        continue
                    rel.discard((w, r))
                    removed[(w, r)] = w2
                    ch = True
                    break
    reach = {(s, ()) for s in starts if (s, ()) in rel}
    for s in starts:
        if (s, ()) not in rel:
            # locate the deepest mismatch
            seen, work = set(), [(s, ())]
            while work:
                p = work.pop()
                if p in seen:
                    continue
                seen.add(p)
                w, r = p
                for w2 in succW.get(w, ()):
                    c = [r2 for r2 in succR.get(r, ()) if ok(w2, r2)]
                    if not c:
                        if not empty_tail(w, w2):
                            exp = ["%s(%s)" % (R.nodes[q].kind, ",".join(sorted(R.flow.get(q[0], ["?"])))) for q in succR.get(r, ())]
                            bad.append((w, w2, "reader expects " + ("/".join(sorted(exp)) or "end of record")))
                    for r2 in c:
                        work.append((w2, r2))
            if not bad:
                bad.append((s, removed.get((s, ()), s), "no assignment of written items to parsed items"))
    work = list(reach)
    while work:
        w, r = work.pop()
        for w2 in succW.get(w, ()):
            for r2 in succR.get(r, ()):
                if (w2, r2) in rel and (w2, r2) not in reach:
                    reach.add((w2, r2))
                    work.append((w2, r2))
    missing = [] if bad else [k for k in R.nodes if k not in {r for _, r in reach}]
    return bad, missing, reach


class Assoc(engine.Check):
    """which integer members hold the DE pointer of which entity members"""
    max_depth = 3
    join_cap = 4

    def __init__(self):
        self.alias = {}

    def inline(self, E, st, c, callee):
        return callee.nel < 200 and callee.file.startswith("entities") and callee.short not in ("addReference", "associate", "format", "readPD")

    def on_store(self, E, st, loc, val, func, line):
        m = member(loc)
        if loc[0] == "fld" and m is None:
            m = loc[2].split("::")[-1]
        if m is None:
            return
        for t in subterms(val):
            if t[0] == "elem" and contains_param(t[1]):
                for q in subterms(t[2]) if isinstance(t[2], tuple) else ():
                    if q[0] == "v":
                        n = member(q)
                        if n:
                            self.alias.setdefault(canon(n), set()).add(canon(m))


def contains_param(t):
    return any(q[0] == "p" for q in subterms(t))


def aliases(P, cls):
    f = P.method(cls, "associate")
    A = Assoc()
    engine.Engine(P, A, cls).run(f)
    return A.alias


def show(W, k):
    if k is None:
        return "start"
    n = W.nodes[k]
    return "%s(%s)@%s:%d" % (n.kind, ",".join(sorted(n.labels) or sorted(map(str, n.const))), n.file, n.line)


# members of size-like items whose stored copy has another name than the written container
COUNT_ALIAS = {("IGES_ENTITY_144", "N2"): "PTI", ("IGES_ENTITY_308", "N"): "DE"}

# repetition counts that are not simply one parsed count: canonical polynomial over members
TRIPS = {
    "IGES_ENTITY_126": {"knots": {"nKnots", "K+M+2"}, "coeffs": {"nCoeffs", "K+1"}},
    "IGES_ENTITY_128": {"knots1": {"nKnots1", "K1+M1+2"}, "knots2": {"nKnots2", "K2+M2+2"},
                        "coeffs": {"nCoeffs1*nCoeffs2", "K1*K2+K1+K2+1"}},
}


def poly(t, leaf):
    """polynomial {monomial(tuple of leaf names): coeff}; None if not polynomial"""
    if isc(t):
        return {(): t[1]} if t[1] else {}
    if t[0] == "op" and len(t) == 4 and t[1] in ("+", "-", "*"):
        a, b = poly(t[2], leaf), poly(t[3], leaf)
        if a is None or b is None:
            return None
        r = {}
        if t[1] == "*":
            for m, x in a.items():
                for n, y in b.items():
                    k = tuple(sorted(m + n))
                    r[k] = r.get(k, 0) + x * y
        else:
            sg = 1 if t[1] == "+" else -1
            r = dict(a)
            for n, y in b.items():
                r[n] = r.get(n, 0) + sg * y
        return {k: v for k, v in r.items() if v}
    l = leaf(t)
    return {(l,): 1} if l else None


def pstr(p):
    out = []
    for m, c in sorted(p.items(), key=lambda q: (-len(q[0]), q[0])):
        s = "*".join(m)
        if not m:
            out.append("%+d" % c)
        else:
            out.append(("+" if c == 1 else "-" if c == -1 else "%+d*" % c) + s)
    return "".join(out).lstrip("+") or "0"


def trip(term):
    """repetition count term of a loop whose first controlling comparison is `term`; ('iter', c, stop) for containers"""
    o, a, b = term[1], term[2], term[3] if len(term) > 3 else None
    if b is None:
        return None
    if a[0] == "iter" and b[0] == "iter" and a[1] == b[1] and o in ("!=", "=="):
        if a[2] in (0, "rb"):
            return ("iter", a[1], b[2])
        return None
    if o in (">", ">="):
        o, a, b = {">": "<", ">=": "<="}[o], b, a
    if o == "==":
        o = "!="
    if o in ("<", "!="):
        return ("op", "-", b, a)
    if o == "<=":
        return ("op", "+", ("op", "-", b, a), C(1))
    return None


STEPS = ("readPD", "readDE", "format", "associate", "rescale", "writeDE", "writePD", "Read", "Write")


class Bounds(engine.Check):
    max_depth = 2
    max_states = 4000

    def __init__(self):
        self.done = []

    def inline(self, E, st, c, callee):
        return callee.cls != "IGES_ENTITY" and callee.nel < 60

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append((st, val))


def limits(P, cls, name):
    """integer members -> interval they can have where the method succeeds"""
    chk = Bounds()
    E = engine.Engine(P, chk, cls)
    E.run(P.method(cls, name))
    if E.limit_hit:
        return None
    res = {}
    for q, t in P.fields(cls, False):
        if "*" in t or t != "int" and not t.startswith("IGES_"):
            continue
        lo, hi = engine.INF, -engine.INF
        for st, v in chk.done:
            if E.truth(st, v) is not False:
                x = E.load(st, ("fld", ("deref", ("this",)), q))
                a, b = (x[1], x[1]) if isc(x) else E.iv(st, x)[:2]
                lo, hi = min(lo, a), max(hi, b)
        res[q] = (lo, hi)
    return res


def ranges(P, rep):
    """what a member may be when it is written against what it may be when it is read"""
    rep.rule("pd-range", "a value format() admits for a number is one readPD() admits, the other way round for closed ranges, and so is each constant the library stores in it")
    puts = {}
    for f in P.funcs.values():
        if f.kind in ("ctor", "dtor"):
            continue
        for x in f.x.values():
            if x[0] == "asg" and x[3] == "=" and f.x.get(x[4], [""])[0] == "fld":
                y = f.x.get(x[5])
                while y is not None and y[0] == "cast":
                    y = f.x.get(y[4])
                if y is not None and y[0] == "int":
                    puts.setdefault(f.x[x[4]][4], []).append((y[3], f, x[1]))
    for cls in sorted(P.subclasses("IGES_ENTITY")):
        fw, fr = P.method(cls, "format"), P.method(cls, "readPD")
        if cls in ("IGES_ENTITY", "IGES_ENTITY_NULL") or fw is None or fr is None or fw.cls != cls or fr.cls != cls:
            continue
        w, r = limits(P, cls, "format"), limits(P, cls, "readPD")
        if w is None or r is None:
            rep.undecided("pd-range", cls)
            continue
        for q in sorted(w):
            (a, b), (c, d) = w[q], r.get(q, (-engine.INF, engine.INF))
            n = q.split("::")[1]
            where = "%s:%d" % (fr.file, fr.line)
            wf, rf = abs(a) != engine.INF and abs(b) != engine.INF, abs(c) != engine.INF and abs(d) != engine.INF
            if wf and (a < c or b > d):
                rep.violate("pd-range", q, "%s::format() admits %s from %s to %s, readPD() only from %s to %s" % (cls, n, a, b, c, d), where)
            elif wf and rf and d < 10000 and (c < a or d > b):
                rep.violate("pd-range", q, "%s::readPD() admits %s from %s to %s, format() only from %s to %s" % (cls, n, c, d, a, b), where)
            elif wf or rf:
                rep.ok("pd-range")
            if d < 10000 and d != -engine.INF:
                for v, f, line in puts.get(q, ()):
                    if isinstance(v, int) and (v < c or v > d):
                        rep.violate("pd-range", "%s:%s" % (q, f.name), "%s stores %d in %s, which %s::readPD() refuses" % (f.name, v, n, cls), "%s:%d" % (f.file, line))
                    else:
                        rep.ok("pd-range")
    rep.need("pd-range", 15)


def run_pd(P, rep):
    ranges(P, rep)
    rep.rule("pd-can", "reading, linking, formatting and writing of an entity class, and of a model, can succeed")
    attrs.able(P, rep, "pd-can", [f for f in sorted(P.funcs.values(), key=lambda f: f.sig) if f.cls and f.ret == "bool" and f.cls != "IGES_ENTITY_NULL" and
                                  (f.short in STEPS or f.file.startswith("iges/")) and not f.short.startswith(("Get", "Set", "Is")) and f.file.startswith(("entities", "iges/"))])
    rep.need("pd-can", 120)
    rep.rule("pd-item", "every item format() emits is accepted, at the same position, kind and member, by readPD()")
    rep.rule("pd-read", "every item readPD() parses is one format() emits at that position")
    rep.rule("pd-exact", "the item carries the member's value itself, with no arithmetic on either side")
    rep.rule("pd-end", "the last item carries the record delimiter, or the parameter delimiter when optional pointers follow")
    rep.rule("pd-count", "item loops run over the whole container / the declared number of items")
    n = 0
    for cls in sorted(P.subclasses("IGES_ENTITY")):
        if cls == "IGES_ENTITY" or not P.byname.get(cls + "::format") or not P.byname.get(cls + "::readPD"):
            continue
        W, E1, R, E2 = extract(P, cls)
        fw, fr = P.method(cls, "format"), P.method(cls, "readPD")
        rep.functions |= {fw.sig, fr.sig} | E1.inlined | E2.inlined
        if E1.limit_hit or E2.limit_hit:
            rep.undecided("pd-item", cls + " state limit")
            continue
        if not W.nodes:
            rep.note(cls + " writes no parameter items (placeholder type)")
            continue
        n += 1
        al = aliases(P, cls)
        for (c, m), t in COUNT_ALIAS.items():
            if c == cls:
                al.setdefault(m, set()).add(t)
        bad, missing, reach = simulate(W, R, al)
        items = [k for k in W.nodes if not k[-1] == "R"]
        rep.ok("pd-item", len(items) - len({b for _, b, _ in bad}))
        for a, b, why in bad:
            nb = W.nodes[b]
            rep.violate("pd-item", "%s:%s(%s)" % (cls, nb.kind, ",".join(sorted(nb.labels) or sorted(map(str, nb.const)))),
                        "%s: written item %s after %s: %s" % (cls, show(W, b), show(W, a), why), "%s:%d" % (nb.file, nb.line))
        for k in missing:
            m = R.nodes[k]
            rep.violate("pd-read", "%s:%s(%s)" % (cls, m.kind, ",".join(sorted(R.flow.get(k[0], ["?"])))),
                        "%s: readPD() parses an item that format() never writes there" % cls, "%s:%d" % (m.file, m.line))
        rep.ok("pd-read", len(R.nodes) - len(missing))
        for k in items:
            m = W.nodes[k]
            if m.decided:
                rep.violate("pd-exact", "%s:W:%s" % (cls, ",".join(sorted(m.labels))), "format() writes an expression (%s) of %s instead of its value"
                            % (",".join(sorted(set(m.decided))), ",".join(sorted(m.labels))), "%s:%d" % (m.file, m.line))
            else:
                rep.ok("pd-exact")
        for w, r in reach:
            if not r:
                continue
            fl = R.flow.get(r[0], set())
            wl = {canon(x) for x in W.nodes[w].labels}
            hit = [f for f in fl if ({canon(f)} | al.get(canon(f), set())) & wl]
            if hit and not any((r[0], canon(f)) in R.exact for f in hit):
                m = R.nodes[r]
                rep.violate("pd-exact", "%s:R:%s" % (cls, ",".join(sorted(hit))), "readPD() stores an expression of the parsed item in %s" % ",".join(sorted(hit)),
                            "%s:%d" % (m.file, m.line))
            elif hit:
                rep.ok("pd-exact")
        # termination
        fin = set()
        for p, v, line, st in W.ends:
            if v == ("c", 1) and p:
                fin.add(p[:-1] if p[-1] == "R" else p)
        for k in fin:
            m = W.nodes[k]
            if m.kind == "extras":
                continue
            if "rdelim" not in m.delim:
                rep.violate("pd-end", "%s:rd:%s" % (cls, ",".join(sorted(m.labels) or sorted(map(str, m.const)))),
                            "%s can be the last item of the record but is never followed by the record delimiter" % show(W, k), "%s:%d" % (m.file, m.line))
            else:
                rep.ok("pd-end")
        for a, b in W.edges:
            if b == ("extras",) and a:
                a = a[:-1] if a[-1] == "R" else a
                m = W.nodes[a]
                if "pdelim" not in m.delim:
                    rep.violate("pd-end", "%s:pd:%s" % (cls, ",".join(sorted(m.labels) or sorted(map(str, m.const)))),
                                "%s precedes the optional pointers but is never followed by the parameter delimiter" % show(W, a), "%s:%d" % (m.file, m.line))
                else:
                    rep.ok("pd-end")
        for k in items:
            if "none" in W.nodes[k].delim:
                m = W.nodes[k]
                rep.violate("pd-end", "%s:none:%s" % (cls, ",".join(sorted(m.labels) or sorted(map(str, m.const)))),
                            "%s is written without a delimiter" % show(W, k), "%s:%d" % (m.file, m.line))
        counts(P, rep, cls, W, R, "W", al)
        counts(P, rep, cls, R, R, "R", al)
    rep.need("pd-item", 120)
    rep.need("pd-read", 90)
    rep.need("pd-end", 30)
    rep.need("pd-count", 20)
    rep.note("%d entity types compared" % n)


def counts(P, rep, cls, X, R, side, al):
    table = TRIPS.get(cls, {})

    def leaf(t):
        if t[0] == "out":
            fl = sorted(R.flow.get(t[1], ()))
            names = set()
            for s in table.values():
                for e in s:
                    for q in e.replace("*", "+").split("+"):
                        names.add(q)
            for f in fl:
                if canon(f) in names and (t[1], canon(f)) in R.exact:
                    return canon(f)
            return "item@%d" % t[1]
        m = member(t) if t[0] in ("v", "size") else None
        return canon(m) + ("#" if m.endswith("#") else "") if m else None
    for lk, keys in X.emitloops.items():
        conds = list(X.loopcond.get(lk, {}).values())
        labs = set()
        for k in keys:
            if side == "W":
                labs |= {canon(x) for x in X.nodes[k].labels}
            else:
                labs |= {canon(x) for x in R.flow.get(k[0], ())}
        name = "%s:%s:%s" % (cls, side, ",".join(sorted(labs)) or "const")
        if not conds:
            continue            # constant number of rounds, unrolled by the analysis
        if len(conds) != 1 or len(conds[0][0]) < 4:
            rep.undecided("pd-count", name + " loop control")
            continue
        term, file, line = conds[0]
        t = trip(term)
        if t is None:
            rep.undecided("pd-count", name + " loop control")
            continue
        if t[0] == "iter":
            cont = member(t[1])
            if t[2] == "end":
                rep.ok("pd-count")
            elif t[2] == "last":
                # the last element must be emitted outside the loop as well
                out = [k for k in X.nodes if k[-1] != "R" and k not in keys and {canon(x) for x in X.nodes[k].labels} & labs]
                if out:
                    rep.ok("pd-count")
                else:
                    rep.violate("pd-count", name, "the loop over %s stops before its last element and that element is not written after it" % cont,
                                "%s:%d" % (file, line))
            else:
                rep.undecided("pd-count", name + " stop position")
            continue
        p = poly(t, leaf)
        if p is None:
            rep.undecided("pd-count", name + " count expression")
            continue
        ps = pstr(p)
        allowed = set()
        for l, s in table.items():
            if l in labs or not labs:
                allowed |= s
        single = len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1
        if ps in allowed or (single and not allowed):
            rep.ok("pd-count")
        elif single and not table:
            rep.ok("pd-count")
        else:
            rep.violate("pd-count", name, "items are repeated %s times, expected %s" % (ps, " or ".join(sorted(allowed)) or "the declared count"),
                        "%s:%d" % (file, line))
