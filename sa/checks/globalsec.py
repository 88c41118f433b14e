"""Global Section: the 26 items writeGlobals() emits against the items readGlobals() parses, and what a successful read establishes."""
import engine
import program
from engine import C, TRUE, isc, INF
from labels import member, subterms
from checks import layout
from checks.layout import PARSE

# IGES 5.3, 2.2.4.3: number -> (kind, member of IGES_GLOBAL); True: produced by the writer itself
GLOBAL = {
    3: ("str", "productIDSS"), 4: ("str", "fileName"), 5: ("str", "nativeSystemID"), 6: ("str", "preprocessorVersion"),
    7: ("int", "nIntegerBits"), 8: ("int", "floatMaxExp"), 9: ("int", "floatMaxSig"), 10: ("int", "doubleMaxExp"),
    11: ("int", "doubleMaxSig"), 12: ("str", "productIDRS"), 13: ("real", "modelScale"), 14: ("int", "unitsFlag"),
    15: ("str", "unitsName"), 16: ("int", "maxLinewidthGrad"), 17: ("real", "maxLinewidth"), 18: ("str", "creationDate"),
    19: ("real", "minResolution"), 20: ("real", "maxCoordinateValue"), 21: ("str", "author"), 22: ("str", "organization"),
    23: ("int", "igesVersion"), 24: ("int", "draftStandard"), 25: ("str", "modificationDate"), 26: ("str", "applicationNote"),
}
GENERATED = {6, 7, 8, 9, 10, 11, 20, 23, 25}
NONEMPTY = (3, 4, 5, 6, 18)
RANGE = {7: (8, 32), 14: (1, 11), 16: (1, INF), 24: (0, 7), 23: (3, 11)}
POSITIVE = {13: True, 19: True, 17: False, 20: False}
UNITS = {1: 25.4, 2: 1.0, 4: 304.8, 5: 1609344.0, 6: 1000.0, 7: 1e6, 8: 0.0254, 9: 0.001, 10: 10.0, 11: 2.54e-5}
NAMES = {1: ("IN", "INCH"), 2: ("MM",), 4: ("FT",), 5: ("MI",), 6: ("M",), 7: ("KM",), 8: ("MIL",), 9: ("UM",), 10: ("CM",), 11: ("UIN",)}


def gfield(loc):
    m = member(loc)
    if m and m.startswith("globalData."):
        return m.split(".", 1)[1]
    return None


class GW(layout.Writer):
    def __init__(self):
        layout.Writer.__init__(self)
        self.pos = {}
        self.last = set()

    def joinkey(self, st):
        return (st.prop, frozenset((k, v) for k, v in st.env.items() if v[0] == "txt"))

    def on_assume(self, *a):
        pass

    def inline(self, E, st, c, callee):
        return callee.nel < 60 and callee.file.startswith("iges/iges.cpp") and callee.short not in ("checkDate",)

    def on_call(self, E, st, c):
        if c.short == "AddSecItem" and len(c.args) >= 6:
            lt = E.loc(c.func, c.ctx, c.argids[0], st)
            ps = layout.parts(E.load(st, lt))
            d = self.isdelim(ps[-1]) if ps else None
            vals = tuple(p for p in (ps[:-1] if d else ps))
            self.put(E, st, c, vals, d, "item")
            E.rawstore(st, lt, ("txt", ()))
            return [(st, TRUE)]
        if c.short == "AddSecHStr" and len(c.args) >= 7:
            self.put(E, st, c, (("hstr", c.args[0]),), self.isdelim(c.args[-1]), "str")
            return [(st, TRUE)]
        if c.short == "checkDate":
            return [(st.copy(), C(0)), (st, TRUE)]
        if c.short in ("empty",) and c.obj is not None:
            v = E.load(st, c.obj)
            if v[0] == "str":
                return [(st, C(not v[1]))]
        return layout.Writer.on_call(self, E, st, c)

    def put(self, E, st, c, vals, d, how):
        n = st.prop[0] + 1 if st.prop else 3
        st.prop = (n, d)
        self.pos.setdefault(n, []).append((vals, d, how, c.line, st.copy()))

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0 and val == TRUE:
            self.last.add(st.prop)


class GR(engine.Check):
    max_depth = 3

    def __init__(self):
        self.pos = {}
        self.done = []
        self.delims = []
        self.dates = set()

    def joinkey(self, st):
        return (st.prop, frozenset((k, v) for k, v in st.env.items() if gfield(k)) if True else ())

    def inline(self, E, st, c, callee):
        return callee.nel < 120 and callee.file.startswith("iges/iges.cpp") and callee.short not in ("checkDate",)

    def on_call(self, E, st, c):
        s = c.short
        if s in PARSE and len(c.args) >= 6:
            n = (st.prop[0] if st.prop else 2) + 1
            st.prop = (n,) + st.prop[1:]
            l = E.loc(c.func, c.ctx, c.argids[2], st)
            t = ("de", n, PARSE[s])
            E.killsub(st, l, c.site)
            E.rawstore(st, l, t)
            self.pos.setdefault(n, {"kind": set(), "line": c.line})["kind"].add(PARSE[s])
            le = E.loc(c.func, c.ctx, c.argids[3], st)
            if le[0] != "tmp":
                E.rawstore(st, le, ("eor", n))
            if s == "ParseHString":
                st.env[("size", l)] = ("len", n)
            return [(st, TRUE)]
        if s == "ReadIGESRecord":
            st.prop = st.prop
            return [(st, TRUE)]
        if s == "checkDate":
            ns = {q[1] for a in c.args for q in subterms(a) if q[0] == "de"}
            for a in c.argids:
                l = E.loc(c.func, c.ctx, a, st)
                v = E.load(st, l) if l else None
                ns |= {q[1] for q in subterms(v) if q[0] == "de"} if v else set()
            self.dates |= ns
            st.prop = (st.prop[0] if st.prop else 2,) + st.prop[1:] + tuple(("date", n) for n in sorted(ns))
            return [(st, TRUE)]
        if s == "empty" and c.obj is not None and E.load(st, c.obj)[0] == "de":
            return [(st, ("op", "==", ("len", E.load(st, c.obj)[1]), C(0)))]
        if s == "compare" and c.obj is not None and len(c.args) == 3 and c.args[2] == ("str", "1H"):
            a = st.copy()
            st.prop = (st.prop[0] if st.prop else 2,) + st.prop[1:] + (("1H", c.args[0]),)
            return [(a, C(1)), (st, C(0))]
        return None

    def on_store(self, E, st, loc, val, func, line):
        f = gfield(loc)
        if f in ("pdelim", "rdelim") and not isc(val):
            self.delims.append((f, val, st.copy(), line, func.file, E))

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0 and val == TRUE:
            self.done.append((st, line))


def run(P, rep):
    rep.rule("glob-item", "item n of the Global Section carries the member the reader stores item n in (IGES 5.3 table of global parameters)")
    rep.rule("glob-kind", "item n is written as the kind (integer, real, string) the reader parses")
    rep.rule("glob-end", "every item but the last is followed by the parameter delimiter, the last by the record delimiter")
    rep.rule("glob-range", "a Global Section is accepted only with values in the range the standard gives")
    rep.rule("glob-date", "the creation date is checked, an absent modification date is accepted, and no field of a date is out of range")
    rep.rule("glob-delim", "custom delimiters are taken from the '1Hx' they were announced by and are checked to be legal")
    wf = P.byname.get("IGES::writeGlobals")
    rf = P.byname.get("IGES::readGlobals")
    if not wf or not rf:
        raise program.Broken("IGES::writeGlobals / IGES::readGlobals not found")
    W = GW()
    EW = engine.Engine(P, W, "IGES")
    EW.run(wf[0])
    R = GR()
    ER = engine.Engine(P, R, "IGES")
    ER.run(rf[0])
    for f in (wf[0], rf[0]):
        rep.fn(f)
    rep.functions |= EW.inlined | ER.inlined
    if EW.limit_hit or ER.limit_hit or not W.last or not R.done:
        rep.undecided("glob-item", "readGlobals/writeGlobals not explored completely")
        return
    wfile, rfile = wf[0].file, rf[0].file
    # reader: which member holds item n at a successful return
    store = {}
    for st, line in R.done:
        for l, v in st.env.items():
            f = gfield(l) if l[0] == "fld" else None
            if f is None:
                continue
            for q in subterms(v):
                if q[0] == "de":
                    store.setdefault(q[1], {}).setdefault(f, set()).add(v)
    for n, (kind, name) in GLOBAL.items():
        r = R.pos.get(n)
        if r is None:
            rep.violate("glob-item", "read:%d" % n, "the reader never parses item %d (%s)" % (n, name), "%s:%d" % (rfile, rf[0].line))
            continue
        where = "%s:%d" % (rfile, r["line"])
        if r["kind"] != {kind}:
            rep.violate("glob-kind", "read:%d" % n, "item %d (%s) is parsed as %s instead of %s" % (n, name, sorted(r["kind"]), kind), where)
        else:
            rep.ok("glob-kind")
        got = {f for f in store.get(n, {})}
        got -= {"cf"} if n in (13, 14) else set()
        got -= {"minResolution"} if n in (13, 14) else set()
        # unitsFlag/modelScale are normalised and unitsName follows unitsFlag
        if n == 12:
            pass
        if name not in got and n not in (13, 14, 15):
            rep.violate("glob-item", "read:%d:%s" % (n, name), "item %d is stored in %s, not in %s" % (n, sorted(got) or "nothing", name), where)
        elif got - {name} - ({"productIDRS"} if n == 3 else set()) and n not in (13, 14, 15):
            rep.violate("glob-item", "read:%d:also" % n, "item %d is also stored in %s" % (n, sorted(got - {name})), where)
        else:
            rep.ok("glob-item")
        # writer
        w = W.pos.get(n)
        if w is None:
            rep.violate("glob-item", "write:%d" % n, "the writer never emits item %d (%s)" % (n, name), "%s:%d" % (wfile, wf[0].line))
            continue
        labs = set()
        vk = set()
        raw = False
        for vals, d, how, line, st in w:
            for v in vals:
                if v[0] == "hstr":
                    vk.add("str")
                    v = v[1]
                elif v[0] == "real":
                    vk.add("real")
                    v = v[1]
                elif isinstance(v[1], str) and v[0] == "str":
                    vk.add("real" if "." in v[1] else "int")
                elif isc(v) and isinstance(v[1], float):
                    vk.add("real")
                else:
                    vk.add("int")
                if v[0] == "op":
                    raw = True
                for q in subterms(v):
                    if q[0] in ("v", "at"):
                        m = gfield(q[1]) if q[0] == "at" else gfield(q)
                        if m:
                            labs.add(m.replace("#", ""))
                    elif q[0] in ("g", "fld", "elem"):
                        m = gfield(q)
                        if m:
                            labs.add(m.replace("#", ""))
        line = w[0][3]
        where = "%s:%d" % (wfile, line)
        if vk - {kind} and not (n in (20,) and vk <= {"real", "int"}):
            rep.violate("glob-kind", "write:%d" % n, "item %d (%s) is written as %s instead of %s" % (n, name, sorted(vk), kind), where)
        else:
            rep.ok("glob-kind")
        if n in GENERATED:
            if labs - {name}:
                rep.violate("glob-item", "write:%d" % n, "item %d (%s) is written from %s" % (n, name, sorted(labs)), where)
            else:
                rep.ok("glob-item")
        elif n == 15:
            # the name of the unit: from the table for the standard units, the user's own name otherwise
            units(rep, w, name, where)
        elif labs != {name} or raw:
            rep.violate("glob-item", "write:%d" % n, "item %d (%s) is written from %s" % (n, name, sorted(labs) or "a constant"), where)
        else:
            rep.ok("glob-item")
    for n in sorted(set(W.pos) | set(R.pos)):
        if n not in GLOBAL:
            rep.violate("glob-item", "extra:%d" % n, "item %d does not exist in the Global Section" % n, "%s:%d" % (wfile, wf[0].line))
    # termination
    for n, d in W.last:
        if d != "rdelim":
            rep.violate("glob-end", "last:%d" % n, "the section can end after item %d without the record delimiter" % n, "%s:%d" % (wfile, W.pos[n][0][3]))
        elif n < 25:
            rep.violate("glob-end", "short:%d" % n, "the section can end after item %d" % n, "%s:%d" % (wfile, W.pos[n][0][3]))
        else:
            rep.ok("glob-end")
    for n, w in W.pos.items():
        for vals, d, how, line, st in w:
            if d is None or d == "rdelim" and n < 25:
                rep.violate("glob-end", "delim:%d" % n, "item %d is followed by %s" % (n, d or "no delimiter"), "%s:%d" % (wfile, line))
            else:
                rep.ok("glob-end")
    # values a successful read guarantees
    for st, line in R.done:
        where = "%s:%d" % (rfile, line)
        for n in NONEMPTY:
            lo, hi = ER.iv(st, ("len", n))
            f = st.facts.get(("len", n))
            if not (lo >= 1 or isinstance(f, tuple) and f[0] == "iv" and 0 in f[3]) and not nonempty(st, n):
                rep.violate("glob-range", "empty:%s" % GLOBAL[n][1], "an empty %s (item %d, required) is accepted" % (GLOBAL[n][1], n), where)
            else:
                rep.ok("glob-range")
        parsed = st.prop[0] if st.prop else 0
        for n, (a, b) in RANGE.items():
            if n > parsed:
                continue
            t = ("de", n, "int")
            lo, hi = ER.iv(st, t)
            v = ER.load(st, ("fld", ("fld", ("deref", ("this",)), "IGES::globalData"), "IGES_GLOBAL::" + GLOBAL[n][1]))
            if isc(v):
                lo = hi = v[1]
                t = v
            if lo < a or hi > b:
                rep.violate("glob-range", "range:%s" % GLOBAL[n][1], "%s (item %d) is accepted in [%s, %s]; legal values are [%s, %s]" % (GLOBAL[n][1], n, lo, hi, a, b), where)
            else:
                rep.ok("glob-range")
        for n, strict in POSITIVE.items():
            if n > parsed:
                continue
            t = ("de", n, "real")
            lo, hi = ER.iv(st, t)
            f = st.facts.get(t)
            ex = f[3] if isinstance(f, tuple) and f[0] == "iv" else ()
            if lo < 0 or strict and lo <= 0 and not openat(st, t) and 0 not in ex and 0.0 not in ex:
                rep.violate("glob-range", "sign:%s" % GLOBAL[n][1], "%s (item %d) is accepted when %s" % (GLOBAL[n][1], n, "zero or negative" if strict else "negative"), where)
            else:
                rep.ok("glob-range")
    # delimiters
    for f, val, st, line, file, E in R.delims:
        where = "%s:%d" % (file, line)
        pos = [q for q in subterms(val) if q[0] == "elem"]
        if not pos:
            rep.undecided("glob-delim", f)
            continue
        ix = pos[0][2]
        ann = [p[1] for p in st.prop[1:] if isinstance(p, tuple) and p[0] == "1H"]
        ok = any(E.arith(st, "-", ix, a, "int") == C(2) for a in ann)
        if not ok:
            rep.violate("glob-delim", f + ":position", "the %s delimiter is taken from a position that was not checked to hold '1H'" %
                        ("parameter" if f == "pdelim" else "record"), where)
        else:
            rep.ok("glob-delim")
        lo, hi = E.iv(st, val)
        fa = st.facts.get(val)
        ex = fa[3] if isinstance(fa, tuple) and fa[0] == "iv" else frozenset()
        bad = [chr(c) for c in (0x20, 0x7f, ord("0"), ord("5"), ord("9"), ord("+"), ord("-"), ord("."), ord("D"), ord("E"), ord("H")) if lo <= c <= hi and c not in ex]
        if bad:
            rep.violate("glob-delim", f + ":legal", "the %s delimiter may be one of %r" % ("parameter" if f == "pdelim" else "record", "".join(bad)), where)
        else:
            rep.ok("glob-delim")
    dates(P, rep, R, rfile)
    rep.need("glob-item", 40)
    rep.need("glob-date", 6)
    rep.need("glob-kind", 40)
    rep.need("glob-end", 10)
    rep.need("glob-range", 10)


class Date(engine.Check):
    max_depth = 2

    def __init__(self):
        self.done = []

    def on_call(self, E, st, c):
        if c.name in ("strtol", "atoi", "stoi", "std::stoi", "strtoul"):
            E.opaque_call(st, c)
            r = st.vals[(c.ctx, c.id)]
            st.prop = tuple(st.prop) + ((r, c.line),)
            return [(st, r)]
        return None

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0 and val is not None and E.truth(st, val) is not False:
            self.done.append(([(E.iv(st, r), l) for r, l in st.prop], line))


# month, day, hour, minute, second: largest value a date may have
DATE = ((1, 12), (1, 31), (0, 23), (0, 59), (0, 60))


def dates(P, rep, R, rfile):
    if not R.dates:
        rep.undecided("glob-date", "readGlobals() hands no date to checkDate()")
        return
    opt = False
    for st, line in R.done:
        where = "%s:%d" % (rfile, line)
        n = st.prop[0] if st.prop else 0
        seen = {p[1] for p in st.prop[1:] if isinstance(p, tuple) and p[0] == "date"}
        if 18 not in seen:
            rep.violate("glob-date", "creation", "the creation date (item 18) is accepted unchecked", where)
        else:
            rep.ok("glob-date")
        if n >= 25 and 25 not in seen:
            opt = True
    if 25 in R.dates:
        if not opt:
            rep.violate("glob-date", "modification", "an empty modification date (item 25, default NULL) is refused", rfile)
        else:
            rep.ok("glob-date")
    for f in P.byname.get("checkDate", [])[:1]:
        rep.fn(f)
        D = Date()
        E = engine.Engine(P, D, f.cls)
        E.run(f)
        for vals, line in D.done:
            if len(vals) != 6:
                rep.undecided("glob-date", "checkDate() converts %d numbers" % len(vals))
                continue
            for (lo, hi), (a, b), what in zip([v[0] for v in vals[1:]], DATE, ("month", "day", "hour", "minute", "second")):
                if lo < a or hi > b and not (what == "day" and hi == engine.INF):
                    rep.violate("glob-date", "range:" + what, "a date whose %s is in [%s, %s] is accepted" % (what, lo, hi), "%s:%d" % (f.file, vals[1][1]))
                else:
                    rep.ok("glob-date")


def nonempty(st, n):
    for k, f in st.facts.items():
        if k == ("op", "==", ("len", n), C(0)) and isinstance(f, tuple) and f[0] == "iv" and f[1] == f[2] == 0:
            return True
        if k[0] in ("==",) and ("len", n) in k and C(0) in k and f is False:
            return True
    return False


def openat(st, t):
    for k, f in st.facts.items():
        if k[0] in ("<", "<=") and len(k) == 3:
            if k[0] == "<" and k[1] in (C(0), ("c", 0.0)) and k[2] == t and f is True:
                return True
            if k[0] == "<=" and k[1] == t and k[2] in (C(0), ("c", 0.0)) and f is False:
                return True
    return False


def units(rep, w, name, where):
    ext = std = False
    for vals, d, how, line, st in w:
        for v in vals:
            v = v[1] if v[0] == "hstr" else v
            labs = {gfield(q) for q in subterms(v) if q[0] in ("fld", "v")} - {None}
            labs = {l.replace("#", "") for l in labs}
            tab = any(q == ("g", "UNIT_NAMES") or q[0] == "g" and q[1].endswith("UNIT_NAMES") for q in subterms(v))
            if tab:
                std = True
                ix = [q for q in subterms(v) if q[0] == "elem"]
                t = ix[0][2] if ix else None
                from checks.directory import evaluate
                env = {q: 5 for q in subterms(t) if q[0] == "v"} if t else {}
                if not t or evaluate(t, env) != 4 or {gfield(q) for q in env} != {"unitsFlag"}:
                    rep.violate("glob-item", "write:15:index", "the units name is not the table entry of the units flag", where)
                else:
                    rep.ok("glob-item")
            elif labs == {name}:
                ext = True
            elif labs:
                rep.violate("glob-item", "write:15", "item 15 (unitsName) is written from %s" % sorted(labs), where)
    if not ext:
        rep.violate("glob-item", "write:15:extern", "the units name of a custom unit is never written", where)
    else:
        rep.ok("glob-item")
    if not std and not ext:
        rep.violate("glob-item", "write:15:none", "no units name is written", where)
