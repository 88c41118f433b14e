"""Directory Entry: the 20 fields writeDE() emits against the fields readDE() takes apart."""
import itertools
import engine
from engine import C, TRUE, isc, INF
from labels import member, subterms
from checks.layout import canon

BASE = "IGES_ENTITY"


class DEWriter(engine.Check):
    max_depth = 4

    def __init__(self):
        self.lines = {}      # (line no) -> list of (fields, state)
        self.nout = set()

    def joinkey(self, st):
        return frozenset((k, v) for k, v in st.env.items() if k[0] == "lv")

    def inline(self, E, st, c, callee):
        return callee.nel < 400 and callee.file.startswith("entities")

    def on_call(self, E, st, c):
        s, nm = c.short, c.name
        if s == "FormatDEInt" and len(c.args) == 2:
            l = E.loc(c.func, c.ctx, c.argids[0], st)
            E.rawstore(st, l, ("cat", (("int", c.args[1]),)))
            return [(st, TRUE)]
        if s == "getDESequence" and c.objval is not None:
            return [(st, E.load(st, ("fld", E.deref(c.objval), "IGES_ENTITY::sequenceNumber")))]
        if "basic_string" in nm or (c.op and nm.startswith("std::operator")):
            if c.op == "+=" and c.obj is not None:
                st.env[c.obj] = cat(E.load(st, c.obj), c.args[0])
                return [(st, ("ref", c.obj))]
            if s == "append" and c.obj is not None and len(c.args) == 2:
                st.env[c.obj] = cat(E.load(st, c.obj), ("cat", (("pad", c.args[0]),)))
                return [(st, ("ref", c.obj))]
            if s == "append" and c.obj is not None and len(c.args) == 1:
                st.env[c.obj] = cat(E.load(st, c.obj), c.args[0])
                return [(st, ("ref", c.obj))]
            if s == "clear" and c.obj is not None:
                E.rawstore(st, c.obj, ("cat", ()))
                return [(st, ("void",))]
            if s == "substr" and c.obj is not None and len(c.args) >= 1:
                return [(st, ("cat", (("sub", E.load(st, c.obj), tuple(c.args)),)))]
            if s in ("length", "size") and c.obj is not None:
                v = E.load(st, c.obj)
                if v[0] == "cat":
                    x = flds(v[1])
                    return [(st, ("len", v) if x is None else C(8 * len(x)))]
                return None
            if c.op == "[]" and c.obj is not None and E.load(st, c.obj)[0] == "cat":
                return [(st, ("ref", ("elem", c.obj, c.args[0])))]
            if c.op == "+" and len(c.args) == 2:
                return [(st, cat(c.args[0], c.args[1]))]
            if c.op == "=" and c.obj is not None:
                E.rawstore(st, c.obj, c.args[0])
                return [(st, ("ref", c.obj))]
        if c.op == "<<" and nm.startswith("std::") or c.op == "<<" and nm.startswith("operator"):
            if c.obj is not None:
                l, v = c.obj, c.args[0]
            elif len(c.args) == 2:
                l, v = E.loc(c.func, c.ctx, c.argids[0], st), c.args[1]
            else:
                return None
            root = l
            if root[0] == "deref" and root[1][0] == "p":
                self.out(E, st, v, c)
            return [(st, ("ref", l))]
        return None

    def out(self, E, st, v, c):
        if v[0] == "cat" or v == ("str", "\n"):
            st.env[("lv", -1, 0)] = cat(st.env.get(("lv", -1, 0), ("cat", ())), v)
        else:
            st.env[("lv", -1, 0)] = cat(st.env.get(("lv", -1, 0), ("cat", ())), ("cat", (("val", v),)))

    def on_store(self, E, st, loc, val, func, line):
        # s[0] = 'D' marks the section letter of the last formatted field
        if loc[0] == "elem" and isc(val) and st.env.get(loc[1], ("",))[0] == "cat":
            ps = st.env[loc[1]][1]
            if len(ps) == 1 and ps[0][0] == "int" and loc[2] == C(0):
                st.env[loc[1]] = ("cat", (("sec", val[1], ps[0][1]),))

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0 and val == TRUE:
            self.lines.setdefault("done", []).append((st.env.get(("lv", -1, 0)), st))


def cat(a, b):
    def ps(v):
        if v[0] == "cat":
            return v[1]
        if v[0] == "str":
            return (("lit", v[1]),) if v[1] else ()
        if v == ("undef",) or v[0] == "undef":
            return ()
        return (("val", v),)
    return ("cat", ps(a) + ps(b))


class DEReader(engine.Check):
    max_depth = 4

    def joinkey(self, st):
        return frozenset((k, v) for k, v in st.env.items() if k[0] == "fld" and v[0] == "c")

    def __init__(self):
        self.done = []

    def inline(self, E, st, c, callee):
        return callee.nel < 400 and callee.file.startswith("entities")

    def on_call(self, E, st, c):
        s = c.short
        if s in ("DEItemToInt", "DEItemToStr") and len(c.args) >= 3:
            src = E.loc(c.func, c.ctx, c.argids[0], st)
            k = c.args[1]
            ln = 1
            q = src
            while q[0] in ("fld", "elem"):
                q = q[1]
            if q in st.prop:
                ln = 2
            elif not (q[0] == "deref" and q[1][0] == "p"):
                ln = 2
            l = E.loc(c.func, c.ctx, c.argids[2], st)
            t = ("de", ln, k[1] if isc(k) else "?", "s" if s == "DEItemToStr" else "i")
            E.rawstore(st, l, t)
            E.check.fields.add(t)
            return [(st, TRUE)]
        if s == "ReadIGESRecord":
            bad = st.copy()
            v = c.args[0]
            st.prop = st.prop + (E.deref(v),)
            return [(bad, C(0)), (st, TRUE)]
        if s == "readDE" and c.callee is not None and c.callee.cls == BASE:
            bad = st.copy()
            E.killfields(st, E.P.mods(c.callee.sig), c.site)
            return [(bad, C(0)), (st, TRUE)]
        return None

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0 and val == TRUE:
            self.done.append(st)

    fields = None


def flds(ps):
    """flatten a written line into 8 column fields; None if a piece does not occupy whole fields"""
    out = []
    i = 0
    ps = list(ps)
    while i < len(ps):
        p = ps[i]
        if p[0] in ("int", "sec"):
            out.append(p)
        elif p[0] == "pad" and isc(p[1]) and p[1][1] % 8 == 0:
            out.extend([("blank",)] * (p[1][1] // 8))
        elif p[0] == "lit" and len(p[1]) % 8 == 0 and not p[1].strip():
            out.extend([("blank",)] * (len(p[1]) // 8))
        elif p[0] == "pad" and i + 1 < len(ps) and ps[i + 1][0] in ("sub", "val"):
            # padded text field: pad(8-n) + text of n columns
            out.append(("text", ps[i + 1], p[1]))
            i += 1
        elif p[0] == "sub":
            out.append(("text", p, None))
        else:
            return None
        i += 1
    return out


def split_lines(v):
    lines, cur = [], []
    if v is None or v[0] != "cat":
        return None
    for p in v[1]:
        if p[0] == "lit" and p[1].endswith("\n"):
            if p[1][:-1]:
                cur.append(("lit", p[1][:-1]))
            lines.append(cur)
            cur = []
        elif p[0] == "val":
            return None
        else:
            cur.append(p)
    if cur:
        lines.append(cur)
    return lines


def atoms(t):
    """members a value depends on"""
    out = set()
    for q in subterms(t):
        if q[0] == "v":
            m = member(q)
            if m:
                out.add(m)
    return {m for m in out if not any(o != m and o.startswith(m + ".") for o in out)}


def evaluate(t, env):
    k = t[0]
    if t in env:
        return env[t]
    if k == "c":
        return t[1]
    if k == "op":
        a = [evaluate(x, env) for x in t[2:]]
        if any(x is None for x in a):
            return None
        o = t[1]
        if len(a) == 2:
            x, y = a
            if o == "+":
                return x + y
            if o == "-":
                return x - y
            if o == "*":
                return x * y
            if o == "/" and y:
                return int(x / y)
            if o == "%" and y:
                return x - y * int(x / y)
            if o == "&":
                return x & y
            if o == "|":
                return x | y
            if o == ">>":
                return x >> y
            if o == "<<":
                return x << y
            if o in ("==", "!=", "<", ">", "<=", ">="):
                return int({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[o])
        elif len(a) == 1:
            if o == "-":
                return -a[0]
            if o == "!":
                return int(not a[0])
    return None


# file field (line, index) -> pointer member the field's integer member stands for
POINTER = {"structure": "pStructure", "lineFontPattern": "pLineFontPattern", "level": "pLevel", "view": "pView",
           "transform": "pTransform", "labelAssoc": "pLabelAssoc", "colorNum": "pColor"}
STATUS = {"visible": (0, 1), "depends": tuple(range(4)), "use": tuple(range(7)), "hierarchy": tuple(range(3))}


class Sign(engine.Check):
    """sign under which associate() turns an integer member into an entity pointer"""
    max_depth = 3
    join_cap = 4

    def __init__(self):
        self.sign = {}
        self.guard = {}

    def inline(self, E, st, c, callee):
        return callee.nel < 200 and callee.file.startswith("entities") and callee.short not in ("addReference", "associate")

    def on_store(self, E, st, loc, val, func, line):
        m = member(loc)
        if m is None:
            return
        for t in subterms(val):
            if t[0] == "elem" and isinstance(t[2], tuple):
                ix = t[2]
                neg = False
                for q in subterms(ix):
                    if q[0] == "op" and q[1] == "-" and len(q) == 3:
                        neg = not neg
                    if q[0] == "v":
                        n = member(q)
                        if n in POINTER and POINTER[n] == m:
                            lo, hi = E.iv(st, q)
                            ilo, ihi = E.iv(st, ix)
                            self.sign.setdefault(n, set()).add("-" if neg else "+")
                            self.guard.setdefault(n, set()).add((lo, hi, ilo, line, func.file))


def ivs(E, st, t):
    return E.iv(st, t)


def run(P, rep):
    rep.rule("de-shape", "both Directory Entry lines consist of ten 8-column fields ending in the section letter D and the sequence number (n, n+1)")
    rep.rule("de-field", "each field carries the member readDE() takes from that field of that line")
    rep.rule("de-status", "the status number readDE() takes apart yields back the four flags writeDE() packed, for all their values")
    rep.rule("de-sign", "an entity pointer is written with the sign under which the reader accepts and associate() resolves it")
    rep.rule("de-accept", "every value writeDE() may put in a field is accepted by readDE()")
    rep.rule("de-complete", "no value of an attribute that readDE() accepts is replaced by a constant when it is written")
    rep.rule("de-form", "the status flags and form format() insists on are accepted by the entity's own readDE()")
    wf = [f for f in P.byname.get(BASE + "::writeDE", [])]
    rf = [f for f in P.byname.get(BASE + "::readDE", [])]
    af = [f for f in P.byname.get(BASE + "::associate", [])]
    if not (wf and rf and af):
        raise __import__("program").Broken("writeDE/readDE/associate of the entity base class not found")
    W = DEWriter()
    E1 = engine.Engine(P, W, BASE)
    E1.run(wf[0])
    R = DEReader()
    R.fields = set()
    E2 = engine.Engine(P, R, BASE)
    E2.run(rf[0])
    for f in (wf[0], rf[0], af[0]):
        rep.fn(f)
    S = Sign()
    engine.Engine(P, S, BASE).run(af[0])

    # --- what the reader stores where
    stores = {}     # (line, k) -> {member: set(terms)}
    for st in R.done:
        for l, v in st.env.items():
            m = member(l) if l[0] == "fld" else None
            if m is None or "." in m or "[" in m:
                continue
            for q in subterms(v):
                if q[0] == "de":
                    stores.setdefault((q[1], q[2]), {}).setdefault(m, set()).add(v)
    accept = {}     # field term -> list of (lo, hi, excluded)
    for st in R.done:
        for t in R.fields:
            f = st.facts.get(t)
            lo, hi = E2.iv(st, t)
            accept.setdefault(t, set()).add((lo, hi, f[3] if isinstance(f, tuple) and f[0] == "iv" else frozenset()))

    # --- what the writer emits where
    emitted = {}
    where = "%s:%d" % (wf[0].file, wf[0].line)
    for v, st in W.lines.get("done", []):
        ls = split_lines(v)
        if ls is None:
            rep.undecided("de-shape", "written text not resolved")
            continue
        fl = [flds(l) for l in ls]
        if len(fl) != 2 or any(x is None for x in fl):
            rep.undecided("de-shape", "lines not resolved into fields: %s" % (str(ls)[:200]))
            continue
        for n, x in enumerate(fl, 1):
            if len(x) != 10:
                rep.violate("de-shape", "fields:%d" % n, "line %d of the Directory Entry has %d fields instead of 10" % (n, len(x)), where)
                continue
            rep.ok("de-shape")
            last = x[-1]
            want = ("IGES_ENTITY::sequenceNumber", n - 1)
            ok = last[0] == "sec" and last[1] in (ord("D"), "D")
            if ok:
                a = atoms(last[2])
                val = {q: 100 for q in subterms(last[2]) if q[0] == "v"}
                ok = a == {"sequenceNumber"} and evaluate(last[2], val) == 100 + n - 1
            if not ok:
                rep.violate("de-shape", "seq:%d" % n, "line %d of the Directory Entry does not end in 'D' and sequence number n%s" % (n, "+1" if n == 2 else ""), where)
            else:
                rep.ok("de-shape")
            for k, p in enumerate(x[:-1]):
                emitted.setdefault((n, k), []).append((p, st))
    if not emitted:
        return
    E = E1
    # --- field by field
    for (n, k), lst in sorted(emitted.items()):
        wm = set()
        text = blank = False
        for p, st in lst:
            if p[0] == "blank":
                blank = True
            elif p[0] == "text":
                text = True
                wm |= atoms(p[1])
            else:
                wm |= atoms(p[1])
        wm = {m.replace("#", "") for m in wm}
        rd = stores.get((n, k), {})
        rm = set(rd)
        alias = {}
        for m in rm:
            alias[m] = {m} | ({POINTER[m]} if m in POINTER else set())
        wroot = {m.split(".")[0] for m in wm}
        name = "line %d field %d" % (n, k + 1)
        if k == 0:
            if wroot != {"entityType"}:
                rep.violate("de-field", "%d:%d" % (n, k), name + " does not carry the entity type number", where)
            else:
                rep.ok("de-field")
            continue
        if blank and not rm:
            rep.ok("de-field")
            continue
        allowed = set().union(*alias.values()) if alias else set()
        if rm and {m for m in rm if m in STATUS} == rm:
            missing = rm ^ (wroot & set(STATUS))
            # the visible flag is a branch condition, not an operand
            missing -= {"visible"}
            if missing:
                rep.violate("de-field", "%d:%d" % (n, k), "%s carries the status flags %s but the reader takes %s from it"
                            % (name, sorted(wroot), sorted(rm)), where)
            else:
                rep.ok("de-field")
                status(P, rep, E, lst, R, E2, where)
            continue
        if not rm:
            if wroot:
                rep.violate("de-field", "%d:%d" % (n, k), "%s carries %s but the reader ignores it" % (name, sorted(wroot)), where)
            else:
                rep.ok("de-field")
            continue
        bad = wroot - allowed
        lack = [m for m in rm if not (alias[m] & wroot)]
        lackp = [m for m in rm if m in POINTER and POINTER[m] not in wroot]
        if bad or lack and lackp or not wroot:
            rep.violate("de-field", "%d:%d" % (n, k), "%s carries %s but the reader stores it in %s" % (name, sorted(wroot) or "nothing", sorted(rm)), where)
            continue
        if lackp:
            rep.violate("de-field", "%d:%d:ptr" % (n, k), "%s never carries the pointer to the %s entity" % (name, lackp[0]), where)
        for m in rm:
            num = [1 for p, st in lst if p[0] == "int" and m in {x.split(".")[0] for x in atoms(p[1])}]
            if m in POINTER and m in ("lineFontPattern", "level", "colorNum") and not num:
                rep.violate("de-field", "%d:%d:num" % (n, k), "%s never carries the numeric value of %s" % (name, m), where)
        rep.ok("de-field")
        # exactness on both sides and acceptance
        for m in rm:
            for v in rd[m]:
                if v[0] != "de" and not (v[0] == "op"):
                    continue
                if v[0] == "op":
                    rep.violate("de-field", "%d:%d:read" % (n, k), "readDE() stores an expression of %s in %s" % (name, m), "%s:%d" % (rf[0].file, rf[0].line))
            t = [q for v in rd[m] for q in subterms(v) if q[0] == "de"][0]
            acc = accept.get(t, set())
            complete(rep, E, lst, m, acc, name, where)
            for p, st in lst:
                if p[0] != "int":
                    continue
                v = p[1]
                neg = 1
                while v[0] == "op" and v[1] == "-" and len(v) == 3:
                    v = v[2]
                    neg = -neg
                ptr = any(POINTER.get(m) == x.split(".")[0] for x in atoms(v))
                if v[0] == "op":
                    if ptr or m in {x for x in atoms(v)}:
                        rep.violate("de-field", "%d:%d:write" % (n, k), "writeDE() writes an expression of %s into %s" % (sorted(atoms(v)), name), where)
                    continue
                if ptr:
                    rng = (1, 9999997) if neg > 0 else (-9999997, -1)
                    sg = S.sign.get(m)
                    if sg is None:
                        rep.undecided("de-sign", m)
                    elif ("-" if neg < 0 else "+") not in sg:
                        rep.violate("de-sign", m, "the pointer of %s is written %s but associate() resolves %s values" %
                                    (m, "negated" if neg < 0 else "positive", "negated" if "-" in sg else "positive"), where)
                    else:
                        g = S.guard.get(m, set())
                        if any((x[0] > 0 and neg < 0) or (x[1] < 0 and neg > 0) for x in g):
                            rep.violate("de-sign", m, "associate() resolves %s only for %s values" % (m, "positive" if neg < 0 else "negative"), where)
                        else:
                            rep.ok("de-sign")
                    if not covered(rng, acc):
                        rep.violate("de-accept", m + ":ptr", "writeDE() writes %s as %s pointer but readDE() rejects such values" %
                                    (m, "negated" if neg < 0 else "a positive"), "%s:%d" % (rf[0].file, rf[0].line))
                    else:
                        rep.ok("de-accept")
                elif isc(v):
                    if not covered((neg * v[1], neg * v[1]), acc):
                        rep.violate("de-accept", m + ":%s" % v[1], "writeDE() writes %s for %s but readDE() rejects it" % (neg * v[1], m), "%s:%d" % (rf[0].file, rf[0].line))
                    else:
                        rep.ok("de-accept")
                else:
                    lo, hi = E.iv(st, v)
                    if neg < 0:
                        lo, hi = -hi, -lo
                        rep.violate("de-field", "%d:%d:neg" % (n, k), "writeDE() negates the value of %s" % m, where)
                    if lo > -INF and hi < INF or lo >= 0:
                        if not covered((lo, hi if hi < INF else max(lo, 1)), acc):
                            rep.violate("de-accept", m + ":range", "writeDE() writes %s in [%s,%s] but readDE() rejects part of it" % (m, lo, hi), "%s:%d" % (rf[0].file, rf[0].line))
                        else:
                            rep.ok("de-accept")
    # a field the reader uses must exist on the written side
    for (n, k), ms in stores.items():
        if (n, k) not in emitted and k != "?":
            rep.violate("de-field", "%s:%s:extra" % (n, k), "readDE() takes %s from a field writeDE() does not write" % sorted(ms), "%s:%d" % (rf[0].file, rf[0].line))
    got = set()
    for ms in stores.values():
        got |= set(ms)
    if rep.rules["de-status"]["instances"]:
        got.add("visible")
    for m in list(POINTER) + list(STATUS) + ["parameterData", "lineWeightNum", "paramLineCount", "form", "label", "entitySubscript"]:
        if m not in got:
            rep.violate("de-field", "lost:" + m, "readDE() does not restore %s from the file" % m, "%s:%d" % (rf[0].file, rf[0].line))
        else:
            rep.ok("de-field")
    forms(P, rep)
    rep.need("de-field", 12)
    rep.need("de-shape", 2)
    rep.need("de-form", 3)


def complete(rep, E, lst, m, acc, name, where):
    """no value readDE() takes is replaced by a constant when it is written"""
    own = [p[1] for p, st in lst if p[0] == "int" and p[1][0] == "v" and (member(p[1][1]) or "") == m]
    if not own:
        return
    term = own[0]
    for p, st in lst:
        if p[0] == "text" or p[0] == "blank":
            v = None
        elif p[0] == "int" and isc(p[1]):
            v = p[1][1]
        else:
            continue
        lo, hi = E.iv(st, term)
        f = st.facts.get(term)
        ex = f[3] if isinstance(f, tuple) and f[0] == "iv" else frozenset()
        lost = [x for x in range(1, 100) if x != v and lo <= x <= hi and x not in ex and any(a <= x <= b and x not in e for a, b, e in acc)]
        if lost:
            rep.violate("de-complete", m, "%s is written as %s when %s is %s, a value readDE() accepts" %
                        (name, "blank" if v is None else v, m, lost[0]), where)
        else:
            rep.ok("de-complete")


def covered(rng, acc):
    """is the (finite ends of the) range inside the union of accepted intervals"""
    lo, hi = rng
    pts = {lo, hi}
    if hi - lo <= 64:
        pts = set(range(int(lo), int(hi) + 1))
    else:
        pts |= {lo + 1, hi - 1}
    for p in pts:
        if not any(a <= p <= b and p not in ex for a, b, ex in acc):
            return False
    return True


def status(P, rep, E, lst, R, ER, where):
    """writeDE packs, readDE unpacks: evaluate both expressions for every combination of the four flags"""
    names = sorted(STATUS)
    seen = set()
    pick = {}

    def unpack(w):
        if w not in pick:
            res = []
            for st in R.done:
                des = {q: w for k in st.facts for q in subterms(k) if q[0] == "de" and q[1:3] == (1, 8)}
                ok = True
                for k, f in st.facts.items():
                    if not isinstance(f, tuple) or f[0] != "iv" or not any(q in des for q in subterms(k)):
                        continue
                    g = evaluate(k, des)
                    if g is not None and not (f[1] <= g <= f[2] and g not in f[3]):
                        ok = False
                        break
                if ok:
                    out = {}
                    for m in names:
                        v = ER.load(st, ("fld", ("deref", ("this",)), "IGES_ENTITY::" + m))
                        env = dict(des)
                        env.update({q: w for q in subterms(v) if q[0] == "de" and q[1:3] == (1, 8)})
                        out[m] = evaluate(v, env)
                    res.append(out)
            pick[w] = {tuple(sorted(o.items(), key=lambda x: x[0])) for o in res}
        return pick[w]

    for p, st in lst:
        if p[0] != "int":
            continue
        t = p[1]
        vis = None
        ops = {}
        for q in subterms(t):
            if q[0] == "v" and member(q) in STATUS:
                ops[member(q)] = q
        for k, f in st.facts.items():
            if k[0] == "v" and member(k) == "visible" and isinstance(f, tuple) and f[0] == "iv":
                if 0 in f[3] or f[1] > 0:
                    vis = 1
                elif f[1] == f[2] == 0:
                    vis = 0
        if (t, vis) in seen:
            continue
        seen.add((t, vis))
        for combo in itertools.product(*[STATUS[m] for m in names]):
            val = dict(zip(names, combo))
            if vis is not None and val["visible"] != vis and "visible" not in ops:
                continue
            w = evaluate(t, {q: val[m] for m, q in ops.items()})
            if w is None:
                rep.undecided("de-status", "packed value not evaluable")
                break
            got = unpack(w)
            if not got:
                rep.violate("de-status", "rejected", "status flags %s are written as %d, which readDE() rejects" % (val, w), where)
                return
            for g in got:
                for m, x in g:
                    if x is None:
                        rep.undecided("de-status", m)
                    elif int(x) != val[m]:
                        rep.violate("de-status", m, "status flags %s are written as %d, from which the reader takes %s=%d" % (val, w, m, x), where)
                        return
            rep.ok("de-status")


class Format(engine.Check):
    max_depth = 3
    max_states = 6000

    def __init__(self):
        self.done = []

    def inline(self, E, st, c, callee):
        return False

    def on_call(self, E, st, c):
        if c.callee is None or not c.callee.cls:
            return None
        if c.short in ("formatExtraParams", "formatComments"):
            return [(st, TRUE)]
        return None

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0 and val == TRUE:
            self.done.append((E, st))


def forms(P, rep):
    for cls in sorted(P.subclasses(BASE)):
        if cls == BASE:
            continue
        ff = P.byname.get(cls + "::format")
        rf = P.byname.get(cls + "::readDE")
        if not ff or not rf:
            continue
        F = Format()
        EF = engine.Engine(P, F, cls)
        EF.run(ff[0])
        R = DEReader()
        R.fields = set()
        ER = engine.Engine(P, R, cls)
        ER.run(rf[0])
        if EF.limit_hit or ER.limit_hit or not F.done or not R.done:
            if not F.done:
                rep.note(cls + " is never written")
            else:
                rep.undecided("de-form", cls)
            continue
        rep.fn(ff[0])
        rep.fn(rf[0])
        for m in ("depends", "use", "hierarchy", "form"):
            loc = ("fld", ("deref", ("this",)), "IGES_ENTITY::" + m)
            want = set()
            for E, st in F.done:
                v = E.load(st, loc)
                lo, hi = E.iv(st, v)
                if lo == hi:
                    want.add(lo)
            acc = set()
            for st in R.done:
                v = ER.load(st, loc)
                f = st.facts.get(v)
                lo, hi = ER.iv(st, v)
                acc.add((lo, hi, f[3] if isinstance(f, tuple) and f[0] == "iv" else frozenset()))
            for w in want:
                if not covered((w, w), acc):
                    rep.violate("de-form", "%s:%s" % (cls, m), "format() writes %s=%s but readDE() of the same entity rejects it" % (m, w), "%s:%d" % (rf[0].file, rf[0].line))
                else:
                    rep.ok("de-form")
