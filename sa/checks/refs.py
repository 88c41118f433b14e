"""Reference graph: parent->child pointers and child->parent back references stay in step (typestate per entity class)."""
import os, sys, time
import engine
import program
from engine import C, TRUE, isc
from labels import qfields, subterms

FALSE = C(False)
BASE = "IGES_ENTITY"
T = os.environ.get('SA_T')
SKIPM = {"parent", "refs"}


def is_child_type(P, t):
    """pointer to an entity class"""
    t = t.replace("const ", "").strip()
    if not t.endswith("*"):
        return False
    c = t[:-1].strip()
    return c == "IGES_CURVE" or c.startswith("IGES_ENTITY") and "*" not in c


def caches(P, cls):
    """containers which Compact() drops: temporary views, not references"""
    out = set()
    for c in P.bases(cls):
        for f in P.byname.get(c + "::Compact", []):
            for b, e in f.elems():
                if isinstance(e, int) and f.x[e][0] == "call" and f.x[e][4].split("::")[-1] == "clear":
                    o = f.x[e][5]
                    if o >= 0 and f.x[o][0] == "fld":
                        out.add(f.x[o][4] if isinstance(f.x[o][4], str) else f.x[o][3])
    return out


def children(P, cls):
    """(scalars, containers): members of cls and its bases holding child entities"""
    sc, co = [], []
    ca = caches(P, cls)
    for q, t in P.fields(cls, True):
        n = q.split("::")[-1]
        if n in SKIPM or q in ca or n in ca:
            continue
        if is_child_type(P, t):
            sc.append(q)
        elif t.startswith(("std::list<", "std::vector<")):
            inner = t[t.index("<") + 1:-1]
            if inner.startswith("std::pair<"):
                inner = inner[10:-1].rsplit(",", 1)[0].strip() if inner.count(",") == 1 else inner
            if is_child_type(P, inner):
                co.append(q)
            elif inner.rstrip(" *") in P.classes and any(is_child_type(P, ft) for _, ft in P.fields(inner.rstrip(" *"))):
                co.append(q)
    return sc, co


class R(engine.Check):
    max_depth = 2
    max_states = 30000
    join_cap = 64

    def __init__(self, P, fn, cls, co):
        self.P = P
        self.fn = fn
        self.cls = cls
        self.co = set(co)
        ft = self.ft = dict(P.fields(cls, True))
        self.direct = {q for q in co if "IGES_ENTITY" in ft[q] or "IGES_CURVE" in ft[q]}   # lists of (pairs of) entity pointers
        self.byvalue = self.direct | {q for q in co if "*" not in ft[q]}
        self.done = []
        self.delf = set()
        self.back = []
        self.pure = {m[0] if isinstance(m[0], str) else "" for m in P.classes[BASE]["methods"] if m[-1]}
        self.pure = {n.split("(")[0].split("::")[-1] for n in self.pure}
        self.released = set()      # containers whose elements are released somewhere in this function

    def joinkey(self, st):
        return (st.prop, frozenset((k, v) for k, v in st.env.items() if k[0] == "fld" and self.top(k[1])))

    def top(self, t):
        return t in (("this",), ("deref", ("this",)))

    def inline(self, E, st, c, callee):
        if callee.short in ("addReference", "delReference", "AddEntity", "getAssociated"):
            return False
        if callee.cls is None:
            return callee.file.startswith("entities") and callee.nel < 60
        if c.objval is None or E.strip(c.objval) != ("this",) or not callee.file.startswith("entities"):
            return False
        if callee.cls in self.P.bases(self.fn.cls) and not callee.virt and callee.nel < 100 and not callee.loops() and \
                any("*" in p["t"] for p in callee.params) and callee.short != callee.cls:
            return True         # helper of the base class
        # public methods with loops are judged on their own
        return callee.cls == self.fn.cls and callee.nel < 260 and \
            (callee.access != 0 or self.fn.short.startswith("~") or not callee.loops())

    def inco(self, o):
        """container member the term is (part of) an element of"""
        for t in subterms(o):
            if t[0:1] in (("elem",), ("iter",)):
                for q in qfields(t[1]):
                    if q in self.co:
                        return q
        return None

    def own(self, u):
        """an element of one of this entity's containers"""
        while isinstance(u, tuple) and u and u[0] in ("v", "fld", "elem", "iter", "deref", "addr"):
            if u[0] == "fld" and u[2] in self.co:
                return True
            u = u[1]
        return False

    def parts(self, q, el):
        """the places of an element which hold an entity of its own (not one counted in another list)"""
        t = self.ft[q]
        inner = t[t.index("<") + 1:-1].rstrip(" *")
        if inner not in self.P.classes or q in self.direct:
            return [el]
        out = []
        for fq, ftyp in self.P.fields(inner):
            if is_child_type(self.P, ftyp) and not any(ftyp.strip() in self.ft[o] for o in self.direct if o != q and o.split("::")[0] == q.split("::")[0]):
                out.append(("fld", el, fq))
        return out

    def on_call(self, E, st, c):
        s = c.short
        if c.objval is None:
            return None
        o = E.strip(c.objval)
        if o == ("this",):
            return None
        if self.fn.short == "unlink" and c.virt and s in self.pure:
            p0 = ("p", 0, self.fn.params[0]["n"])
            if o == p0 or E.truth(st, ("op", "==", o, p0)) is True or E.truth(st, ("op", "==", p0, o)) is True:
                self.back.append((c.func, c.line, s))
        if s == "addReference" and len(c.args) == 2 and E.strip(c.args[0]) == ("this",):
            l = E.loc(c.func, c.ctx, c.argids[1], st)
            a, b = st.copy(), st.copy()
            E.rawstore(st, l, FALSE)
            st.prop = frozenset(x for x in st.prop if x not in (("del", o), ("dup", o), ("fail", o))) | {("ref", o)}
            E.rawstore(a, l, TRUE)
            a.prop = frozenset(a.prop) | {("dup", o)}
            E.rawstore(b, l, FALSE)
            b.prop = frozenset(b.prop) | {("rfail", o)}
            if any(k[0] == "fld" and not self.top(k[1]) and k[1][0] != "lv" and v == o and set(qfields(k)) & self.co for k, v in b.env.items()):
                b.prop = frozenset(b.prop) | {("fail", o)}
            return [(st, TRUE), (a, TRUE), (b, FALSE)]
        if s == "delReference" and len(c.args) == 1 and E.strip(c.args[0]) == ("this",):
            q = self.inco(o)
            if not q:
                for k, v in st.facts.items():
                    if v is True and k[0] == "==" and o in k[1:3]:
                        w = self.inco(k[1]) or self.inco(k[2])
                        if w:
                            self.released.add(w)
            st.prop = frozenset(x for x in st.prop if x not in (("ref", o), ("dup", o)))
            if q:
                self.released.add(q)
                # equal to something named otherwise
                st.prop = frozenset(x for x in st.prop if not (x[0] in ("ref", "dup") and E.truth(st, ("op", "==", x[1], o)) is True))
            st.prop |= {("del", o if not q else ("in", q))}
            if q:
                st.prop |= {("delt", o)}
            st.prop = frozenset(x for x in st.prop if not (x[0] == "pend" and o in x[2]))
            if looped(o):
                self.delf.add(qfields(o)[-1] if qfields(o) else "")
            return [(st, ("r", c.site))]
        if s in ("unlink", "DelEntity", "associate", "rescale", "SetParentIGES", "addReference", "delReference", "GetEntityType"):
            # acts on another object; what it calls back on this entity is judged there
            return [(st, ("r", c.site))]
        if s in ("AddEntity",) or s.startswith(("SetDependency", "GetEntity", "GetParent", "getDE", "SetEntity", "SetHier")):
            return [(st, ("r", c.site))]
        return None

    def on_store(self, E, st, loc, val, func, line):
        if not isinstance(val, tuple) or not val:
            return
        q = qfields(loc)
        if loc[0] == "fld" and self.top(loc[1]) and q[0] in self.co:
            if val[0] == "erased":
                st.prop = frozenset(st.prop) | {("erased", q[0])}
                it = val[1]
                if q[0] in self.byvalue and it is not None and it[0] == "iter":
                    el = ("elem", it[1], it[2])
                    p0 = ("p", 0, self.fn.params[0]["n"]) if self.fn.params else None
                    for el in self.parts(q[0], el):
                        cand = set()
                        for k, v in st.facts.items():
                            if v is True and k[0] == "==" and len(k) == 3:
                                for x, t in ((k[1], k[2]), (k[2], k[1])):
                                    if el in subterms(t):
                                        cand.add(x)
                        done = any(p[0] == "delt" and el in subterms(p[1]) for p in st.prop) or any(("del", x) in st.prop for x in cand) or \
                            self.fn.short == "unlink" and p0 in cand
                        # the term may name another element from here on
                        st.prop = frozenset(p for p in st.prop if not (p[0] == "delt" and el in subterms(p[1])))
                        if not done:
                            st.prop |= {("pend", q[0], frozenset(cand))}
            elif val == ("cleared",):
                st.prop = frozenset(st.prop) | {("cleared", q[0])}
        local = loc[0] in ("lv",) or loc[0] == "fld" and self.top(loc[1])
        if not local:
            if q or loc[0] in ("elem", "deref", "fld"):
                for t in list(subterms(val))[:20]:
                    if isinstance(t, tuple) and t and t[0] in ("p", "v", "out", "dyn", "r", "new"):
                        u = E.strip(t)
                        if self.own(u):
                            break       # an element moved within a container
                        r = local_root(loc)
                        if not r:
                            if loc[0] == "elem" and self.inco(loc) and ("dup", u) in st.prop:
                                st.prop = frozenset(st.prop) | {("dupheld", u)}
                            st.prop = frozenset(st.prop) | {("held", u)}
                            if loc[0] == "elem" and loc[2] == "new" and loc[1][0] == "fld" and self.top(loc[1][1]) and q[-1] in self.direct:
                                st.prop |= {("pushed", q[-1], u)}
                            if u[0] == "v" and u[1][0] == "lv":     # a struct copied as a whole
                                st.prop |= {("held", E.strip(v)) for k, v in st.env.items() if k[0] == "fld" and k[1] == u[1] and v[0] != "c"}
                        break

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append((st, val, line))


class Reg(engine.Check):
    """addReference / delReference of one class"""
    max_depth = 2
    max_states = 3000

    def __init__(self, fn):
        self.fn = fn
        self.done = []

    def inline(self, E, st, c, callee):
        return callee.cls == self.fn.cls and c.objval is not None and E.strip(c.objval) == ("this",) and callee.nel < 200

    def on_call(self, E, st, c):
        if c.objval is None or c.short not in ("addReference", "delReference"):
            return None
        if E.strip(c.objval) != ("this",):
            return [(st, ("r", c.site))]
        if c.callee is not None and c.callee.cls == self.fn.cls:
            return None
        st.prop = frozenset(st.prop) | {("base", c.short, c.args[0])}
        if c.short == "delReference":
            a = st.copy()
            st.prop |= {"+"}
            return [(st, TRUE), (a, FALSE)]
        l = E.loc(c.func, c.ctx, c.argids[1], st)
        a, b = st.copy(), st.copy()
        E.rawstore(st, l, FALSE)
        st.prop |= {"+"}
        E.rawstore(a, l, TRUE)
        E.rawstore(b, l, FALSE)
        return [(st, TRUE), (a, TRUE), (b, FALSE)]

    def on_assume(self, E, st, term, truth, func, line):
        p0 = ("p", 0, self.fn.params[0]["n"])
        t = E.strip(term)
        ts = list(subterms(t))
        if any(u[0] in ("r", "out") for u in ts if isinstance(u, tuple) and u) or (p0 in ts or ("this",) in ts[1:3]) and (t[1] == "==" and truth if t[0] == "op" else not truth):
            st.prop = frozenset(st.prop) | {("why",)}

    def on_store(self, E, st, loc, val, func, line):
        q = qfields(loc)
        if q and q[-1] in ("IGES_ENTITY::refs", "IGES_ENTITY::extras") and isinstance(val, tuple):
            if loc[0] == "elem" and loc[2] == "new":
                st.prop = frozenset(st.prop) | {("+2" if "+" in st.prop else "+"), ("what", val)}
            elif val and val[0] == "erased":
                st.prop = frozenset(st.prop) | {("+2" if "+" in st.prop else "+")}

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append((st, val, line))


def registry(P, rep):
    rep.rule("ref-registry", "addReference/delReference report exactly the change they make to the list of parents")
    for c in [BASE] + sorted(P.subclasses(BASE)):
        for nm in ("addReference", "delReference"):
            for f in P.byname.get("%s::%s" % (c, nm), []):
                if c == "IGES_ENTITY_NULL":
                    continue
                chk = Reg(f)
                E = engine.Engine(P, chk, c)
                E.run(f)
                rep.fn(f)
                bad = None
                for st, val, line in chk.done:
                    tv = E.truth(st, val)
                    plus = "+" in st.prop
                    dup = None
                    if nm == "addReference":
                        dup = E.truth(st, E.load(st, ("deref", ("p", 1, f.params[1]["n"]))))
                        for l in (("deref", ("v", ("lv", 0, 1))),):
                            pass
                    if "+2" in st.prop:
                        bad = ("changes the list of parents twice", line)
                    elif tv is False and plus:
                        bad = ("reports failure after it changed the list of parents", line)
                    elif tv is True and not plus and (nm == "delReference" or dup is not True):
                        bad = ("reports success without changing the list of parents", line)
                    elif tv is True and plus and nm == "addReference" and dup is True:
                        bad = ("reports a duplicate after adding a parent", line)
                    if nm == "addReference" and c != BASE and tv is False and ("why",) not in st.prop and not any(p[0] == "base" for p in st.prop) and \
                            E.truth(st, ("p", 0, f.params[0]["n"])) is not False:
                        bad = ("refuses a parent which it has not found among its own children", line)
                    for p in st.prop:
                        if p[0] in ("base",) and E.strip(p[2]) != ("p", 0, f.params[0]["n"]) or p[0] == "what" and E.strip(p[1]) != ("p", 0, f.params[0]["n"]):
                            bad = ("registers something other than the parent it is given", line)
                if bad:
                    rep.violate("ref-registry", f.name, "%s %s" % (f.name, bad[0]), "%s:%d" % (f.file, bad[1] or f.line))
                else:
                    rep.ok("ref-registry", len(chk.done))
    rep.need("ref-registry", 20)


def looped(o):
    return any(t[0:1] in (("elem",), ("iter",)) for t in subterms(o))


def local_root(loc):
    """a container or struct that is a local variable of the function (it vanishes on return)"""
    t = loc
    while t and t[0] in ("fld", "elem", "size"):
        t = t[1]
    return t[0] == "lv"


def run(P, rep):
    rep.rule("ref-hold", "a child pointer set by a method is one at which this entity is registered")
    rep.rule("ref-drop", "a child pointer which is overwritten or erased has been released, and a released one is not kept")
    rep.rule("ref-keep", "a registration made by a method is kept in a child member or withdrawn")
    rep.rule("ref-verdict", "a method which could not register with a child does not report success")
    rep.rule("ref-dtor", "the destructor releases every child that may be set")
    rep.rule("ref-unlink", "unlink(child) forgets the child wherever the entity may hold it")
    for f in sorted(P.funcs.values(), key=lambda f: f.sig):
        if not f.cls or not f.file.startswith("entities") or not (f.cls == BASE or BASE in P.bases(f.cls)):
            continue
        if f.cls not in P.classes or f.short == f.cls or f.short in ("format", "readPD", "readDE", "Compact", "writeDE", "writePD", "addReference", "delReference"):
            continue
        sc, co = children(P, f.cls)
        sc = [q for q in sc if q.startswith(f.cls + "::")]
        co = [q for q in co if q.startswith(f.cls + "::")]
        if not sc and not co:
            continue
        if f.access == 2 and f.short not in ("unlink", "associate"):
            continue      # judged where its callers inline it
        chk = R(P, f, f.cls, co)
        t0 = time.time()
        E = engine.Engine(P, chk, f.cls)
        try:
            E.run(f)
        except engine.Limit:
            rep.undecided("ref-hold", f.name)
            continue
        if E.limit_hit:
            rep.undecided("ref-hold", f.name + " limit")
        if T:
            print("%6.1f %s %d" % (time.time() - t0, f.name, len(chk.done)), file=sys.stderr)
        rep.fn(f)
        judge(P, rep, E, chk, f, sc, co)
    registry(P, rep)
    rep.need("ref-hold", 10)
    rep.need("ref-dtor", 8)
    rep.need("ref-unlink", 8)


def judge(P, rep, E, chk, f, sc, co):
    where = "%s:%d" % (f.file, f.line)
    dtor = f.short.startswith("~")
    unlink = f.short == "unlink"
    assoc = f.short == "associate"
    B = E.deref(("this",))
    bad, good, und = {}, {}, set()

    def fail(rule, key, text, line=None):
        bad.setdefault((rule, key), (text, "%s:%d" % (f.file, line) if line else where))

    def ok(rule, key):
        good[(rule, key)] = 1
    compared = {chk.inco(t) for st, val, line in chk.done for k in st.facts if k[0] == "==" for t in k[1:3]} if unlink else ()
    for st, val, line in chk.done:
        props = st.prop
        dead = {p[1] for p in props if p[0] == "del"}
        refd = {p[1] for p in props if p[0] == "ref"}
        dups = {p[1] for p in props if p[0] == "dup"}
        held = {p[1] for p in props if p[0] == "held"}
        failed = val is not None and E.truth(st, val) is False

        def same(a, b):
            return a == b or E.truth(st, ("op", "==", a, b)) is True

        def isin(t, S):
            return any(same(t, x) for x in S)
        raw = {q: E.load(st, ("fld", B, q)) for q in sc}
        final = {q: E.strip(v) for q, v in raw.items()}
        for q in sc:
            n = q.split("::")[-1]
            v0 = ("v", ("fld", B, q))
            v1 = final[q]
            key = "%s:%s" % (f.name, n)
            wasset = E.truth(st, v0) is not False
            isset = E.truth(st, v1) is not False and E.truth(st, raw[q]) is not False
            if dtor:
                if wasset and not isin(v0, dead):
                    fail("ref-dtor", key, "%s does not release %s on some path" % (f.name, n))
                else:
                    ok("ref-dtor", key)
                continue
            if unlink:
                p0 = ("p", 0, f.params[0]["n"])
                eq = E.truth(st, ("op", "==", v0, p0))
                if failed and eq is not False and E.truth(st, p0) is not False and wasset:
                    fail("ref-unlink", key, "%s may report failure although %s is the child to forget" % (f.name, n), line)
                elif not failed and eq is True and isset and v1 == v0:
                    fail("ref-unlink", key + ":kept", "%s keeps %s although it is the child to forget" % (f.name, n), line)
                else:
                    ok("ref-unlink", key)
                continue
            if v1 == v0:
                if isin(v0, dead) and wasset and v0 not in refd:
                    fail("ref-drop", key + ":kept", "%s releases %s but keeps pointing to it" % (f.name, n), line)
                else:
                    ok("ref-drop", key)
                continue
            if not assoc and wasset and not isin(v0, dead) and v0 not in final.values() and not same(v0, v1):
                fail("ref-drop", key, "%s overwrites %s without releasing the entity it pointed to" % (f.name, n), line)
            else:
                ok("ref-drop", key)
            if isset:
                if not isin(v1, refd) and not isin(v1, dups) and not any(v1 == ("v", ("fld", B, x)) for x in sc):
                    fail("ref-hold", key, "%s leaves %s pointing to an entity at which it is not registered" % (f.name, n), line)
                elif isin(v1, dead) and not isin(v1, refd):
                    fail("ref-hold", key + ":dead", "%s leaves %s pointing to an entity it has released" % (f.name, n), line)
                else:
                    ok("ref-hold", key)
        for q in co:
            n = q.split("::")[-1]
            key = "%s:%s" % (f.name, n)
            l = ("fld", B, q)
            if unlink:
                p0 = ("p", 0, f.params[0]["n"])
                hit = [k for k, v in st.facts.items() if v is True and k[0] == "==" and p0 in k[1:3] and any(chk.inco(t) == q for t in k[1:3])]
                gone = ("erased", q) in props or ("cleared", q) in props
                if hit and not gone and E.truth(st, p0) is not False:
                    fail("ref-unlink", key + ":kept", "%s keeps an element of %s although it is the child to forget" % (f.name, n), line)
                elif hit:
                    ok("ref-unlink", key)
                if failed and ("erased", q) in props:
                    fail("ref-unlink", key + ":verdict", "%s reports failure although it has forgotten the child held in %s" % (f.name, n), line)
                if failed and E.truth(st, p0) is not False and q in compared:
                    w = sought(E, st, p0, l)
                    if w is False:
                        fail("ref-unlink", key + ":search", "%s may report failure without having searched %s for the child to forget" % (f.name, n), line)
                    elif w is None:
                        und.add(f.name + ": search of " + n)
                    else:
                        ok("ref-unlink", key + ":search")
            for k in ("erased", "cleared"):
                if (k, q) in props and not (unlink and k == "erased"):
                    if q not in chk.released:
                        fail("ref-drop", key + ":" + k, "%s removes entities from %s without releasing them" % (f.name, n), line)
                    else:
                        ok("ref-drop", key + ":" + k)
        if not dtor and not unlink and f.ret == "bool":
            for p in props:
                if p[0] == "rfail" and not isin(p[1], refd) and not isin(p[1], dups):
                    if val is not None and E.truth(st, val) is True:
                        fail("ref-verdict", f.name, "%s reports success although it could not be registered at the entity it is to point to" % f.name, line)
                    else:
                        ok("ref-verdict", f.name)
        # registrations kept
        for x in refd:
            kept = any(same(v, x) for v in final.values()) or any(h in subterms(x) or same(h, x) for h in held)
            if not kept and looped(x) and (qfields(x) or [""])[-1] in chk.delf:
                und.add(f.name + ": roll back loop")
            elif not kept:
                fail("ref-keep", "%s:%s" % (f.name, "fail" if failed else "ok"),
                     "%s registers with a child (%s) but does not keep the pointer on some path" % (f.name, short(x)), line)
            else:
                ok("ref-keep", f.name)
        for p in props:
            if p[0] == "pend" and p[1].endswith("::extras") and any(isinstance(k, tuple) and k[0] == "r" and tuple(E.iv(st, k)[:2]) == (402, 402) for k in st.facts):
                continue
            if p[0] == "pend":
                n = p[1].split("::")[-1]
                fail("ref-drop", "%s:%s:erase" % (f.name, n), "%s erases an element of %s on a path which does not release the entity it held" % (f.name, n), line)
            if p[0] == "pushed" and not isin(p[2], refd) and not isin(p[2], dups) and not dtor and ("erased", p[1]) not in props \
                    and not (p[1].endswith("::extras") and any(isinstance(k, tuple) and k[0] == "r" and tuple(E.iv(st, k)[:2]) == (402, 402) for k in st.facts)):
                fail("ref-hold", "%s:%s" % (f.name, p[1].split("::")[-1]), "%s adds an entity to %s at which it is not registered" % (f.name, p[1].split("::")[-1]), line)
            if p[0] == "dupheld":
                fail("ref-hold", f.name + ":dup", "%s holds the same entity twice but is registered once (%s)" % (f.name, short(p[1])), line)
            if p[0] == "fail" and not isin(p[1], refd) and not any(p2[0] in ("erased", "cleared") for p2 in props):
                fail("ref-hold", f.name + ":elem", "%s holds an entity at which registration failed (%s)" % (f.name, short(p[1])), line)
    if dtor:
        for q in co:
            n = q.split("::")[-1]
            if q not in chk.released:
                fail("ref-dtor", "%s:%s" % (f.name, n), "%s does not release the entities in %s" % (f.name, n))
            else:
                ok("ref-dtor", "%s:%s" % (f.name, n))
    for (rule, key), (text, w) in bad.items():
        rep.violate(rule, key, text, w)
    for g, line, m in chk.back:
        rep.violate("ref-unlink", "%s:callback" % f.name, "%s calls %s on the child, whose own class part is already destroyed when unlink is called" % (f.name, m), "%s:%d" % (g.file, line))
    for u in und:
        rep.undecided("ref-keep", u)
    for rule, key in good:
        if (rule, key) not in bad:
            rep.ok(rule)


def sought(E, st, x, L):
    """whether a path which has not found x in the list L has looked at all of it: True, False or None when it cannot be told"""
    if tuple(E.iv(st, ("v", ("size", L)))[:2]) == (0, 0):
        return True
    end = some = None
    pos = []
    for k, v in st.facts.items():
        ts = list(terms(k))
        if any(t[0] in ("r", "out") for t in ts):
            return None
        for t in ts:
            if t[0] == "iter" and t[1] == L and t[2] == "end" and v is True:
                end = True
            elif t[0] == "size" and t[1] == L and any(u[0] in ("w", "j", "lv") for u in ts):
                end = True
            elif t[0] == "elem" and t[1] == L and x in ts:
                pos.append(t[2])
            elif t[0] in ("elem", "iter") and t[1] == L:
                some = True
    if end:
        return True
    if not pos and some:
        return None
    return False


def terms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for y in t:
            yield from terms(y)


def short(t):
    return str(t)[:110]
