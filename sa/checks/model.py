"""Membership: which model an entity belongs to (typestate over IGES and over everything that attaches entities to each other)."""
import engine
import program
from engine import C, TRUE
from labels import qfields, subterms
from checks import refs

BASE = refs.BASE
FALSE = C(False)
ME = ("deref", ("this",))
PARENT = BASE + "::parent"
LIST = ("fld", ME, "IGES::entities")


def parent_of(x):
    return ("fld", ("deref", x), PARENT)


class Child(refs.R):
    """what is attached to an entity is in the entity's model"""

    def inline(self, E, st, c, callee):
        if callee.short == "GetParentIGES":
            return True
        return super().inline(E, st, c, callee)

    def on_call(self, E, st, c):
        if c.short == "AddEntity" and c.objval is not None and c.args and c.sig.startswith("IGES::"):
            o = E.strip(c.objval)
            if o == ("v", ("fld", ME, PARENT)) or E.truth(st, ("op", "==", o, ("v", ("fld", ME, PARENT)))) is True:
                st.prop = frozenset(st.prop) | {("in", E.strip(c.args[0]))}
            return [(st, ("r", c.site))]
        if c.short == "GetParentIGES":
            return None
        return super().on_call(E, st, c)

    def on_assume(self, E, st, term, truth, func, line):
        # the comparison of the two models, kept as typestate so that it survives loops
        if term[0] == "op" and term[1] in ("==", "!=") and (term[1] == "==") == bool(truth):
            mine = ("v", ("fld", ME, PARENT))
            for a, b in ((term[2], term[3]), (term[3], term[2])):
                b = E.strip(b)
                if E.strip(a) == mine and b[0] == "v" and b[1][0] == "fld" and b[1][2] == PARENT and b[1][1][0] == "deref":
                    st.prop = frozenset(st.prop) | {("in", E.strip(b[1][1][1]))}


def attached(P, rep):
    """own-child"""
    R = "own-child"
    for f in sorted(P.funcs.values(), key=lambda f: f.sig):
        if not f.cls or not f.file.startswith("entities") or not (f.cls == BASE or BASE in P.bases(f.cls)) or f.cls not in P.classes:
            continue
        if f.short == f.cls or f.short.startswith("~") or f.short in ("format", "readPD", "readDE", "Compact", "writeDE", "writePD", "addReference",
                                                                      "delReference", "associate", "unlink", "rescale"):
            continue
        if f.access != 0 or not any("*" in p["t"] for p in f.params):
            continue
        sc, co = refs.children(P, f.cls)
        if not sc and not co:
            continue
        if not any(s.split("(")[0].endswith("::addReference") for s in P.closure([f])):
            continue
        chk = Child(P, f, f.cls, [q for q in co])
        E = engine.Engine(P, chk, f.cls)
        try:
            E.run(f)
        except engine.Limit:
            rep.undecided(R, f.name)
            continue
        if E.limit_hit:
            rep.undecided(R, f.name + " limit")
            continue
        rep.fn(f)
        bad = None
        n = 0
        mine = ("v", ("fld", ME, PARENT))
        for st, val, line in chk.done:
            if val is not None and f.ret == "bool" and E.truth(st, val) is False:
                continue
            if E.truth(st, mine) is False:
                continue            # belongs to no model
            for p in st.prop:
                if p[0] != "ref":
                    continue
                x = p[1]
                n += 1
                there = {q[1] for q in st.prop if q[0] == "in"}
                px = ("v", parent_of(x))        # the model it was in, as the model's list knows it
                if x in there or any(E.truth(st, ("op", "==", x, y)) is True for y in there):
                    continue
                if E.truth(st, ("op", "==", mine, px)) is True or E.truth(st, ("op", "==", px, mine)) is True:
                    continue
                bad = (line, x)
        if bad:
            rep.violate(R, f.name, "%s attaches an entity (%s) without taking it over into the model of the entity it is attached to" % (
                f.name, refs.short(bad[1]) if hasattr(refs, "short") else str(bad[1])), "%s:%d" % (f.file, bad[0] or f.line))
        elif n:
            rep.ok(R, n)


def unwrap(v):
    """iterators wrapped into const_iterators and the like"""
    while v[0] == "obj" and len(v[3]) == 1:
        v = v[3][0]
    return v


class Op(engine.Check):
    """operations on the list of entities of one model"""
    max_depth = 2
    max_states = 20000

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.done = []
        self.made = {}

    def joinkey(self, st):
        return st.prop

    def inline(self, E, st, c, callee):
        return callee.cls == "IGES" and callee.access != 0 and callee.nel < 200 or callee.short in ("GetParentIGES",)

    def on_call(self, E, st, c):
        if c.short in ("UnlinkEntity", "AddEntity", "DelEntity") and c.sig.startswith("IGES::") and c.args and c.objval is not None:
            o = E.strip(c.objval)
            x = E.strip(c.args[0])
            st.prop = frozenset(st.prop) | {(c.short, o, x)}
            a = st.copy()
            if c.short == "UnlinkEntity":
                a.env[parent_of(x)] = C(0)
            elif c.short == "AddEntity":
                a.env[parent_of(x)] = o
            return [(a, TRUE), (st, FALSE)]
        if c.short in ("addReference", "delReference", "unlink", "isOrphaned", "getNRefs", "GetEntityType", "setEntityType"):
            return [(st, ("r", c.site))]
        if c.name == "std::find" and len(c.args) == 3 and unwrap(c.args[0])[0] == "iter":
            l = unwrap(c.args[0])[1]
            x = c.args[2]
            if x[0] == "ref" or x[0] == "addr":
                x = E.load(st, x[1])
            at = ("find", c.site)
            a, b = st, st.copy()
            E.rawstore(a, ("elem", l, at), x)
            if l == LIST:
                a.prop = frozenset(a.prop) | {("member", E.strip(x))}
            return [(a, ("iter", l, at)), (b, ("iter", l, "end"))]
        if c.op == "+" and len(c.args) == 1 and c.obj is not None:
            v = E.load(st, c.obj)
            if c.obj[0] == "tmp" and c.objid >= 0:
                v = E.value(c.func, c.ctx, c.objid, st)
            v = unwrap(v)
            if v[0] == "iter" and v[2] == 0:
                return [(st, ("iter", v[1], c.args[0]))]
        return None

    def on_assume(self, E, st, term, truth, func, line):
        if term[0] == "op" and term[1] in ("==", "!=") and (term[1] == "==") == bool(truth):
            for a, b in ((term[2], term[3]), (term[3], term[2])):
                if b[0] == "v" and b[1][0] == "elem" and b[1][1] == LIST:
                    st.prop = frozenset(st.prop) | {("member", E.strip(a))}

    def on_new(self, E, st, val, typ, arr, func, line):
        if "IGES_ENTITY" in typ and not arr:
            st.prop = frozenset(st.prop) | {("made", val)}

    def on_ctor(self, E, st, c, loc):
        if c.short.startswith("IGES_ENTITY") and len(c.args) == 1 and c.modes and c.modes[0] in ("v", "p"):
            a = E.strip(c.args[0])
            st.prop = frozenset(st.prop) | {("for", c.line, a)}
        return None

    def on_delete(self, E, st, val, arr, func, line, eid=None):
        v = E.strip(val)
        st.prop = frozenset(st.prop) | {("deleted2" if ("deleted", v) in st.prop else "deleted", v)}

    def on_store(self, E, st, loc, val, func, line):
        if not isinstance(val, tuple) or not val:
            return
        if loc[0] == "elem" and loc[1] == LIST and loc[2] == "new":
            v = E.strip(val)
            st.prop = frozenset(st.prop) | {("pushed2" if any(p[0] == "pushed" for p in st.prop) else "pushed", v)}
        elif loc == LIST and val[0] == "erased":
            it = unwrap(val[1]) if val[1] is not None else None
            el = E.load(st, ("elem", it[1], it[2])) if it is not None and it[0] == "iter" else None
            st.prop = frozenset(st.prop) | {("erased2" if any(p[0] == "erased" for p in st.prop) else "erased", el)}
        elif loc == LIST and val == ("cleared",):
            st.prop = frozenset(st.prop) | {("cleared",)}

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append((st, val, line))


def explore(P, rep, R, name, nparam=None):
    """(function, engine, check) of each overload of IGES::name"""
    for f in P.byname.get("IGES::" + name, []):
        if nparam is not None and len(f.params) != nparam:
            continue
        chk = Op(P, f)
        E = engine.Engine(P, chk, "IGES")
        E.run(f)
        rep.fn(f)
        if E.limit_hit or not chk.done:
            rep.undecided(R, f.name)
            continue
        yield f, E, chk


def eq(E, st, a, b):
    return E.strip(a) == E.strip(b) or E.truth(st, ("op", "==", a, b)) is True or E.truth(st, ("op", "==", b, a)) is True


def find(st, kind):
    return [p for p in st.prop if p[0] == kind]


def member_of(E, st, x):
    """a fact of the path says that x is an element of the list"""
    if ("member", x) in st.prop:
        return True
    for k, v in st.facts.items():
        if v is True and isinstance(k, tuple) and k and k[0] == "==" and len(k) == 3:
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if E.strip(a) == x and isinstance(b, tuple) and b[0] == "v" and b[1][0] == "elem" and b[1][1] == LIST:
                    return True
    return False


def searched(E, st, x):
    """whether the path has established that x is not in the list"""
    L = ("fld", ("deref", ("this",)), "IGES::entities")
    lo, hi = E.iv(st, ("v", ("size", L)))[:2]
    if lo == hi == 0:
        return True
    old = ("v", parent_of(x))
    if E.truth(st, old) is False or E.truth(st, ("op", "==", old, ("this",))) is False:
        return True
    some = early = None
    first = adv = False
    for k, v in st.facts.items():
        ts = list(terms(k))
        if ("iter", L, "end") in ts and v is True or ("size", L) in ts and any(t[0] in ("w", "j") for t in ts):
            some = True
        for t in ts:
            if t[0] == "elem" and t[1] == L and x in ts:
                pos = t[2][1] if isinstance(t[2], tuple) and t[2][0] == "c" else t[2]
                if pos == "last" or isinstance(pos, int) and pos > 0:
                    early = True
                elif isinstance(pos, int):
                    first = True
                    early = early or False
                elif isinstance(pos, tuple) and pos[0] == "adv":
                    adv = True
    if adv and not first:
        early = True
    if some:
        return False if early else True
    return None if early is None else False


def terms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for y in t:
            yield from terms(y)


def add(P, rep):
    R = "own-add"
    for f, E, chk in explore(P, rep, R, "AddEntity", 1):
        x = ("p", 0, f.params[0]["n"])
        bad = None
        known = False
        for st, val, line in chk.done:
            if E.truth(st, val) is False:
                if find(st, "pushed") or find(st, "UnlinkEntity"):
                    bad = bad or ("changes the membership of an entity it refuses", line)
                continue
            pu = find(st, "pushed")
            if E.truth(st, val) is None and pu:
                if val is not None and val[0] == "r":
                    rep.undecided(R, f.name + " result")
                else:
                    bad = bad or ("may report failure although it has added the entity", line)
                continue
            if find(st, "pushed2") or find(st, "erased") or find(st, "cleared") or find(st, "deleted"):
                bad = bad or ("changes more of the model than the entity it is given", line)
                continue
            old = ("v", parent_of(x))
            now = E.load(st, parent_of(x))
            if not pu:
                if member_of(E, st, x) or eq(E, st, old, ("this",)):
                    known = True
                    if not eq(E, st, now, old) and not eq(E, st, now, ("this",)):
                        bad = bad or ("gives a member another parent", line)
                    continue
                if any(k[0] in ("w", "j") and k[-1][0] == "lv" for k in st.facts):
                    known = True        # found by a loop which only left a flag behind
                    rep.undecided(R, f.name + " flag")
                    continue
                bad = bad or ("reports success without adding the entity", line)
                continue
            if E.strip(pu[0][1]) != x:
                bad = bad or ("adds something else than the entity it is given", line)
            elif E.strip(now) != ("this",):
                bad = bad or ("does not become the parent of the entity it adds", line)
            elif not (E.truth(st, old) is False or eq(E, st, old, ("this",)) or any(p[0] == "UnlinkEntity" and eq(E, st, p[1], old) and p[2] == x for p in st.prop)):
                bad = bad or ("leaves the entity in the list of the model it was in: two models own it", line)
            else:
                sr = searched(E, st, x)
                if sr is False:
                    bad = bad or ("adds an entity without having looked for it in the whole list", line)
                elif sr is None:
                    rep.undecided(R, f.name + " search")
                else:
                    rep.ok(R)
        if not known and not bad:
            bad = ("adds an entity again which is a member already", f.line)
        if bad:
            rep.violate(R, f.name, "%s %s" % (f.name, bad[0]), "%s:%d" % (f.file, bad[1] or f.line))


def remove(P, rep):
    for name, R in (("UnlinkEntity", "own-unlink"), ("DelEntity", "own-delete")):
        for f, E, chk in explore(P, rep, R, name, 1):
            x = ("p", 0, f.params[0]["n"])
            bad = None
            seen = False
            for st, val, line in chk.done:
                er, de = find(st, "erased") + find(st, "UnlinkEntity"), find(st, "deleted")
                if E.truth(st, val) is False:
                    if find(st, "erased") or de:
                        bad = bad or ("changes the model although it reports failure", line)
                    else:
                        rep.ok(R)
                    continue
                if E.truth(st, val) is None and (find(st, "erased") or de):
                    if val is not None and val[0] == "r":
                        rep.undecided(R, f.name + " result")
                    else:
                        bad = bad or ("may report failure although it has changed the model", line)
                    continue
                seen = True
                if find(st, "erased2") or find(st, "deleted2") or find(st, "cleared") or find(st, "pushed"):
                    bad = bad or ("changes more of the model than the entity it is given", line)
                elif not er:
                    bad = bad or ("reports success and keeps the entity in the list", line)
                elif er[0][0] == "erased" and (er[0][1] is None or not eq(E, st, er[0][1], x)):
                    bad = bad or ("takes another entity out of the list than the one it is given", line)
                elif name == "DelEntity" and not (de and eq(E, st, de[0][1], x)):
                    bad = bad or ("does not release the entity it takes out", line)
                elif name == "UnlinkEntity" and de:
                    bad = bad or ("releases the entity", line)
                elif name == "UnlinkEntity" and er[0][0] == "erased" and E.strip(E.load(st, parent_of(x))) != C(0) and \
                        E.truth(st, ("op", "==", ("v", parent_of(x)), ("this",))) is not False:
                    bad = bad or ("leaves itself the parent of an entity it no longer holds", line)
                else:
                    rep.ok(R)
            if not seen and not bad:
                bad = ("never succeeds", f.line)
            if bad:
                rep.violate(R, f.name, "%s %s" % (f.name, bad[0]), "%s:%d" % (f.file, bad[1] or f.line))


def create(P, rep):
    R = "own-new"
    for f, E, chk in explore(P, rep, R, "NewEntity", 2):
        out = ("deref", ("p", 1, f.params[1]["n"]))
        bad = None
        for st, val, line in chk.done:
            pu = find(st, "pushed")
            if E.truth(st, val) is False:
                if pu:
                    bad = bad or ("keeps an entity in the list although it reports failure", line)
                continue
            v = E.strip(E.load(st, out))
            if len(pu) != 1 or find(st, "pushed2"):
                bad = bad or ("does not put the new entity into the list exactly once", line)
            elif E.strip(pu[0][1]) != v:
                bad = bad or ("puts another entity into the list than the one it delivers", line)
            elif ("made", v) not in st.prop:
                bad = bad or ("delivers something else than the entity it created", line)
            else:
                who = [p[2] for p in st.prop if p[0] == "for"]
                if not who or any(w != ("this",) for w in who):
                    bad = bad or ("creates an entity whose parent is not this model", line)
                else:
                    rep.ok(R)
        if bad:
            rep.violate(R, f.name, "%s %s" % (f.name, bad[0]), "%s:%d" % (f.file, bad[1] or f.line))

class Ctor(engine.Check):
    max_depth = 4
    max_states = 3000

    def __init__(self):
        self.done = []

    def inline(self, E, st, c, callee):
        return callee.kind == "ctor"

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append(st)


def constructors(P, rep):
    """the model handed to the constructor of an entity becomes its parent"""
    R = "own-new"
    for c in [BASE] + sorted(P.subclasses(BASE)):
        for f in P.funcs.values():
            if f.cls != c or f.kind != "ctor" or len(f.params) != 1 or f.params[0]["t"].replace("class ", "") != "IGES *" or not f.blocks:
                continue
            chk = Ctor()
            E = engine.Engine(P, chk, c)
            out = E.run(f)
            rep.fn(f)
            if E.limit_hit:
                rep.undecided(R, f.name)
                continue
            p0 = ("p", 0, f.params[0]["n"])
            vs = {E.strip(E.load(st, ("fld", ME, PARENT))) for st, _, th in out if not th}
            if c != BASE and vs == {("v", ("fld", ME, PARENT))}:
                # handed to the constructor of the base
                vs = set()
                for n in f.x.values():
                    if n[0] == "ctor" and n[2] in P.bases(c) and n[2] != c and len(n[5]) == 1:
                        a = n[5][0]
                        while a in f.x and f.x[a][0] in ("cast",):
                            a = next((k for k in f.x[a][3:] if isinstance(k, int) and k in f.x), None)
                        n2 = f.x.get(a)
                        vs.add(p0 if n2 is not None and n2[0] == "var" and n2[3] == f.params[0]["v"] else ("other",))
                if not vs:
                    rep.undecided(R, f.name)
                    continue
            if vs - {p0}:
                rep.violate(R, f.sig, "%s does not make the model it is given the parent of the entity" % f.name, "%s:%d" % (f.file, f.line))
            else:
                rep.ok(R)


def cull(P, rep):
    """own-cull: what is removed is orphaned (or unreferenced, if asked for), everything else stays, once"""
    R = "own-cull"
    for f, E, chk in explore(P, rep, R, "Cull"):
        where = "%s:%d" % (f.file, f.line)
        why = set()

        class Why(Op):
            def on_delete(self, E, st, val, arr, func, line, eid=None):
                v = E.strip(val)
                orph = None
                unref = None
                for k in st.facts:
                    if isinstance(k, tuple) and k and k[0] == "q":
                        if k[2] == v and k[1] == "isOrphaned":
                            orph = E.truth(st, k)
                        if k[2] == v and k[1] == "getNRefs":
                            unref = E.truth(st, ("op", "==", k, C(0)))
                flag = [E.truth(st, ("p", i, q["n"])) for i, q in enumerate(func.params)] if func is self.f else []
                if not (orph is True or unref is True and (not flag or True in flag)):
                    why.add(line)

            def on_call(self, E, st, c):
                if c.short in ("isOrphaned", "getNRefs", "GetEntityType") and c.objval is not None:
                    return [(st, ("q", c.short, E.strip(c.objval)))]
                return super().on_call(E, st, c)
        w = Why(P, f)
        E2 = engine.Engine(P, w, "IGES")
        E2.run(f)
        if E2.limit_hit:
            rep.undecided(R, f.name)
            continue
        for line in sorted(why):
            rep.violate(R, "which", "%s releases an entity which is neither orphaned nor, on request, unreferenced" % f.name, "%s:%d" % (f.file, line))
        # each turn of the loop keeps or releases its entity
        loops = f.loops()
        n = 0
        kept = set()

        def events(b):
            out = []
            for e in f.blocks[b]["e"]:
                if not isinstance(e, int):
                    continue
                x = f.x[e]
                if x[0] == "del":
                    out.append("d")
                elif x[0] == "call" and x[4].split("::")[-1] in ("push_back", "emplace_back", "insert") and x[5] is not None and x[5] >= 0:
                    o = f.x[x[5]]
                    if o[0] == "var" and "vector" in o[2] or o[0] == "var" and "list" in o[2]:
                        out.append("k")
                        kept.add(o[3])
                elif x[0] == "call" and x[4].split("::")[-1] == "erase" and x[5] is not None and x[5] >= 0 and f.x[x[5]][0] == "fld" and f.x[x[5]][4] == "IGES::entities":
                    out.append("e")
            return out
        inner = [h for h in loops if any("d" in events(b) or "k" in events(b) for b in loops[h]) and not any(g != h and loops[g] < loops[h] for g in loops)]
        shapes = set()
        for h in inner:
            body = loops[h]
            work = [(h, (), (h,))]
            while work and len(shapes) < 200:
                b, ev, path = work.pop()
                ev = ev + tuple(events(b))
                for t in f.blocks[b]["s"]:
                    if t == h:
                        shapes.add((h, ev))
                    elif t in body and t not in path:
                        work.append((t, ev, path + (t,)))
        if not shapes or not any("d" in ev for _, ev in shapes):
            rep.undecided(R, f.name + " shape")
            continue
        copying = any("k" in ev for _, ev in shapes)
        for h, ev in sorted(shapes):
            d, k, e = ev.count("d"), ev.count("k"), ev.count("e")
            if copying and d + k != 1:
                rep.violate(R, "turn:%d%d" % (d, k), "%s has a path which %s" % (f.name, "neither keeps nor releases an entity" if d + k == 0 else
                            "keeps an entity and releases it" if d and k else "handles an entity twice"), where)
            elif not copying and d != e:
                rep.violate(R, "turn:%d%d" % (d, e), "%s has a path which %s" % (f.name, "releases an entity it keeps in the list" if d > e else
                            "takes an entity out of the list without releasing it"), where)
            else:
                n += 1
        rep.ok(R, n)
        if copying:
            ok = False
            for x in f.x.values():
                if x[0] == "call" and x[4].split("::")[-1] in ("operator=", "swap", "assign"):
                    sides = [x[5]] + list(x[6])
                    t = [f.x[i] for i in sides if i is not None and i >= 0]
                    if any(y[0] == "fld" and y[4] == "IGES::entities" for y in t):
                        ok = True
            if not ok:
                rep.violate(R, "result", "%s does not make the entities it kept the list of the model" % f.name, where)
            else:
                rep.ok(R)


class Ex(engine.Check):
    """the merge: what has left this model, what has come back, what was created in the other one"""
    max_depth = 1
    max_states = 20000

    def __init__(self, f):
        self.f = f
        self.done = []

    def joinkey(self, st):
        return st.prop

    def inline(self, E, st, c, callee):
        return callee.cls == "IGES" and callee.access != 0 and callee.nel < 200

    def on_call(self, E, st, c):
        o = E.strip(c.objval) if c.objval is not None else None
        other = ("p", 0, self.f.params[0]["n"])
        p = set(st.prop)
        if c.short == "AddDE" or c.short == "AddEntity" and o == other:
            a = st.copy()
            a.prop = frozenset(p | {"moved" + c.short, "away"})
            b = st.copy()
            b.prop = frozenset(p | {"away"}) if c.short == "AddEntity" else st.prop
            return [(a, TRUE), (b, FALSE)]
        if c.short == "AddEntity" and o == ("this",):
            st.prop = frozenset(p - {"away"})
            return [(st, TRUE)]
        if c.short == "NewEntity" and o == other:
            a, b = st, st.copy()
            E.opaque_call(a, c)
            if len(c.args) == 2 and c.args[1][0] == "addr":
                E.rawstore(a, c.args[1][1], ("new", c.site))
            a.prop = frozenset(set(a.prop) | {"new"})
            return [(a, TRUE), (b, FALSE)]
        if c.short == "DelEntity" and o == other:
            st.prop = frozenset(p - {"new"})
            return [(st, TRUE)]
        if c.short in ("ConvertUnits", "ChangeModelScale"):
            st.prop = frozenset(p)
            return [(st, ("r", c.site))]
        return None

    def on_dyn(self, E, st, typ, val):
        return val          # what NewEntity() delivers is of the class asked for (property P10, type-factory)

    def on_store(self, E, st, loc, val, func, line):
        if loc == LIST and isinstance(val, tuple) and val and val[0] == "cleared":
            st.prop = frozenset(set(st.prop) | {"cleared"})

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append((st, val, line))


def merge(P, rep):
    R = "own-merge"
    for f in P.byname.get("IGES::Export", []):
        chk = Ex(f)
        E = engine.Engine(P, chk, "IGES")
        E.run(f)
        rep.fn(f)
        if E.limit_hit or not chk.done:
            rep.undecided(R, f.name)
            continue
        bad = {}
        all_ = False
        drained = False
        for st, val, line in chk.done:
            pr = set(st.prop)
            if E.truth(st, val) is False:
                if "away" in pr:
                    bad["fail"] = ("fails without taking back the entities it handed over", line)
                elif "new" in pr:
                    bad["left"] = ("fails and leaves the subfigure it created in the other model", line)
                else:
                    rep.ok(R)
            else:
                if "movedAddDE" in pr or "new" in pr:
                    if "movedAddEntity" in pr:
                        all_ = True
                        if "cleared" not in pr and not any_drained(P):
                            bad["kept"] = ("keeps entities in its list which another model has taken over", line)
                        else:
                            rep.ok(R)
                elif "cleared" in pr and "moved" not in str(pr):
                    n = E.truth(st, ("op", "==", ("size", LIST), C(0)))
                    if n is not True:
                        bad["lost"] = ("empties the model without handing its entities over", line)
        if not all_ and not bad:
            bad["all"] = ("never hands all entities over to the other model", f.line)
        for k, (t, line) in bad.items():
            rep.violate(R, k, "%s %s" % (f.name, t), "%s:%d" % (f.file, line or f.line))


def any_drained(P):
    """AddEntity takes an entity out of the model it was in"""
    return any("UnlinkEntity" in str(x[4]) for f in P.byname.get("IGES::AddEntity", []) for x in f.x.values() if x[0] == "call")


def run(P, rep):
    rep.rule("own-child", "a method which registers an entity with a child takes the child over into its model unless it is a member already or there is no model")
    rep.rule("own-add", "AddEntity: the entity is in the list once, this model is its parent, and the model it was in no longer holds it")
    rep.rule("own-unlink", "UnlinkEntity: exactly this entity leaves the list, alive and without this model as its parent; false and no change if it is no member")
    rep.rule("own-delete", "DelEntity: exactly this entity leaves the list and is released; false and no change if it is no member")
    rep.rule("own-new", "NewEntity: what is delivered was created for this model and is in the list once; nothing stays behind on failure")
    rep.guard("own-add", add, P, rep)
    rep.guard("own-unlink", remove, P, rep)
    rep.rule("own-cull", "Cull: each entity is either kept, once, or released, and released only if orphaned or, on request, unreferenced")
    rep.guard("own-cull", cull, P, rep)
    rep.rule("own-merge", "Export: all entities change hands, or, on failure, none and nothing stays behind in the other model")
    rep.guard("own-merge", merge, P, rep)
    rep.guard("own-new", create, P, rep)
    rep.guard("own-new", constructors, P, rep)
    rep.guard("own-child", attached, P, rep)
    for r, n in (("own-child", 100), ("own-add", 3), ("own-unlink", 3), ("own-delete", 2), ("own-new", 40), ("own-cull", 2), ("own-merge", 10)):
        rep.need(r, n)
