"""Attributes: setters, getters and their agreement with what is read."""
import copy, multiprocessing, os, re
import engine
from engine import C, TRUE, isc
from labels import subterms

FALSE = C(False)
DIRS = ("entities", "iges", "dllapi", "geom", "idf", "include")
SELF = (("this",), ("deref", ("this",)))


def value_class(P, t, seen=()):
    """a plain struct: no virtual methods, all members numbers, arrays or plain structs"""
    c = P.classes.get(t)
    if c is None or t in seen or t.startswith(("IGES", "DLL_")):
        return False
    fs = P.fields(t, True)
    return bool(fs) and len(P.bases(t)) < 2 and all(not f.rstrip().endswith("*") and ("std::" not in f) and
                                               (f not in P.classes or value_class(P, f, seen + (t,))) for q, f in fs)


def bare(t):
    return t.replace("const ", "").replace(" const", "").replace("&", "").strip()


def leaves(P, t, loc):
    """locations of the scalars of an object of type t"""
    m = re.match(r"(.*?)\s*\[(\d+)\]$", t)
    if m:
        inner = re.match(r"(.*?)\s*\[(\d+)\]((?:\[\d+\])+)$", t)
        if inner:
            return [x for i in range(int(inner.group(2))) for x in leaves(P, inner.group(1) + " " + inner.group(3), ("elem", loc, C(i)))]
        return [x for i in range(int(m.group(2))) for x in leaves(P, m.group(1), ("elem", loc, C(i)))]
    if value_class(P, t):
        return [x for q, f in P.fields(t, True) for x in leaves(P, f, ("fld", loc, q))]
    return [loc]


class K(engine.Check):
    max_depth = 5
    max_states = 4000

    def __init__(self, P, root):
        self.P = P
        self.root = root
        self.done = []
        self.stored = set()         # members of the object itself which were assigned

    def inline(self, E, st, c, callee):
        if callee.nel >= 150:
            return False
        if callee.cls is None or c.objval is not None and E.strip(c.objval) == ("this",):
            return True
        return callee.short.lower().startswith(("get", "is", "set")) or callee.nel < 12

    def on_call(self, E, st, c):
        if c.short in ("c_str", "data") and c.obj is not None and "basic_string" in c.name:
            return [(st, ("op", "cstr", E.load(st, c.obj)))]
        if c.short == "substr" and c.obj is not None:
            return [(st, ("op", "substr", E.load(st, c.obj)) + tuple(c.args))]
        if c.op == "=" and c.obj is not None and len(c.args) == 1 and c.callee is None:
            t = bare(c.func.x[c.objid][2]) if c.objid >= 0 else ""
            if t in self.P.classes:
                src = c.argloc(st, 0)
                if src is not None:
                    for d, s in zip(leaves(self.P, t, c.obj), leaves(self.P, t, src)):
                        self.on_store(E, st, d, E.load(st, s), c.func, c.line)
                        E.rawstore(st, d, E.load(st, s))
                    return [(st, ("ref", c.obj))]
        return None

    def on_store(self, E, st, loc, val, func, line):
        l = loc
        while l[0] in ("elem", "size"):
            l = l[1]
        top = None
        while l[0] in ("fld", "elem", "size"):
            if l[0] == "fld":
                top = l
            l = l[1]
        if top is not None and (l in SELF or top[1] in SELF):
            self.stored.add((top[2], line))

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append((st, val, line))


def primed(f):
    g = copy.copy(f)
    g.params = [dict(p, n=p["n"] + "'") for p in f.params]
    return g


def inputs(P, f):
    """the scalars a setter is given: list of (index, location or term)"""
    r = []
    for i, p in enumerate(f.params):
        t = bare(p["t"])
        term = ("p", i, p["n"])
        if t.endswith("*") and value_class(P, t[:-1].strip()):
            r += [("l", x) for x in leaves(P, t[:-1].strip(), ("deref", term))]
        elif p["m"] in ("r", "c"):
            r += [("l", x) for x in leaves(P, t, ("deref", term))]
        else:
            r.append(("t", term))
    return r


def outputs(P, g):
    r = []
    for i, p in enumerate(g.params):
        t = bare(p["t"])
        if p["m"] == "r":
            r += leaves(P, t, ("deref", ("p", i, p["n"])))
        elif p["t"].rstrip().endswith("*") and "char" not in p["t"] or t.endswith("**"):
            r += leaves(P, t[:-1].strip(), ("deref", ("p", i, p["n"])))
        else:
            return None
    if not r and g.ret != "void":
        return ["ret"]
    return r


def norm(E, st, y):
    y = E.strip(y)
    for _ in range(6):
        if y[0] == "ref":
            y = E.strip(E.load(st, y[1]))
        elif y[0] == "op" and y[1] == "cstr":
            y = E.strip(y[2])
        elif y[0] == "obj" and len(y) > 3 and len(y[3]) == 1:
            y = E.strip(y[3][0])
        else:
            break
    return y


def compare(E, st, y, a, f):
    """how the value y a getter delivers relates to the value a handed to the setter"""
    y, a = norm(E, st, y), norm(E, st, a)
    if y == a:
        return "="
    if y == C(0) and E.truth(st, a) is False or isc(y) and E.truth(st, ("op", "==", a, y)) is True:
        return "="
    if E.truth(st, ("op", "==", y, a)) is True:
        return "="
    ps = {s[1] for s in subterms(y) if s[0] == "p"}
    pa = {s[1] for s in subterms(a) if s[0] == "p"}
    if a in set(subterms(y)):
        return "derived"
    if ps & pa and not any(s[0] == "fld" and s[1][0] == "deref" for s in subterms(a)):
        return "derived"
    if isc(y):
        return "const"
    if ps:
        return "other"
    if y[0] == "v" and len(y) == 2:
        return "old"
    return "?"


def pairs(P):
    """setters with the getter of the same attribute, for every class"""
    res = []
    for c in sorted(P.classes):
        fs = sorted((f for f in P.funcs.values() if f.cls == c and f.short[:3] in ("Set", "set") and f.params and f.file.startswith(DIRS)), key=lambda f: f.sig)
        for f in fs:
            if c == BASE + "_NULL":
                continue        # stands for entities the library does not know
            best = None
            for n in ("Get" + f.short[3:], "get" + f.short[3:], "Is" + f.short[3:], "Get" + f.short[3:] + "Entity"):
                for k in [c] + list(P.bases(c)):
                    for g in P.byname.get("%s::%s" % (k, n), []):
                        o = outputs(P, g)
                        if o is None:
                            continue
                        score = (len(o) == len(inputs(P, f)), [bare(p["t"]).rstrip("*& ") for p in g.params] == [bare(p["t"]).rstrip("*& ") for p in f.params],
                                 not g.params and bare(g.ret).rstrip("*& ") == bare(f.params[0]["t"]).rstrip("*& "))
                        if best is None or score > best[0]:
                            best = (score, g)
            res.append((c, f, best[1] if best and best[0][0] else None))
    return res


def attribute(P, k):
    """the member a location belongs to: of the object itself or of the object it stands for"""
    chain = []
    while k[0] in ("elem", "size", "fld"):
        if k[0] == "fld":
            chain.append(k[2])
        k = k[1]
    if not chain:
        return None
    if k not in SELF:
        t = k[1] if k[0] == "deref" else k
        while t[0] in ("dyn", "op") and len(t) > 2:
            t = t[2]
        if not (t[0] == "v" and t[1][0] == "fld" and t[1][1] in SELF):
            return None
    q = chain.pop()
    types = {m: t for c in (q.rsplit("::", 1)[0],) if c in P.classes for m, t in P.fields(c, False)}
    t = types.get(q, "")
    if chain and t in P.classes and not value_class(P, t):
        q = chain.pop()
    return q


def setget(P, c, f, g):
    """outcomes of the setter: list of (success, getter's verdict, comparisons, changed members, line)"""
    chk = K(P, f)
    E = engine.Engine(P, chk, c)
    E.run(f)
    res = []
    if E.limit_hit:
        return None
    ins = inputs(P, f)
    for st, val, line in chk.done:
        t = True if f.ret == "void" else E.truth(st, val)
        changed = {}
        for k, v in st.env.items():
            q = attribute(P, k)
            if q is not None and not (v[0] == "v" and v[1] == k and len(v) == 2):
                changed[q] = (k, v)
        if g is None or t is False:
            res.append((t, None, (), changed, line, st, E))
            continue
        h = primed(g)
        s0 = st.copy()
        for k in [k for k in s0.env if k[0] == "lv" or k[0] in ("fld", "elem", "size") and E.rootctx(k) == 0]:
            del s0.env[k]
        s0.vals.clear()
        ck = K(P, g)
        E.check = ck
        E.run(h, s0)
        E.check = chk
        outs = outputs(P, h)
        for s2, v2, l2 in ck.done:
            t2 = E.truth(s2, v2) if outs != ["ret"] and g.ret == "bool" else True
            cmp = []
            for x, o in zip(ins, outs):
                y = v2 if o == "ret" else E.load(s2, o)
                if o != "ret" and y == ("v", o):
                    cmp.append("unset")
                    continue
                a = x[1] if x[0] == "t" else E.load(s2, x[1])
                cmp.append(compare(E, s2, y, a, f))
            res.append((t, t2, tuple(cmp), changed, line, s2, E))
    return res


BASE = "IGES_ENTITY"
# attributes a user sets, with the members that hold them
STATUS = {"SetEntityForm": "form", "SetVisibility": "visible", "SetDependency": "depends", "SetEntityUse": "use", "SetHierarchy": "hierarchy"}
# attributes which IGES 5.3 declares void or fixed for an entity type although the reader keeps what a file holds
VOID = {"IGES_ENTITY_108": ("SetDependency", "SetLineFontPattern", "SetLineWeightNum"),
        "IGES_ENTITY_124": ("SetColor", "SetDependency", "SetLineWeightNum"),
        "IGES_ENTITY_308": ("SetVisibility",), "IGES_ENTITY_314": ("SetHierarchy", "SetVisibility"),
        "IGES_ENTITY_406": ("SetColor", "SetLineWeightNum")}
SYNONYM = {"IGES_ENTITY_508"}     # forms 0 and 1 of the loop are one, written as 1 (documented at its SetEntityForm())
NEVER = ("SetStructure",)       # no supported entity has a structure
# points of two-dimensional elements: the third coordinate is the element's plane
FLAT = {"DLL_IGES_ENTITY_100": ("MCAD_POINT::z",), "MCAD_SEGMENT": ("MCAD_POINT::z",), "DLL_MCAD_SEGMENT": ("MCAD_POINT::z",)}
NOTES = ("errormsg", "errors")  # texts for the user, no attribute


def first(P, c, name):
    """the methods of that name a call on an object of class c can reach"""
    for k in [c] + [b for b in P.bases(c) if b != c]:
        fs = P.byname.get("%s::%s" % (k, name), [])
        if fs:
            return fs
    return []


class Read(engine.Check):
    """readDE of an entity class, with the base class's part standing for a field holding the given value"""
    max_depth = 3
    max_states = 4000

    def __init__(self, q, v):
        self.q, self.v = q, v
        self.done = []

    def inline(self, E, st, c, callee):
        return callee.cls != BASE and callee.nel < 200

    def on_call(self, E, st, c):
        if c.name == BASE + "::readDE":
            E.opaque_call(st, c)
            if self.q is not None:
                E.rawstore(st, ("fld", ("deref", ("this",)), self.q), self.v)
            b = st.copy()
            return [(st, TRUE), (b, FALSE)]
        return None

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append((st, val, line))


def kept(P, c, q, v=None):
    """values member q has after a successful readDE() of class c; '*' for the value read from the file"""
    fs = [f for f in first(P, c, "readDE") if f.file.startswith("entities")]
    if not fs or fs[0].cls == BASE:
        return {"*"} if v is None else {v}
    t = ("file", q) if v is None else C(v)
    chk = Read(q, t)
    E = engine.Engine(P, chk, c)
    E.run(fs[0])
    res = set()
    for st, val, line in chk.done:
        if E.truth(st, val) is False:
            continue
        x = E.strip(E.load(st, ("fld", ("deref", ("this",)), q)))
        res.add("*" if x == ("file", q) else x[1] if isc(x) else "?")
    return res


def stores(P, c, f, q, v=None):
    """outcomes of setter f for the value v: subset of {'F' refused, 'N' accepted but not stored, 'S' stored}"""
    chk = K(P, f)
    E = engine.Engine(P, chk, c)
    st = engine.State()
    if v is not None:
        st.env[("lv", 0, f.params[0]["v"])] = C(v)
    E.run(f, st)
    res = set()
    loc = ("fld", ("deref", ("this",)), q)
    for s, val, line in chk.done:
        t = True if f.ret == "void" else E.truth(s, val)
        if t is False:
            res.add("F")
        else:
            x = E.strip(E.load(s, loc))
            res.add("N" if x == ("v", loc) else "S" if v is None or x == C(v) else "X")
    return res


def status(P, rep, pr):
    """setters of Directory Entry attributes against what readDE() keeps of them"""
    rep.rule("attr-status", "an attribute a setter of an entity class stores is one its readDE() keeps, value by value, and the other way round")
    members = {}
    for c, f, g in pr:
        if c != BASE:
            continue
        for x in setget(P, c, f, None) or []:
            if x[0] is not False:
                members.setdefault(f.short, set()).update(q for q in x[3] if q.startswith(BASE + "::"))
    members["SetEntityForm"] = {BASE + "::form"}
    skip = NEVER + ("SetParentIGES", "SetLabel", "SetEntitySubscript", "SetOptional")
    values = {"form": range(-4, 64), "visible": range(0, 2), "depends": range(0, 4), "use": range(0, 7), "hierarchy": range(0, 3)}
    for c in sorted(P.subclasses(BASE)):
        if c in (BASE, BASE + "_NULL", "IGES_CURVE"):
            continue
        for a in sorted(members):
            fs = first(P, c, a)
            if a in skip or not fs or not members[a]:
                continue
            where = "%s:%d" % (fs[0].file, fs[0].line)
            rep.fn(fs[0])
            ks = {q: kept(P, c, q) for q in sorted(members[a]) if not q.split("::")[1].startswith("p") or q == BASE + "::parent"}
            keep = all("*" in v for v in ks.values()) if ks else True
            if a in STATUS:
                q = BASE + "::" + STATUS[a]
                good = True
                plain = []
                for v in values[STATUS[a]]:
                    s = stores(P, c, fs[0], q, v)
                    k = kept(P, c, q, v)
                    if "X" in s:
                        rep.violate("attr-status", "%s:%s:%d" % (c, a, v), "%s reports success for %d but stores something else" % (fs[0].name, v), where)
                        good = False
                    elif a == "SetEntityForm" and "N" in s and not k:
                        rep.violate("attr-status", "%s:%s:%d" % (c, a, v), "%s reports success for %d, which %s::readDE() refuses" % (fs[0].name, v, c), where)
                        good = False
                    elif "S" in s and v not in k:
                        rep.violate("attr-status", "%s:%s:%d" % (c, a, v), "%s stores %d, which %s::readDE() %s" % (fs[0].name, v, c, "replaces" if k else "refuses"), where)
                        good = False
                    elif k == {v} and not s & {"S", "N"} and a not in VOID.get(c, ()):
                        rep.violate("attr-status", "%s:%s:%d" % (c, a, v), "%s::readDE() keeps %d, which %s refuses" % (c, v, fs[0].name), where)
                        good = False
                    elif k == {v} and s == {"N"} and keep and a not in VOID.get(c, ()) and a != "SetEntityForm":
                        rep.violate("attr-status", "%s:%s:ignored" % (c, a), "%s ignores the value although the attribute is one %s::readDE() keeps" % (fs[0].name, c), where)
                        good = False
                    if s == {"N"}:
                        plain.append(v)
                    if not good:
                        break
                if good and a == "SetEntityForm" and len(plain) > 1 and c not in SYNONYM:
                    rep.violate("attr-status", "%s:%s:lost" % (c, a), "%s reports success for %d and for %d but stores neither" % (fs[0].name, plain[0], plain[1]), where)
                    good = False
                if good:
                    rep.ok("attr-status", len(values[STATUS[a]]))
                continue
            out = set()
            for f in fs:
                for q in members[a]:
                    out |= stores(P, c, f, q)
            st = "S" in out
            if st and not keep:
                rep.violate("attr-status", "%s:%s" % (c, a), "%s stores a value which %s::readDE() drops" % (fs[0].name, c), where)
            elif keep and not st and a not in VOID.get(c, ()):
                rep.violate("attr-status", "%s:%s" % (c, a), "%s never stores the value although %s::readDE() keeps the attribute" % (fs[0].name, c), where)
            else:
                rep.ok("attr-status")
    rep.need("attr-status", 1000)


def judge(P, rep, c, f, g, res):
    where = "%s:%d" % (f.file, f.line)
    over = f.cls != BASE and BASE in P.bases(f.cls) and any(P.byname.get(BASE + "::" + f.short, [])) or f.short == "SetEntityForm"
    flat = FLAT.get(f.cls, ())
    outs = outputs(P, primed(g)) if g is not None else []
    ptype = bare(f.params[0]["t"])
    text = "char" in ptype or "basic_string" in ptype
    hit = False
    wins = [x for x in res if x[0] is not False]
    for t, t2, cmp, changed, line, st, E in res:
        if t is False:
            continue
        if t is None:
            rep.undecided("attr-set", f.name)       # the verdict of another function: P05 decides that it is passed on
            continue
        a = ("p", 0, f.params[0]["n"])
        tr = E.truth(st, a)
        for i, k in enumerate(cmp):
            o = outs[i] if i < len(outs) else None
            if k in ("=", "derived"):
                if t2 is False and tr is not False and not text and k == "=":
                    rep.violate("attr-set", "%s:verdict" % f.name, "%s accepts a value, but %s then reports that there is none" % (f.name, g.name), where)
                    hit = True
                else:
                    rep.ok("attr-set")
                continue
            if over or "void" in ptype:
                continue        # attr-status
            if f.ret == "void" and not changed or text and any(v == ("cleared",) for v in st.env.values()):
                rep.undecided("attr-set", f.name)       # no verdict to rely on, or an empty text
                continue
            if isinstance(o, tuple) and o[0] == "fld" and o[2] in flat:
                continue
            lim = E.iv(st, a)
            if k == "const" and t2 is False and (text or ptype in P.classes or tr is False):
                continue
            if k == "const" and (lim[0] != -engine.INF or lim[1] != engine.INF) and any(all(z == "=" for z in x[2]) for x in wins) and tr is not None:
                rep.ok("attr-set")      # a value out of range is replaced by a default
                continue
            if k in ("?", "unset") or k == "const" and (text or ptype in P.classes) or k == "old" and any(all(z == "=" for z in x[2]) for x in wins) and (tr is None or text):
                rep.undecided("attr-set", f.name)
                continue
            rep.violate("attr-set", "%s:%d" % (f.name, i), "after %s() has accepted a value, %s() delivers %s for item %d" % (
                f.name, g.name, {"old": "the former value", "const": "a constant", "other": "another argument"}[k], i + 1), where)
            hit = True
    return hit


def fields_read(P, g, depth=3):
    """members a getter (with the functions it calls) mentions"""
    seen, work, res = set(), [(g, 0)], set()
    while work:
        f, d = work.pop()
        if f.sig in seen:
            continue
        seen.add(f.sig)
        res |= {x[4] for x in f.x.values() if x[0] == "fld"}
        if d < depth:
            for h in P.callees(f):
                if isinstance(h, str):
                    h = P.funcs.get(h)
                if h is not None and h.short[:3].lower() in ("get", "is"):
                    work.append((h, d + 1))
    return res


def never(P, f):
    """whether a function reporting success or failure reports failure on all paths: None if not decided"""
    chk = K(P, f)
    E = engine.Engine(P, chk, f.cls)
    E.run(f)
    if E.limit_hit or not chk.done:
        return None
    if len(chk.done) == 1 and not any(x[0] == "fld" for x in f.x.values()):
        return False        # not supported by this class
    return all(E.truth(st, v) is False for st, v, l in chk.done)


def able(P, rep, rule, fs):
    for f in fs:
        r = never(P, f)
        rep.fn(f)
        if r is None:
            rep.undecided(rule, f.name)
        elif r:
            rep.violate(rule, f.name, "%s reports failure on all its paths" % f.name, "%s:%d" % (f.file, f.line))
        else:
            rep.ok(rule)


ACCESS = ("get", "set", "is", "add", "del")


def none_by_number(P, st):
    """has the path asked a number the entity holds, which says that there is no such entity"""
    for k in st.facts:
        for t in subterms(k):
            if t[0] == "fld" and t[1][0] == "deref":
                for q, ty in P.fields(t[2].rsplit("::", 1)[0], False) if "::" in t[2] else ():
                    if q == t[2] and "*" not in ty and ty.split()[-1] in ("int", "short", "unsigned", "long") and k[0] in ("==", "<", "v", "op", "&"):
                        return True
    return False


def run(P, rep):
    rep.rule("attr-can", "a getter or setter which a class implements can succeed")
    able(P, rep, "attr-can", [f for f in sorted(P.funcs.values(), key=lambda f: f.sig) if f.cls and f.file.startswith(DIRS) and f.ret.replace("const ", "") == "bool" and
                              f.short.lower().startswith(ACCESS) and not f.short.endswith("Structure") and f.cls != BASE + "_NULL"])
    rep.need("attr-can", 300)
    rep.rule("attr-set", "a value a setter accepts is the value the getter of that attribute delivers afterwards")
    rep.rule("attr-refuse", "a setter which refuses a value does not store it and changes no other attribute")
    rep.rule("attr-accept", "a setter accepts some entity, and some value other than none")
    rep.rule("attr-frame", "a setter changes no attribute other than its own")
    rep.rule("attr-get", "a getter which reports success has given a value to every item it delivers")
    pr = pairs(P)
    results = []
    for c, f, g in pr:
        rep.fn(f)
        r = setget(P, c, f, g)
        if r is None:
            rep.undecided("attr-set", f.name)
            continue
        results.append((c, f, g, r))
        if g is not None:
            judge(P, rep, c, f, g, r)
    own = {}        # class -> member -> names of the setters which change it
    for c, f, g, r in results:
        for x in r:
            if x[0] is not False:
                for q in x[3]:
                    own.setdefault(q, set()).add(f.short)
    getread = {}
    for c, f, g, r in results:
        if g is not None:
            getread.setdefault((c, f.short), set()).update(fields_read(P, g))
    for c, f, g, r in results:
        where = "%s:%d" % (f.file, f.line)
        mine = {q for x in r if x[0] is not False for q in x[3]}
        mine |= {q for q, s in own.items() if f.short in s}
        seen = {q for (d, n), s in getread.items() if d == c for q in s}
        for t, t2, cmp, changed, line, st, E in r:
            ch = {q: kv for q, kv in changed.items() if q.split("::")[-1] not in NOTES}
            if t is False:
                for q, (k, v) in ch.items():
                    if q not in seen and BASE not in P.bases(c):
                        rep.undecided("attr-refuse", f.name)        # no attribute: nothing reports it
                    elif any(s[0] == "p" for s in subterms(v)) and v[0] != "v" and E.truth(st, v) is not False:
                        rep.violate("attr-refuse", "%s:%s" % (f.name, q), "%s stores the value in %s although it refuses it" % (f.name, q), "%s:%d" % (f.file, line or f.line))
                    elif mine and q not in mine and q not in own:
                        rep.undecided("attr-refuse", f.name)
                    elif q not in mine and q in own:
                        rep.violate("attr-refuse", "%s:%s" % (f.name, q), "%s changes %s, another attribute, although it refuses the value" % (f.name, q), "%s:%d" % (f.file, line or f.line))
                    else:
                        rep.ok("attr-refuse")
                if not ch:
                    rep.ok("attr-refuse")
            elif t is True and g is not None:
                for q in ch:
                    if q in getread[(c, f.short)]:
                        rep.ok("attr-frame")
                        continue
                    for d, h, k2, r2 in results:
                        if d == c and h.short != f.short and q in own and h.short in own[q] and k2 is not None and q in getread[(d, h.short)]:
                            if isc(ch[q][1]) and any(own.get(s[2], set()) & own[q] and s[2] != q for a in st.facts for s in subterms(a if isinstance(a, tuple) else ()) if s[0] == "fld" and attribute(P, s)):
                                rep.ok("attr-frame")        # restates what the other attribute says
                                break
                            rep.violate("attr-frame", "%s:%s" % (f.name, q), "%s changes %s, the attribute of %s" % (f.name, q, h.name), "%s:%d" % (f.file, line or f.line))
                            break
        t = bare(f.params[0]["t"])
        if t.endswith("*") and t[:-1].strip() in P.classes and BASE in P.bases(t[:-1].strip()) and len(f.params) == 1 and f.ret == "bool" and not c.startswith("DLL_"):
            wins = [x for x in r if x[0] is not False]
            over = f.cls != BASE and any(P.byname.get(BASE + "::" + f.short, []))
            a = ("p", 0, f.params[0]["n"])
            if f.short in NEVER or over and not any(x[3] for x in wins) or c == BASE + "_NULL":
                continue
            if not any(x[3] for x in wins) and any(x[0] is None for x in wins):
                rep.undecided("attr-accept", f.name)        # what another function says and does
            elif not any(x[6].truth(x[5], a) is not False and x[3] for x in wins):
                rep.violate("attr-accept", f.name, "%s accepts no entity at all" % f.name, where)
            else:
                rep.ok("attr-accept")
    status(P, rep, pr)
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.sig):
        if not f.cls or not f.file.startswith(DIRS) or not f.short.lower().startswith(("get", "is")) or not f.params:
            continue
        for i, p in enumerate(f.params):
            if p["m"] == "v" and "*" not in p["t"]:
                use = {n for n, x in f.x.items() if x[0] == "var" and x[3] == p["v"]}
                lhs = {x[4] for x in f.x.values() if x[0] == "asg" and x[3] == "="} & use
                if lhs and not use - lhs:
                    rep.violate("attr-get", "%s:%d" % (f.name, i), "%s assigns to parameter %d, which its caller does not see" % (f.name, i + 1), "%s:%d" % (f.file, f.line))
                else:
                    rep.ok("attr-get")
        outs = outputs(P, f)
        if not outs or outs == ["ret"]:
            continue
        chk = K(P, f)
        E = engine.Engine(P, chk, f.cls)
        E.run(f)
        rep.fn(f)
        if E.limit_hit:
            rep.undecided("attr-get", f.name)
            continue
        for st, val, line in chk.done:
            t = E.truth(st, val) if f.ret == "bool" else True
            if t is False:
                continue
            for o in outs:
                p = o
                while p[0] in ("fld", "elem"):
                    p = p[1]
                pt = f.params[p[1][1]]["t"]
                if o[0] == "fld" and o[2] in FLAT.get(f.cls, ()) or "std::list<" in pt or "std::vector<" in pt or bare(pt) in P.classes and not value_class(P, bare(pt)) or pt.startswith("const ") and pt.count("*") == 1:
                    continue
                if t is True and f.ret == "bool" and o[0] == "deref" and pt.count("*") + pt.count("&") > 1 and E.truth(st, E.load(st, o)) is False and not none_by_number(P, st):
                    rep.violate("attr-get", "%s:%d:null" % (f.name, p[1][1]), "%s reports success although its parameter %d receives no object" % (f.name, p[1][1] + 1), "%s:%d" % (f.file, line or f.line))
                elif E.load(st, o) == ("v", o):
                    if t is True:
                        rep.violate("attr-get", "%s:%d" % (f.name, p[1][1]), "%s reports success without giving a value to its parameter %d" % (f.name, p[1][1] + 1), "%s:%d" % (f.file, line or f.line))
                    else:
                        rep.undecided("attr-get", f.name)
                else:
                    rep.ok("attr-get")
    rep.rule("attr-nurbs", "SetNURBSData() takes over degree, counts, knots, control points and range of the parameter completely, each value at its place")
    from checks import nurbs
    rep.guard("attr-nurbs", nurbs.nurbs, P, rep, "attr-nurbs")
    rep.need("attr-set", 150)
    rep.need("attr-refuse", 300)
    rep.need("attr-get", 150)
    rep.need("attr-accept", 10)
    rep.need("attr-frame", 60)
