"""Type numbers, classes, factories and downcasts agree."""
import multiprocessing, os, re
import engine
from engine import C, TRUE, isc, INF
from labels import subterms, member

FALSE = C(False)
NULL = C(0)
# root class of a tagged hierarchy: (getter, member holding the tag)
TAGS = {"IGES_ENTITY": ("GetEntityType", "IGES_ENTITY::entityType"),
        "MCAD_OUTLINE": ("GetOutlineType", "MCAD_OUTLINE::m_OutlineType")}
WRAP = {"DLL_IGES_ENTITY": "m_entity", "DLL_MCAD_OUTLINE": "m_outline"}


def pointee(t):
    t = t.strip()
    if not t.endswith("*"):
        return None
    return t[:-1].replace("const ", "").replace("struct ", "").replace("class ", "").strip()


class Types:
    """what is known about the classes: bases, and the tag each concrete class carries"""

    def __init__(self, P):
        self.P = P
        self.tag = {}      # class -> tag
        self.cls = {}      # root -> {tag: class}
        self.up = {}
        self.memb = {}     # pointer member -> classes of the objects ever stored in it
        self.wset = {}     # wrapper class -> classes of the objects it may hold
        self.ptrs = {}     # pointer member -> static class
        self.outs = {}     # (function, parameter) -> classes of the objects returned through it

    def isa(self, c, t):
        if c == t:
            return True
        k = (c, t)
        if k not in self.up:
            self.up[k] = c in self.P.classes and t in self.P.bases(c)
        return self.up[k]


    def wrapped(self, w):
        """classes of the object which a wrapper of static class w holds"""
        ks = [k for k in self.wset if self.isa(k, w)]
        return set().union(*[self.wset[k] for k in ks]) if ks else set(self.tag)

    def root(self, c):
        for r in TAGS:
            if self.isa(c, r):
                return r
        return None

    def below(self, c):
        """tagged classes which an object of static class c may have"""
        return [k for k in self.tag if self.isa(k, c)]


class Tag(engine.Check):
    """the tag a constructor gives the objects of its class"""
    max_depth = 2
    max_states = 4000


class T(engine.Check):
    max_depth = 3
    max_states = 30000
    join_cap = 24

    def __init__(self, P, ty, fn, forced=None):
        self.P = P
        self.ty = ty
        self.fn = fn
        self.forced = forced
        if forced is not None:
            self.max_states = 2500
        self.casts = []        # (func, line, target, value, evidence ok, operand text)
        self.puts = []         # (qualified member, func, line, classes)
        self.stored = set()
        self.news = {}
        self.outcalls = {}
        self.made = []         # (number or None, class, func, line)
        self.wraps = []

    def inline(self, E, st, c, callee):
        if callee.file.startswith(("dllapi", "include/api")) and not self.fn.file.startswith(("dllapi", "include/api")):
            return False
        if self.forced is not None and callee.cls == "IGES_ENTITY" and callee.nel > 60:
            return False
        return callee.nel < 160 and (callee.cls == c.func.cls or callee.nel < 40 or callee.access == 2 or callee.file == c.func.file)

    def joinkey(self, st):
        return (st.prop, frozenset(k for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == "etype" and v[0] == "iv" and v[1] == v[2]))

    # ---- evidence -------------------------------------------------------------
    def possible(self, E, st, v, static):
        """tagged classes the object behind pointer v may have, given the path; None when v is null or void of objects"""
        ty = self.ty
        s = E.strip(v)
        if s[0] == "c":
            return set()
        if s in self.news:
            return {self.news[s]}
        out = set(ty.below(static)) if static else set(ty.tag)
        if s[0] == "raw":
            out &= ty.wrapped(s[2])
        if s[0] == "v" and s[1][0] in ("fld", "elem"):
            q = self.qf(s[1])
            if s[1][0] == "fld" and s[1][2].split("::")[-1] in WRAP.values() and s[1][1] == ("deref", ("this",)) and E.cls:
                out &= ty.wrapped(E.cls)
            elif q and q[-1] in ty.ptrs:
                out &= set(ty.below(ty.ptrs[q[-1]]))
                if q[-1] in ty.memb:
                    out &= ty.memb[q[-1]]
        if s in self.outcalls:
            for g in self.outcalls[s]:
                if g not in ty.outs:
                    break
            else:
                out &= set().union(*[ty.outs[g] for g in self.outcalls[s]])
        f = st.facts.get(("etype", s))
        if f is not None and f[0] == "iv":
            out = {k for k in out if f[1] <= ty.tag[k] <= f[2] and ty.tag[k] not in f[3]}
        for k, val in st.facts.items():
            if isinstance(k, tuple) and k[0] == "dyn" and E.strip(k) == s and val[0] == "iv" and 0 in val[3]:
                out = {k2 for k2 in out if ty.isa(k2, pointee(k[1]))}
        q = v
        while q[0] == "dyn":
            if E.truth(st, q) is not False:
                out = {k2 for k2 in out if ty.isa(k2, pointee(q[1]))}
            q = q[2]
        return out

    # ---- hooks ----------------------------------------------------------------
    def on_cast(self, E, st, func, ctx, e, n, val):
        tgt = pointee(n[2])
        src = pointee(func.x[n[4]][2])
        if tgt is None or src is None or n[3] == "dyn":
            return
        ty = self.ty
        if tgt == src or ty.root(tgt) is None and tgt not in self.P.classes or ty.root(src) is None and src not in self.P.classes:
            return
        if ty.isa(src, tgt):
            return
        if ty.root(src) is None and ty.root(tgt) is None and not self.P.bases(tgt):
            return
        if E.truth(st, val) is False:
            return
        poss = self.possible(E, st, val, src)
        bad = sorted(k for k in poss if not ty.isa(k, tgt))
        self.casts.append((func, n[1], src, tgt, tuple(bad), E.strip(val), tuple(sorted(poss))))

    def on_dyn(self, E, st, typ, a):
        if self.forced is None:
            return None
        s = E.strip(a)
        if not self.child(s):
            return None
        t = pointee(typ)
        if not any(p == ("is", s) for p in st.prop):
            return None
        return a if self.ty.isa(self.forced, t) else NULL

    def child(self, s):
        if self.forced is None or s == ("this",):
            return False
        if self.fn.short != "associate":
            return s[0] == "p"
        return True

    def on_rename(self, E, st, t):
        if self.forced is not None and st.prop:
            st.prop = frozenset(p for p in st.prop if p[0] == "in" or t not in set(subterms(p[1])))

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0 and self.forced is not None and (val is None or E.truth(st, val) is not False):
            self.stored |= {q for k, q in st.prop if k == "in"}

    def on_new(self, E, st, val, typ, arr, func, line):
        if not arr:
            t = typ.replace("class ", "").strip()
            if t in self.ty.tag:
                self.news[val] = t
            num = None
            for i, p in enumerate(self.fn.params):
                f = st.facts.get(("p", i, p["n"]))
                if f is not None and f[0] == "iv" and f[1] == f[2]:
                    num = f[1]
            self.made.append((num, t, func, line))

    def on_store(self, E, st, loc, val, func, line):
        if loc[0] == "deref" and loc[1][0] == "p" and isinstance(val, tuple):
            i = loc[1][1]
            k = pointee(pointee(self.fn.params[i]["t"]) or self.fn.params[i]["t"].replace("&", ""))
            if k and self.ty.root(k) and E.truth(st, val) is not False:
                self.puts.append(("out%d" % i, func, line, frozenset(self.possible(E, st, val, k))))
        if loc[0] not in ("fld", "elem") or not isinstance(val, tuple):
            return
        q = [s for s in self.qf(loc)]
        if not q:
            return
        q = q[-1]
        if self.forced is not None and ("in", q) in st.prop:
            st.prop = st.prop - {("in", q)}
        if val[0] in ("erased", "cleared", "mutated"):
            return
        if q in self.ty.ptrs:
            if E.truth(st, val) is False:
                return
            s = E.strip(val)
            if self.ty.ptrs[q] and (isc(s) and s[1] == 0):
                return
            self.puts.append((q, func, line, frozenset(self.possible(E, st, val, self.ty.ptrs[q]))))
            if self.forced is not None and st.prop:
                sub = set(subterms(val))
                if any(k == "is" and t in sub for k, t in st.prop):
                    st.prop = st.prop | {("in", q)}

    def qf(self, loc):
        from labels import qfields
        return qfields(loc)

    def on_call(self, E, st, c):
        ty = self.ty
        s = c.short
        if self.forced is not None and (c.op == "[]" or s == "at") and self.fn.short == "associate" and c.obj == ("deref", ("p", 0, self.fn.params[0]["n"])):
            r = E.stdmodel(st, c)
            if r is not None and r[0] == "ref":
                t = E.strip(E.load(st, r[1]))
                if not any(k == t for _, k in st.prop):
                    q = st.copy()
                    q.prop = frozenset(q.prop) | {("is", t)}
                    st.prop = frozenset(st.prop) | {("not", t)}
                    return [(q, r), (st, r)]
                return [(st, r)]
        if s == "GetEntityType" and len(c.args) == 0 and c.objval is not None or s == "GetOutlineType" and len(c.args) == 0 and c.objval is not None:
            o = E.strip(c.objval)
            if not (c.name.split("::")[0] in TAGS and s == TAGS[c.name.split("::")[0]][0]):
                return None
            if o == ("this",):
                return None
            on = c.func.x[c.objid]
            static = pointee(on[2]) or on[2].replace("const ", "").strip()
            poss = {ty.tag[k] for k in ty.below(static)}
            if o in self.news:
                poss = {ty.tag[self.news[o]]}
            if len(poss) == 1 and static in ty.tag:
                return [(st, C(next(iter(poss))))]
            if self.forced is not None and self.child(o):
                if ("is", o) in st.prop:
                    return [(st, C(ty.tag[self.forced]))]
                if ("not", o) not in st.prop:
                    q = st.copy()
                    q.prop = frozenset(q.prop) | {("is", o)}
                    st.prop = frozenset(st.prop) | {("not", o)}
                    return [(q, C(ty.tag[self.forced])), (st, ("etype", o))]
            return [(st, ("etype", o))]
        if s in ("NewEntity", "NewIGESEntity") and len(c.args) == 2 and c.name.split("::")[0] in ("IGES", "DLL_IGES") and c.func.name != c.name:
            a = c.args[1]
            if a[0] == "addr":
                f = st.copy()
                if a[1][0] == "lv":
                    E.rawstore(f, a[1], NULL)
                v = ("made", c.site)
                E.assume(st, ("op", "!=", v, NULL), True)
                if isinstance(c.args[0], tuple):
                    if isc(c.args[0]):
                        E.assume(st, ("op", "==", ("etype", v), c.args[0]), True)
                    else:
                        st.facts[("==",) + E.norm_eq(("etype", v), c.args[0])] = True
                self.on_store(E, st, a[1], v, c.func, c.line)
                E.rawstore(st, a[1], v)
                return [(st, TRUE), (f, FALSE)]
        gs = [c.callee] if c.callee is not None else P_over(self.P, c)
        for i, a in enumerate(c.args):
            if gs and a[0] == "addr" and a[1][0] == "lv" and (c.callee is None or not self.inline(E, st, c, c.callee)):
                self.outcalls[("out", c.site, i)] = [(g.sig, i) for g in gs]
        if s == "GetRawPtr" and c.objid is not None and c.objid >= 0:
            on = c.func.x[c.objid]
            w = (pointee(on[2]) or on[2].replace("const ", "").replace("&", "")).strip()
            if ty.P.classes.get(w) is not None and any(ty.isa(w, x) for x in WRAP):
                return [(st, ("raw", c.obj, w))]
        return None


def P_over(P, c):
    return P.overriders(c.sig) if c.virt or c.sig in P.funcs else []


def alltags(P, ty):
    for root, (g, m) in TAGS.items():
        for c in [root] + list(P.subclasses(root)):
            ctors = [f for f in P.byname.get(c + "::" + c.split("::")[-1], []) if f.kind == "ctor"]
            vals = set()
            for f in ctors:
                if len(f.params) == 1 and c in f.params[0]["t"]:
                    continue
                chk = Tag()
                E = engine.Engine(P, chk, c)
                for st, rv, th in E.run(f):
                    if th is not None:
                        continue
                    v = None
                    for k, x in st.env.items():
                        if k[0] == "fld" and k[2] == m:
                            v = x
                    vals.add(v[1] if v is not None and isc(v) else None)
            yield root, c, vals, ctors


_W = None


def work(job):
    P, ty = _W
    sig, cls, forced, mtype = job
    f = P.funcs[sig]
    chk = T(P, ty, f, forced)
    E = engine.Engine(P, chk, cls)
    st = engine.State()
    if mtype is not None:
        st.env[("fld", E.deref(("this",)), "DLL_IGES_ENTITY::m_type")] = C(mtype)
    if forced is not None and f.short != "associate":
        st.prop = frozenset()
        for i, p in enumerate(f.params):
            k = pointee(p["t"])
            if k and ty.root(k) == "IGES_ENTITY":
                if not ty.isa(forced, k):
                    return job, None
                st.prop = st.prop | {("is", ("p", i, p["n"]))}
                E.assume(st, ("op", "!=", ("p", i, p["n"]), NULL), True)
    elif forced is not None:
        st.prop = frozenset()
    else:
        st.prop = frozenset()
    import time
    t0 = time.time()
    E.run(f, st)
    if os.environ.get("SLOW") and time.time() - t0 > 8:
        print("SLOW", job[:3], round(time.time() - t0), E.limit_hit, flush=True)
    return job, {"casts": [(c[0].sig, c[1]) + c[2:] for c in chk.casts], "puts": [(q, g.sig, l, k) for q, g, l, k in chk.puts], "stored": set(chk.stored),
                 "outcalls": {k: v for k, v in chk.outcalls.items()}, "made": [(n, t, g.sig, l) for n, t, g, l in chk.made], "lim": E.limit_hit}


def each(jobs):
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        return dict(p.imap_unordered(work, jobs, 4))


def elemclass(t):
    """tagged class a pointer member or container of pointers refers to"""
    m = re.search(r"\b((?:DLL_)?(?:IGES_\w+|MCAD_\w+))\s*\*", t)
    return m.group(1) if m else None


def needs(P, ty, f):
    for i, n in f.x.items():
        if n[0] == "cast" and n[3] != "dyn":
            a, b = pointee(f.x[n[4]][2]), pointee(n[2])
            if a and b and a != b and b in P.classes and (ty.root(a) or ty.root(b)) and not ty.isa(a, b):
                return True
    return False


def run(P, rep):
    global _W
    rep.rule("type-number", "every constructor of an entity class sets the entity type number which its class name states")
    rep.rule("type-unique", "no two classes of entities carry the same type number")
    rep.rule("type-fixed", "the type number of an object changes nowhere after construction")
    rep.rule("type-factory", "the object a factory creates for a type number is of the class which carries that number, and every class can be created")
    rep.rule("type-wrapper", "an API wrapper class holds only objects of the entity class it stands for")
    rep.rule("type-cast", "a pointer is cast to a derived class only where the object is known to be of that class")
    rep.rule("type-accept", "an entity of a type accepted by a setter is accepted by associate() when the file is read back")
    rep.rule("type-child", "associate() accepts exactly the entity types which IGES admits for the reference")
    rep.rule("type-dtor", "an object deleted through a pointer to its base class has a virtual destructor")
    rep.rule("type-override", "a method which repeats the name of a virtual method of its base class overrides it")
    ty = Types(P)
    for root, c, vals, ctors in alltags(P, ty):
        short = c.split("::")[-1]
        if not vals or vals == {None}:
            continue
        where = "%s:%d" % (ctors[0].file, ctors[0].line) if ctors else c
        for f in ctors:
            rep.fn(f)
        if len(vals) > 1:
            if None in vals:
                rep.violate("type-number", c, "a constructor of %s does not set the type number" % c, where)
            else:
                rep.violate("type-number", c, "constructors of %s set different type numbers %s" % (c, sorted(vals)), where)
            continue
        v = next(iter(vals))
        m = re.match(r"IGES_ENTITY_(\d+|NULL)$", short)
        if root == "IGES_ENTITY" and m:
            want = 0 if m.group(1) == "NULL" else int(m.group(1))
            if v != want:
                rep.violate("type-number", c, "%s gives its objects the type number %s" % (c, v), where)
            else:
                rep.ok("type-number")
        ty.tag[c] = v
        if root == "IGES_ENTITY" and not m and (c == root or not ctors or c not in ("",)) and any(k != c and ty.isa(k, c) for k in P.classes if k != c) and v in (0, None):
            del ty.tag[c]          # abstract bases
    seen = {}
    for c, v in sorted(ty.tag.items()):
        k = (ty.root(c), v)
        if k in seen:
            rep.violate("type-unique", c, "%s and %s carry the same type number %s" % (c, seen[k], v), P.classes[c]["file"] + ":%d" % P.classes[c]["line"])
        else:
            rep.ok("type-unique")
        seen[k] = c
    for r, (g, m) in TAGS.items():
        for f in P.funcs.values():
            if f.kind == "ctor" or not f.cls or not f.blocks:
                continue
            if m not in P.direct_mods(f):
                rep.ok("type-fixed")
                continue
            rep.fn(f)
            E = engine.Engine(P, Tag(), f.cls)
            bad = not ty.isa(f.cls, r)
            for st, rv, th in E.run(f):
                x = E.load(st, ("fld", E.deref(("this",)), m))
                if th is None and not (rv is not None and E.truth(st, rv) is False) and x != C(ty.tag.get(f.cls)) and not (x[0] == "v" and len(x) == 2):
                    bad = True
            if bad:
                rep.violate("type-fixed", f.sig, "%s changes %s" % (f.name, m), "%s:%d" % (f.file, f.line))
            else:
                rep.ok("type-fixed")
    for c in P.classes:
        for q, t in P.fields(c, False):
            k = elemclass(t)
            if k and ty.root(k):
                ty.ptrs[q] = k
    _W = (P, ty)
    # ---- wrappers -------------------------------------------------------------
    wq = {"DLL_IGES_ENTITY": "DLL_IGES_ENTITY::m_entity", "DLL_MCAD_OUTLINE": "DLL_MCAD_OUTLINE::m_outline"}
    number = {}
    jobs = []
    concrete = []
    for root, q in wq.items():
        for w in [root] + list(P.subclasses(root)):
            ctors = [f for f in P.byname.get(w + "::" + w, []) if f.kind == "ctor"]
            nums = set()
            if root == "DLL_IGES_ENTITY":
                for f in ctors:
                    E = engine.Engine(P, Tag(), w)
                    for st, rv, th in E.run(f):
                        x = [v for k, v in st.env.items() if k[0] == "fld" and k[2] == "DLL_IGES_ENTITY::m_type"]
                        nums.add(x[0][1] if x and isc(x[0]) else None)
                m = re.match(r"DLL_IGES_ENTITY_(\d+)$", w)
                if not m:
                    continue
                if nums != {int(m.group(1))}:
                    rep.violate("type-wrapper", w + ":number", "the constructors of %s set the type numbers %s" % (w, sorted(map(str, nums))),
                                "%s:%d" % (ctors[0].file, ctors[0].line))
                    continue
                number[w] = int(m.group(1))
            concrete.append(w)
            for f in methods(P, w):
                if q in P.mods(f.sig):
                    jobs.append((f.sig, w, None, number.get(w)))
    puts = {}
    for (sig, w, fo, nm), r in sorted(each(jobs).items(), key=lambda x: (x[0][0], x[0][1])):
        if r is None or r["lim"]:
            rep.undecided("type-wrapper", sig)
            continue
        for q, g, line, k in r["puts"]:
            if q in wq.values():
                puts.setdefault(w, []).append((g, line, k))
    for w in concrete:
        ok = set()
        want = {c for c, v in ty.tag.items() if ty.root(c) == "IGES_ENTITY" and v == number.get(w)} if w in number else None
        for g, line, k in puts.get(w, []):
            f = P.funcs[g]
            rep.fn(f)
            if want is not None and not set(k) <= want:
                rep.violate("type-wrapper", "%s:%s" % (f.name, w), "%s can make a %s hold %s" % (f.name, w, names(set(k) - want)), "%s:%d" % (f.file, line))
            else:
                rep.ok("type-wrapper")
                ok |= set(k)
        ty.wset[w] = want if want is not None else ok
    # ---- casts ----------------------------------------------------------------
    jobs = []
    helper = {f.sig for f in P.funcs.values() if f.blocks and needs(P, ty, f) and (not f.cls or f.access) and f.kind in ("method", "func") and not f.virt}
    roots = {f.sig for f in P.funcs.values() if f.blocks and needs(P, ty, f)}
    more = set(helper)
    for k in range(2):
        more = {g.sig for g in P.funcs.values() if g.blocks and P.callees(g) & more}
        roots |= more
        more = {g for g in more if not P.funcs[g].cls or P.funcs[g].access}
    for f in sorted((P.funcs[s] for s in roots), key=lambda f: -f.nel):
        ws = [w for w in concrete if f.cls and ty.isa(w, f.cls)]
        if ws:
            jobs += [(f.sig, w, None, number.get(w)) for w in ws if P.dispatch(f.sig, w) is f or f.cls == w]
        else:
            jobs.append((f.sig, f.cls, None, None))
    res = each(jobs)
    want = set()
    for job, r in res.items():
        for s, line, a, b, bad, val, poss in r["casts"] if r else ():
            if bad and val[0] == "v":
                q = T.qf(None, val[1])
                if q and q[-1] in ty.ptrs and q[-1] not in wq.values():
                    want.add(q[-1])
    outs = set()
    for job, r in res.items():
        for s, line, a, b, bad, val, poss in r["casts"] if r else ():
            if bad and val in r["outcalls"]:
                outs |= set(r["outcalls"][val])
    todo = {g for g, i in outs}
    for k in range(2):
        if not todo and not want:
            break
        r2 = each([(f.sig, f.cls, None, None) for f in P.funcs.values() if f.blocks and (want & P.direct_mods(f) or f.sig in todo)])
        for g, i in outs:
            r = r2.get((g, P.funcs[g].cls, None, None))
            ks = set()
            for q, h, line, kk in r["puts"] if r else ():
                if q == "out%d" % i:
                    ks |= set(kk)
                    if len(kk) == len(ty.tag):
                        want |= {x for x in P.direct_mods(P.funcs[g])} & set()
            ty.outs[(g, i)] = ks if r and not r["lim"] else set(ty.tag)
            for q in refd(P, P.funcs[g]) & set(ty.ptrs):
                want.add(q)
        memb = {q: set() for q in want}
        for job, r in r2.items():
            for q, g, line, k in r["puts"] if r else ():
                if q in memb:
                    memb[q] |= set(k)
            if r is None or r["lim"]:
                for q in want & P.direct_mods(P.funcs[job[0]]):
                    memb[q] = set(ty.tag)
        ty.memb = memb
        _W = (P, ty)
    if want or todo:
        rep.note("member contents: " + "; ".join("%s holds %s" % (q, names(k)) for q, k in sorted(memb.items())))
        res.update(each([j for j, r in res.items() if r and any(c[4] for c in r["casts"])]))
    sites = {}
    within = {c[0] for job, r in res.items() if r for c in r["casts"] if c[0] in helper and job[0] != c[0]}
    for job, r in sorted(res.items(), key=lambda x: x[0][:2]):
        f = P.funcs[job[0]]
        rep.fn(f)
        if r is None or r["lim"]:
            rep.undecided("type-cast", f.name)
        for s, line, a, b, bad, val, poss in r["casts"] if r else ():
            if job[0] == s and s in within:
                continue      # judged where it is called
            sites.setdefault((s, line, a, b), set()).update(bad)
    for (s, line, a, b), bad in sorted(sites.items()):
        f = P.funcs[s]
        if bad:
            rep.violate("type-cast", "%s:%s" % (f.name, b), "%s treats a %s as a %s on a path on which it may be %s" % (
                f.name, a, b, names(bad)), "%s:%d" % (f.file, line))
        else:
            rep.ok("type-cast")
    # ---- factories ------------------------------------------------------------
    for name, classes, tagof in (("IGES::NewEntity", [c for c in ty.tag if ty.root(c) == "IGES_ENTITY"], ty.tag),
                                 ("DLL_IGES::NewAPIEntity", sorted(number), number)):
        fs = P.byname.get(name, [])
        got = {}
        for f in fs:
            rep.fn(f)
            sv = dict(ty.tag)
            ty.tag.update({w: n for w, n in number.items()} if name.startswith("DLL") else {})
            _W = (P, ty)
            job, r = work((f.sig, f.cls, None, None))
            ty.tag = sv
            if r["lim"]:
                rep.undecided("type-factory", name)
                continue
            for num, t, g, line in r["made"]:
                if t not in tagof:
                    continue
                got.setdefault(t, set()).add(num)
                if num is None and not (t == "IGES_ENTITY_NULL"):
                    rep.undecided("type-factory", "%s creates a %s for a number the analysis does not know" % (name, t))
                elif num is not None and num != tagof[t]:
                    rep.violate("type-factory", "%s:%s" % (name, num), "%s creates a %s for type %s" % (name, t, num), "%s:%d" % (f.file, line))
                else:
                    rep.ok("type-factory")
        if got and fs:
            for c in classes:
                if c not in got:
                    rep.violate("type-factory", "%s:%s" % (name, c), "%s never creates a %s" % (name, c), "%s:%d" % (fs[0].file, fs[0].line))
    _W = (P, ty)
    accept(P, ty, rep)
    hygiene(P, ty, rep)
    rep.need("type-number", 20)
    rep.need("type-cast", 100)


def refd(P, f):
    return {n[4] for n in f.x.values() if n[0] == "fld"}


def names(ks):
    ks = sorted(ks)
    return ", ".join(ks[:4]) + (" and %d others" % (len(ks) - 4) if len(ks) > 4 else "") if ks else "nothing"


def methods(P, w):
    """methods an object of class w runs: its own and those inherited without being overridden"""
    out = []
    for f in P.funcs.values():
        if not f.cls or not f.blocks:
            continue
        if f.cls == w:
            out.append(f)
        elif f.cls in P.bases(w) and f.kind == "method" and (not f.virt or P.dispatch(f.sig, w) is f):
            out.append(f)
    return out


CURVES = ("100", "102", "104", "110", "126")
SURF = ("120", "122", "128")
# implemented entity types which IGES 5.3 admits in each reference (required, additionally allowed)
ROLES = {"IGES_ENTITY_102::curves": (("100", "104", "110", "126"), ()),
         "IGES_ENTITY_108::PTR": (CURVES, ()), "IGES_ENTITY_120::C": (CURVES, ()), "IGES_ENTITY_120::L": (("110",), ()),
         "IGES_ENTITY_122::DE": (CURVES, ()), "IGES_ENTITY_164::PTR": (CURVES, ()),
         "IGES_ENTITY_144::PTS": (SURF, ("108",)), "IGES_ENTITY_144::PTI": (("142",), ()), "IGES_ENTITY_144::PTO": (("142",), ()),
         "BTREE_NODE::pEnt": (("154", "164", "180", "186"), ()), "IGES_ENTITY_186::mshell": (("514",), ()), "IGES_ENTITY_186::mvoids": (("514",), ()),
         "IGES_ENTITY_408::DE": (("308",), ()), "IGES_ENTITY_510::mloops": (("508",), ()), "IGES_ENTITY_510::msurface": (SURF, ("108",)),
         "IGES_ENTITY_514::mfaces": (("510",), ())}


def roles(P, ty, rep, res, ks):
    """the set of entity types associate() accepts for each reference"""
    per = {}
    bad = set()
    for (sig, c, k, _), r in res.items():
        if P.funcs[sig].short != "associate":
            continue
        if r is None or r["lim"]:
            bad.add(c)
            continue
        for q in r["stored"]:
            per.setdefault((c, q), set()).add(k.split("_")[-1])
    for (c, q), got in sorted(per.items()):
        a = P.byname[c + "::associate"][0]
        rep.fn(a)
        if q not in ROLES:
            continue
        if c in bad:
            rep.undecided("type-child", q)
            continue
        must, may = ROLES[q]
        miss = sorted(set(must) - got)
        more = sorted(got - set(must) - set(may))
        if miss or more:
            rep.violate("type-child", q, "%s::associate %s in %s" % (c, " and ".join(
                (["never accepts a " + "/".join(miss)] if miss else []) + (["accepts a " + "/".join(more)] if more else [])), q), "%s:%d" % (a.file, a.line))
        else:
            rep.ok("type-child", len(must))


def accept(P, ty, rep):
    """setters against associate()"""
    todo = {}
    for c in sorted(k for k in ty.tag if ty.root(k) == "IGES_ENTITY"):
        a = [f for f in P.byname.get(c + "::associate", []) if f.blocks] or [f for f in P.byname.get("IGES_ENTITY::associate", []) if f.blocks]
        own = {q for q in ty.ptrs if q.startswith(c + "::")}
        if not own or not a or a[0].cls != c:
            continue
        ss = [f for f in P.funcs.values() if f.cls == c and f.access == 0 and f.kind == "method" and f.blocks and f.short != "associate" and
              own & P.direct_mods(f) and any(pointee(p["t"]) and ty.root(pointee(p["t"])) for p in f.params)]
        if ss or any(q.startswith(c) for q in ROLES) or c == "IGES_ENTITY_180":
            todo[c] = (a[0], ss)
    ks = sorted(k for k in ty.tag if ty.root(k) == "IGES_ENTITY")
    jobs = [(f.sig, c, k, None) for c, (a, ss) in todo.items() for f in [a] + ss for k in ks]
    res = each(jobs)
    roles(P, ty, rep, res, ks)
    for c, (a, ss) in sorted(todo.items()):
        own = {q for q in ty.ptrs if q.startswith(c + "::")}
        acc = {k: res[(a.sig, c, k, None)] for k in ks}
        rep.fn(a)
        allin = set()
        for k in ks:
            allin |= acc[k]["stored"] if acc[k] else set()
        for f in ss:
            rep.fn(f)
            for k in ks:
                r = res[(f.sig, c, k, None)]
                if r is None:
                    continue
                for q in sorted(r["stored"] & own & allin):
                    if acc[k] is None or acc[k]["lim"] or r["lim"]:
                        rep.undecided("type-accept", "%s %s" % (f.name, k))
                    elif q not in acc[k]["stored"]:
                        rep.violate("type-accept", "%s:%s" % (f.name, k), "%s stores a %s in %s but %s never accepts one when the file is read back" % (
                            f.name, k, q, a.name), "%s:%d" % (f.file, f.line))
                    else:
                        rep.ok("type-accept")


def hygiene(P, ty, rep):
    virt = {}
    for f in P.funcs.values():
        if f.kind == "dtor":
            virt[f.cls] = f.virt
    for f in P.funcs.values():
        for i, n in f.x.items():
            if n[0] == "del" and not n[4]:
                c = pointee(f.x[n[3]][2])
                if c and c in P.classes and any(k != c for k in P.subclasses(c)):
                    rep.fn(f)
                    if any(virt.get(b) for b in P.bases(c)):
                        rep.ok("type-dtor")
                    else:
                        rep.violate("type-dtor", c, "%s deletes a %s, which has derived classes but no virtual destructor" % (f.name, c), "%s:%d" % (f.file, n[1]))
    for c, d in sorted(P.classes.items()):
        bases = [b for b in P.bases(c) if b != c]
        for m in d.get("methods", []):
            short = m[0].split("(")[0].split("::")[-1]
            if short.startswith("~") or short == c.split("::")[-1]:
                continue
            for b in bases:
                same = [x for x in P.classes.get(b, {}).get("methods", []) if x[0].split("(")[0].split("::")[-1] == short and x[2]]
                if not same:
                    continue
                if m[3]:
                    rep.ok("type-override")
                elif not any(x[0].split("(")[0].split("::")[-1] == short and x[3] for x in d["methods"]):
                    rep.violate("type-override", m[0], "%s repeats the name of the virtual method %s but does not override it" % (m[0], same[0][0]), "%s:%d" % (d["file"], d["line"]))
                break
