"""Object lifetime: initialised before use, released exactly once, never used afterwards (typestate per function)."""
import multiprocessing, os
import engine
from engine import C, isc
from labels import qfields, subterms

DIRS = ("entities", "iges", "geom", "dllapi", "idf")
INCS = DIRS + ("include",)
SCAL = ("int", "double", "bool", "float", "char", "unsigned int", "unsigned long", "long", "short", "unsigned char", "unsigned short")


def scalar(P, t):
    t = t.replace("const ", "").strip()
    if t.endswith("*"):
        return True
    if t in SCAL:
        return True
    return not any(x in t for x in "<[(&* ") and t not in P.classes and not t.startswith("std::") and "::" not in t


def entity(t):
    t = t.replace("const ", "").strip()
    return t.startswith("IGES_ENTITY") or t.startswith("IGES_CURVE")


class H(engine.Check):
    max_depth = 2
    max_states = 12000
    join_cap = 64

    def __init__(self, P, fn, own, inits=False):
        self.P = P
        self.summ = {}            # function -> {parameter: results with which it keeps what the parameter points to}
        self.owning = frozenset() # containers whose elements are released by their class
        self.put, self.sinks, self.passes, self.gives, self.rel, self.elems = set(), set(), set(), set(), set(), set()
        self.fn = fn
        self.own = own            # members released by the destructor of their class
        self.found = {}           # (rule, key) -> (text, where)
        self.count = {}
        self.dels = set()         # members released here
        self.forms = set()        # (member, array?) of allocations stored / released
        self.kind = {}            # allocation -> array?
        self.deleted_fields = set()
        self.inits = inits

    def joinkey(self, st):
        return (frozenset(x for x in st.prop if x[0] != "n"),
                frozenset(l for l, v in st.env.items() if v[0] == "undef" and l[0] == "lv"))

    def inline(self, E, st, c, callee):
        # a local given to a call by reference counts as set (the call's result is not tied to it here)
        if any(m == "r" and (c.argloc(st, i) or ("x",))[0] == "lv" and st.env.get(c.argloc(st, i), ("x",))[0] == "undef" for i, m in enumerate(c.modes)):
            return False
        if c.objval is not None and E.strip(c.objval) == ("this",) and callee.file.startswith(DIRS):
            return callee.nel < (400 if self.inits else 120)
        return callee.nel < 40 and not callee.loops() and callee.file.startswith(DIRS)

    def hit(self, rule, key, text, func, line):
        self.found.setdefault((rule, key), (text, "%s:%d" % (func.file, line)))

    def tick(self, rule, n=1):
        self.count[rule] = self.count.get(rule, 0) + n

    def on_rename(self, E, st, t):
        if st.prop:
            st.prop = frozenset(x for x in st.prop if not any(q == t for y in x[1:] if isinstance(y, tuple) for q in subterms(y)))

    # -------------------------------------------------------------- undefined values
    def undef(self, t):
        for q in subterms(t):
            if isinstance(q, tuple) and q and q[0] == "undef":
                return q[1]
        return None

    def read(self, E, st, t, func, line, what):
        if not isinstance(t, tuple):
            return
        l = self.undef(t)
        if l is None:
            return
        n = l[2] if l[0] == "fld" else (func.v.get(l[2], {}) or {}).get("n", "?") if l[0] == "lv" and l[1] == 0 and isinstance(func.v, dict) else "a local"
        self.hit("life-uninit", "%s:%s" % (func.name, n), "%s %s %s before it is given a value" % (func.name, what, n), func, line)

    # -------------------------------------------------------------- events
    def on_new(self, E, st, val, typ, arr, func, line):
        self.kind[val] = bool(arr)
        self.tick("life-leak")
        for x in st.prop:
            if x[0] == "own" and x[1] == val:
                self.hit("life-leak", "%s:%s" % (x[2], x[3]), "%s loses the %s it created when it creates the next one" % (x[2], x[3]), func, x[4])
        self.on_rename(E, st, val)
        st.prop = frozenset(st.prop) | {("own", val, func.name, typ, line), ("made", val, func.name, typ, line)}

    def dropped(self, E, st, loc, val, func, line):
        self.tick("life-drop")
        if val[0] == "erased":
            if not (isinstance(val[1], tuple) and val[1][0] == "iter"):
                return
            el = ("elem", loc, val[1][2])
        else:
            el = ("elem", loc, "last" if val[1] == "pop_back" else 0)
        v = E.strip(E.load(st, el))
        while v[0] == "v" and v[1][0] == "fld" and v[1][2].startswith("std::"):
            v = ("v", v[1][1])
        if any(x[0] in ("del", "gave") and (x[1] == v or through(x[1], el)) for x in st.prop):
            return
        for k, f in st.facts.items():
            if f is True and k[0] == "==" and v in k[1:] and any(q[0] == "p" for q in k[1:] if isinstance(q, tuple)):
                return
        if v[0] != "v":
            return
        st.prop = frozenset(st.prop) | {("drop", v, loc[2], line, el)}

    def building(self, func):
        """constructors and what only they call: the members have no earlier value"""
        if self.fn.kind == "ctor":
            return True
        cs = [g for g in self.P.funcs.values() if self.fn.sig in self.P.callees(g)] if self.fn.access == 2 else []
        return bool(cs) and all(g.kind == "ctor" for g in cs)

    def has(self, st, v):
        return any(x[0] == "own" and x[1] == v for x in st.prop)

    def escape(self, st, t, member=None, line=0):
        if not isinstance(t, tuple):
            return
        s = carried(t)
        for x in st.prop:
            if x[0] == "made" and x[1] in s and member:
                self.put.add((x[2], x[4], x[3], member))
        if any(x[0] in ("own", "lost", "drop") and x[1] in s for x in st.prop):
            st.prop = frozenset(x for x in st.prop if not (x[0] in ("own", "lost", "drop") and x[1] in s))
        for q in s:
            if len(q) >= 2 and q[0] == "v" and isinstance(q[1], tuple):
                c = inner(q)
                if c and c[2] in self.owning and ("gave", q) not in st.prop:
                    st.prop = frozenset(st.prop) | {("gave", q)}
            if len(q) == 3 and q[0] == "p":
                if ("kept", q[1]) not in st.prop:
                    st.prop = frozenset(st.prop) | {("kept", q[1])}
                if member:
                    self.sinks.add((q[1], member))

    def on_store(self, E, st, loc, val, func, line):
        if not isinstance(val, tuple):
            return
        if val[0] == "undef":
            self.read(E, st, val, func, line, "copies")
        elif val[0] in ("op",):
            self.read(E, st, val, func, line, "uses")
        # a released container element or member is replaced
        if loc[0] == "fld" and loc[2] in self.owning and (val[0] == "erased" or val[0] == "mutated" and val[1] in ("pop_back", "pop_front")):
            self.dropped(E, st, loc, val, func, line)
        if val[0] in ("cleared", "erased", "mutated"):
            st.prop = frozenset(x for x in st.prop if not (x[0] == "dangc" and x[2] == loc or x[0] == "del" and through(x[1], loc)))
            if val[0] == "erased" and len(val) > 1 and isinstance(val[1], tuple) and val[1][0] == "iter":
                st.prop = frozenset(st.prop) | {("gone", ("elem", loc, val[1][2]))}
            if val[0] == "mutated":
                return
        elif loc[0] == "elem" and loc[2] != "new":
            st.prop = frozenset(x for x in st.prop if not (x[0] == "dangc" and x[2] == loc[1]))
        if loc[0] == "lv":
            return
        if loc[0] == "fld" and loc[1] in (("this",), ("deref", ("this",))) and val[0] != "cleared":
            for q in subterms(val):
                if isinstance(q, tuple) and q in self.kind and self.has(st, q):
                    self.forms.add((loc[2], self.kind[q]))
            if loc[2] in self.own and val[0] != "out" and not self.building(func):
                old = E.strip(E.load(st, loc))
                self.tick("life-replace")
                if old != E.strip(val) and old[0] == "v" and E.truth(st, old) is not False and not any(x[0] == "del" and x[1] == old for x in st.prop):
                    st.prop = frozenset(st.prop) | {("lost", old, loc, line)}
        elif loc[0] == "elem" and loc[2] == "new":
            for q in subterms(val):
                if isinstance(q, tuple) and q in self.kind and self.has(st, q):
                    for f in qfields(loc)[-1:]:
                        self.forms.add((f, self.kind[q]))
        self.escape(st, val, qfields(loc)[-1] if qfields(loc) else None, line)

    def on_call(self, E, st, c):
        P = self.P
        split = []
        body = c.callee is not None and E.depth(c.ctx) < self.max_depth and c.callee.sig != c.func.sig \
            and not any(s == c.callee.sig for s, _ in E.stack(c.ctx)) and self.inline(E, st, c, c.callee)
        tg = [] if body else [c.callee] if c.callee is not None else P.overriders(c.sig) if c.sig in P.funcs or c.virt else []
        for i, a in enumerate(c.args):
            if not isinstance(a, tuple):
                continue
            m = c.modes[i] if i < len(c.modes) else "v"
            if m in ("v", "q"):
                self.read(E, st, a, c.func, c.line, "passes")
                b = E.strip(a)
                if c.callee is not None and any(x[0] == "del" and x[1] == b for x in st.prop):
                    self.hit("life-use", "%s:arg" % c.func.name, "%s passes an object to %s after releasing it" % (c.func.name, c.short), c.func, c.line)
            if body or c.name.startswith("std::") and c.short in ("push_back", "push_front", "insert"):
                continue
            b = E.strip(a)
            if b[0] == "p" and tg:
                for g in tg:
                    self.passes.add((b[1], g.sig, i))
            if tg and m != "r" and all(g.sig in self.summ for g in tg) and (b[0] == "p" or any(x[0] == "own" and x[1] == b for x in st.prop)):
                k = set()
                for g in tg:
                    k |= self.summ[g.sig].get(i, set())
                if not k:
                    continue
                for x in st.prop:
                    if x[0] == "own" and x[1] == b:
                        for g in tg:
                            self.gives.add((x[2], x[4], x[3], g.sig, i))
                if k == {True} and self.used(c):
                    split.append(a)
                    continue
            self.escape(st, a)
        if c.short in ("freeCurve", "freeSurf", "free", "freeIntcurve") and c.args:
            self.release(E, st, c.args[0], None, c.func, c.line)
        if c.op == "=" and c.obj is not None:
            st.prop = frozenset(x for x in st.prop if not (x[0] == "dangc" and x[2] == c.obj))
        if split:
            E.opaque_call(st, c)
            r = st.vals[(c.ctx, c.id)]
            bad = st.copy()
            out = []
            if E.assume(bad, r, False):
                out.append((bad, r))
            if E.assume(st, r, True):
                for a in split:
                    self.escape(st, a)
                out.append((st, r))
            return out
        return None

    def used(self, c):
        """is the result of the call looked at?"""
        u = _used.get(c.func.sig)
        if u is None:
            f = c.func
            u = set()
            for i in f.x:
                u.update(f.kids(i))
            for b in f.blocks.values():
                for e in b["e"]:
                    if not isinstance(e, int):
                        u.update(q for q in e[3 if e[0] == "decl" else 2:] if isinstance(q, int))
                if b.get("t"):
                    u.add(b["t"].get("c", -1))
            _used[f.sig] = u
        return c.id in u

    def on_ctor(self, E, st, c, loc):
        for a in c.args:
            self.escape(st, a)
        return None

    def on_assume(self, E, st, term, truth, func, line):
        self.read(E, st, term, func, line, "tests")
        for x in list(st.prop):
            if x[0] == "own" and E.truth(st, x[1]) is False:
                st.prop = st.prop - {x}

    def on_access(self, E, st, kind, base, func, line, node):
        if kind in ("index", "cindex"):
            base = base[0] if kind == "index" and isinstance(base, tuple) else None
        if not isinstance(base, tuple) or not base or isinstance(base[0], tuple):
            return
        self.read(E, st, base, func, line, "follows")
        b = E.strip(base)
        self.tick("life-use")
        if any(x[0] == "del" and x[1] == b for x in st.prop):
            self.hit("life-use", "%s:%s" % (func.name, shown(b)), "%s reaches into %s after releasing it" % (func.name, shown(b)), func, line)

    def release(self, E, st, val, arr, func, line):
        v = E.strip(val)
        self.tick("life-double")
        if v[0] == "undef":
            self.read(E, st, v, func, line, "releases")
            return
        if isc(v) or E.truth(st, v) is False:
            return
        if v[0] == "p":
            self.rel.add(v[1])
            st.prop = frozenset(st.prop) | {("kept", v[1])}
        if v in self.kind and arr is not None and self.kind[v] != bool(arr):
            self.hit("life-form", "%s:%s" % (func.name, "local"), "%s releases with delete%s what it allocated with new%s" % (
                func.name, "[]" if arr else "", "[]" if self.kind[v] else ""), func, line)
        if any(x[0] == "del" and x[1] == v for x in st.prop):
            self.hit("life-double", "%s:%s" % (func.name, shown(v)), "%s releases %s twice" % (func.name, shown(v)), func, line)
        p = set(x for x in st.prop if not (x[0] in ("own", "lost", "drop") and x[1] == v or x[0] in ("dang", "dangc") and through(x[2], ("deref", v))))
        if not any(isinstance(q, tuple) and q and q[0] == "sel" for q in subterms(v)):
            p.add(("del", v))
        if v[0] in ("new", "out", "r"):
            for l, w in st.env.items():
                if l[0] == "fld" and isinstance(w, tuple) and w and E.strip(w) == v:
                    p.add(("dang", v, l, line))
        if v[0] == "v":
            l = v[1]
            if l[0] == "fld" and not l[2].startswith("std::"):
                self.dels.add(l[2])
                if arr is not None:
                    self.forms.add((l[2], bool(arr)))
                p.add(("dang", v, l, line))
            else:
                c = inner(l)
                if c:
                    self.dels.add(c[2])
                    self.elems.add(c[2])
                    if arr is not None:
                        self.forms.add((c[2], bool(arr)))
                    if not any(x[0] == "gone" and x[1] == l for x in p):
                        p.add(("dangc", v, c, line))
        st.prop = frozenset(p)

    def on_delete(self, E, st, val, arr, func, line, eid=None):
        self.release(E, st, val, arr, func, line)

    def on_return(self, E, st, val, func, ctx, line):
        if val is not None and isinstance(val, tuple):
            self.escape(st, val)
            if ctx == 0:
                self.read(E, st, val, func, line, "returns")
                b = E.strip(val)
                if any(x[0] == "del" and x[1] == b for x in st.prop):
                    self.hit("life-use", "%s:return" % func.name, "%s returns an object it has released" % func.name, func, line)

    def leaks(self, st):
        for x in st.prop:
            if x[0] == "own":
                self.hit("life-leak", "%s:%s" % (x[2], x[3]), "%s loses the %s it created on a path" % (x[2], x[3]), self.fn, x[4])

    def final(self, E, st):
        f = self.fn
        dtor = f.short.startswith("~")
        self.leaks(st)
        for x in st.prop:
            if x[0] == "drop":
                self.hit("life-drop", "%s:%s" % (f.name, x[2]), "%s takes an object out of %s and neither releases nor hands it on" % (f.name, x[2]), f, x[3])
            elif x[0] == "lost":
                self.hit("life-replace", "%s:%s" % (f.name, x[2][2]), "%s overwrites %s without releasing what it pointed to" % (f.name, x[2][2]), f, x[3])
            elif x[0] == "dang":
                l = x[2]
                r = l
                while r[0] in ("fld", "elem"):
                    r = r[1]
                if r[0] == "lv" or dtor and r in (("this",), ("deref", ("this",))):
                    continue
                if r[0] == "deref" and any(y[0] == "del" and y[1] == r[1] for y in st.prop):
                    continue
                self.tick("life-dangling")
                if E.strip(E.load(st, l)) == x[1]:
                    self.hit("life-dangling", "%s:%s" % (f.name, l[2]), "%s leaves %s pointing to the object it released" % (f.name, l[2]), f, x[3])
            elif x[0] == "dangc":
                l = x[2]
                r = l
                while r[0] in ("fld", "elem"):
                    r = r[1]
                if r[0] == "lv" or dtor and r in (("this",), ("deref", ("this",))):
                    continue
                if r[0] == "deref" and any(y[0] == "del" and y[1] == r[1] for y in st.prop):
                    continue
                self.hit("life-dangling", "%s:%s" % (f.name, l[2]), "%s leaves a released object in %s" % (f.name, l[2]), f, x[3])


_used = {}


def carried(t):
    """the values which t hands on: not what was only read through them"""
    out = set()
    todo = [t]
    while todo:
        q = todo.pop()
        if isinstance(q, tuple) and q:
            out.add(q)
            if q[0] not in ("v", "addr", "fld", "elem", "deref", "iter", "lv", "size") or q[0] == "addr" and q[1][0] == "deref":
                todo += [y for y in q[1:]]
    return out


def through(v, loc):
    return any(q == loc for q in subterms(v) if isinstance(q, tuple))


def inner(v):
    """The innermost member container the released value was taken from."""
    out = None
    c = v
    while isinstance(c, tuple) and c and c[0] in ("fld", "deref", "v", "addr", "elem", "iter", "op"):
        if c[0] in ("elem", "iter") and c[1][0] == "fld" and out is None:
            out = c[1]
        c = c[1] if isinstance(c[1], tuple) else None
    return out


def shown(t):
    q = qfields(t)
    return q[-1] if q else "a local object"


def one(a):
    P, sig, own, summ, owning = a
    f = P.funcs[sig]
    chk = H(P, f, own)
    chk.summ, chk.owning = summ, owning
    E = engine.Engine(P, chk, f.cls)
    st = None
    miss = []
    chk.inits = f.kind == "ctor" or f.short.startswith("~")
    if f.kind == "ctor":
        st = engine.State()
        own_f = [(q, t) for q, t in P.fields(f.cls, False) if scalar(P, t)]
        base = ("deref", ("this",))
        for q, t in own_f:
            l = ("fld", base, q)
            st.env[l] = ("undef", l)
    try:
        out = E.run(f, st)
    except engine.Limit:
        return sig, None
    if f.kind == "ctor":
        for s, v, th in out:
            if th:
                continue
            for q, t in own_f:
                l = ("fld", base, q)
                if s.env.get(l, ("x",)) == ("undef", l):
                    miss.append(q)
                chk.tick("life-init")
    always = None
    keep = {}
    for s, v, th in out:
        if th:
            if not any("catch" in str(b.get("l")) for b in f.blocks.values()):
                chk.leaks(s)
            continue
        r = E.truth(s, v) if isinstance(v, tuple) and v and v[0] != "void" else None
        for x in s.prop:
            if x[0] == "kept":
                keep.setdefault(x[1], set()).update({True, False} if r is None else {r})
        chk.final(E, s)
        if f.short.startswith("~"):
            now = {x[1][1][2] for x in s.prop if x[0] == "del" and x[1][0] == "v" and x[1][1][0] == "fld"}
            now |= {q for q, t in P.fields(f.cls, True) if t.endswith("*") and any(
                E.truth(s, ("v", ("fld", b, q))) is False for b in (("this",), ("deref", ("this",))))}
            always = now if always is None else always & now
    return sig, {"found": chk.found, "count": chk.count, "dels": chk.dels, "forms": chk.forms, "miss": sorted(set(miss)), "lim": bool(E.limit_hit),
                 "always": always or set(), "keep": keep, "put": chk.put, "sinks": chk.sinks, "passes": chk.passes, "gives": chk.gives, "rel": chk.rel,
                 "elems": chk.elems}


_W = None


def work(sig):
    return one((_W[0], sig) + _W[1:])


def each(sigs):
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        return dict(p.imap_unordered(work, sigs, 4))


def run(P, rep):
    global _W
    rep.rule("life-init", "every constructor gives every scalar and pointer member a value")
    rep.rule("life-uninit", "no local or member is read on a path on which it has no value yet")
    rep.rule("life-leak", "an object created by a function is kept, handed on or released on every path")
    rep.rule("life-replace", "a member that owns its object releases it before it is overwritten")
    rep.rule("life-owned", "what a class allocates for a member its destructor releases")
    rep.rule("life-drop", "an object taken out of a container that owns it is released or handed on")
    rep.rule("life-form", "what was allocated as an array is released as an array, and only that")
    rep.rule("life-double", "an object is released at most once")
    rep.rule("life-use", "no object is reached into, passed or returned after its release")
    rep.rule("life-dangling", "no member or container still holds an object which a function released")
    rep.rule("life-copy", "an object which owns others is copied only by a copy constructor or assignment of its own")
    fs = [f for f in P.funcs.values() if f.file.startswith(INCS) and f.blocks]
    big = sorted((f.sig for f in fs), key=lambda s: -P.funcs[s].nel)
    # 1. which members does a destructor release
    own, always, anyd = set(), set(), set()
    _W = (P, frozenset(), {}, frozenset())
    for sig, r in each([f.sig for f in fs if f.short.startswith("~")]).items():
        if r:
            mem = dict(P.fields(P.funcs[sig].cls, True))
            own |= {q for q in r["dels"] if q in mem and not entity(mem[q])}
            always |= {q for q in r["always"] if q in mem}
            anyd |= r["dels"]
    always &= own
    # 2. which functions keep what a parameter points to
    summ = {}
    pp = [s for s in big if any("*" in p["t"] for p in P.funcs[s].params)]
    pre = {}
    for k in range(2):
        _W = (P, frozenset(always), summ, frozenset())
        pre = {s: r for s, r in each(pp).items() if r and not r["lim"]}
        summ = {s: r["keep"] for s, r in pre.items()}
    types = {q: t for c in P.classes for q, t in P.fields(c, False)}
    owning = {q for q in anyd if q in types and not types[q].endswith("*")}
    # 3. all functions
    _W = (P, frozenset(always), summ, frozenset(owning))
    res = sorted(each(big).items())
    forms = {}
    sinks = {s: {(i, m) for i, m in r["sinks"] if "*" in types.get(m, "")} for s, r in res if r}
    ch = True
    while ch:
        ch = False
        for s, r in res:
            for i, g, j in r["passes"] if r else ():
                new = {(i, m) for k, m in sinks.get(g, ()) if k == j} - sinks[s]
                if new:
                    sinks[s] |= new
                    ch = True
    alloc = {}
    taken = {}
    for sig, r in res:
        f = P.funcs[sig]
        if r is None:
            rep.undecided("life-use", f.name)
            continue
        found, count = r["found"], r["count"]
        rep.fn(f)
        if r["lim"]:
            rep.undecided("life-use", f.name)
        per = {}
        for (rule, key), (text, where) in found.items():
            rep.violate(rule, key, text, where)
            per[rule] = per.get(rule, 0) + 1
        for rule, n in count.items():
            if rule != "life-init" and n > per.get(rule, 0):
                rep.ok(rule, n - per.get(rule, 0))
        if not any(x == "life-uninit" for x, _ in found):
            rep.ok("life-uninit")
        for q in r["miss"]:
            rep.violate("life-init", "%s:%s" % (f.sig.split("(")[0], q), "%s leaves %s without a value" % (f.name, q), "%s:%d" % (f.file, f.line))
        if f.kind == "ctor":
            rep.ok("life-init", max(1, count.get("life-init", 0) - len(r["miss"])))
        for q, arr in r["forms"]:
            forms.setdefault(q, {}).setdefault(arr, "%s:%d" % (f.file, f.line))
        for fn, line, t, m in r["put"]:
            alloc.setdefault((fn, line, t), [f, set()])[1].add(m)
        for fn, line, t, g, j in r["gives"]:
            for k, m in sinks.get(g, ()):
                if k == j:
                    alloc.setdefault((fn, line, t), [f, set()])[1].add(m)
        # a parameter that is stored in a container on one path and released on another, or a container whose elements are released
        for i in r["rel"]:
            for k, m in sinks[sig]:
                if k == i and not types.get(m, "*").endswith("*"):
                    taken.setdefault(m, f)
        for m in r["elems"]:
            if m in types and "*" in types[m] and not types[m].endswith("*"):
                taken.setdefault(m, f)
    for q, d in sorted(forms.items()):
        if len(d) == 2:
            rep.violate("life-form", q, "%s is allocated or released as an array in one place and as a single object in another" % q, d[True])
        else:
            rep.ok("life-form")
    for (fn, line, t), (f, ms) in sorted(alloc.items(), key=lambda x: x[0][:2]):
        if ms & anyd or ms & always:
            rep.ok("life-owned")
        elif t.split("::")[-1].startswith("IGES_ENTITY") and all(entity(types.get(m, "")) and types[m].endswith("*") for m in ms):
            rep.ok("life-owned")       # a wrapper's or caller's reference: the entity belongs to the model it is added to
        elif all(m in types for m in ms):
            rep.violate("life-owned", "%s:%s" % (fn, "+".join(sorted(ms))), "the %s created by %s is kept in %s, which no destructor releases" % (
                t, fn, ", ".join(sorted(ms))), "%s:%d" % (f.file, line))
    for m, f in sorted(taken.items()):
        if m in anyd:
            rep.ok("life-owned")
        else:
            rep.violate("life-owned", m, "%s releases objects of %s but no destructor does" % (f.name, m), "%s:%d" % (f.file, f.line))
    copies(P, rep, own)
    rep.need("life-init", 100)
    rep.need("life-double", 80)
    rep.need("life-leak", 60)
    rep.need("life-owned", 10)


def copies(P, rep, own):
    cls = {q.rsplit("::", 1)[0] for q in own}
    cls |= {d for c in cls for d in P.subclasses(c)} if cls else set()
    for c in sorted(cls):
        short = c.split("::")[-1]
        user = any(len(f.params) == 1 and short in f.params[0]["t"] and f.params[0]["m"] in ("c", "r") for f in P.byname.get(c + "::" + short, []))
        assign = bool(P.byname.get(c + "::operator="))
        bad = None
        for f in P.funcs.values():
            for i, n in f.x.items():
                if not user and n[0] == "ctor" and n[4] == c + "::" + short and len(n[5]) == 1 and ("const " + short) in n[3] and "&" in n[3]:
                    bad = ("%s:%d" % (f.file, n[1]), f.name)
                if not assign and n[0] == "call" and n[4] == c + "::operator=":
                    bad = ("%s:%d" % (f.file, n[1]), f.name)
        if bad:
            rep.violate("life-copy", c, "%s copies a %s member by member although it owns what its members point to" % (bad[1], c), bad[0])
        else:
            rep.ok("life-copy")
