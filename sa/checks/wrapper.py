"""DLL_* wrapper classes: validity guard, valid-flag typestate, argument/result forwarding, setter/getter agreement."""
import engine
from engine import C, TRUE, isc, INF

FALSE = C(False)
from labels import subterms, chain

WRAPPED = {"m_entity": "m_valid", "m_iges": "m_valid", "m_outline": "m_valid", "m_segment": "m_valid", "m_parent": "m_hasParent"}
LIFE = ("NewEntity", "AttachValidFlag", "DetachValidFlag", "Attach", "Detach")


def fname(loc):
    return loc[2].split("::")[-1] if isinstance(loc, tuple) and loc[0] == "fld" else None


def wrapped(t):
    """the wrapped-pointer member a value was read from, or None"""
    if t[0] == "v" and fname(t[1]) in WRAPPED and t[1][2].startswith("DLL_"):
        return t[1]
    return None


class W(engine.Check):
    max_depth = 2
    max_states = 4000

    def __init__(self, rep, fn, forward):
        self.rep = rep
        self.fn = fn
        self.forward = forward
        self.done = []

    def joinkey(self, st):
        return (st.prop, frozenset((k, v) for k, v in st.env.items() if fname(k) in ("m_entity", "m_iges", "m_outline", "m_segment", "m_valid", "m_hasParent", "m_parent")))

    def inline(self, E, st, c, callee):
        return callee.file.startswith(("dllapi", "include/api")) and callee.nel < 200

    def flag(self, loc):
        cls = loc[2].rsplit("::", 1)[0]
        return ("fld", loc[1], cls + "::" + WRAPPED[fname(loc)])

    def on_access(self, E, st, kind, base, func, line, node):
        if kind not in ("arrow", "arrowcall", "deref") or not isinstance(base, tuple):
            return
        if kind != "arrowcall" and func.x[node[3]][0] == "this":
            return
        b = E.strip(base)
        w = wrapped(b)
        where = "%s:%d" % (func.file, line)
        if func.file.startswith(("dllapi", "include/api")) is False:
            return
        if w is not None:
            g = E.truth(st, E.load(st, self.flag(w)))
            if g is not True and any(p[0] == "det" and p[1] == b for p in st.prop) and ("del", b) not in st.prop:
                self.rep.ok("wrap-guard")
            elif g is not True:
                self.rep.violate("wrap-guard", "%s:%s" % (func.name, fname(w)), "%s reaches through %s on a path where %s is not known to be true" %
                                 (func.name, fname(w), WRAPPED[fname(w)]), where)
            elif E.truth(st, b) is not True:
                self.rep.violate("wrap-null", "%s:%s" % (func.name, fname(w)), "%s reaches through %s on a path where it may be NULL" % (func.name, fname(w)), where)
            else:
                self.rep.ok("wrap-guard")
            return
        if b[0] == "p" or b[0] == "out" or (b[0] == "raw"):
            if E.truth(st, b) is not True:
                self.rep.violate("wrap-null", "%s:%s" % (func.name, b[0] + str(b[1] if b[0] == "p" else "")),
                                 "%s reaches through a pointer which may be NULL" % func.name, where)
            else:
                self.rep.ok("wrap-null")

    def on_call(self, E, st, c):
        s = c.short
        if s == "AttachValidFlag" and c.objval is not None and len(c.args) == 1 and c.args[0][0] == "addr":
            st2 = st.copy()
            o = E.strip(c.objval)
            E.rawstore(st2, c.args[0][1], TRUE)
            st2.prop = frozenset(x for x in st2.prop if not (x[0] == "att" and x[2] == c.args[0][1])) | {("att", o, c.args[0][1])}
            return [(st2, ("void",))]
        if s == "DetachValidFlag" and c.objval is not None and len(c.args) == 1 and c.args[0][0] == "addr":
            o = E.strip(c.objval)
            E.rawstore(st, c.args[0][1], FALSE)
            st.prop = frozenset(x for x in st.prop if not (x[0] == "att" and x[1] == o)) | {("det", o, c.args[0][1])}
            return [(st, ("void",))]
        if s == "GetRawPtr" and c.obj is not None and c.func.file.startswith("dllapi") and c.obj[0] != "deref" or \
                s == "GetRawPtr" and c.obj is not None and E.strip(c.objval or ("x",)) != ("this",):
            return [(st, ("raw", c.obj))]
        if c.op == "=" and "basic_string" in c.name and c.args or s in ("append", "assign") and "basic_string" in c.name and len(c.args) == 1:
            a = E.strip(c.args[0]) if isinstance(c.args[0], tuple) else None
            if a is not None and a[0] == "p" and c.ctx == 0 and self.fn.params[a[1]]["t"].endswith("*"):
                if E.truth(st, a) is not True:
                    self.rep.violate("wrap-null", "%s:string" % c.func.name, "%s makes a string from a pointer which may be NULL" % c.func.name, "%s:%d" % (c.func.file, c.line))
                else:
                    self.rep.ok("wrap-null")
        if s == "GetParentIGES" and c.objval is not None:
            return [(st, ("parentof", E.strip(c.objval)))]
        if s in ("UnlinkEntity", "DelEntity") and c.name.startswith("IGES::") and len(c.args) == 1:
            a = st.copy()
            st.prop = frozenset(st.prop) | {("rel", E.strip(c.args[0]))}
            if s == "DelEntity":
                st.prop = st.prop | {("del", E.strip(c.args[0]))}
                a.prop = frozenset(a.prop) | {("rel", E.strip(c.args[0]))}
            if c.ctx == 0 and wrapped(E.strip(c.objval)) is not None and any(isinstance(self.arg(E, st, c, i), int) for i in range(len(c.args))):
                return None
            return [(st, TRUE), (a, C(0))]
        if s == "NewEntity" and c.name.startswith("IGES::"):
            st.prop = frozenset(st.prop) | {("made", c.site, E.truth(st, C(1)))}
        if c.ctx == 0 and c.objval is not None and self.forward and c.func.file.startswith("dllapi"):
            o = E.strip(c.objval)
            if wrapped(o) is not None and s not in ("AttachValidFlag", "DetachValidFlag"):
                args = tuple(self.arg(E, st, c, i) for i in range(len(c.args)))
                st.prop = frozenset(st.prop) | {("fwd", s, c.name, args, ("r", c.site), c.line)}
        return None

    def arg(self, E, st, c, i):
        v = E.strip(c.args[i]) if isinstance(c.args[i], tuple) else c.args[i]
        m = c.modes[i] if i < len(c.modes) else "v"
        t = None
        if m in ("r", "c"):
            l = c.argloc(st, i)
            t = l
        for q in (v, t):
            if not isinstance(q, tuple):
                continue
            while isinstance(q, tuple) and q[0] in ("addr", "v", "deref", "raw", "ref", "obj") and len(q) > 1:
                if q[0] == "obj":
                    q = q[3][0] if q[3] else ("none",)
                    continue
                q = q[1]
            if q[0] == "p":
                return q[1]
        return v if isc(v) else None

    def on_ctor(self, E, st, c, loc):
        n = c.name.rsplit("::", 1)[-1]
        if n.startswith("DLL_IGES_ENTITY_") and len(c.args) == 2 and E.truth(st, c.args[1]) is not False and loc is not None and loc[0] == "deref":
            st.prop = frozenset(st.prop) | {("made", c.site, True)}
        return None

    def on_delete(self, E, st, val, arr, func, line, eid=None):
        v = E.strip(val)
        st.prop = frozenset(st.prop) | {("del", v)}
        w = wrapped(v)
        if (w is not None and fname(w) == "m_entity" or v[0] == "out") and func.file.startswith(("dllapi", "include/api")):
            own = any(p[0] == "rel" and p[1] == v for p in st.prop)
            if not own and E.truth(st, ("parentof", v)) is not False:
                self.rep.violate("wrap-owned", func.name, "%s deletes an entity which its model still owns" % func.name, "%s:%d" % (func.file, line))
            else:
                self.rep.ok("wrap-owned")

    def on_return(self, E, st, val, func, ctx, line):
        if ctx == 0:
            self.done.append((st, val, line))


def run(P, rep):
    rep.rule("wrap-guard", "a wrapper reaches through its pointer only on paths where its valid flag is true and the pointer is not NULL")
    rep.rule("wrap-null", "a wrapper reaches through a caller's or a core function's pointer only where it is not NULL")
    rep.rule("wrap-flag", "whenever a wrapper's pointer is set, its valid flag is registered with that object; the previous object's registration is withdrawn first")
    rep.rule("wrap-name", "a wrapper method whose core class has a method of the same name and arity calls that method on every accepting path")
    rep.rule("wrap-forward", "own parameters are handed to the core method in order")
    rep.rule("wrap-result", "the core method's verdict is the wrapper's verdict")
    rep.rule("wrap-done", "a wrapper reports success only where its handle holds an object and the core method of the same name was called")
    rep.rule("wrap-owned", "a wrapper deletes an entity only through the model that owns it, or when no model does")
    rep.rule("wrap-once", "a wrapper call creates at most one entity in the model")
    core = {}
    for f in P.funcs.values():
        if f.cls and not f.cls.startswith("DLL_") and f.file.startswith(("entities", "iges", "geom", "include/core", "include/geom")):
            core.setdefault(f.cls, {}).setdefault((f.short, len(f.params)), f)
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.sig):
        if not f.cls or not f.cls.startswith("DLL_") or not f.file.startswith(("dllapi", "include/api")):
            continue
        n += 1
        rep.fn(f)
        short = f.short
        ctor = short == f.cls
        dtor = short.startswith("~")
        chk = W(rep, f, True)
        E = engine.Engine(P, chk, f.cls)
        try:
            E.run(f)
        except engine.Limit:
            rep.undecided("wrap-guard", f.name)
            continue
        if E.limit_hit:
            rep.undecided("wrap-guard", f.name)
            continue
        where = "%s:%d" % (f.file, f.line)
        flags(P, rep, E, chk, f, ctor, dtor, where)
        if not ctor and not dtor:
            forward(P, rep, E, chk, f, core, where)
    if not n:
        raise __import__("program").Broken("no DLL_* class found")
    rep.need("wrap-guard", 100)
    rep.need("wrap-flag", 20)
    rep.need("wrap-forward", 50)


def flags(P, rep, E, chk, f, ctor, dtor, where):
    for st, val, line in chk.done:
        for l, v in list(st.env.items()):
            k = fname(l)
            if k in ("m_entity", "m_iges", "m_outline", "m_segment") and (l[1] == ("this",) or l[1] == ("deref", ("this",))):
                v = E.strip(v)
                fl = chk.flag(l)
                old = ("v", l)
                if v == old:
                    continue
                if E.truth(st, v) is not False:
                    if ("att", v, fl) not in st.prop and not (v[0] == "raw"):
                        rep.violate("wrap-flag", f.name + ":attach", "%s leaves %s pointing to an object with which %s is not registered" % (f.name, k, fname(fl)), where)
                    else:
                        rep.ok("wrap-flag")
                if not ctor:
                    was = E.truth(st, ("v", fl)) is not False and E.truth(st, old) is not False
                    if was and ("det", old, fl) not in st.prop and ("del", old) not in st.prop:
                        rep.violate("wrap-flag", f.name + ":detach", "%s replaces %s without withdrawing %s from the object it pointed to" % (f.name, k, fname(fl)), where)
                    else:
                        rep.ok("wrap-flag")
        if dtor:
            for k in ("m_entity", "m_iges", "m_outline", "m_segment"):
                ls = [x for x in P.fields(f.cls, True) if x.split("::")[-1] == k] if False else []
    return


def sub(rv, st, E, r):
    """truth of the call result r at return, None when unknown"""
    return E.truth(st, r)


def root(l):
    while isinstance(l, tuple) and l[0] in ("fld", "elem", "deref", "size"):
        l = l[1]
    return l


def falsible(g):
    """may g return false"""
    for b, e in g.elems():
        if isinstance(e, (list, tuple)) and e[0] == "ret" and len(e) > 2 and e[2] >= 0:
            n = g.x[e[2]]
            while n[0] == "cast":
                n = g.x[n[4]]
            if n[0] != "int" or not n[3]:
                return True
    return False


def forward(P, rep, E, chk, f, core, where):
    np = len(f.params)
    ptrs = set()
    names = set()
    for st, val, line in chk.done:
        names |= {p[2].rsplit("::", 1)[0] for p in st.prop if p[0] == "fwd"}
        for l in list(st.env) + [t[1] for k in st.facts for t in subterms(k) if t[0] == "v"]:
            if fname(l) in ("m_entity", "m_iges", "m_outline", "m_segment") and l[1] == ("deref", ("this",)):
                ptrs.add(l)
    for st, val, line in chk.done:
        fw = [p for p in st.prop if p[0] == "fwd"]
        accept = val is not None and E.truth(st, val) is not False
        made = [p for p in st.prop if p[0] == "made"]
        if made and accept:
            if len(made) > 1:
                rep.violate("wrap-once", f.name, "%s creates more than one entity in the model" % f.name, where)
            else:
                rep.ok("wrap-once")
        for _, s, nm, args, r, ln in fw:
            if s in LIFE and s != "NewEntity":
                continue
            idx = [(j, a) for j, a in enumerate(args) if isinstance(a, int)]
            if np and len(args) == np and idx:
                bad = [(j, a) for j, a in idx if j != a]
                if bad:
                    rep.violate("wrap-forward", f.name + ":" + s, "%s hands its parameter %d to %s as argument %d" % (f.name, bad[0][1] + 1, nm, bad[0][0] + 1), where)
                else:
                    rep.ok("wrap-forward", len(idx))
            if np and len(args) == np and len(idx) >= np - 1:
                lost = [j for j, a in enumerate(args) if isinstance(a, tuple) and isc(a) and f.params[j]["t"].endswith("*")]
                if lost:
                    rep.violate("wrap-forward", f.name + ":lost", "%s hands a constant to %s instead of its parameter %d" % (f.name, nm, lost[0] + 1), where)
            # the verdict
            if f.ret == "bool":
                t = E.truth(st, r)
                node_bool = s not in LIFE and any(g.ret == "bool" for g in P.byname.get(nm, []))
                if node_bool:
                    if val == r or t is not None and val is not None and E.truth(st, val) == t:
                        rep.ok("wrap-result")
                    elif val is not None and E.truth(st, val) is False:
                        rep.ok("wrap-result")
                    elif any(E.strip(v) == r and root(l)[0] == "p" for l, v in st.env.items()):
                        rep.ok("wrap-result")
                    elif not any(falsible(g) for g in P.byname.get(nm, [])):
                        rep.ok("wrap-result")
                    else:
                        rep.violate("wrap-result", f.name + ":" + s, "%s does not return the verdict of %s" % (f.name, nm), where)
        # success without a word from the core
        if f.ret == "bool" and val is not None and E.truth(st, val) is True and ptrs:
            if all(E.truth(st, E.load(st, l)) is False or E.truth(st, ("v", chk.flag(l))) is False and E.load(st, l) == ("v", l) for l in ptrs):
                rep.violate("wrap-done", f.name, "%s reports success although its handle holds no object" % f.name, where)
            else:
                rep.ok("wrap-done")
        # same name
        if accept and f.short not in LIFE and fw is not None:
            ptr = None
            for _, s, nm, args, r, ln in fw:
                ptr = nm.rsplit("::", 1)[0]
            if ptr is None:
                if f.ret == "bool" and val is not None and E.truth(st, val) is True and any((f.short, np) in core.get(d, {}) for c in names for d in [c] + P.bases(c)):
                    rep.violate("wrap-done", f.name + ":call", "%s reports success on a path which does not call the core method" % f.name, where)
                continue
            cands = [ptr] + P.bases(ptr)
            if any((f.short, np) in core.get(c, {}) for c in cands):
                if not any(s == f.short for _, s, *x in fw):
                    rep.violate("wrap-name", f.name, "%s calls %s instead of %s::%s" % (f.name, fw[0][2], ptr, f.short), where)
                else:
                    rep.ok("wrap-name")
