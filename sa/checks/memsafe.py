"""Memory safety of indices, iterators and pointers: path-sensitive typestate and interval analysis.

Intervals of parameters of internal helpers, of what they leave in their reference parameters and of integer members are
not guessed: candidate bounds are assumed, the whole program is analysed, bounds which some call or store does not
respect are dropped, and the analysis is repeated until all remaining ones hold (greatest fixpoint)."""
import multiprocessing, os, sys, time
import engine
from engine import C, isc
from labels import qfields, subterms

FALSE = C(False)
INF = engine.INF
T = os.environ.get('SA_T')
DIRS = ("entities", "iges", "geom", "dllapi", "idf")
NPOS = 2 ** 64 - 1


def intlike(P, t):
    t = t.replace("const ", "").replace("&", "").strip()
    if t in ("int", "unsigned int", "unsigned long", "long", "short", "unsigned short"):
        return True
    return not any(x in t for x in "*<[( :") and t not in P.classes and t not in ("double", "float", "bool", "char", "void", "unsigned char", "MCAD_API")


def extent(t):
    """elements of an array type"""
    if t.endswith("]"):
        n = t[t.index("[") + 1:t.index("]")]
        return int(n) if n.isdigit() else None
    return None


class M(engine.Check):
    max_depth = 2
    max_states = 6000
    join_cap = 32

    def __init__(self, P, fn, inv, bounds):
        self.P = P
        self.fn = fn
        self.inv = inv
        self.bounds = bounds
        self.acc = {}      # (rule, function, construct) -> (verdict, text, where)
        self.broken = set()
        self.cur = None
        self.found = set()       # results of string searches
        self.parsed = set()      # values converted from text
        self.hard = set()        # pointer parameters which receive what users of the library pass
        self.passed = {}         # result term -> pointers handed to the call
        self.results = {}        # result term -> function of the program which may return NULL

    def inline(self, E, st, c, callee):
        return callee.nel < 8 and not callee.loops()

    # ------------------------------------------------------------ candidate bounds
    def holds(self, E, st, t, key):
        """drop the candidates (key, op, n) the value does not respect"""
        for o, n in self.inv.get(key, ()):
            lo, hi = E.iv(st, t)[:2]
            if not (o == ">=" and lo >= n or o == "<" and hi < n):
                self.broken.add((key, o, n))

    def assume(self, E, st, t, key):
        for o, n in self.inv.get(key, ()):
            E.assume(st, ("op", o, t, C(n)), True)

    def fieldkey(self, q):
        return ("f", q)

    def note(self, rule, func, line, node, verdict, text):
        k = (rule, func.name, node if isinstance(node, (int, str)) else "%s#%s" % (line, nid(func, node)))
        o = self.acc.get(k)
        rank = {"ok": 0, "und": 1, "bad": 2}
        if o is None or rank[verdict] > rank[o[0]]:
            self.acc[k] = (verdict, text, "%s:%d" % (func.file, line))

    def arraysize(self, E, st, b):
        if b[0] == "str":
            return C(len(b[1]) + 1)
        if b[0] == "new":
            z = E.size(st, ("deref", b))
            return z if not (z[0] == "v" and z[1][0] == "size") else None
        if b[0] == "addr" and b[1][0] == "elem" and b[1][2] == C(0):
            L = b[1][1]
            t = None
            if L[0] == "lv":
                t = E.lvtype.get((L[1], L[2]))
            elif L[0] == "fld":
                c = L[2].rsplit("::", 1)[0]
                t = dict(self.P.fields(c)).get(L[2]) if c in self.P.classes else None
            elif L[0] == "g" and L[1] in self.P.globals:
                t = self.P.globals[L[1]]["t"]
            if t:
                n = extent(t)
                if n is not None:
                    return C(n)
        return None

    def bound(self, E, st, t, seen=0):
        """interval of t using the member bounds"""
        if t[0] == "v" and elemkey(t[1]) in self.inv:
            self.assume(E, st, t, elemkey(t[1]))
        elif t[0] == "v" and t[1][0] == "fld" or t[0] == "v" and t[1][0] == "g":
            self.assume(E, st, t, ("f", t[1][2] if t[1][0] == "fld" else t[1][1]))
        elif t[0] == "op" and seen < 4:
            for x in t[2:]:
                if isinstance(x, tuple):
                    self.bound(E, st, x, seen + 1)
        return E.iv(st, t)[:2]

    def judge(self, E, st, i, size, closed=False):
        lo, hi = self.bound(E, st, i)
        low = lo >= 0
        if isc(size):
            high = hi < size[1] + (1 if closed else 0)
        else:
            high = E.truth(st, ("op", "<=" if closed else "<", i, size)) is True
            if not high and isc(i):
                zlo = E.iv(st, size)[0]
                high = zlo > i[1] - (1 if closed else 0)
            if not high:
                high = hi < E.iv(st, size)[0]
            if not high and size[0] == "op" and size[1] == "+" and isc(size[3]) and size[3][1] > 0:
                high = size[2] == i or E.truth(st, ("op", "<=", i, size[2])) is True
        return low, high

    def on_access(self, E, st, kind, base, func, line, node):
        if kind in ("index", "cindex"):
            b, i = base
            string = False
            if kind == "cindex":
                if "map" in node[4]:
                    return
                size = E.size(st, b)
                string = "basic_string" in node[4]
            else:
                size = self.arraysize(E, st, b)
            if size is None:
                self.note("idx", func, line, node, "und", "array of unknown extent")
                return
            low, high = self.judge(E, st, i, size, string)
            if low and not high and i == C(0) and size[0] == "v" and size[1][0] == "size":
                high = self.filled(E, st, size[1][1])
            if low and high:
                self.note("idx", func, line, node, "ok", "")
            else:
                self.note("idx", func, line, node, self.fault(E, st, b, i, size, kind, string, low), "%s indexes %s with %s (%s)" % (
                    func.name, show(b), show(i), "no lower bound" if not low else "not bounded by %s" % show(size)))
            return
        if kind in ("arrow", "arrowcall", "deref"):
            t = E.truth(st, base)
            if t is False:
                self.note("null", func, line, node, "bad", "%s reaches through %s on a path on which it is NULL" % (func.name, show(base)))
            else:
                self.note("null", func, line, node, "ok", "")
                self.nullable(E, st, base, func, line, t)

    def nullable(self, E, st, b, func, line, t):
        """pointers which may be NULL by nature: parameters, members which are reset, results of functions which fail"""
        who = self.fn.name
        if self.fn.file.startswith("idf"):
            return
        q = b
        while q[0] == "dyn":
            q = q[2]
        if q[0] == "p":
            if q[1] >= len(self.fn.params) or not entptr(self.P, self.fn.params[q[1]]["t"]):
                return
            if t is None and not self.open(q[1]):
                return
            key, text = "param %s" % q[2], "%s follows its parameter %s, which callers may pass as NULL, without testing it" % (who, q[2])
        elif q[0] == "v" and q[1][0] == "fld" and q[1][1] == ("deref", ("this",)):
            n = q[1][2]
            if n not in self.bounds["nullable"]:
                return
            key, text = n, "%s follows the member %s, which may be NULL, without testing it" % (who, n)
            if t is True:
                st.prop = frozenset(st.prop) | {("nonnull", n)}
            elif ("nonnull", n) in st.prop:
                return
        elif q[0] == "r" and q in self.results:
            g = self.results[q]
            key, text = "result %s" % g.name, "%s follows the result of %s, which may be NULL, without testing it" % (who, g.name)
        else:
            return
        if t is None and b[0] == "dyn" and E.truth(st, q) is True:
            text = "%s follows the result of a dynamic_cast without testing it" % who
        if t is None and any(k[0] == "==" and v is True and q in k[1:] for k, v in st.facts.items()):
            t = True    # equal to an element which was found
        if t is None and q[0] == "r" and any(g is self.results[q] and r != q and E.truth(st, r) is True for r, g in self.results.items()):
            t = True    # the same call was tested before
        if t is None and any(q in a and E.truth(st, r) is not None for r, a in self.passed.items()):
            return      # handed to a function whose verdict was tested
        self.note("nul", func, line, "nul " + key, "ok" if t else "bad", text)
        if t is None:
            E.assume(st, q, True)

    def on_assume(self, E, st, term, truth, func, line):
        if not self.parsed or term[0] != "op" or term[1] not in ("<", ">", "<=", ">=") or len(term) != 4:
            return
        for t in term[2:]:
            if t in self.parsed:
                self.note("sum", func, line, "cmp%d" % line, "ok", "")
            if isinstance(t, tuple) and t[0] == "op" and t[1] == "+" and len(t) == 4:
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if x in self.parsed and not isc(y):
                        ok = E.iv(st, x)[1] < INF
                        self.note("sum", func, line, "sum%d" % line, "ok" if ok else "bad",
                                  "%s adds a number read from the file to an index before it compares the sum with the length; the sum may overflow" % func.name)

    def on_call(self, E, st, c):
        s = c.short
        cls = c.name.split("::")[-2] if "::" in c.name else ""
        if c.obj is not None:
            if cls == "basic_string" and (s.startswith("find") or s.startswith("rfind")):
                r = E.fresh(st, c.site)
                self.found.add(r)
                a, b = st, st.copy()
                E.assume(a, ("op", ">=", r, C(0)), True)
                E.assume(a, ("op", "<", r, E.size(a, c.obj)), True)
                return [(a, r), (b, C(NPOS))]
            if s in ("front", "back", "pop_front", "pop_back") and cls in ("vector", "list", "deque", "basic_string") and not c.args:
                self.nonempty(E, st, c, c.obj, s)
            if "iterator" in cls.lower() and c.op in ("*", "->", "++", "--"):
                v = E.load(st, c.obj)
                if v[0] != "iter":
                    self.note("iter", c.func, c.line, c.node, "und", "")
                    return None
                if ("dead", v[1], v[2]) in st.prop:
                    self.note("iter", c.func, c.line, c.node, "bad", "%s uses an iterator of %s whose element has been erased" % (c.func.name, show(v[1])))
                elif c.op in ("*", "->", "++"):
                    if v[2] == "end":
                        self.note("iter", c.func, c.line, c.node, "bad", "%s goes beyond the end of %s" % (c.func.name, show(v[1])))
                    elif v[2] in (0, "last", "rb"):
                        self.nonempty(E, st, c, v[1], "begin" if v[2] == 0 else "last")
                    else:
                        t = E.truth(st, ("op", "==", v, ("iter", v[1], "end")))
                        self.note("iter", c.func, c.line, c.node, "ok" if t is False else "bad" if t is True else "und", "%s may go beyond the end of %s" % (c.func.name, show(v[1])))
                elif c.op == "--" and v[2] == "end":
                    self.nonempty(E, st, c, v[1], "--end")
                return None
        if c.name in ("strtol", "strtod", "strtoul", "strtoll", "strtof") and len(c.args) >= 2 and c.args[1][0] == "addr":
            E.opaque_call(st, c)
            d = E.arith(st, "-", E.load(st, c.args[1][1]), c.args[0])
            E.assume(st, ("op", ">=", d, C(0)), True)
            self.parsed.add(st.vals[(c.ctx, c.id)])
            return [(st, st.vals[(c.ctx, c.id)])]
        if c.name in ("atoi", "atol"):
            E.opaque_call(st, c)
            self.parsed.add(st.vals[(c.ctx, c.id)])
            return [(st, st.vals[(c.ctx, c.id)])]
        callee = c.callee
        if callee is None or c.op or self.inline(E, st, c, callee):
            return None
        for i, p in enumerate(callee.params):
            if i < len(c.args) and intlike(self.P, p["t"]):
                self.bound(E, st, c.args[i])
                self.holds(E, st, c.args[i], ("in", callee.sig, i))
        self.nonnull(E, st, c, callee)
        self.cur = c
        E.opaque_call(st, c)
        self.cur = None
        if callee.ret == "bool":
            r = st.vals.get((c.ctx, c.id))
            if r is not None:
                self.passed[r] = set(c.args)
        if callee.ret and entptr(self.P, callee.ret):
            r = st.vals.get((c.ctx, c.id))
            if r is not None and r[0] == "r":
                if ("nnr", callee.sig) in self.inv:
                    E.assume(st, r, True)
                self.results[r] = callee
        for i, p in enumerate(callee.params):
            if p["m"] == "r" and ("out", callee.sig, i) in self.inv and i < len(c.args):
                self.assume(E, st, ("out", c.site, i), ("out", callee.sig, i))
        return [(st, st.vals[(c.ctx, c.id)])]

    def open(self, i):
        """whether parameter i of the analysed function comes from outside the library"""
        f = self.fn
        return f.cls is not None and f.access == 0 or ("nn", f.sig, i) in self.bounds["hard"]

    def nonnull(self, E, st, c, callee):
        """drop the candidates for pointers which are not known to be set at this call"""
        for g in self.P.overriders(callee.sig) if c.virt else [callee]:
            for i, p in enumerate(g.params):
                k = ("nn", g.sig, i)
                if k in self.inv and (i >= len(c.args) or E.truth(st, c.args[i]) is not True) and not (i < len(c.args) and listed(c.args[i])):
                    self.broken.add((k, "!=", 0))
                    a = E.strip(c.args[i]) if i < len(c.args) else ("?",)
                    if a[0] == "c" or a[0] == "p" and self.open(a[1]):
                        self.hard.add(k)
            for q in self.bounds["fields"].get(g.cls, ()):
                k = ("nnf", g.sig, q)
                if k not in self.inv:
                    continue
                if c.obj is None:
                    continue
                if c.obj != ("deref", ("this",)) and q == "IGES_ENTITY::parent" and self.fn.cls == "IGES":
                    continue        # the model only handles entities it owns
                if E.truth(st, E.load(st, ("fld", c.obj, q))) is not True:
                    self.broken.add((k, "!=", 0))

    def fault(self, E, st, b, i, size, kind, string, low):
        """an index which is not proved: a violation, or beyond the analysis"""
        tops = list(subterms(i))
        if not low and any(x[0:1] == ("size",) and x[1][0:1] == ("deref",) and x[1][1][0] == "p" for x in tops if isinstance(x, tuple)):
            return "und"       # a helper's precondition
        if not low and any(x in self.found for x in tops):
            return "und"
        if loopy(i):
            return "und"
        if isc(i):
            return "und" if string or kind == "cindex" and self.touched(E, st, b) else "bad"
        if low and any(x[0:1] in (("out",), ("p",)) or x[0:2] == ("v", ("deref",)) for x in tops if isinstance(x, tuple)):
            return "und"
        if low and any(k[0] == "<" and v is True and k[1] == i for k, v in st.facts.items()):
            return "und"       # bounded by something else, such as the size remembered earlier
        return "bad"

    def filled(self, E, st, o):
        z = E.size(st, o)
        if E.iv(st, z)[0] > 0 or E.truth(st, ("op", "==", ("iter", o, 0), ("iter", o, "end"))) is False:
            return True
        return any(k[0] == "<" and v is True and k[2] == z and E.iv(st, k[1])[0] >= 0 for k, v in st.facts.items())

    def touched(self, E, st, o):
        """its contents are not the ones the function started with, or are the caller's business"""
        r = o
        while r[0] in ("fld", "elem", "deref", "v", "addr"):
            if r[0] == "deref" and r[1][0] in ("p", "r", "out"):
                return True
            r = r[1]
        return bool(E.epochs(st, o)) or r[0] == "lv"

    def nonempty(self, E, st, c, o, what):
        ok = self.filled(E, st, o)
        self.note("empty", c.func, c.line, c.node, "ok" if ok else "und" if self.touched(E, st, o) or loopy(o) or c.func.access in (1, 2) or c.func.nel < 8 else "bad",
                  "%s takes %s of %s which may be empty" % (c.func.name, what, show(o)))

    def on_store(self, E, st, loc, val, func, line):
        if not isinstance(val, tuple) or not val:
            return
        if val[0] == "erased" and val[1] is not None and val[1][0] == "iter":
            if any(v == val[1] for v in st.env.values()):
                st.prop = frozenset(st.prop) | {("dead", val[1][1], val[1][2])}
        elif val[0] == "iter" and st.prop:
            held = {v for k, v in st.env.items() if k != loc and v[0] == "iter"}
            st.prop = frozenset(x for x in st.prop if ("iter",) + x[1:] in held and x != ("dead",) + val[1:])
        if loc[0] == "elem" and loc[1][0] == "fld" and val[0] in ("obj", "pair", "v", "r", "lv"):
            for n in ("std::pair::first", "std::pair::second"):
                k = ("e", loc[1][2], n)
                if k in self.inv:
                    x = E.load(st, ("fld", val[1], n)) if val[0] == "v" else val[3][0 if n[-1] == "t" and n.endswith("first") else 1] if val[0] == "obj" and len(val[3]) == 2 else ("?",)
                    self.bound(E, st, x)
                    self.holds(E, st, x, k)
        key = ("f", loc[2]) if loc[0] == "fld" else ("f", loc[1]) if loc[0] == "g" else None
        if key not in self.inv:
            key = elemkey(loc) or key
        if key in self.inv:
            if val[0] == "out" and self.cur is not None and ("out", self.cur.sig, val[2]) in self.inv:
                for x in self.inv[key]:
                    if x not in self.inv[("out", self.cur.sig, val[2])]:
                        self.broken.add((key,) + x)
            else:
                self.bound(E, st, val)
                self.holds(E, st, val, key)

    def on_return(self, E, st, val, func, ctx, line):
        if ctx:
            return
        if ("nnr", func.sig) in self.inv and (val is None or E.truth(st, val) is not True):
            self.broken.add((("nnr", func.sig), "!=", 0))
        for i, p in enumerate(func.params):
            key = ("out", func.sig, i)
            if key in self.inv:
                v = E.load(st, ("lv", 0, p["v"]))
                self.bound(E, st, v)
                self.holds(E, st, v, key)
        if func.cls and func.short == func.cls:
            for q, t in self.P.fields(func.cls):
                if ("f", q) in self.inv:
                    v = E.load(st, ("fld", E.deref(("this",)), q))
                    if v[0] == "v":
                        for x in self.inv[("f", q)]:
                            self.broken.add((("f", q),) + x)


def listed(t):
    """an element of a container, or a pointer kept in one: containers hold no NULL"""
    while t[0] in ("dyn", "v", "fld", "deref"):
        t = t[2] if t[0] == "dyn" else t[1]
    return t[0] == "elem" or t[0] == "iter"


def elemkey(loc):
    """element of a member container, or a half of such an element that is a pair"""
    n = None
    if loc[0] == "fld" and loc[2].startswith("std::pair::"):
        n = loc[2]
        loc = loc[1]
    if loc[0] == "elem" and loc[1][0] == "fld":
        return ("e", loc[1][2], n)
    return None


_NID = {}


def nid(func, node):
    ids = _NID.get(func.sig)
    if ids is None:
        ids = _NID[func.sig] = {id(n): i for i, n in func.x.items()}
    return ids.get(id(node), 0)


def loopy(t):
    return any(x[0:1] in (("w",), ("j",)) for x in subterms(t))


def show(t):
    q = qfields(t)
    if q:
        return q[-1].split("::")[-1]
    if t[0] == "c":
        return str(t[1])
    return str(t)[:70]


def one(sig):
    P, inv, bounds = _G
    f = P.funcs[sig]
    chk = M(P, f, inv, bounds)
    E = engine.Engine(P, chk, f.cls)
    st = engine.State()
    t0 = time.time()
    try:
        pre(E, st, f, inv, chk)
        E.run(f, st)
        lim = bool(E.limit_hit)
    except engine.Limit:
        lim = True
    return sig, chk.acc, chk.broken, lim, time.time() - t0, chk.hard


def pre(E, st, f, inv, chk):
    for i, p in enumerate(f.params):
        key = ("in", f.sig, i)
        if "unsigned" in p["t"] or p["t"].startswith("size_t"):
            E.assume(st, ("op", ">=", ("p", i, p["n"]), C(0)), True)
        if ("nn", f.sig, i) in inv or p["m"] in ("r", "c"):
            E.assume(st, ("p", i, p["n"]), True)
        if key in inv:
            v = ("p", i, p["n"])
            if p["m"] in ("r", "c"):
                v = ("v", ("deref", v))
            chk.assume(E, st, v, key)


    if f.cls:
        for q in chk.bounds["fields"].get(f.cls, ()):
            if ("nnf", f.sig, q) in inv:
                E.assume(st, ("v", ("fld", ("deref", ("this",)), q)), True)


def entptr(P, t):
    t = t.replace("const ", "").strip()
    return t.endswith("*") and t[:-1].strip() in P.classes


def tested(f):
    """numbers of the pointer parameters, and names of the pointer members, which the function itself compares with NULL"""
    params = {p["v"]: i for i, p in enumerate(f.params) if p["t"].rstrip().endswith("*")}

    def sub(n):
        x = f.x.get(n)
        while x is not None and x[0] in ("cast", "icast", "paren", "rv"):
            k = [y for y in x[3:] if isinstance(y, int) and not isinstance(y, bool) and y in f.x]
            x = f.x.get(k[-1]) if k else None
        if x is None:
            return None
        if x[0] == "fld":
            b = f.x.get(x[3])
            return x[4] if b is not None and b[0] == "this" else None
        return params.get(x[3]) if x[0] == "var" else None

    res = set()
    for n, x in f.x.items():
        if x[0] == "un" and x[3] == "!":
            res.add(sub(x[4]))
        elif x[0] == "bin" and x[3] in ("==", "!="):
            for a, b in ((x[4], x[5]), (x[5], x[4])):
                y = f.x.get(b)
                if y is not None and y[0] in ("null", "int") and (len(y) < 4 or y[3] == 0):
                    res.add(sub(a))
        elif x[0] == "bin" and x[3] in ("&&", "||"):
            res |= {sub(x[4]), sub(x[5])}
    for b in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
        if isinstance((b.get("t") or {}).get("c"), int):
            res.add(sub(b["t"]["c"]))
    return res - {None}


def nullables(P):
    """pointer members (those of the API handles are the business of P05)"""
    return {q for c in P.classes if not c.startswith("DLL_") for q, t in P.fields(c) if entptr(P, t)}


def candidates(P, fs, bounds):
    called = set()
    for f in fs:
        for b, e in f.elems():
            if isinstance(e, int) and f.x[e][0] in ("call", "ctor"):
                called.add(f.x[e][3])
    virt = set()
    for sig in called:
        if sig in P.funcs:
            virt |= {g.sig for g in P.overriders(sig)}
    ext = set()
    for g in P.globals.values():
        n = extent(g["t"])
        if n:
            ext |= {n, n + 1}
    inv = {}
    low = {(">=", 0), (">=", 1)}
    for f in fs:
        internal = f.cls is None or f.access in (1, 2)
        if f.sig in called or f.sig in virt:
            for i, p in enumerate(f.params):
                if entptr(P, p["t"]):
                    inv[("nn", f.sig, i)] = {("!=", 0)}
            for q in bounds["fields"].get(f.cls, ()):
                inv[("nnf", f.sig, q)] = {("!=", 0)}
        if f.ret and entptr(P, f.ret):
            inv[("nnr", f.sig)] = {("!=", 0)}
        for i, p in enumerate(f.params):
            if not intlike(P, p["t"]):
                continue
            if internal and f.sig in called:
                inv[("in", f.sig, i)] = set(low)
            if p["m"] == "r":
                inv[("out", f.sig, i)] = set(low)
        for i in tested(f):
            inv.pop(("nn" if isinstance(i, int) else "nnf", f.sig, i), None)     # the function itself reckons with NULL
    for c in P.classes:
        for q, t in P.fields(c):
            if intlike(P, t):
                inv[("f", q)] = low | {("<", n) for n in ext}
            if t.startswith(("std::list<", "std::vector<")):
                t = t[t.index("<") + 1:-1].strip()
                if intlike(P, t):
                    inv[("e", q, None)] = set(low)
                elif t.startswith("std::pair<") and t.count(",") == 1:
                    for n, h in zip(("std::pair::first", "std::pair::second"), t[10:-1].split(",")):
                        if intlike(P, h):
                            inv[("e", q, n)] = set(low)
    return inv


def solve(P, rep=None):
    global _G
    fs = [f for f in P.funcs.values() if f.file.startswith(DIRS)]
    ptrs = nullables(P)
    bounds = {"hard": set(), "nullable": ptrs, "fields": {c: [q for q, _ in P.fields(c, True) if q in ptrs] for c in P.classes}}
    inv = candidates(P, fs, bounds)
    todo = sorted(f.sig for f in fs)
    rounds = 0
    while True:
        rounds += 1
        _G = (P, inv, bounds)
        with multiprocessing.get_context("fork").Pool(8) as pool:
            res = pool.map(one, todo, chunksize=8)
        broken, hard = set(), set(bounds["hard"])
        for r in res:
            broken |= r[2]
            hard |= r[5]
        if T:
            print("round %d: %d broken, slowest %s" % (rounds, len(broken), sorted((r[4], r[0]) for r in res)[-2:]), file=sys.stderr)
        if not broken and hard == bounds["hard"]:
            return res, inv, rounds
        bounds["hard"] = hard
        for key, o, n in broken:
            inv[key] = inv[key] - {(o, n)}
        inv = {k: v for k, v in inv.items() if v}


RULES = (("idx", "index", "an index into an array, vector or string lies in [0, extent) on every path to the access, whatever the file or caller provides"),
         ("empty", "empty", "the first or last element of a container is only taken where the container cannot be empty"),
         ("iter", "iterator", "an iterator which is dereferenced or advanced is not the end and its element has not been erased"),
         ("null", "null", "no pointer is followed on a path on which it is NULL"),
         ("nul", "nullable", "a pointer which may be NULL by nature (parameter of a public call, member, result of a search) is tested before it is followed"),
         ("sum", "overflow", "a number read from the file is bounded before it is added to a position"))


def run(P, rep):
    for r, n, text in RULES:
        rep.rule("mem-" + n, text)
    res, inv, rounds = solve(P)
    names = {r: "mem-" + n for r, n, _ in RULES}
    seen = {}
    for sig, acc, _, lim, dt, _h in res:
        rep.fn(sig)
        if lim:
            rep.note("analysis of %s cut at %d states" % (sig, M.max_states))
        for (rule, fn, _), (v, text, w) in sorted(acc.items(), key=str):
            # what an inlined helper does is judged in the helper's own run and at its callers
            if v == "ok":
                rep.ok(names[rule])
            elif v == "und":
                rep.undecided(names[rule], "%s %s" % (w, text))
            else:
                k = "%s:%s" % (fn, rule)
                n = seen[k] = seen.get(k, 0) + 1
                rep.violate(names[rule], k + (":%d" % n if n > 1 else ""), text, w)
    rep.note("bounds of parameters, results and members proved by fixpoint in %d rounds: %s" % (
        rounds, "; ".join(sorted("%s %s" % (k[1].split("::")[-1] if k[0] != "in" and k[0] != "out" else "%s#%d" % (k[1].split("(")[0], k[2]),
                                           ",".join(o + str(n) for o, n in sorted(v))) for k, v in inv.items()))[:4000]))
    rep.need("mem-index", 600)
    rep.need("mem-empty", 400)
    rep.need("mem-iterator", 300)
    rep.need("mem-null", 5000)
    rep.need("mem-overflow", 1)


if __name__ == "__main__":
    import program, collections
    P = program.load()
    tot = collections.Counter()
    res, inv, rounds = solve(P)
    for r in res:
        for (rule, fn, _), (v, text, w) in r[1].items():
            tot[(rule, v)] += 1
            if v != "ok":
                print(v, rule, w, text)
    print({k: sorted(v) for k, v in inv.items() if k[0] == "f"})
    print(rounds, tot)
