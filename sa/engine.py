"""Disjunctive dataflow over clang CFGs.

An abstract state is a finite map from abstract locations to abstract values plus a set of branch
facts (intervals, null-ness, order and equality between value numbers) and a check-specific property
component.  Blocks are processed with a worklist to a fixpoint; states at a block that agree on
everything but facts are merged when one subsumes the other or when they differ in complementary
facts; loops are widened.  Repository callees are analysed in place (bounded depth) or summarised by
their may-modify sets.  No solver is involved."""
import math
import heapq, os, sys, time
from collections import deque

sys.setrecursionlimit(20000)
INF = float("inf")
TRUE = ("c", 1)
NULLC = ("c", 0)


def C(v):
    return ("c", int(v) if isinstance(v, bool) else v)


def isc(t):
    return isinstance(t, tuple) and t[0] == "c"


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        for k in t:
            if isinstance(k, tuple) and contains(k, sub):
                return True
    return False


def depth(t):
    if not isinstance(t, tuple):
        return 0
    return 1 + max([depth(k) for k in t], default=0)


class State:
    __slots__ = ("env", "facts", "vals", "br", "loopc", "snap", "prop", "trace", "epoch", "kk")

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.vals = {}
        self.br = {}
        self.loopc = {}
        self.snap = {}
        self.prop = ()
        self.trace = ()
        self.epoch = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.vals = dict(self.vals)
        s.br = dict(self.br)
        s.loopc = dict(self.loopc)
        s.snap = dict(self.snap)
        s.prop = self.prop
        s.trace = self.trace
        s.epoch = dict(self.epoch)
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.vals.items()), frozenset(self.br.items()),
                frozenset((k, v[1]) for k, v in self.loopc.items()), self.prop, frozenset(self.epoch.items()))


class Call:
    __slots__ = ("func", "ctx", "id", "node", "sig", "name", "obj", "objval", "args", "argids", "modes", "line", "site",
                 "isconst", "op", "virt", "eng", "callee", "objid", "stack")

    @property
    def short(self):
        return self.name.split("::")[-1]

    def argloc(self, st, i):
        """location bound to / pointed to by argument i"""
        e = self.eng
        m = self.modes[i] if i < len(self.modes) else "v"
        if m in ("r", "c"):
            return e.loc(self.func, self.ctx, self.argids[i], st)
        return e.deref(self.args[i])


class Limit(Exception):
    pass


DEEP = 1      # the thorough tier multiplies the state limits
FAULTS = []   # functions whose analysis met a construct outside of the interpreted language
MAXSECS = 120      # wall-clock bound of one analysis; a function that reaches it counts as undecided


class Check:
    """override hooks"""
    max_depth = 4
    max_states = 20000
    join_cap = 48

    def on_call(self, E, st, c):
        return None

    def inline(self, E, st, c, callee):
        return callee.nel < 400

    def on_store(self, E, st, loc, val, func, line):
        pass

    def on_access(self, E, st, kind, base, func, line, node):
        pass

    def on_new(self, E, st, val, typ, arr, func, line):
        pass

    def on_delete(self, E, st, val, arr, func, line, eid=None):
        pass

    def on_dtor(self, E, st, var, func, ctx, line):
        pass

    def on_return(self, E, st, val, func, ctx, line):
        pass

    def on_assume(self, E, st, term, truth, func, line):
        pass

    def on_ctor(self, E, st, c, loc):
        return None

    def on_cast(self, E, st, func, ctx, e, n, val):
        pass

    def on_dyn(self, E, st, typ, val):
        """decide a dynamic_cast: a value, or None to keep it symbolic"""
        return None

    def on_rename(self, E, st, t):
        """term t gets a new meaning (next loop iteration)"""

    def joinkey(self, st):
        """states that differ here are never joined when a block overflows"""
        return ()


class Engine:
    def __init__(self, P, check, cls=None):
        self.P = P
        self.check = check
        self.cls = cls
        self.ctxs = {(): 0}
        self.ctxinfo = {0: None}
        self.sites = {}
        self.siteinfo = {}
        self.nstates = 0
        self.limit_hit = []
        self.deadline = time.time() + MAXSECS * DEEP
        self.inlined = set()
        self.joins = set()
        self.opaque = set()
        self.curbranch = None

    # ---------------------------------------------------------------- contexts / sites
    def newctx(self, ctx, sid, callee):
        k = (ctx, sid, callee.sig)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs)
            self.ctxs[k] = c
            self.ctxinfo[c] = k
        return c

    def depth(self, ctx):
        d = 0
        while ctx:
            d += 1
            ctx = self.ctxinfo[ctx][0]
        return d

    def stack(self, ctx):
        r = []
        while ctx:
            p, sid, sig = self.ctxinfo[ctx]
            r.append((sig, sid))
            ctx = p
        return r

    def site(self, func, ctx, i):
        k = (ctx, func.sig, i)
        s = self.sites.get(k)
        if s is None:
            s = len(self.sites)
            self.sites[k] = s
            self.siteinfo[s] = (func, ctx, i)
        return s

    def fresh(self, st, site, tag="r"):
        t = (tag, site)
        if st.loopc:
            self.rename(st, t)
        return t

    def rename(self, st, t):
        self.check.on_rename(self, st, t)
        for k in [k for k in st.facts if contains(k, t)]:
            del st.facts[k]
        for k, v in list(st.env.items()):
            if contains(v, t):
                st.env[k] = ("old", t, k) if v[0] != "old" else v
            if k in st.env and contains(k, t):
                del st.env[k]

    # ---------------------------------------------------------------- facts
    def iv(self, st, t, d=0):
        """(lo, hi) of term t"""
        k = t[0]
        if k == "c":
            v = t[1]
            if isinstance(v, (int, float)):
                return (v, v)
            return (-INF, INF)
        lo, hi = -INF, INF
        f = st.facts.get(t)
        if f is not None and f[0] == "iv":
            lo, hi = f[1], f[2]
        if d > 6:
            return (lo, hi)
        if k == "size" or k == "sz" or (k == "v" and t[1][0] == "size"):
            lo = max(lo, 0)
            if lo == 0 and f is not None and f[0] == "iv" and 0 in f[3]:
                lo = 1
        elif k == "op":
            o = t[1]
            r = None
            if len(t) == 4:
                a = self.iv(st, t[2], d + 1)
                b = self.iv(st, t[3], d + 1)
                if o == "+":
                    r = (a[0] + b[0], a[1] + b[1])
                elif o == "-":
                    r = (a[0] - b[1], a[1] - b[0])
                elif o == ">>" and isc(t[3]) and isinstance(t[3][1], int) and t[3][1] >= 0:
                    q = 1 << t[3][1]
                    r = (a[0] // q if a[0] != -INF else -INF, a[1] // q if a[1] != INF else INF)
                elif o == "<<" and isc(t[3]) and isinstance(t[3][1], int) and 0 <= t[3][1] < 64:
                    q = 1 << t[3][1]
                    r = (a[0] * q, a[1] * q)
                elif o == "&" and isc(t[3]) and isinstance(t[3][1], int) and t[3][1] >= 0:
                    r = (0, t[3][1])
                    if a[0] >= 0 and a[1] != INF:
                        m = (1 << int(a[1]).bit_length()) - 1
                        r = (0, t[3][1] & m)
                elif o == "%" and isc(t[3]) and t[3][1] > 0 and a[0] >= 0:
                    r = (0, t[3][1] - 1)
                elif o == "/" and isc(t[3]) and t[3][1] and t[3][1] > 0:
                    if isinstance(t[3][1], int):
                        r = (-(-a[0] // t[3][1]) if a[0] < 0 and a[0] != -INF else (a[0] // t[3][1] if a[0] != -INF else -INF),
                             a[1] // t[3][1] if a[1] != INF and a[1] >= 0 else (a[1] if a[1] == INF else 0))
                elif o == "*":
                    c = []
                    for x in a:
                        for y in b:
                            if x == 0 or y == 0:
                                c.append(0)
                            else:
                                c.append(x * y)
                    r = (min(c), max(c))
            elif len(t) == 3 and o == "-":
                a = self.iv(st, t[2], d + 1)
                r = (-a[1], -a[0])
            if o in ("==", "!=", "<", ">", "<=", ">=", "!", "&&", "||"):
                r = (0, 1)
            if r:
                if r[0] == r[0]:
                    lo = max(lo, r[0])
                if r[1] == r[1]:
                    hi = min(hi, r[1])
        return (lo, hi)

    def _lt_edges(self, st, a):
        """yield (b, strict) with a<b or a<=b known"""
        for k, v in st.facts.items():
            if k[0] == "<":
                if v is True and k[1] == a:
                    yield k[2], True
                elif v is False and k[2] == a:
                    yield k[1], False
            elif k[0] == "==" and v is True:
                if k[1] == a:
                    yield k[2], False
                elif k[2] == a:
                    yield k[1], False
        if a[0] == "op" and len(a) == 4 and isc(a[3]) and isinstance(a[3][1], (int, float)):
            if a[1] == "-" and a[3][1] > 0:
                yield a[2], True

    def known_lt(self, st, a, b):
        """returns 'lt', 'le' or None from order facts"""
        best = {a: False}
        q = deque([a])
        n = 0
        while q and n < 60:
            x = q.popleft()
            n += 1
            for y, s in self._lt_edges(st, x):
                ns = best[x] or s
                if y not in best or (ns and not best[y]):
                    best[y] = ns
                    q.append(y)
        if b in best:
            return "lt" if best[b] else "le"
        return None

    def norm_eq(self, a, b):
        return (a, b) if repr(a) <= repr(b) else (b, a)

    def strip(self, t):
        while t[0] == "dyn":
            t = t[2]
        return t

    def truth(self, st, t):
        k = t[0]
        if k == "c":
            return bool(t[1])
        if k in ("addr", "new", "str", "iter", "this", "il"):
            return True
        if k == "op":
            o = t[1]
            if o == "!":
                r = self.truth(st, t[2])
                return None if r is None else not r
            if o in ("==", "!=", "<", ">", "<=", ">="):
                return self.cmp(st, o, t[2], t[3])
            if o == "&&":
                a, b = self.truth(st, t[2]), self.truth(st, t[3])
                if a is False or b is False:
                    return False
                return True if a and b else None
            if o == "||":
                a, b = self.truth(st, t[2]), self.truth(st, t[3])
                if a or b:
                    return True
                return False if a is False and b is False else None
        return self.cmp(st, "!=", t, NULLC)

    def cmp(self, st, o, a, b):
        if o == ">":
            return self.cmp(st, "<", b, a)
        if o == ">=":
            r = self.cmp(st, "<", a, b)
            return None if r is None else not r
        if o == "<=":
            r = self.cmp(st, "<", b, a)
            return None if r is None else not r
        if o == "!=":
            r = self.cmp(st, "==", a, b)
            return None if r is None else not r
        if o == "==":
            if a == b:
                return True
            if isc(a) and isc(b):
                return a[1] == b[1]
            if isc(a):
                a, b = b, a
            if isc(b):
                if a[0] in ("addr", "new", "this", "iter", "str") and b[1] == 0:
                    return False
                if a[0] == "op" and a[1] in ("==", "!=", "<", ">", "<=", ">=", "!", "&&", "||") and b[1] in (0, 1):
                    r = self.truth(st, a)
                    if r is not None:
                        return r == bool(b[1])
                f = st.facts.get(a)
                if f is not None and f[0] == "iv" and b[1] in f[3]:
                    return False
                if a[0] == "dyn" and b[1] == 0:
                    s = st.facts.get(self.strip(a))
                    if s is not None and s[1] == 0 and s[2] == 0:
                        return True
            if a[0] == "iter" and b[0] == "iter" and a[1] == b[1]:
                tags = (a[2], b[2])
                if "end" in tags and (0 in tags or "rb" in tags):
                    return self.cmp(st, "==", self.size(st, a[1]), NULLC)
            if a[0] in ("addr", "new") and b[0] in ("addr", "new"):
                return False
            if (a[0] == "new" and b[0] in ("p", "v")) or (b[0] == "new" and a[0] in ("p", "v")):
                return False
            la, ha = self.iv(st, a)
            lb, hb = self.iv(st, b)
            if ha < lb or hb < la:
                return False
            if la == ha == lb == hb and la not in (INF, -INF):
                return True
            f = st.facts.get(("==",) + self.norm_eq(a, b))
            if f is not None:
                return f
            sa, sb = self.strip(a), self.strip(b)
            if (sa, sb) != (a, b):
                f = st.facts.get(("==",) + self.norm_eq(sa, sb))
                if f is not None:
                    return f
            if not (isc(a) or isc(b)):
                if self.known_lt(st, a, b) == "lt" or self.known_lt(st, b, a) == "lt":
                    return False
            return None
        if o == "<":
            if a == b:
                return False
            la, ha = self.iv(st, a)
            lb, hb = self.iv(st, b)
            if ha < lb:
                return True
            if la >= hb:
                return False
            r = self.known_lt(st, a, b)
            if r == "lt":
                return True
            r = self.known_lt(st, b, a)
            if r:
                return False
            # constant versus term through order facts on the term
            return None

    def _setiv(self, st, t, lo=None, hi=None, ne=None):
        f = st.facts.get(t)
        l, h, n = (f[1], f[2], f[3]) if f is not None and f[0] == "iv" else (-INF, INF, frozenset())
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        if ne is not None:
            n = n | {ne}
        while l in n and l != -INF and isinstance(l, int):
            l += 1
        while h in n and h != INF and isinstance(h, int):
            h -= 1
        n = frozenset(x for x in n if l <= x <= h)
        if l > h:
            return False
        sl, sh = self.iv(st, t)
        if l > sh or h < sl:
            return False
        st.facts[t] = ("iv", l, h, n)
        return True

    def assume(self, st, t, truth):
        r = self.truth(st, t)
        if r is not None:
            return r == truth
        k = t[0]
        if k == "op":
            o = t[1]
            if o == "!":
                return self.assume(st, t[2], not truth)
            if o in ("==", "!=", "<", ">", "<=", ">="):
                return self.assume_cmp(st, o, t[2], t[3], truth)
            if o == "&&" and truth:
                return self.assume(st, t[2], True) and self.assume(st, t[3], True)
            if o == "||" and not truth:
                return self.assume(st, t[2], False) and self.assume(st, t[3], False)
            if o == "&&":
                if self.truth(st, t[2]) is True:
                    return self.assume(st, t[3], False)
                if self.truth(st, t[3]) is True:
                    return self.assume(st, t[2], False)
            if o == "||":
                if self.truth(st, t[2]) is False:
                    return self.assume(st, t[3], True)
                if self.truth(st, t[3]) is False:
                    return self.assume(st, t[2], True)
            if o in ("&&", "||"):
                return self._setiv(st, t, ne=0) if truth else self._setiv(st, t, 0, 0)
        return self.assume_cmp(st, "!=", t, NULLC, truth)

    def assume_cmp(self, st, o, a, b, truth):
        if o == ">":
            return self.assume_cmp(st, "<", b, a, truth)
        if o == ">=":
            return self.assume_cmp(st, "<", a, b, not truth)
        if o == "<=":
            return self.assume_cmp(st, "<", b, a, not truth)
        if o == "!=":
            return self.assume_cmp(st, "==", a, b, not truth)
        r = self.cmp(st, o, a, b)
        if r is not None:
            return r == truth
        if o == "==":
            if isc(a):
                a, b = b, a
            if isc(b):
                if a[0] == "op" and a[1] in ("==", "!=", "<", ">", "<=", ">=", "!", "&&", "||") and b[1] in (0, 1):
                    return self.assume(st, a, truth == bool(b[1]))
                if isinstance(b[1], (int, float)):
                    ok = self._setiv(st, a, b[1], b[1]) if truth else self._setiv(st, a, ne=b[1])
                    if ok and a[0] == "dyn" and b[1] == 0 and not truth:
                        ok = self._setiv(st, self.strip(a), ne=0)
                    # x>>k, x-c, x+c known exactly: propagate to x
                    if ok and truth and a[0] == "op" and len(a) == 4 and isc(a[3]) and a[1] in "+-" and isinstance(a[3][1], int):
                        v = b[1] - a[3][1] if a[1] == "+" else b[1] + a[3][1]
                        ok = self._setiv(st, a[2], v, v)
                    return ok
            if a[0] == "iter" and b[0] == "iter" and a[1] == b[1]:
                tags = (a[2], b[2])
                if "end" in tags and (0 in tags or "rb" in tags):
                    return self.assume_cmp(st, "==", self.size(st, a[1]), NULLC, truth)
                if "end" in tags and not truth:
                    self._setiv(st, self.size(st, a[1]), lo=1)
            st.facts[("==",) + self.norm_eq(a, b)] = truth
            if truth:
                la, ha = self.iv(st, a)
                lb, hb = self.iv(st, b)
                if not isc(a) and (lb > -INF or hb < INF):
                    if not self._setiv(st, a, lb, hb):
                        return False
                if not isc(b) and (la > -INF or ha < INF):
                    if not self._setiv(st, b, la, ha):
                        return False
                fa, fb = st.facts.get(a), st.facts.get(b)
                if fa and fa[0] == "iv" and 0 in fa[3]:
                    self._setiv(st, b, ne=0)
                if fb and fb[0] == "iv" and 0 in fb[3]:
                    self._setiv(st, a, ne=0)
            return True
        if o == "<":
            if isc(b) and isinstance(b[1], (int, float)):
                v = b[1]
                isint = self.isint(a) and isinstance(v, int)
                ok = self._setiv(st, a, hi=v - 1 if isint else v, ne=None if isint else v) if truth else self._setiv(st, a, lo=v)
                return ok
            if isc(a) and isinstance(a[1], (int, float)):
                v = a[1]
                isint = self.isint(b) and isinstance(v, int)
                ok = self._setiv(st, b, lo=v + 1 if isint else v, ne=None if isint else v) if truth else self._setiv(st, b, hi=v)
                return ok
            st.facts[("<", a, b)] = truth
            if truth:
                la, ha = self.iv(st, a)
                lb, hb = self.iv(st, b)
                if hb < INF:
                    self._setiv(st, a, hi=hb)
                if la > -INF:
                    self._setiv(st, b, lo=(la + 1) if isinstance(la, int) and self.isint(b) else la)
            return True
        return True

    def isint(self, t):
        # unknown types are treated as integers only when the compared constant was an integer
        if t in self.fltterms:
            return False
        return True

    fltterms = frozenset()

    # ---------------------------------------------------------------- locations and values
    def deref(self, t):
        t = self.strip(t)
        if t[0] == "addr":
            return t[1]
        if t[0] == "iter":
            return ("elem", t[1], t[2])
        return ("deref", t)

    def addr(self, loc):
        if loc[0] == "deref":
            return loc[1]
        return ("addr", loc)

    def size(self, st, loc):
        k = ("size", loc)
        v = st.env.get(k)
        if v is not None:
            return v
        return self.load(st, k)

    def epochs(self, st, loc):
        r = []
        l = loc
        while isinstance(l, tuple):
            if l[0] == "fld":
                e = st.epoch.get(l[2])
                if e is not None:
                    r.append(e)
            e = st.epoch.get(l)
            if e is not None:
                r.append(e)
            if l[0] in ("fld", "elem", "size"):
                l = l[1]
            else:
                break
        return tuple(r)

    def load(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            if v[0] == "ref":
                return self.load(st, v[1])
            return v
        if loc[0] == "fld":
            # whole-object value known?
            path = []
            l = loc
            while l[0] == "fld":
                path.append(l[2])
                l = l[1]
                w = st.env.get(l)
                if w is not None and w[0] not in ("ref",):
                    for f in reversed(path):
                        w = ("sel", w, f)
                    return w
        if loc[0] == "elem":
            w = st.env.get(loc[1])
            if w is not None and w[0] == "il" and isc(loc[2]) and isinstance(loc[2][1], int) and loc[2][1] < len(w[1]):
                return w[1][loc[2][1]]
        if loc[0] == "g":
            if loc[1] == "std::basic_string::npos":
                return C(2 ** 64 - 1)
            g = self.P.globals.get(loc[1])
            if g and g["const"] and len(g["init"]) == 1 and not isinstance(g["init"][0], (list, type(None))):
                v = g["init"][0]
                return ("str", v) if isinstance(v, str) else C(v)
        e = self.epochs(st, loc)
        if e:
            return ("v", loc, e)
        return ("v", loc)

    def store(self, st, loc, val, func=None, line=0):
        self.check.on_store(self, st, loc, val, func, line)
        self.rawstore(st, loc, val)

    def rawstore(self, st, loc, val):
        # forget sub-locations
        for k in [k for k in st.env if k[0] in ("fld", "elem", "size") and self.under(k, loc)]:
            del st.env[k]
        if loc[0] == "elem" and not isc(loc[2]):
            for k in [k for k in st.env if k[0] == "elem" and k[1] == loc[1] and k != loc]:
                del st.env[k]
            st.epoch[loc[1]] = ("s", loc[2])
        st.env[loc] = val

    def under(self, k, loc):
        while k[0] in ("fld", "elem", "size"):
            k = k[1]
            if k == loc:
                return True
        return False

    def killsub(self, st, loc, site):
        """container/object at loc changed in an unknown way"""
        for k in [k for k in st.env if (k[0] in ("fld", "elem", "size") and self.under(k, loc))]:
            del st.env[k]
        st.epoch[loc] = site
        if loc in st.env and st.env[loc][0] not in ("ref",):
            del st.env[loc]

    def killfields(self, st, mods, site):
        if not mods:
            return
        for k in list(st.env):
            q = k
            while q[0] in ("fld", "elem", "size"):
                if q[0] == "fld" and q[2] in mods:
                    del st.env[k]
                    break
                q = q[1]
        for f in mods:
            st.epoch[f] = site

    def loc(self, func, ctx, i, st):
        n = func.x[i]
        k = n[0]
        if k == "var":
            v = func.v[n[3]]
            if v["k"] in ("g", "s"):
                return ("g", v.get("q", v["n"]))
            l = ("lv", ctx, n[3])
            b = st.env.get(l)
            while b is not None and b[0] == "ref":
                l = b[1]
                b = st.env.get(l)
            return l
        if k == "fld":
            if n[5]:
                base = self.deref(self.value(func, ctx, n[3], st))
            else:
                base = self.loc(func, ctx, n[3], st)
            return ("fld", base, n[4])
        if k == "idx":
            b = self.value(func, ctx, n[3], st)
            ix = self.value(func, ctx, n[4], st)
            d = self.deref(b)
            if d[0] == "elem" and b[0] == "addr" and isc(d[2]) and d[2][1] == 0:
                return ("elem", d[1], ix)
            return ("elem", d, ix)
        if k == "drf":
            return self.deref(self.value(func, ctx, n[3], st))
        if k == "this":
            return self.deref(self.value(func, ctx, i, st))
        if k == "cast":
            v = st.vals.get((ctx, i))
            if v is not None and v[0] == "ref":
                return v[1]
            return self.loc(func, ctx, n[4], st) if n[3] != "f2i" else ("tmp", self.site(func, ctx, i))
        v = st.vals.get((ctx, i))
        if v is not None and v[0] == "ref":
            return v[1]
        if k == "cnd":
            b = st.br.get((ctx, i))
            if b is not None:
                return self.loc(func, ctx, n[4] if b == 0 else n[5], st)
        if k == "asg":
            return self.loc(func, ctx, n[4], st)
        if k == "inc":
            return self.loc(func, ctx, n[4], st)
        l = ("tmp", self.site(func, ctx, i))
        return l

    def value(self, func, ctx, i, st):
        n = func.x[i]
        k = n[0]
        if k == "int":
            return ("c", n[3])
        if k == "flt":
            return ("c", n[3])
        if k == "str":
            return ("str", n[3])
        if k == "null":
            return NULLC
        if k == "this":
            return st.env.get(("this", ctx), ("this",))
        if k in ("var", "fld", "idx", "drf"):
            l = self.loc(func, ctx, i, st)
            if n[2].endswith("]"):
                return ("addr", ("elem", l, NULLC))
            return self.load(st, l)
        v = st.vals.get((ctx, i))
        if v is not None:
            if v[0] == "ref":
                return self.load(st, v[1])
            return v
        if k == "adr":
            return self.addr(self.loc(func, ctx, n[3], st))
        if k == "un":
            a = self.value(func, ctx, n[4], st)
            if n[3] == "+":
                return a
            if n[3] == "!":
                if isc(a):
                    return C(not a[1])
                return ("op", "!", a)
            if n[3] == "-":
                if isc(a):
                    return ("c", -a[1])
                return ("op", "-", a)
            return ("op", n[3], a)
        if k == "bin":
            return self.binop(st, n[3], func, ctx, i, n)
        if k == "cast":
            a = self.value(func, ctx, n[4], st)
            if n[3] == "dyn":
                if isc(a):
                    return a
                d = self.check.on_dyn(self, st, n[2], a)
                return ("dyn", n[2], a) if d is None else d
            if n[3] == "f2i":
                if isc(a):
                    return ("c", int(a[1]))
                return ("op", "f2i", a)
            return a
        if k == "cnd":
            b = st.br.get((ctx, i))
            if b is not None:
                return self.value(func, ctx, n[4] if b == 0 else n[5], st)
            return ("r", self.site(func, ctx, i))
        if k == "asg":
            return self.load(st, self.loc(func, ctx, n[4], st))
        if k == "ilist":
            return ("il", tuple(self.value(func, ctx, q, st) for q in n[3]))
        if k == "fn":
            return ("fn", n[3])
        return ("r", self.site(func, ctx, i))

    def binop(self, st, o, func, ctx, i, n):
        if o in ("&&", "||"):
            b = st.br.get((ctx, i))
            if b is not None:
                # b: branch index taken at the short-circuit test (0 = lhs true)
                if o == "&&" and b == 1:
                    return C(0)
                if o == "||" and b == 0:
                    return C(1)
                r = self.value(func, ctx, n[5], st)
                t = self.truth(st, r)
                return r if t is None else C(t)
            return ("op", o, self.value(func, ctx, n[4], st), self.value(func, ctx, n[5], st))
        a = self.value(func, ctx, n[4], st)
        b = self.value(func, ctx, n[5], st)
        if o == ",":
            return b
        return self.arith(st, o, a, b, n[2])

    def arith(self, st, o, a, b, typ=""):
        if isc(a) and isc(b) and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            try:
                x, y = a[1], b[1]
                r = None
                if o == "+": r = x + y
                elif o == "-": r = x - y
                elif o == "*": r = x * y
                elif o == "/": 
                    r = (int(x / y) if isinstance(x, int) and isinstance(y, int) else x / y)
                elif o == "%": r = int(x - y * int(x / y))
                elif o == "<<": r = x << y
                elif o == ">>": r = x >> y
                elif o == "&": r = x & y
                elif o == "|": r = x | y
                elif o == "^": r = x ^ y
                elif o == "<": r = int(x < y)
                elif o == ">": r = int(x > y)
                elif o == "<=": r = int(x <= y)
                elif o == ">=": r = int(x >= y)
                elif o == "==": r = int(x == y)
                elif o == "!=": r = int(x != y)
                if r is not None:
                    return ("c", r)
            except Exception:
                pass
        if o in ("+", "-"):
            if isc(b) and b[1] == 0:
                return a
            if o == "+" and isc(a) and a[1] == 0:
                return b
            if o == "-" and a == b:
                return C(0)
            # fold (x + c1) + c2
            if isc(b) and isinstance(b[1], int) and a[0] == "op" and len(a) == 4 and a[1] in "+-" and isc(a[3]) and isinstance(a[3][1], int):
                c = (a[3][1] if a[1] == "+" else -a[3][1]) + (b[1] if o == "+" else -b[1])
                if c == 0:
                    return a[2]
                return ("op", "+", a[2], ("c", c)) if c > 0 else ("op", "-", a[2], ("c", -c))
            if a[0] == "iter":
                return ("iter", a[1], ("adv", b if isc(b) else "?"))
            if a[0] == "addr" and a[1][0] == "elem":
                return ("addr", ("elem", a[1][1], self.arith(st, o, a[1][2], b)))
        if o == "*":
            if isc(a) and a[1] == 1: return b
            if isc(b) and b[1] == 1: return a
        t = ("op", o, a, b)
        if depth(t) > 40:
            return ("deep", o, hash(t) & 0xffff)
        return t

    # ---------------------------------------------------------------- running
    def run(self, func, init=None, cls=None):
        """analyse func as a root; returns list of (state, retval, thrown)"""
        st = init or State()
        if cls:
            self.cls = cls
        for i, p in enumerate(func.params):
            l = ("lv", 0, p["v"])
            if l in st.env:
                continue
            if p["m"] in ("r", "c"):
                st.env[l] = ("ref", ("deref", ("p", i, p["n"])))
            else:
                st.env[l] = ("p", i, p["n"])
        try:
            return self.runfunc(func, 0, [st])
        except (KeyError, TypeError, IndexError, AttributeError, ValueError, RecursionError) as e:
            if os.environ.get("SA_DEBUG"):
                raise
            # a construct outside of the interpreted language: the function counts as not analysed to its end
            self.limit_hit = True
            FAULTS.append("%s: %s: %s" % (func.sig, type(e).__name__, e))
            return []

    def runfunc(self, func, ctx, states):
        loops = func.loops()
        cross = func.cross()
        seen = {}          # block -> key -> list of facts
        work = []
        rpo = func.rpo()
        tick = [0]

        def push(b, k, st):
            tick[0] += 1
            heapq.heappush(work, (rpo[b], tick[0], b, k, st))
        exits = []
        count = 0
        joined = {}
        dirty = {}

        def arrive(b, st):
            if b == func.exit:
                exits.append(st)
                return
            self.prune(func, ctx, b, st)
            d = seen.setdefault(b, {})
            k = st.key()
            lst = d.get(k)
            if lst is None and len(d) >= self.check.join_cap:
                J = joined.setdefault(b, {})
                jk = (st.prop, frozenset((x, y[1]) for x, y in st.loopc.items()), self.check.joinkey(st))
                o = J.get(jk)
                if o is None:
                    J[jk] = st
                    self.joins.add(func.sig)
                    push(b, None, [st])
                    dirty[id(st)] = True
                    return
                if self.joininto(o, st, (ctx, b)) and not dirty.get(id(o)):
                    dirty[id(o)] = True
                    push(b, None, [o])
                return
            if lst is None:
                d[k] = [st.facts]
                push(b, k, st)
                return
            for f in lst:
                if f is st.facts:
                    return
                # subsumed by a weaker seen state
                if all(kk in st.facts and self.stronger(st.facts[kk], v) for kk, v in f.items()):
                    return
            # complementary merge: differ in exactly one fact
            facts = st.facts
            changed = True
            while changed:
                changed = False
                for f in list(lst):
                    m = self.merge1(f, facts)
                    if m is not None:
                        facts = m
                        if f in lst:
                            lst.remove(f)
                        changed = True
                        break
            if len(lst) >= 12:
                # widen: keep only common facts
                common = dict(facts)
                for f in lst:
                    for kk in list(common):
                        if kk not in f or f[kk] != common[kk]:
                            j = self.joinfact(common[kk], f.get(kk))
                            if j is None:
                                del common[kk]
                            else:
                                common[kk] = j
                facts = common
                lst[:] = []
            st.facts = dict(facts)
            lst.append(st.facts)
            push(b, k, st)

        for s in states:
            arrive(func.entry, s)
        while work:
            _, _, b, key, st0 = heapq.heappop(work)
            if key is None:
                st0 = st0[0]
                dirty[id(st0)] = False
            elif not any(f is st0.facts for f in seen[b][key]):
                continue        # merged into a weaker state meanwhile
            count += 1
            self.nstates += 1
            if count > self.check.max_states * DEEP or (self.nstates % 64 == 0 and time.time() > self.deadline):
                self.limit_hit.append(func.sig)
                break
            # the state in `seen` must stay immutable
            for st in self.runblock(func, ctx, b, st0.copy()):
                for nb, ns in self.branch(func, ctx, b, st):
                    # prune block-local values
                    if ns.vals:
                        for kk in [kk for kk in ns.vals if kk[0] == ctx and isinstance(kk[1], int) and kk[1] not in cross]:
                            del ns.vals[kk]
                    # loop bookkeeping
                    for h, body in loops.items():
                        kk = (ctx, h)
                        if nb == h:
                            if b in body:
                                cnt, forked = ns.loopc.get(kk, (0, False))
                                cnt += 1
                                ns.loopc[kk] = (cnt, forked)
                                if forked or cnt > 24:
                                    self.widen(ns, kk, force=cnt > 24)
                            else:
                                ns.loopc[kk] = (0, False)
                                ns.snap[kk] = dict(ns.env)
                        elif b in body and nb not in body:
                            ns.loopc.pop(kk, None)
                            ns.snap.pop(kk, None)
                    arrive(nb, ns)
        res = []
        for s in exits:
            rv = s.vals.pop((ctx, "ret"), None)
            th = s.vals.pop((ctx, "thrown"), None)
            for kk in [kk for kk in s.vals if kk[0] == ctx]:
                del s.vals[kk]
            for kk in [kk for kk in s.br if kk[0] == ctx]:
                del s.br[kk]
            for kk in [kk for kk in s.loopc if kk[0] == ctx]:
                del s.loopc[kk]
                s.snap.pop(kk, None)
            res.append((s, rv, th))
        return res

    def prune(self, func, ctx, b, st):
        drop, livein = func.live()
        li = livein[b]
        dead = [k for k in st.env if k[0] == "lv" and k[1] == ctx and k[2] in drop and k[2] not in li]
        for k in dead:
            del st.env[k]
        for k in [k for k in st.env if k[0] in ("fld", "elem", "size")]:
            q = k
            while q[0] in ("fld", "elem", "size"):
                q = q[1]
            if q[0] == "lv" and q[1] == ctx and q[2] in drop and q[2] not in li:
                del st.env[k]
        for k in [k for k in st.epoch if isinstance(k, tuple)]:
            q = k
            while q[0] in ("fld", "elem", "size"):
                q = q[1]
            if q[0] == "lv" and q[1] == ctx and q[2] in drop and q[2] not in li:
                del st.epoch[k]

    def joininto(self, o, s, tag):
        """o := join(o, s); True when o became weaker"""
        ch = False
        ivs = {}
        for k, v in o.env.items():
            w = s.env.get(k)
            if w is not None and w != v and v[0] != "iter" and k[0] != "this":
                j = ("j", tag, k)
                a, b = self.iv(o, v), self.iv(s, w)
                if v == j or j in o.facts:
                    a = self.iv(o, j)
                    lo = a[0] if b[0] >= a[0] else -INF
                    hi = a[1] if b[1] <= a[1] else INF
                else:
                    lo, hi = min(a[0], b[0]), max(a[1], b[1])
                if lo != -INF or hi != INF:
                    ivs[j] = ("iv", lo, hi, frozenset())
        for k in list(o.env):
            v = o.env[k]
            w = s.env.get(k)
            if w == v:
                continue
            if k[0] == "this":
                continue
            j = ("j", tag, k)
            if v != j:
                if v[0] == "iter" and w is not None and w[0] == "iter" and v[1] == w[1]:
                    j = ("iter", v[1], j)
                    if v == j:
                        continue
                self.check.on_rename(self, o, j)
                o.env[k] = j
                ch = True
        for k in s.env:
            if k not in o.env:
                o.env[k] = ("j", tag, k)
                ch = True
        for k in list(o.facts):
            v = o.facts[k]
            if k in ivs:
                continue
            w = s.facts.get(k)
            if w != v and not (w is not None and self.stronger(w, v)):
                j = self.joinfact(v, w) if w is not None else None
                nj = None
                if j is not None and not isinstance(j, bool):
                    # widen moving bounds
                    lo = v[1] if j[1] == v[1] else -INF
                    hi = v[2] if j[2] == v[2] else INF
                    nj = ("iv", lo, hi, frozenset(x for x in j[3] if x in v[3] or x < v[1] or x > v[2]))
                    if lo == -INF and hi == INF and not nj[3]:
                        nj = None
                if nj is None:
                    del o.facts[k]
                else:
                    o.facts[k] = nj
                ch = True
        for k, v in ivs.items():
            if o.facts.get(k) != v:
                o.facts[k] = v
                ch = True
        for d1, d2 in ((o.vals, s.vals), (o.br, s.br)):
            for k in list(d1):
                if d2.get(k) != d1[k]:
                    if d1 is o.vals and k in d2:
                        j = ("j", tag, ("val",) + k)
                        if d1[k] != j:
                            d1[k] = j
                            ch = True
                        continue
                    del d1[k]
                    ch = True
        for k, v in s.epoch.items():
            if o.epoch.get(k) != v and o.epoch.get(k) != ("j", tag):
                o.epoch[k] = ("j", tag)
                ch = True
        for k, v in list(o.epoch.items()):
            if s.epoch.get(k) != v and v != ("j", tag):
                o.epoch[k] = ("j", tag)
                ch = True
        return ch

    def stronger(self, a, b):
        if a == b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a[1] >= b[1] and a[2] <= b[2] and all(x in a[3] or x < a[1] or x > a[2] for x in b[3])
        return False

    def joinfact(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return None
        lo, hi = min(a[1], b[1]), max(a[2], b[2])
        ne = frozenset(x for x in a[3] | b[3] if (x in a[3] or x < a[1] or x > a[2]) and (x in b[3] or x < b[1] or x > b[2]))
        g0, g1 = min(a[2], b[2]), max(a[1], b[1])
        if g0 < g1 and g1 - g0 <= 64:
            # disjoint ranges: keep the whole numbers between them excluded
            ne |= frozenset(x for x in range(math.ceil(g0), math.floor(g1) + 1) if g0 < x < g1)
        if lo == -INF and hi == INF and not ne:
            return None
        return ("iv", lo, hi, ne)

    def merge1(self, f, g):
        """union of two fact sets when they differ in one complementary fact; None otherwise"""
        diff = None
        if abs(len(f) - len(g)) > 0:
            return None
        for k in f:
            if k not in g:
                return None
            if f[k] != g[k]:
                if diff is not None:
                    return None
                diff = k
        if diff is None:
            return dict(f)
        m = dict(f)
        a, b = f[diff], g[diff]
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                del m[diff]
                return m
            return None
        # interval union must be exact
        def pts(x):
            return x
        j = self.joinfact(a, b)
        exact = False
        if a[1] == a[2] and a[1] in b[3] and len(b[3]) == 1 and b[1] == -INF and b[2] == INF:
            j = None
            exact = True
        elif b[1] == b[2] and b[1] in a[3] and len(a[3]) == 1 and a[1] == -INF and a[2] == INF:
            j = None
            exact = True
        elif not a[3] and not b[3] and (a[2] + 1 >= b[1] and b[2] + 1 >= a[1]):
            exact = True
        if not exact:
            return None
        if j is None:
            del m[diff]
        else:
            m[diff] = j
        return m

    def widen(self, st, kk, force=False):
        snap = st.snap.get(kk, {})
        for l, v in list(st.env.items()):
            if l[0] == "this":
                continue
            o = snap.get(l)
            if v == o:
                continue
            if v[0] == "ref":
                continue
            w = ("w", kk, l)
            if v == w:
                k = self.keepiv(st, v, o)
                self.dropfacts(st, w)
                if k is not None:
                    st.facts[w] = k
                continue
            grow = (isc(v) and isinstance(v[1], (int, float)) and (o is None or not isc(o) or v != o) and not self.isflag(l, v, o)) \
                or v[0] in ("op", "deep") or force
            if v[0] == "iter":
                w2 = ("iter", v[1], w)
                if v != w2 and (force or v[2] not in (0, "end")):
                    st.env[l] = w2
                    self.dropfacts(st, w)
                continue
            if v[0] == "addr" and v[1][0] == "elem":
                st.env[l] = ("addr", ("elem", v[1][1], w))
                continue
            if grow:
                k = self.keepiv(st, v, o)
                self.dropfacts(st, w)
                st.env[l] = w
                if k is not None:
                    st.facts[w] = k

    def keepiv(self, st, v, o):
        """interval widening: the bounds of the value before the loop which the body does not move"""
        if o is None:
            return None
        a, b = self.iv(st, o), self.iv(st, v)
        lo = a[0] if b[0] >= a[0] else -INF
        hi = a[1] if b[1] <= a[1] else INF
        return ("iv", lo, hi, frozenset()) if lo != -INF or hi != INF else None

    def isflag(self, l, v, o):
        # 0/1 toggles of boolean locals are finite
        if v[1] in (0, 1):
            if l[0] == "lv":
                t = self.lvtype.get((l[1], l[2]))
                return t == "bool"
        return False

    lvtype = {}

    def dropfacts(self, st, t):
        self.check.on_rename(self, st, t)
        for k in [k for k in st.facts if contains(k, t)]:
            del st.facts[k]
        # the widened value changed: derived location contents are stale
        for k, v in list(st.env.items()):
            if contains(k, t) and k in st.env:
                del st.env[k]

    # ---------------------------------------------------------------- blocks
    def runblock(self, func, ctx, b, st):
        blk = func.blocks[b]
        lab = blk.get("l")
        if lab and "catch" in lab:
            st.vals.pop((ctx, "thrown"), None)
        elems = blk["e"]
        work = [(0, st)]
        out = []
        while work:
            k, s = work.pop()
            dead = False
            while k < len(elems):
                r = self.elem(func, ctx, elems[k], s)
                k += 1
                if r is not None:
                    for q in r:
                        work.append((k, q))
                    dead = True
                    break
            if not dead:
                out.append(s)
        return out

    def branch(self, func, ctx, b, st):
        blk = func.blocks[b]
        succ = blk["s"]
        t = blk.get("t")
        live = [s for s in succ if s is not None]
        if t is None or t.get("c", -1) < 0 or len(succ) < 2:
            # (break/goto/jump or try dispatch)
            if len(live) == 1:
                return [(live[0], st)]
            return [(s, st.copy()) for s in live]
        cond = self.value(func, ctx, t["c"], st)
        res = []
        if t["k"] == "SwitchStmt":
            cases = []
            for s in live:
                for l in func.blocks[s].get("l", []):
                    if isinstance(l, int):
                        cases.append(l)
            for s in live:
                lab = func.blocks[s].get("l", [])
                ints = [l for l in lab if isinstance(l, int)]
                if ints and "default" not in lab:
                    for v in ints:
                        q = st.copy()
                        if self.assume_cmp(q, "==", cond, C(v), True):
                            q.trace = q.trace[-14:] + ((t["line"], "case %s" % v),)
                            self.check.on_assume(self, q, ("op", "==", cond, C(v)), True, func, t["line"])
                            res.append((s, q))
                else:
                    q = st.copy()
                    ok = True
                    for v in cases:
                        if not self.assume_cmp(q, "==", cond, C(v), False):
                            ok = False
                            break
                    if ok:
                        q.trace = q.trace[-14:] + ((t["line"], "default"),)
                        res.append((s, q))
            return res
        tr = self.truth(st, cond)
        own = t.get("own")
        loops = func.loops()
        self.curbranch = (func, ctx, b)
        forked = tr is None
        symbolic = forked or not self.constcond(cond)
        for idx, s in enumerate(succ):
            if s is None:
                continue
            want = idx == 0
            if tr is not None and tr != want:
                continue
            q = st.copy() if forked else st
            if forked:
                if not self.assume(q, cond, want):
                    continue
                q.trace = q.trace[-14:] + ((t["line"], "T" if want else "F"),)
            self.check.on_assume(self, q, cond, want, func, t["line"])
            if own is not None and own >= 0:
                q.br[(ctx, own)] = idx
            if symbolic and t["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "BinaryOperator"):
                for h, body in loops.items():
                    if b in body and any(x is not None and x not in body for x in succ):
                        cnt, _ = q.loopc.get((ctx, h), (0, False))
                        q.loopc[(ctx, h)] = (cnt, True)
            res.append((s, q))
        # drop short-circuit marks that are no longer needed
        if t["k"] not in ("BinaryOperator", "ConditionalOperator"):
            for _, q in res:
                cr = func.cross()
                for kk in [kk for kk in q.br if kk[0] == ctx and kk[1] not in cr]:
                    del q.br[kk]
        return res

    def constcond(self, t):
        if t[0] == "c":
            return True
        if t[0] == "op":
            return all(self.constcond(k) for k in t[2:])
        return False

    # ---------------------------------------------------------------- elements
    def elem(self, func, ctx, e, st):
        if isinstance(e, list):
            k = e[0]
            if k == "ret":
                if e[2] >= 0:
                    rt = func.ret
                    if rt.endswith("&"):
                        v = ("ref", self.loc(func, ctx, e[2], st))
                    else:
                        v = self.value(func, ctx, e[2], st)
                        if v[0] == "op" or v[0] == "dyn":
                            tv = self.truth(st, v) if rt == "bool" else None
                            if tv is not None:
                                v = C(tv)
                    st.vals[(ctx, "ret")] = v
                    self.check.on_return(self, st, v, func, ctx, e[1])
                else:
                    self.check.on_return(self, st, None, func, ctx, e[1])
                return None
            if k == "decl":
                return self.decl(func, ctx, e, st)
            if k == "init":
                if e[3] >= 0:
                    l = ("fld", self.deref(st.env.get(("this", ctx), ("this",))), e[2])
                    n = func.x[e[3]]
                    if n[0] == "ctor":
                        self.initobj(st, l, n)
                    else:
                        self.store(st, l, self.value(func, ctx, e[3], st), func, e[1])
                return None
            if k == "dtor":
                self.check.on_dtor(self, st, e[2], func, ctx, e[1])
                return None
            return None
        n = func.x[e]
        k = n[0]
        if k in ("int", "str", "flt", "null", "this", "var", "fn"):
            return None
        line = n[1]
        if k == "fld":
            if n[5]:
                self.check.on_access(self, st, "arrow", self.value(func, ctx, n[3], st), func, line, n)
            return None
        if k == "idx":
            self.check.on_access(self, st, "index", (self.value(func, ctx, n[3], st), self.value(func, ctx, n[4], st)), func, line, n)
            return None
        if k == "drf":
            self.check.on_access(self, st, "deref", self.value(func, ctx, n[3], st), func, line, n)
            return None
        if k == "asg":
            return self.assign(func, ctx, e, n, st)
        if k == "inc":
            l = self.loc(func, ctx, n[4], st)
            v = self.load(st, l)
            nv = self.arith(st, "+" if "++" in n[3] else "-", v, C(1))
            if v[0] == "iter":
                nv = ("iter", v[1], ("adv", self.site(func, ctx, e)))
                if st.loopc:
                    self.rename(st, nv[2])
            self.store(st, l, nv, func, line)
            st.vals[(ctx, e)] = v if n[3].startswith("x") else ("ref", l)
            return None
        if k == "new":
            site = self.site(func, ctx, e)
            v = self.fresh(st, site, "new")
            st.vals[(ctx, e)] = v
            if n[4] and n[6] >= 0:
                st.env[("size", ("deref", v))] = self.value(func, ctx, n[6], st)
            self.check.on_new(self, st, v, n[3], n[4], func, line)
            if n[5] >= 0 and func.x[n[5]][0] == "ctor":
                nn = func.x[n[5]]
                c = self.mkcall(func, ctx, n[5], nn[3], nn[4], None, None, [self.value(func, ctx, a, st) for a in nn[5]], nn[5], nn[6], line, st, False, "", False)
                self.check.on_ctor(self, st, c, ("deref", v))
            return None
        if k == "del":
            v = self.value(func, ctx, n[3], st)
            self.check.on_delete(self, st, v, n[4], func, line, (ctx, n[3]))
            return None
        if k == "call":
            return self.call(func, ctx, e, n, st)
        if k == "ctor":
            c = self.mkcall(func, ctx, e, n[3], n[4], None, None, [self.value(func, ctx, a, st) for a in n[5]], n[5], n[6], line, st, False, "", False)
            r = self.check.on_ctor(self, st, c, None)
            if r is not None:
                st.vals[(ctx, e)] = r
            elif n[4].split("::")[-1] in ("basic_string",) and len(n[5]) >= 1:
                st.vals[(ctx, e)] = self.value(func, ctx, n[5][0], st)
            else:
                st.vals[(ctx, e)] = ("obj", self.site(func, ctx, e), n[4], tuple(self.value(func, ctx, a, st) for a in n[5]))
            return None
        if k == "throw":
            st.vals[(ctx, "thrown")] = C(1)
            return None
        if k == "opq":
            st.vals[(ctx, e)] = self.fresh(st, self.site(func, ctx, e))
            return None
        if k in ("un", "bin", "cast", "adr", "cnd", "ilist"):
            # memoise the value now: operands may change before it is used
            if k == "cast" and n[2].endswith("*"):
                self.check.on_cast(self, st, func, ctx, e, n, self.value(func, ctx, n[4], st))
            if k == "cast" and n[2].endswith("*") is False and func.x[n[4]][0] in ("var", "fld", "idx", "drf") and n[3] != "f2i":
                return None
            if k == "cnd" and not n[2].endswith("*") and n[2] not in ("int", "bool", "double", "char", "unsigned int", "unsigned long", "long"):
                return None
            st.vals[(ctx, e)] = self.value(func, ctx, e, st)
            return None
        return None

    def initobj(self, st, l, n):
        nm = n[4]
        if nm.startswith("std::") and not n[5]:
            st.env[("size", l)] = C(0)

    def decl(self, func, ctx, e, st):
        v = func.v[e[2]]
        l = ("lv", ctx, e[2])
        self.lvtype[(ctx, e[2])] = v["t"]
        if v["k"] == "s":
            return None
        # re-declaration in a loop: drop the old object
        if st.loopc:
            for k in [k for k in st.env if k == l or (k[0] in ("fld", "elem", "size") and self.under(k, l))]:
                del st.env[k]
            self.rename(st, ("v", l))
        if e[3] < 0:
            st.env[l] = ("undef", l)
            return None
        n = func.x[e[3]]
        if v.get("ref"):
            if n[0] in ("int", "flt", "str", "bin", "un"):
                st.env[l] = self.value(func, ctx, e[3], st)
            else:
                st.env[l] = ("ref", self.loc(func, ctx, e[3], st))
            return None
        if n[0] == "ctor":
            st.env.pop(l, None)
            self.initobj(st, l, n)
            r = st.vals.get((ctx, e[3]))
            if n[5] and r is not None:
                self.rawstore(st, l, r)
            c = self.mkcall(func, ctx, e[3], n[3], n[4], None, None, [self.value(func, ctx, a, st) for a in n[5]], n[5], n[6], e[1], st, False, "", False)
            self.check.on_ctor(self, st, c, l)
            return None
        if n[0] == "ilist" and v["t"].endswith("]"):
            for i, q in enumerate(n[3]):
                st.env[("elem", l, C(i))] = self.value(func, ctx, q, st)
            return None
        val = self.value(func, ctx, e[3], st)
        self.copyobj(func, ctx, e[3], st, l, val)
        self.check.on_store(self, st, l, val, func, e[1])
        return None

    def copyobj(self, func, ctx, srcid, st, l, val):
        """store val at l, copying known members when the source is an object"""
        n = func.x[srcid]
        src = None
        if n[0] in ("var", "fld", "idx", "drf") or (n[0] == "call" and st.vals.get((ctx, srcid), ("",))[0] == "ref"):
            src = self.loc(func, ctx, srcid, st)
        sub = []
        if src is not None:
            for k, v in st.env.items():
                if k[0] in ("fld", "elem", "size") and self.under(k, src):
                    sub.append((self.rebase(k, src, l), v))
            if ("size", src) not in st.env and val[0] == "v":
                sub.append((("size", l), self.load(st, ("size", src))))
        self.rawstore(st, l, val)
        for k, v in sub:
            st.env[k] = v

    def rebase(self, k, a, b):
        if k == a:
            return b
        return (k[0], self.rebase(k[1], a, b)) + tuple(k[2:])

    def assign(self, func, ctx, e, n, st):
        l = self.loc(func, ctx, n[4], st)
        line = n[1]
        r = self.value(func, ctx, n[5], st)
        if n[3] == "=":
            self.check.on_store(self, st, l, r, func, line)
            self.copyobj(func, ctx, n[5], st, l, r)
        else:
            v = self.arith(st, n[3][:-1], self.load(st, l), r, n[2])
            self.check.on_store(self, st, l, v, func, line)
            self.rawstore(st, l, v)
        st.vals[(ctx, e)] = ("ref", l)
        return None

    # ---------------------------------------------------------------- calls
    def mkcall(self, func, ctx, e, sig, name, objloc, objval, args, argids, modes, line, st, isconst, op, virt):
        c = Call()
        c.eng = self
        c.func = func; c.ctx = ctx; c.id = e; c.node = func.x[e]; c.sig = sig; c.name = name
        c.obj = objloc; c.objval = objval; c.args = args; c.argids = argids; c.modes = modes; c.line = line
        c.site = self.site(func, ctx, e); c.isconst = isconst; c.op = op; c.virt = virt
        c.callee = None
        c.objid = -1
        return c

    def call(self, func, ctx, e, n, st):
        line, sig, name, objid, argids, virt, op, modes, isconst = n[1], n[3], n[4], n[5], n[6], n[7], n[8], n[9], n[10]
        objloc = objval = None
        if objid >= 0:
            on = func.x[objid]
            if on[2].endswith("*") and not op:
                objval = self.value(func, ctx, objid, st)
                objloc = self.deref(objval)
                if on[0] != "this":
                    self.check.on_access(self, st, "arrowcall", objval, func, line, n)
            else:
                objloc = self.loc(func, ctx, objid, st)
                objval = self.addr(objloc)
        args = []
        for i, a in enumerate(argids):
            m = modes[i] if i < len(modes) else "v"
            args.append(self.value(func, ctx, a, st))
        c = self.mkcall(func, ctx, e, sig, name, objloc, objval, args, argids, modes, line, st, isconst, op, virt)
        c.objid = objid
        callee = self.P.resolve(sig, func)
        if callee is not None and virt:
            if objval is not None and self.cls and self.strip(objval) == ("this",):
                callee = self.P.dispatch(sig, self.cls)
            else:
                ov = self.P.overriders(sig)
                if len(ov) > 1:
                    callee = None
        elif callee is None and virt and self.cls and objval is not None and self.strip(objval) == ("this",):
            callee = self.P.dispatch(sig, self.cls)
        c.callee = callee
        r = self.check.on_call(self, st, c)
        if r is not None:
            return self.finish(func, ctx, e, r)
        r = self.stdmodel(st, c)
        if r is not None:
            st.vals[(ctx, e)] = r
            return None
        if callee is not None and self.depth(ctx) < self.check.max_depth and not any(s == callee.sig for s, _ in self.stack(ctx)) \
                and callee.sig != func.sig and self.check.inline(self, st, c, callee):
            return self.docall(func, ctx, e, c, callee, st)
        self.opaque_call(st, c)
        return None

    def finish(self, func, ctx, e, r):
        out = []
        for s, v in r:
            s.vals[(ctx, e)] = v
            out.append(s)
        return out

    def docall(self, func, ctx, e, c, callee, st):
        self.inlined.add(callee.sig)
        nctx = self.newctx(ctx, c.site, callee)
        # clear a previous activation
        s0 = st
        for k in [k for k in s0.env if (k[0] == "lv" and k[1] == nctx)]:
            del s0.env[k]
        if s0.loopc:
            for k in [k for k in s0.env if k[0] in ("fld", "elem", "size") and self.rootctx(k) == nctx]:
                del s0.env[k]
        for i, p in enumerate(callee.params):
            l = ("lv", nctx, p["v"])
            self.lvtype[(nctx, p["v"])] = p["t"]
            if i >= len(c.args):
                continue
            an = func.x[c.argids[i]]
            if p["m"] in ("r", "c") and an[0] in ("var", "fld", "idx", "drf", "call", "asg", "inc", "cnd", "cast"):
                al = self.loc(func, ctx, c.argids[i], s0)
                if al[0] == "tmp":
                    s0.env[l] = c.args[i]
                else:
                    s0.env[l] = ("ref", al)
            else:
                s0.env[l] = c.args[i]
                if an[0] in ("var", "fld", "idx", "drf"):
                    src = self.loc(func, ctx, c.argids[i], s0)
                    for k, v in list(s0.env.items()):
                        if k[0] in ("fld", "elem", "size") and self.under(k, src):
                            s0.env[self.rebase(k, src, l)] = v
        if c.objval is not None:
            s0.env[("this", nctx)] = c.objval
        elif ("this", ctx) in s0.env and callee.cls == func.cls:
            s0.env[("this", nctx)] = s0.env[("this", ctx)]
        res = self.runfunc(callee, nctx, [s0])
        out = []
        for s, rv, th in res:
            s.env.pop(("this", nctx), None)
            if rv is not None and rv[0] == "v" and rv[1][0] in ("lv", "fld", "elem") and self.rootctx(rv[1]) == nctx:
                rv = ("r", c.site)
            for k in [k for k in s.env if k[0] == "lv" and k[1] == nctx or (k[0] in ("fld", "elem", "size") and self.rootctx(k) == nctx)]:
                del s.env[k]
            for k in [k for k in s.epoch if isinstance(k, tuple) and self.rootctx(k) == nctx]:
                del s.epoch[k]
            if th is not None:
                s.vals[(ctx, "thrown")] = C(1)
            s.vals[(ctx, e)] = rv if rv is not None else ("void",)
            out.append(s)
        return out

    def rootctx(self, k):
        while isinstance(k, tuple) and k[0] in ("fld", "elem", "size"):
            k = k[1]
        if isinstance(k, tuple) and k[0] == "lv":
            return k[1]
        return None

    def opaque_call(self, st, c):
        r = self.fresh(st, c.site)
        callee = c.callee
        self.opaque.add(c.name)
        targets = []
        if callee is not None:
            targets = [callee.sig]
        elif c.sig in self.P.funcs or c.virt:
            targets = [g.sig for g in self.P.overriders(c.sig)]
        mods = set()
        for t in targets:
            mods |= self.P.mods(t)
        if targets:
            self.killfields(st, mods, c.site)
        elif c.obj is not None and not c.isconst:
            self.killsub(st, c.obj, c.site)
        for i, a in enumerate(c.argids):
            m = c.modes[i] if i < len(c.modes) else "v"
            if m == "r":
                l = self.loc(c.func, c.ctx, a, st)
                if l[0] != "tmp" and not (targets and l[0] == "fld" and l[2] not in mods and not self.P.funcs.get(targets[0])):
                    self.killsub(st, l, c.site)
                    self.check.on_store(self, st, l, ("out", c.site, i), c.func, c.line)
                    st.env[l] = ("out", c.site, i)
                    if st.loopc:
                        self.dropfacts2(st, ("out", c.site, i), l)
            elif m == "p":
                v = c.args[i]
                if v[0] == "addr":
                    l = v[1]
                    if l[0] in ("lv", "fld", "elem"):
                        base = l[1] if l[0] == "elem" else l
                        self.killsub(st, base, c.site)
                        self.check.on_store(self, st, l, ("out", c.site, i), c.func, c.line)
                        st.env[l] = ("out", c.site, i)
                        if st.loopc:
                            self.dropfacts2(st, ("out", c.site, i), l)
        rt = c.node[2]
        st.vals[(c.ctx, c.id)] = r

    def dropfacts2(self, st, t, keep):
        self.check.on_rename(self, st, t)
        for k in [k for k in st.facts if contains(k, t)]:
            del st.facts[k]
        for k, v in list(st.env.items()):
            if k != keep and contains(v, t):
                st.env[k] = ("old", t, k)

    # ---------------------------------------------------------------- standard library models
    def stdmodel(self, st, c):
        nm = c.name
        if not (nm.startswith("std::") or nm.startswith("__gnu_cxx::") or nm.startswith("operator") ):
            if c.callee is None and nm in ("fabs", "abs", "sqrt", "sin", "cos", "tan", "atan2", "acos", "asin", "floor", "ceil", "pow"):
                return ("op", nm) + tuple(c.args)
            return None
        s = c.short
        cls = nm.split("::")[-2] if "::" in nm else ""
        o = c.obj
        isiter = "iterator" in cls.lower() or cls in ("_List_iterator", "_List_const_iterator", "_Rb_tree_iterator")
        if isiter or (c.op in ("==", "!=") and len(c.args) == 2 and c.args[0][0] == "iter") or \
           (c.op in ("==", "!=") and o is not None and self.load(st, o)[0] == "iter"):
            if c.op in ("==", "!="):
                if o is not None:
                    a, b = self.load(st, o), c.args[0]
                else:
                    a, b = c.args[0], c.args[1]
                return ("op", c.op, a, b)
            if c.op == "=" and o is not None and len(c.args) == 1:
                nv = c.args[0]
                if nv[0] == "obj" and len(nv[3]) == 1 and nv[3][0][0] == "iter":
                    nv = nv[3][0]
                self.store(st, o, nv, c.func, c.line)
                return ("ref", o)
            v = self.load(st, o) if o is not None else None
            if v is not None and o[0] == "tmp" and v[0] == "v" and c.objid >= 0:
                v = self.value(c.func, c.ctx, c.objid, st)
            if v is None:
                return None
            if c.op in ("*", "->", "[]"):
                if v[0] != "iter":
                    l = ("deref", v)
                else:
                    l = ("elem", v[1], v[2])
                if c.op == "->":
                    return ("addr", l) if l[0] != "deref" else l[1]
                return ("ref", l)
            if c.op in ("++", "--", "+=", "-="):
                site = self.site(c.func, c.ctx, c.id)
                tag = ("adv", site)
                if v[0] == "iter" and v[2] == "end" and c.op == "--":
                    tag = "last"
                elif st.loopc:
                    self.rename(st, tag)
                nv = ("iter", v[1], tag) if v[0] == "iter" else ("r", site)
                self.store(st, o, nv, c.func, c.line)
                return ("ref", o) if not c.args or c.op in ("+=", "-=") else v
            if c.op == "-" and v[0] == "iter" and v[2] == "end" and c.args and c.args[0] == C(1):
                return ("iter", v[1], "last")
            if c.op == "+" and v[0] == "iter" and v[2] == 0 and c.args and c.args[0][0] != "iter":
                return ("iter", v[1], c.args[0])
            if c.op in ("+", "-") and v[0] == "iter":
                return ("iter", v[1], ("adv", self.site(c.func, c.ctx, c.id)))
            if s == "base":
                return v
            return None
        if s in ("size", "length") and not c.args and o is not None:
            return self.size(st, o)
        if s == "empty" and not c.args and o is not None:
            sz = self.size(st, o)
            if isc(sz):
                return C(sz[1] == 0)
            return ("op", "==", sz, NULLC)
        if s in ("begin", "cbegin") and o is not None and not c.args:
            return ("iter", o, 0)
        if s in ("end", "cend") and o is not None and not c.args:
            return ("iter", o, "end")
        if s == "rbegin" and o is not None:
            return ("iter", o, "rb")
        if s == "rend" and o is not None:
            return ("iter", o, "end")
        if s == "front" and o is not None:
            return ("ref", ("elem", o, 0))
        if s == "back" and o is not None:
            return ("ref", ("elem", o, "last"))
        if c.op == "[]" and o is not None and cls in ("vector", "basic_string", "deque", "array", "map"):
            self.check.on_access(self, st, "cindex", (o, c.args[0]), c.func, c.line, c.node)
            return ("ref", ("elem", o, c.args[0]))
        if s == "at" and o is not None and cls in ("vector", "basic_string", "deque", "map"):
            return ("ref", ("elem", o, c.args[0]))
        if s == "clear" and o is not None and not c.args and cls not in ("basic_ios",):
            self.check.on_store(self, st, o, ("cleared",), c.func, c.line)
            self.killsub(st, o, c.site)
            st.env[("size", o)] = C(0)
            return ("void",)
        if s in ("push_back", "push_front", "emplace_back") and o is not None:
            self.check.on_store(self, st, ("elem", o, "new"), c.args[0] if c.args else ("void",), c.func, c.line)
            self.killsub(st, o, c.site)
            z = ("sz", c.site)
            self.dropfacts(st, z)
            st.env[("size", o)] = z
            st.facts[z] = ("iv", 1, INF, frozenset())
            last = ("elem", o, "last")
            st.env[last] = c.args[0] if c.args else ("void",)
            if c.args and c.argids and c.func.x[c.argids[0]][0] in ("var", "fld"):
                src = self.loc(c.func, c.ctx, c.argids[0], st)
                for k, v in list(st.env.items()):
                    if k[0] in ("fld", "elem", "size") and self.under(k, src):
                        st.env[self.rebase(k, src, last)] = v
            return ("void",)
        if s in ("erase", "insert", "pop_back", "pop_front", "resize", "remove", "splice", "swap", "assign", "append", "sort", "reverse") and o is not None and \
                cls in ("vector", "list", "map", "set", "basic_string", "deque", "multimap"):
            if s == "erase":
                a0 = c.args[0] if c.args else None
                if a0 is not None and a0[0] == "obj" and len(a0[3]) == 1 and a0[3][0][0] == "iter":
                    a0 = a0[3][0]
                self.check.on_store(self, st, o, ("erased", a0), c.func, c.line)
            elif s == "insert":
                self.check.on_store(self, st, ("elem", o, "new"), c.args[-1] if c.args else ("void",), c.func, c.line)
            else:
                self.check.on_store(self, st, o, ("mutated", s), c.func, c.line)
            z = self.iv(st, self.size(st, o)) if s in ("erase", "pop_back", "pop_front") else None
            self.killsub(st, o, c.site)
            if z and (s != "erase" or len(c.args) == 1 and a0 is not None and a0[0] == "iter"):
                n = ("sz", c.site)
                self.dropfacts(st, n)
                st.env[("size", o)] = n
                st.facts[n] = ("iv", max(0, z[0] - 1), max(0, z[1] - 1), frozenset())
            if s == "erase" and a0 is not None and a0[0] == "iter":
                return ("iter", o, ("adv", c.site))
            if s == "insert":
                return ("iter", o, ("adv", c.site))
            return self.fresh(st, c.site)
        if s == "find" and o is not None and cls in ("map", "set", "multimap"):
            return ("iter", o, ("find", c.site))
        if s in ("min", "max") and len(c.args) == 2:
            return ("op", s) + tuple(c.args)
        if cls == "basic_string" and c.op == "=" and o is not None:
            self.check.on_store(self, st, o, c.args[0], c.func, c.line)
            self.copyobj(c.func, c.ctx, c.argids[0], st, o, c.args[0])
            return ("ref", o)
        if cls in ("vector", "list", "map", "set") and c.op == "=" and o is not None:
            self.check.on_store(self, st, o, c.args[0], c.func, c.line)
            self.copyobj(c.func, c.ctx, c.argids[0], st, o, c.args[0])
            return ("ref", o)
        if nm in ("std::fabs", "std::abs", "std::sqrt", "std::sin", "std::cos"):
            return ("op", s) + tuple(c.args)
        if cls == "unique_ptr" or cls == "shared_ptr":
            return None
        if c.op in ("<<", ">>") and len(c.args) == 2 and c.op == "<<":
            # stream output: returns its stream
            l = self.loc(c.func, c.ctx, c.argids[0], st)
            return ("ref", l)
        if c.op == "<<" and o is not None:
            return ("ref", o)
        return None
