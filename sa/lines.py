"""Abstract interpretation of the code which builds records out of strings.

Value domain: an integer is a linear expression over symbols with intervals and
linear inequalities between them; a string is a sequence of segments (blanks,
a character, a formatted number, a stretch of an input string, unknown text),
each with a linear length.  Branches which the domain cannot decide fork; a
loop is generalised to an invariant (interval hull of what the loop changes,
plus every constant difference between two changed quantities) and is iterated
until the invariant is stable.  Nothing is executed and no solver is used."""
import itertools
from poly import Undecided

INF = 10 ** 12
COPY = ("std::basic_string",)


class Lin:
    __slots__ = ("c", "t")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t if isinstance(t, tuple) else tuple(sorted((s, k) for s, k in t.items() if k))

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, d)

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, self.t))

    def scale(self, n):
        return Lin(self.c * n, tuple((s, k * n) for s, k in self.t) if n else ())

    @property
    def const(self):
        return self.c if not self.t else None

    def __repr__(self):
        return "+".join(["%s%s" % ("" if k == 1 else "%d*" % k, s) for s, k in self.t] + ([str(self.c)] if self.c or not self.t else []))


def N(c):
    return Lin(int(c))


class St:
    __slots__ = ("env", "iv", "ineq", "cond", "ghost", "alias")

    def __init__(self):
        self.env = {}
        self.iv = {}
        self.ineq = ()
        self.cond = {}
        self.ghost = {}

    def copy(self):
        n = St()
        n.env = dict(self.env)
        n.iv = dict(self.iv)
        n.ineq = self.ineq
        n.cond = dict(self.cond)
        n.ghost = dict(self.ghost)
        return n

    def norm(self, l):
        """replace symbols which have one value left"""
        if all(self.iv.get(s, (0, 1))[0] != self.iv.get(s, (0, 1))[1] for s, k in l.t):
            return l
        c = l.c
        t = {}
        for s, k in l.t:
            lo, hi = self.iv.get(s, (-INF, INF))
            if lo == hi:
                c += k * lo
            else:
                t[s] = k
        return Lin(c, t)

    def bounds(self, l):
        lo = hi = l.c
        for s, k in l.t:
            a, b = self.iv.get(s, (-INF, INF))
            if k < 0:
                a, b = b, a
            lo += k * a
            hi += k * b
        lo, hi = max(lo, -INF), min(hi, INF)
        for q in self.ineq:            # q >= 0
            for n in (1, 2):
                d = l - q.scale(n)
                x = self.raw(d)
                if x[0] > lo:
                    lo = x[0]
                d = l + q.scale(n)
                x = self.raw(d)
                if x[1] < hi:
                    hi = x[1]
        return lo, hi

    def raw(self, l):
        lo = hi = l.c
        for s, k in l.t:
            a, b = self.iv.get(s, (-INF, INF))
            if k < 0:
                a, b = b, a
            lo += k * a
            hi += k * b
        return max(lo, -INF), min(hi, INF)

    def assume_ge0(self, l):
        """add l >= 0; False when that is impossible"""
        l = self.norm(l)
        if self.bounds(l)[1] < 0:
            return False
        if self.raw(l)[0] >= 0:
            return True
        if l not in self.ineq and len(l.t) > 1:
            self.ineq = self.ineq + (l,)
        return self.tighten(l)

    def tighten(self, l0=None):
        todo = list(self.ineq) + ([l0] if l0 is not None else [])
        for _ in range(4):
            ch = False
            for l in todo:
                for s, k in l.t:
                    r = Lin(l.c, tuple((a, b) for a, b in l.t if a != s))
                    hi = self.raw(r)[1]          # k*s + r >= 0
                    lo0, hi0 = self.iv.get(s, (-INF, INF))
                    if hi >= INF // 2:
                        continue
                    if k > 0:
                        b = -(hi // k)           # s >= ceil(-hi/k)
                        if b > lo0:
                            lo0 = b
                            ch = True
                    else:
                        b = hi // (-k)
                        if b < hi0:
                            hi0 = b
                            ch = True
                    if lo0 > hi0:
                        return False
                    self.iv[s] = (lo0, hi0)
            if not ch:
                break
        return True

    def witness(self, *pos):
        """a value for every symbol such that all constraints and `pos` (each >= 0) hold"""
        st = self.copy()
        for l in pos:
            if not st.assume_ge0(l):
                return None
        syms = {s for l in pos for s, k in l.t}
        if not syms:
            syms = {s for l in st.ineq for s, k in l.t}
        grow = True
        while grow:                      # everything the constraints tie to these
            grow = False
            for l in st.ineq:
                ls = {s for s, k in l.t if st.iv.get(s, (0, 1))[0] != st.iv.get(s, (0, 1))[1]}
                if ls & syms and not ls <= syms:
                    syms |= ls
                    grow = True
        st.ineq = tuple(l for l in st.ineq if {s for s, k in l.t} & syms)
        self.budget[0] = 300
        return st.pick(sorted(syms, key=str), pos)

    budget = [0]

    def pick(self, syms, pos):
        if not syms:
            for l in list(self.ineq) + list(pos):
                n = self.norm(l)
                if n.const is None or n.const < 0:
                    return None
            return {}
        self.budget[0] -= 1
        if self.budget[0] < 0:
            return None
        s = syms[0]
        lo, hi = self.iv.get(s, (-INF, INF))
        if lo == hi:
            r = self.pick(syms[1:], pos)
            if r is not None:
                r[s] = lo
            return r
        tried = set()
        for v in (lo, hi, lo + 1, hi - 1, 1, 0, 64):
            if v in tried or not lo <= v <= hi or abs(v) >= INF // 2:
                continue
            tried.add(v)
            n = self.copy()
            n.iv[s] = (v, v)
            if not n.tighten():
                continue
            r = n.pick(syms[1:], pos)
            if r is not None:
                r[s] = v
                return r
        return None


def slen(v):
    r = N(0)
    for g in v:
        r = r + g[-1]
    return r


class Frame:
    __slots__ = ("f", "id", "vals", "refs", "this")

    def copy(self):
        n = Frame()
        n.f, n.id, n.vals, n.refs, n.this = self.f, self.id, dict(self.vals), self.refs, self.this
        return n


def isstr(t):
    t = t.replace("const ", "").strip()
    return t.startswith("std::basic_string<char>") and not t.rstrip(" &").endswith("*")


def isstream(t):
    return "basic_ostringstream" in t or "basic_stringstream" in t


INTS = ("int", "unsigned int", "unsigned long", "long", "size_t", "unsigned", "short", "unsigned short", "char", "signed char", "unsigned char", "long long", "unsigned long long", "bool")


def bare(t):
    return t.replace("const ", "").replace("&", "").strip()


class Interp:
    """hooks: on_sink(st, fr, loc, segs, line), on_call(...)"""
    max_depth = 6
    max_paths = 60000

    def __init__(self, P):
        self.P = P
        self.n = 0
        self.uid = 0
        self.mute = 0
        self.paths = 0
        self.seen = set()
        self.lists = {}

    # ---- symbols
    def sym(self, st, name, lo=-INF, hi=INF):
        self.n += 1
        s = "%s'%d" % (name, self.n)
        st.iv[s] = (lo, hi)
        return Lin(0, {s: 1})

    # ---- hooks
    def inline(self, f):
        return False

    def on_call(self, st, fr, e, x, short, qn, this, args, op):
        return None

    def on_append(self, st, fr, loc, old, add, line):
        return add

    def on_overwrite(self, st, fr, loc, old, new, line):
        pass

    def on_stream(self, st, fr, loc, val, line):
        pass

    # ---- running
    def run(self, f, st, params, this=("this",)):
        out = []
        for s, v in self.enter(f, st, this, params, 0):
            out.append((s, v))
        return out

    def enter(self, f, st, this, params, depth):
        if depth > self.max_depth:
            raise Undecided("call depth")
        self.uid += 1
        fr = Frame()
        fr.f, fr.id, fr.vals, fr.refs, fr.this = f, self.uid, {}, {}, this
        for p, v in zip(f.params, params):
            if v[0] == "ref":
                fr.refs[p["v"]] = v[1]
            else:
                st.env[("v", fr.id, p["v"])] = v[1]
        self.seen.add(f.sig)
        exits, backs, rets = self.walk(f, [(st, fr, f.entry)], None, None, depth)
        res = []
        for s, v, g in rets:
            for k in [k for k in s.env if k[0] == "v" and k[1] == fr.id]:
                del s.env[k]
            s.cond = {k: b for k, b in s.cond.items()}
            res.append((s, v))
        return res

    def walk(self, f, work, region, head, depth):
        """-> exits [(st, fr, block)], backs [(st, fr)], rets [(st, val, fr)]"""
        loops = f.loops()
        loops = loops[0] if isinstance(loops, tuple) else loops
        exits, backs, rets = [], [], []
        first = True
        work = list(work)
        while work:
            st, fr, b = work.pop()
            if b == head and not first:
                backs.append((st, fr))
                continue
            first = False
            if region is not None and b not in region:
                exits.append((st, fr, b))
                continue
            if b in loops and b != head:
                ex, rt = self.loop(f, st, fr, b, loops[b], depth)
                rets += rt
                work += ex
                continue
            self.paths += 1
            if self.paths > self.max_paths:
                raise Undecided("too many paths")
            nx, rt = self.block(f, st, fr, b, depth)
            rets += rt
            work += nx
        return exits, backs, rets

    def loop(self, f, st, fr, h, body, depth):
        """invariant of the states which enter the body of the loop with head h"""
        def split(states):
            ins, outs, rets = [], [], []
            for s, g in states:
                nx, rt = self.block(f, s, g, h, depth)
                rets += rt
                for s2, g2, b in nx:
                    (ins if b in body else outs).append((s2, g2, b))
            return ins, outs, rets
        self.prefreeze(f, st, fr, body)
        ins, outs, rets = split([(st, fr)])
        if not ins:
            return outs, rets
        # constant trip counts up to a few rounds need no invariant: but generality first
        allouts, allrets = list(outs), list(rets)
        groups = {}
        for s, g, b in ins:
            groups.setdefault(b, []).append((s, g))
        seen = {b: list(v) for b, v in groups.items()}
        sig = None
        for rnd in range(14):
            inv = {}
            for b, ss in seen.items():
                inv[b] = self.generalise(f, ss, rnd >= 3)
            nsig = {b: self.signature(s) for b, (s, g) in inv.items()}
            final = nsig == sig
            sig = nsig
            if not final:
                self.mute += 1
            try:
                bk, ro, rr = [], [], []
                for b, (s, g) in inv.items():
                    ex, backs, rt = self.walk2(f, s.copy(), g.copy(), b, body, h, depth)
                    bk += backs
                    ro += ex
                    rr += rt
                ins, outs, rets = split(bk)
            finally:
                if not final:
                    self.mute -= 1
            if final:
                return allouts + ro + outs, allrets + rr + rets
            for b, (s, g) in inv.items():
                seen[b] = [(s, g)]
            for s, g, b in ins:
                seen.setdefault(b, []).append((s, g))
        raise Undecided("loop invariant in %s" % f.short)

    def prefreeze(self, f, st, fr, body):
        """name the texts the loop takes stretches of"""
        for b in body:
            for e in f.blocks[b]["e"]:
                if isinstance(e, list):
                    continue
                x = f.x[e]
                if x[0] != "call" or x[5] is None or not x[4].startswith("std::basic_string::"):
                    continue
                o = x[5] if x[4].endswith("::substr") else (x[6][0] if x[4].endswith(("::append", "::assign")) and len(x[6]) == 3 else -1)
                if o < 0 or f.x[o][0] not in ("var", "fld") or not isstr(f.x[o][2]):
                    continue
                loc = self.lv(st, fr, o)
                v = st.env.get(loc)
                if isinstance(v, tuple) and v[0] == "S" and v[1] and not (len(v[1]) == 1 and v[1][0][0] == "src"):
                    tot = slen(v[1])
                    n = self.freeze(st, fr, loc, v[1])
                    st.env[loc] = ("S", (("src", n, N(0), tot),))

    def walk2(self, f, st, fr, b, body, h, depth):
        if b == h:
            return [], [(st, fr)], []
        loops = f.loops()
        loops = loops[0] if isinstance(loops, tuple) else loops
        exits, backs, rets = [], [], []
        work = [(st, fr, b)]
        while work:
            s, g, c = work.pop()
            if c == h:
                backs.append((s, g))
                continue
            if c not in body:
                exits.append((s, g, c))
                continue
            if c in loops:
                ex, rt = self.loop(f, s, g, c, loops[c], depth)
                rets += rt
                work += ex
                continue
            self.paths += 1
            if self.paths > self.max_paths:
                raise Undecided("too many paths")
            nx, rt = self.block(f, s, g, c, depth)
            rets += rt
            work += nx
        return exits, backs, rets

    # ---- generalisation
    def quantities(self, s):
        """named linear quantities of a state"""
        q = {}
        for k, v in s.env.items():
            if isinstance(v, Lin):
                q[("i", k)] = v
            elif isinstance(v, tuple) and v and v[0] == "S":
                q[("s", k)] = slen(v[1])
        for k, v in s.ghost.items():
            if isinstance(v, Lin):
                q[("g", k)] = v
        return q

    def generalise(self, f, states, widen):
        if len(states) == 1:
            return states[0]
        ss = [s for s, g in states]
        base = ss[0]
        new = base.copy()
        keys = set(base.env)
        for s in ss[1:]:
            keys &= set(s.env)
        new.env = {k: base.env[k] for k in keys}
        new.cond = {k: v for k, v in base.cond.items() if all(s.cond.get(k) == v for s in ss)}
        new.iv = {}
        for s in ss:
            for k, (lo, hi) in s.iv.items():
                if k in new.iv:
                    a, b = new.iv[k]
                    new.iv[k] = (min(a, lo), max(b, hi))
                else:
                    new.iv[k] = (lo, hi)
        new.ineq = tuple(q for q in base.ineq if all(q in s.ineq or s.bounds(q)[0] >= 0 for s in ss))
        qs = [self.quantities(s) for s in ss]
        changed = []
        for k in sorted(set(qs[0]).intersection(*[set(q) for q in qs[1:]]), key=repr):
            vs = [s.norm(q[k]) for s, q in zip(ss, qs)]
            if all(v == vs[0] for v in vs):
                continue
            changed.append((k, vs))
        made = []
        for k, vs in changed:
            val = None
            for k2, vs2, v2 in made:
                ds = [s.norm(a - b) for s, a, b in zip(ss, vs, vs2)]
                if all(d == ds[0] for d in ds):
                    val = v2 + ds[0]
                    break
                # or the same sum
                ds = [s.norm(a + b) for s, a, b in zip(ss, vs, vs2)]
                if all(d == ds[0] for d in ds):
                    val = ds[0] - v2
                    break
                # or a multiple
                d1, d2 = (vs[1] - vs[0]).const, (vs2[1] - vs2[0]).const
                ks = [d1 // d2] if d1 and d2 and d1 % d2 == 0 else [2, 64, 72, 81]
                for n in ks:
                    ds = [s.norm(a - b.scale(n)) for s, a, b in zip(ss, vs, vs2)]
                    if all(d == ds[0] for d in ds):
                        val = v2.scale(n) + ds[0]
                        for o in self.candidates(ss, k, vs, qs):
                            new.ineq = new.ineq + (o - val,)
                        break
                if val is not None:
                    break
            if val is None:
                bs = [s.bounds(v) for s, v in zip(ss, vs)]
                lo = min(b[0] for b in bs)
                hi = max(b[1] for b in bs)
                if widen:
                    if any(b[0] < bs[0][0] for b in bs[1:]):
                        lo = max([t for t in (-INF, 0, 1) if t <= lo and (k[0] == "s" or t == -INF)])
                    if any(b[1] > bs[0][1] for b in bs[1:]):
                        hi = min([t for t in (64, 72, 80, INF) if t >= hi and (k[0] == "s" or t == INF)])
                old = vs[0]
                nm = str(k[1][-1] if isinstance(k[1], tuple) else k[1])
                val = self.sym(new, "L%s" % nm.replace("'", ""), lo, hi)
                # upper/lower relation to unchanged symbols: v <= other
                for o in self.candidates(ss, k, vs, qs):
                    new.ineq = new.ineq + (o - val,)
                made.append((k, vs, val))
            if k[0] == "i":
                new.env[k[1]] = val
            elif k[0] == "g":
                new.ghost[k[1]] = val
            else:
                new.env[k[1]] = ("S", (("mix", "loop", val),))
        for k in keys:
            v = new.env[k]
            if isinstance(v, tuple) and v and v[0] == "S" and ("s", k) not in dict(changed):
                if any(s.env[k] != v for s in ss[1:]):
                    new.env[k] = ("S", (("mix", "loop", slen(v[1])),))
            elif not isinstance(v, Lin) and not (isinstance(v, tuple) and v and v[0] == "S"):
                if any(s.env[k] != v for s in ss[1:]):
                    new.env[k] = self.anyof(new, k, [s.env[k] for s in ss])
        for k in list(new.ghost):
            v = new.ghost[k]
            if not isinstance(v, Lin) and any(s.ghost.get(k) != v for s in ss[1:]):
                new.ghost[k] = self.anyghost(new, k, [s.ghost.get(k) for s in ss])
        live = set()
        self.symbols((tuple(new.env.values()), tuple(new.ghost.values())), live)
        new.ineq = tuple(q for q in dict.fromkeys(new.ineq) if all(s in live for s, k in q.t))
        fr = states[0][1].copy()
        for s, g in states[1:]:
            fr.vals = {k: v for k, v in fr.vals.items() if k in g.vals and g.vals[k] == v}
        return new, fr

    def symbols(self, v, out):
        if isinstance(v, Lin):
            out.update(s for s, k in v.t)
        elif isinstance(v, tuple):
            for q in v:
                self.symbols(q, out)

    def candidates(self, ss, k, vs, qs):
        """bounds v <= o which hold in every state, o unchanged in the loop"""
        out = []
        for k2 in qs[0]:
            if k2 == k or any(k2 not in q for q in qs):
                continue
            os_ = [s.norm(q[k2]) for s, q in zip(ss, qs)]
            if not all(o == os_[0] for o in os_) or os_[0].const is not None:
                continue
            gap = min(s.bounds(o - v)[0] for s, o, v in zip(ss, os_, vs))
            if gap >= 0:
                out.append(os_[0] - 1 if gap >= 1 else os_[0])
        return out[:4]

    def anyof(self, st, k, vs):
        return ("?", k, self.fresh())

    def anyghost(self, st, k, vs):
        return None

    def fresh(self):
        self.n += 1
        return self.n

    def signature(self, s):
        sig = []
        q = self.quantities(s)
        for k in sorted(q, key=repr):
            sig.append((k, s.bounds(s.norm(q[k]))))
        ks = sorted(q, key=repr)
        rel = []
        for a, b in itertools.combinations(ks, 2):
            d = s.norm(q[a] - q[b])
            if d.const is not None:
                rel.append((a, b, d.const))
        kinds = tuple((k, v[0] if isinstance(v, tuple) and v and v[0] in ("S", "?") else ("L" if isinstance(v, Lin) else v))
                      for k, v in sorted(s.env.items(), key=repr))
        gh = tuple(sorted(((k, v) for k, v in s.ghost.items() if not isinstance(v, Lin)), key=repr))
        return (tuple(sig), tuple(rel), kinds, gh, len(s.ineq), tuple(sorted(s.cond.items(), key=repr)))

    # ---- blocks
    def block(self, f, st, fr, b, depth):
        blk = f.blocks[b]
        states = [(st, fr)]
        rets = []
        for el in blk["e"]:
            nx = []
            for s, g in states:
                if isinstance(el, list):
                    if el[0] == "ret":
                        for s2, v in self.returned(s, g, el):
                            rets.append((s2, v, g))
                        continue
                    if el[0] == "decl":
                        nx += self.decl(s, g, el)
                        continue
                    nx.append((s, g))
                else:
                    nx += self.element(s, g, el, depth)
            states = nx
        out = []
        succ = blk["s"]
        t = blk.get("t")
        for s, g in states:
            if not succ or (len(succ) == 1 and succ[0] == f.exit):
                if succ and succ[0] == f.exit and not any(isinstance(e, list) and e[0] == "ret" for e in blk["e"]):
                    rets.append((s, None, g))
                continue
            if len(succ) == 1:
                out.append((s, g, succ[0]))
                continue
            if t and "cases" in t:
                raise Undecided("switch")
            c = t.get("c") if t else None
            if c is None:
                for x in succ:
                    if x is not None:
                        out.append((s.copy(), g.copy(), x))
                continue
            for s2, val in self.cond(s, g, c):
                x = succ[0] if val else succ[1]
                if x is not None:
                    out.append((s2, g.copy(), x))
        return out, rets

    def returned(self, st, fr, el):
        e = el[2] if len(el) > 2 else -1
        if e is None or e < 0:
            return [(st, None)]
        t = fr.f.x[e][2]
        if bare(t) == "bool":
            return [(s, N(1 if v else 0)) for s, v in self.cond(st, fr, e)]
        return [(st, self.ev(st, fr, e))]

    def decl(self, st, fr, el):
        v = el[2]
        var = fr.f.v.get(v)
        t = var["t"] if var else ""
        loc = ("v", fr.id, v)
        init = el[3] if len(el) > 3 else -1
        self.kill(st, loc)
        if init is None or init < 0:
            if isstr(t):
                st.env[loc] = ("S", ())
            elif bare(t) in INTS:
                st.env[loc] = self.sym(st, var["n"])
            elif isstream(t):
                st.env[loc] = ("S", ())
            return [(st, fr)]
        if t.rstrip().endswith("&"):
            fr.refs = dict(fr.refs)
            fr.refs[v] = self.lv(st, fr, init)
            return [(st, fr)]
        x = fr.f.x[init]
        if isstr(t) or isstream(t):
            if x[0] == "ctor" and not x[5]:
                st.env[loc] = ("S", ())
                return [(st, fr)]
            val = self.ev(st, fr, init)
            st.env[loc] = val if isinstance(val, tuple) and val[0] == "S" else self.unknown(st, var["n"])
            return [(st, fr)]
        if bare(t) == "bool":
            out = []
            for s, b in self.cond(st, fr, init):
                s.env[loc] = N(1 if b else 0)
                out.append((s, fr))
            return out
        st.env[loc] = self.ev(st, fr, init)
        return [(st, fr)]

    def unknown(self, st, name):
        return ("S", (("mix", name, self.sym(st, "len_" + str(name), 0)),))

    def kill(self, st, loc):
        st.cond = {k: v for k, v in st.cond.items() if not self.mentions(k, loc)}

    def mentions(self, k, loc):
        if k == loc:
            return True
        return isinstance(k, tuple) and any(self.mentions(q, loc) for q in k if isinstance(q, tuple))

    # ---- conditions: list of (state, bool)
    def cond(self, st, fr, e):
        x = fr.f.x[e]
        k = x[0]
        if e in fr.vals and isinstance(fr.vals[e], Lin) and fr.vals[e].const is not None:
            return [(st, bool(fr.vals[e].const))]
        if e in fr.vals and k == "call":
            return self.decide(st, fr.vals[e])
        if k == "un" and x[3] == "!":
            return [(s, not v) for s, v in self.cond(st, fr, x[4])]
        if k == "cast":
            t = bare(fr.f.x[x[4]][2])
            if t == "bool" or t in INTS:
                return self.cond(st, fr, x[4])
        if k == "bin" and x[3] in ("&&", "||"):
            # both operands were branched on in earlier blocks: decided by the conditions recorded there
            out = []
            for s, v in self.cond(st, fr, x[4]):
                if v != (x[3] == "&&"):
                    out.append((s, v))
                else:
                    out += self.cond(s, fr, x[5])
            return out
        if k == "bin" and x[3] in ("==", "!=", "<", ">", "<=", ">="):
            a = self.ev(st, fr, x[4])
            b = self.ev(st, fr, x[5])
            return self.compare(st, x[3], a, b)
        return self.decide(st, self.ev(st, fr, e))

    def decide(self, st, v):
        if isinstance(v, Lin):
            return self.compare(st, "!=", v, N(0))
        if v in st.cond:
            return [(st, st.cond[v])]
        a, b = st, st.copy()
        if isinstance(v, tuple):
            a.cond[v] = True
            b.cond[v] = False
        return [(a, True), (b, False)]

    def compare(self, st, op, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = st.norm(a - b)
            if op in ("<", ">=", ">", "<="):
                if op in (">", "<="):
                    d = -d
                    op = "<" if op == ">" else ">="
                neg = op == ">="
                # d < 0 ?
                lo, hi = st.bounds(d)
                if hi < 0:
                    return [(st, not neg)]
                if lo >= 0:
                    return [(st, neg)]
                s1, s2 = st, st.copy()
                out = []
                if s1.assume_ge0(-d - 1):
                    out.append((s1, not neg))
                if s2.assume_ge0(d):
                    out.append((s2, neg))
                return out
            lo, hi = st.bounds(d)
            eq = op == "=="
            if lo > 0 or hi < 0:
                return [(st, not eq)]
            if lo == hi == 0:
                return [(st, eq)]
            out = []
            s = st.copy()
            if s.assume_ge0(d) and s.assume_ge0(-d):
                out.append((s, eq))
            for q in (-d - 1, d - 1):
                s = st.copy()
                if s.assume_ge0(q):
                    out.append((s, not eq))
            return out
        if isinstance(a, tuple) and isinstance(b, Lin) and a[0] == "ch":
            pass
        key = ("eq",) + tuple(sorted((a, b), key=repr))
        if a == b:
            return [(st, op in ("==", "<=", ">="))]
        if op in ("==", "!="):
            return [(s, v == (op == "==")) for s, v in self.decide(st, key)]
        return self.decide(st, ("cmp", op, a, b))

    # ---- values
    def lv(self, st, fr, e):
        x = fr.f.x[e]
        k = x[0]
        if k == "var":
            return fr.refs.get(x[3], ("v", fr.id, x[3]))
        if k == "fld":
            if len(x) > 5 and x[5]:
                b = self.ev(st, fr, x[3])
                b = b if isinstance(b, tuple) else ("?",)
            else:
                b = self.lv(st, fr, x[3])
            return ("fld", b, x[4].split("::")[-1])
        if k == "this":
            return fr.this
        if k == "cast":
            return self.lv(st, fr, x[4])
        if k in ("drf",):
            v = self.ev(st, fr, x[3])
            return v[1] if isinstance(v, tuple) and v[0] == "addr" else ("deref", v)
        if k == "idx":
            return ("elem", self.lv(st, fr, x[3]), self.ev(st, fr, x[4]))
        if k == "asg":
            return self.lv(st, fr, x[4])
        if k == "inc":
            return self.lv(st, fr, x[4])
        if k == "call":
            v = fr.vals.get(e)
            if isinstance(v, tuple) and v[0] == "loc":
                return v[1]
            return ("res", fr.id, e)
        return ("tmp", fr.id, e)

    def load(self, st, fr, loc, t, name="x"):
        if loc in st.env:
            return st.env[loc]
        if isstr(t) or isstream(t):
            v = self.unknown(st, name)
        elif bare(t) in INTS and bare(t) not in ("char", "signed char", "unsigned char", "bool"):
            v = self.sym(st, str(name), 0 if "unsigned" in t else -2147483648, INF if "long" in t else 2147483647)
        else:
            v = ("val", loc)
            return v
        st.env[loc] = v
        return v

    def ev(self, st, fr, e):
        if e in fr.vals:
            v = fr.vals[e]
            if isinstance(v, tuple) and v[0] == "loc":
                return self.load(st, fr, v[1], fr.f.x[e][2])
            return v
        return self.ev0(st, fr, e)

    def ev0(self, st, fr, e):
        x = fr.f.x[e]
        k = x[0]
        if k == "int":
            return N(x[3])
        if k == "str":
            s = x[3]
            return ("S", (("lit", s, N(len(s))),)) if s else ("S", ())
        if k == "null":
            return N(0)
        if k == "this":
            return ("this",) if fr.this == ("this",) else fr.this
        if k in ("var", "fld"):
            if k == "var" and fr.f.v.get(x[3], {}).get("n", "").split("::")[-1] == "npos":
                return N(2 ** 64 - 1)
            loc = self.lv(st, fr, e)
            nm = fr.f.v[x[3]]["n"] if k == "var" and x[3] in fr.f.v else (x[4].split("::")[-1] if k == "fld" else "g")
            return self.load(st, fr, loc, x[2], nm)
        if k == "cast":
            return self.ev(st, fr, x[4])
        if k == "un":
            v = self.ev(st, fr, x[4])
            if isinstance(v, Lin):
                if x[3] == "-":
                    return -v
                if x[3] == "+":
                    return v
            return ("un", x[3], v)
        if k == "bin":
            if x[3] in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
                return ("bexp", fr.id, e)
            a, b = self.ev(st, fr, x[4]), self.ev(st, fr, x[5])
            if isinstance(a, Lin) and isinstance(b, Lin):
                if x[3] == "+":
                    return a + b
                if x[3] == "-":
                    return a - b
                if x[3] == "*":
                    a, b = st.norm(a), st.norm(b)
                    if a.const is not None:
                        return b.scale(a.const)
                    if b.const is not None:
                        return a.scale(b.const)
                if x[3] == "<<" and st.norm(b).const is not None and 0 <= st.norm(b).const < 31:
                    return a.scale(2 ** st.norm(b).const)
                if x[3] == "%" and b.const:
                    n = st.norm(a)
                    if n.const is not None and n.const >= 0 and b.const > 0:
                        return N(n.const % b.const)
                    return self.sym(st, "mod", 0 if st.bounds(a)[0] >= 0 else -abs(b.const) + 1, abs(b.const) - 1)
                if x[3] == "/" and b.const and b.const > 0:
                    n = st.norm(a)
                    if n.const is not None and n.const >= 0:
                        return N(n.const // b.const)
                    lo, hi = st.bounds(a)
                    return self.sym(st, "div", lo // b.const if lo > -INF else -INF, hi // b.const if hi < INF else INF)
                return self.sym(st, "op")
            return ("op", x[3], a, b)
        if k == "idx":
            loc = self.lv(st, fr, e)
            return self.load(st, fr, loc, x[2], "e")
        if k == "drf":
            loc = self.lv(st, fr, e)
            return self.load(st, fr, loc, x[2], "d")
        if k == "adr":
            return ("addr", self.lv(st, fr, x[3]))
        if k == "inc" or k == "asg":
            loc = self.lv(st, fr, e)
            return self.load(st, fr, loc, x[2])
        if k == "cnd":
            r = [(s, v) for s, v in self.cond(st.copy(), fr, x[3])]
            vals = {self.key(self.ev(st, fr, x[4] if v else x[5])) for s, v in r}
            if len(vals) == 1:
                return self.ev(st, fr, x[4] if r[0][1] else x[5])
            va, vb = self.ev(st, fr, x[4]), self.ev(st, fr, x[5])
            if isinstance(va, Lin) and isinstance(vb, Lin):
                a, b = st.bounds(va), st.bounds(vb)
                return self.sym(st, "cnd", min(a[0], b[0]), max(a[1], b[1]))
            return ("cndv", fr.id, e)
        return ("opq", fr.id, e)

    def key(self, v):
        return v

    # ---- elements with effects
    def element(self, st, fr, e, depth):
        x = fr.f.x[e]
        k = x[0]
        if k in ("call", "ctor"):
            return self.call(st, fr, e, x, depth)
        if k == "asg":
            return self.assign(st, fr, e, x)
        if k == "inc":
            loc = self.lv(st, fr, x[4])
            old = self.ev(st, fr, x[4])
            if isinstance(old, Lin):
                fr.vals[e] = old if x[3].startswith("x") else None
                new = old + (1 if "++" in x[3] else -1)
                self.store(st, fr, loc, new, x[1])
                if not x[3].startswith("x"):
                    fr.vals.pop(e, None)
            else:
                self.store(st, fr, loc, ("?", loc, self.fresh()), x[1])
            self.forget(fr, loc)
            return [(st, fr)]
        if k == "cnd":
            out = []
            for s, v in self.cond(st, fr, x[3]):
                g = fr.copy()
                g.vals[e] = self.ev(s, g, x[4] if v else x[5])
                out.append((s, g))
            return out
        return [(st, fr)]

    def forget(self, fr, loc):
        fr.vals = {k: v for k, v in fr.vals.items() if not (isinstance(v, tuple) and v and v[0] == "cached")}

    def assign(self, st, fr, e, x):
        loc = self.lv(st, fr, x[4])
        lx = fr.f.x[x[4]]
        # character of a string
        if lx[0] == "call" and lx[4].endswith("operator[]") or (lx[0] == "call" and lx[4].endswith("::at")):
            oloc = self.lv(st, fr, lx[5])
            idx = self.ev(st, fr, lx[6][0])
            v = self.ev(st, fr, x[5])
            return [(s, fr.copy()) for s in self.setchar(st, fr, oloc, fr.f.x[lx[5]][2], idx, v, x[1])]
        if x[3] == "=":
            t = fr.f.x[x[4]][2]
            if bare(t) == "bool":
                out = []
                for s, b in self.cond(st, fr, x[5]):
                    self.store(s, fr, loc, N(1 if b else 0), x[1])
                    out.append((s, fr.copy()))
                return out
            v = self.ev(st, fr, x[5])
        else:
            a, b = self.ev(st, fr, x[4]), self.ev(st, fr, x[5])
            op = x[3][:-1]
            if isinstance(a, Lin) and isinstance(b, Lin) and op in ("+", "-"):
                v = a + b if op == "+" else a - b
            elif isinstance(a, Lin) and isinstance(b, Lin) and op == "*" and (st.norm(b).const is not None or st.norm(a).const is not None):
                v = a.scale(st.norm(b).const) if st.norm(b).const is not None else b.scale(st.norm(a).const)
            elif isinstance(a, Lin):
                v = self.sym(st, "op")
            else:
                v = ("?", loc, self.fresh())
        self.store(st, fr, loc, v, x[1])
        return [(st, fr)]

    def store(self, st, fr, loc, v, line):
        self.kill(st, loc)
        st.env[loc] = v

    def char_at(self, st, v, idx):
        """character of string value v at idx: ('chr', ...) or Lin"""
        segs = v[1]
        tot = slen(segs)
        i = st.norm(idx)
        if i.const is not None:
            off = N(0)
            for g in segs:
                d = st.norm(i - off)
                if d.const is None or d.const < 0:
                    break
                L = st.bounds(g[-1])
                if L[0] > d.const:
                    return self.segchar(st, g, d.const)
                if st.norm(g[-1]).const is None:
                    break
                off = off + g[-1]
        if segs and st.norm(tot - 1 - i).const == 0:
            g = segs[-1]
            if st.bounds(g[-1])[0] >= 1:
                if g[0] == "ch":
                    return g[1]
                if g[0] == "lit":
                    return N(ord(g[1][-1]))
                if g[0] == "sp":
                    return N(32)
                return ("chr", "last", g[:2])
        return ("chr", segs, i)

    def segchar(self, st, g, i):
        if g[0] == "ch":
            return g[1]
        if g[0] == "lit":
            return N(ord(g[1][i]))
        if g[0] == "sp":
            return N(32)
        if g[0] == "n8" and i == 0:
            lo, hi = st.bounds(g[1])
            if lo >= -999999 and hi <= 9999999:
                return N(32)
            return ("n8first", g[1])
        return ("chr", g, i)

    def compare_n8(self):
        pass

    def setchar(self, st, fr, loc, t, idx, v, line):
        val = self.load(st, fr, loc, t)
        i = st.norm(idx)
        if not (isinstance(val, tuple) and val[0] == "S") or i.const is None:
            st.env[loc] = ("S", (("mix", "set", slen(val[1]) if isinstance(val, tuple) and val[0] == "S" else self.sym(st, "len", 0)),))
            return [st]
        i = i.const
        segs = list(val[1])
        pos = 0
        for n, g in enumerate(segs):
            L = st.norm(g[-1])
            if pos == i:
                one = ("ch", v, N(1))
                if L.const == 0:
                    continue
                if g[0] == "n8" and st.bounds(g[-1]) == (8, 8):
                    segs[n:n + 1] = [one, ("n7", g[1], N(7))]
                    break
                if g[0] == "sp" and st.bounds(L)[0] >= 1:
                    segs[n:n + 1] = [one, ("sp", None, L - 1)]
                    break
                if st.bounds(L)[0] >= 1:
                    segs[n:n + 1] = [one, ("mix", ("tail", g[:2]), L - 1)]
                    break
                # empty or not
                out = []
                for s, b in self.compare(st, ">=", L, N(1)):
                    s.env[loc] = val
                    if b:
                        out += self.setchar(s, fr, loc, t, idx, v, line)
                    else:
                        s.env[loc] = ("S", tuple(segs[:n] + segs[n + 1:]))
                        out += self.setchar(s, fr, loc, t, idx, v, line)
                return out
            if L.const is None:
                segs = [("mix", "set", slen(val[1]))]
                break
            if pos < i < pos + L.const:
                segs = [("mix", "set", slen(val[1]))]
                break
            pos += L.const
        st.env[loc] = ("S", tuple(segs))
        return [st]

    # ---- strings
    def text(self, st, fr, e):
        """string value of an expression used as text; None if it is not text"""
        x = fr.f.x[e]
        t = bare(x[2])
        v = self.ev(st, fr, e)
        if isinstance(v, tuple) and v and v[0] == "S":
            return v[1]
        if t in ("char", "signed char", "unsigned char"):
            return (("ch", v, N(1)),)
        if isinstance(v, Lin) and t in INTS:
            return None
        return (("mix", "text", self.sym(st, "len", 0)),)

    def number(self, st, v):
        lo, hi = st.bounds(v)

        def width(n):
            return len(str(n))
        if lo <= -INF or hi >= INF:
            a, b = 1, 20
        else:
            ws = [width(lo), width(hi)]
            b = max(ws)
            a = 1 if lo <= 9 and hi >= 0 else min(ws)
        c = st.norm(v).const
        if c is not None:
            a = b = width(c)
        return ("num", v, self.sym(st, "digits", a, b) if a != b else N(a))

    def substr(self, st, fr, loc, val, start, cnt, line):
        """list of (state, value)"""
        segs = val[1]
        tot = slen(segs)
        start = st.norm(start)
        if len(segs) > 1 and not (start.const == 0 and False):
            # freeze a composed string so that stretches of it can be named
            n = self.freeze(st, fr, loc, segs)
            segs = (("src", n, N(0), tot),)
            if loc is not None:
                st.env[loc] = ("S", segs)
        rest = tot - start
        if st.bounds(rest)[0] < 0:
            if st.bounds(rest)[1] < 0:
                return []             # throws
            w = st.witness(-rest - 1)
            self.fault(st, fr, line, "substr starts behind the end of the text", w)
            if not st.assume_ge0(rest):
                return []
        out = []
        if cnt is None:
            cases = [(st, rest)]
        else:
            cases = []
            for s, full in self.compare(st, "<=", cnt, rest):
                cases.append((s, cnt if full else rest))
        for s, n in cases:
            n = s.norm(n)
            if n.const == 0 or not segs:
                out.append((s, ("S", ())))
                continue
            g = segs[0]
            if g[0] == "src":
                r = ("src", g[1], s.norm(g[2] + start), n)
            elif g[0] == "sp":
                r = ("sp", None, n)
            elif g[0] == "lit" and start.const is not None and n.const is not None:
                r = ("lit", g[1][start.const:start.const + n.const], n)
            else:
                r = ("mix", ("sub", g[:2]), n)
                nm = self.freeze(s, fr, loc, segs)
                r = ("src", nm, start, n)
                if loc is not None:
                    s.env[loc] = ("S", (("src", nm, N(0), tot),))
            out.append((s, ("S", (r,))))
        return out

    def freeze(self, st, fr, loc, segs):
        key = ("frz", fr.f.short, loc[2] if loc and loc[0] == "v" else repr(loc)[:40])
        st.ghost[("def", key)] = ("segs", segs)
        st.ghost[("copied", key)] = N(0)
        return key

    def fault(self, st, fr, line, what, w=None):
        pass

    def append(self, st, fr, loc, t, add, line):
        old = self.load(st, fr, loc, t)
        if not (isinstance(old, tuple) and old[0] == "S"):
            old = self.unknown(st, "s")
        add = self.on_append(st, fr, loc, old, add, line)
        add = tuple(g for g in add if st.norm(g[-1]).const != 0)
        st.env[loc] = ("S", self.simplify(st, old[1] + add))
        self.kill(st, loc)

    def simplify(self, st, segs):
        out = []
        for g in segs:
            if out and g[0] == "sp" and out[-1][0] == "sp":
                out[-1] = ("sp", None, out[-1][-1] + g[-1])
                continue
            out.append(g)
        if len(out) > 24:
            return (("mix", "long", slen(out)),)
        return tuple(out)

    def setstr(self, st, fr, loc, t, val, line):
        old = self.load(st, fr, loc, t)
        self.on_overwrite(st, fr, loc, old, val, line)
        self.kill(st, loc)
        st.env[loc] = ("S", tuple(g for g in val if st.norm(g[-1]).const != 0))

    def pad(self, st, fr, n, line):
        """blanks (or another character) repeated n times: n must not be negative"""
        n = st.norm(n)
        lo, hi = st.bounds(n)
        if lo < 0:
            w = st.witness(-n - 1)
            self.fault(st, fr, line, "pads by a negative count", w)
            if not st.assume_ge0(n):
                return None
        return n

    # ---- calls
    def call(self, st, fr, e, x, depth):
        if x[0] == "ctor":
            sig, qn, args, modes, obj, op = x[3], x[4], x[5], x[6], -1, ""
        else:
            sig, qn, obj, args, op, modes = x[3], x[4], x[5], x[6], x[8], x[9]
        short = qn.split("::")[-1]
        line = x[1]
        r = self.on_call(st, fr, e, x, short, qn, obj, args, op)
        if r is not None:
            return r
        r = self.builtin(st, fr, e, x, sig, short, qn, obj, args, op, modes, line)
        if r is not None:
            return r
        f = self.P.funcs.get(sig)
        if f is not None and self.inline(f):
            vals = []
            for i, a in enumerate(args):
                m = modes[i] if i < len(modes) else "v"
                pt = f.params[i]["t"] if i < len(f.params) else ""
                if m in ("r", "c") or pt.rstrip().endswith("&"):
                    loc = self.lv(st, fr, a)
                    if loc[0] in ("tmp", "res"):
                        st.env[loc] = self.ev(st, fr, a)
                    vals.append(("ref", loc))
                else:
                    vals.append(("val", self.ev(st, fr, a)))
            this = fr.this
            if obj is not None and obj >= 0:
                ot = fr.f.x[obj]
                this = self.ev(st, fr, obj) if ot[2].rstrip().endswith("*") else self.lv(st, fr, obj)
            out = []
            for s, v in self.enter(f, st, this, vals, depth + 1):
                g = fr.copy()
                if v is not None:
                    g.vals[e] = v
                out.append((s, g))
            return out
        # unknown: reference arguments and members of this may change
        for i, a in enumerate(args):
            if i < len(modes) and modes[i] in ("r", "p"):
                loc = self.lv(st, fr, a)
                if loc in st.env:
                    self.havoc(st, fr, loc, fr.f.x[a][2])
        fr.vals[e] = self.result(st, fr, e, x)
        return [(st, fr)]

    def result(self, st, fr, e, x):
        t = bare(x[2])
        if isstr(x[2]):
            return self.unknown(st, "r%d" % e)
        if t == "bool":
            return ("b", fr.id, e, self.fresh())
        if t in INTS and t != "char":
            return self.sym(st, "r", 0 if "unsigned" in t else -2147483648, INF if "long" in t else 2147483647)
        return ("r", fr.id, e, self.fresh())

    def havoc(self, st, fr, loc, t):
        v = st.env.get(loc)
        self.kill(st, loc)
        if isinstance(v, tuple) and v and v[0] == "S":
            st.env[loc] = self.unknown(st, "h")
        elif isinstance(v, Lin):
            st.env[loc] = self.sym(st, "h")
        elif loc in st.env:
            st.env[loc] = ("?", loc, self.fresh())

    def builtin(self, st, fr, e, x, sig, short, qn, obj, args, op, modes, line):
        F = fr.f
        if qn.startswith("std::basic_string::"):
            if x[0] == "ctor":
                if not args:
                    fr.vals[e] = ("S", ())
                    return [(st, fr)]
                t0 = F.x[args[0]][2]
                if len(args) >= 2 and bare(t0) in INTS and bare(F.x[args[1]][2]) == "char":
                    n = self.pad(st, fr, self.ev(st, fr, args[0]), line)
                    if n is None:
                        return []
                    c = self.ev(st, fr, args[1])
                    fr.vals[e] = ("S", (self.run_of(c, n),))
                    return [(st, fr)]
                if len(args) >= 2 and isstr(t0) and bare(F.x[args[1]][2]) in INTS:
                    cnt = self.ev(st, fr, args[2]) if len(args) > 2 and bare(F.x[args[2]][2]) in INTS else None
                    out = []
                    for s, v in self.substr(st, fr, self.lv(st, fr, args[0]), self.load(st, fr, self.lv(st, fr, args[0]), "std::basic_string<char>"), self.ev(st, fr, args[1]), cnt, line):
                        g = fr.copy()
                        g.vals[e] = v
                        out.append((s, g))
                    return out
                tx = self.text(st, fr, args[0])
                fr.vals[e] = ("S", tx) if tx is not None else self.unknown(st, "c")
                return [(st, fr)]
            loc = self.lv(st, fr, obj) if obj is not None and obj >= 0 else None
            ox = F.x[obj]
            if ox[2].rstrip().endswith("*"):
                pv = self.ev(st, fr, obj)
                loc = pv[1] if isinstance(pv, tuple) and pv[0] == "addr" else ("deref", pv)
            t = "std::basic_string<char>"
            tmpval = None
            if loc[0] in ("tmp", "res"):
                tmpval = self.ev(st, fr, obj)
                st.env[loc] = tmpval if isinstance(tmpval, tuple) and tmpval[0] == "S" else self.unknown(st, "t")
            val = self.load(st, fr, loc, t, "str")
            if not (isinstance(val, tuple) and val and val[0] == "S"):
                val = self.unknown(st, "str")
                st.env[loc] = val
            if short in ("length", "size"):
                fr.vals[e] = st.norm(slen(val[1]))
                return [(st, fr)]
            if short == "empty":
                out = []
                for s, b in self.compare(st, "==", slen(val[1]), N(0)):
                    g = fr.copy()
                    g.vals[e] = N(1 if b else 0)
                    out.append((s, g))
                return out
            if short in ("operator+=", "append", "push_back"):
                if short == "append" and len(args) == 2 and bare(F.x[args[0]][2]) in INTS:
                    n = self.pad(st, fr, self.ev(st, fr, args[0]), line)
                    if n is None:
                        return []
                    add = (self.run_of(self.ev(st, fr, args[1]), n),)
                elif short == "append" and len(args) == 3 and isstr(F.x[args[0]][2]):
                    l0 = self.lv(st, fr, args[0])
                    out = []
                    for s, v in self.substr(st, fr, l0, self.load(st, fr, l0, t), self.ev(st, fr, args[1]), self.ev(st, fr, args[2]), line):
                        g = fr.copy()
                        self.append(s, g, loc, t, v[1], line)
                        g.vals[e] = ("loc", loc)
                        out.append((s, g))
                    return out
                elif len(args) == 1:
                    self.argloc = self.lv(st, fr, args[0])
                    add = self.text(st, fr, args[0])
                    if add is None:
                        add = (("ch", self.ev(st, fr, args[0]), N(1)),)
                else:
                    add = (("mix", "app", self.sym(st, "len", 0)),)
                self.append(st, fr, loc, t, add, line)
                self.argloc = None
                fr.vals[e] = ("loc", loc)
                return [(st, fr)]
            if short == "insert" and len(args) == 3 and bare(F.x[args[0]][2]) in INTS and st.norm(self.ev(st, fr, args[0])).const == 0 and bare(F.x[args[1]][2]) in INTS:
                n = self.pad(st, fr, self.ev(st, fr, args[1]), line)
                if n is None:
                    return []
                st.env[loc] = ("S", self.simplify(st, (self.run_of(self.ev(st, fr, args[2]), n),) + val[1]))
                fr.vals[e] = ("loc", loc)
                return [(st, fr)]
            if short == "resize":
                n = self.ev(st, fr, args[0])
                c = self.ev(st, fr, args[1]) if len(args) > 1 else N(0)
                out = []
                L = slen(val[1])
                for s, b in self.compare(st, ">=", n, L):
                    g = fr.copy()
                    if b:
                        add = (self.run_of(c, s.norm(n - L)),)
                        self.append(s, g, loc, t, add, line)
                    else:
                        for s2, v in self.substr(s, g, loc, val, N(0), n, line):
                            g2 = g.copy()
                            self.setstr(s2, g2, loc, t, v[1], line)
                            out.append((s2, g2))
                        continue
                    out.append((s, g))
                return out
            if short == "erase" and args and bare(F.x[args[0]][2]) in INTS and bare(x[2]) not in INTS and "iterator" not in x[2]:
                pos = self.ev(st, fr, args[0])
                n = self.ev(st, fr, args[1]) if len(args) > 1 and F.x[args[1]][0] != "opq" else None
                if n is not None and isinstance(n, Lin) and n.const is not None and n.const >= 2 ** 62:
                    n = None
                if isinstance(pos, Lin) and (n is None or isinstance(n, Lin)):
                    out = []
                    for s, v in self.substr(st, fr, loc, val, N(0), pos, line):
                        rest = [(s, ("S", ()))] if n is None else self.substr(s, fr, loc, val, pos + n, None, line)
                        for s2, w in rest:
                            g = fr.copy()
                            self.setstr(s2, g, loc, t, self.simplify(s2, v[1] + w[1]), line)
                            g.vals[e] = ("loc", loc)
                            out.append((s2, g))
                    return out
            if short in ("operator=", "assign"):
                if short == "assign" and len(args) >= 2 and isstr(F.x[args[0]][2]) and bare(F.x[args[1]][2]) in INTS:
                    cnt = self.ev(st, fr, args[2]) if len(args) > 2 and F.x[args[2]][0] != "opq" else None
                    if isinstance(cnt, Lin) and cnt.const is not None and cnt.const >= 2 ** 62:
                        cnt = None
                    l0 = self.lv(st, fr, args[0])
                    out = []
                    for s, v in self.substr(st, fr, l0, self.load(st, fr, l0, t), self.ev(st, fr, args[1]), cnt, line):
                        g = fr.copy()
                        self.setstr(s, g, loc, t, v[1], line)
                        g.vals[e] = ("loc", loc)
                        out.append((s, g))
                    return out
                if short == "assign" and len(args) == 2 and bare(F.x[args[0]][2]) in INTS:
                    n = self.pad(st, fr, self.ev(st, fr, args[0]), line)
                    if n is None:
                        return []
                    v = (self.run_of(self.ev(st, fr, args[1]), n),)
                else:
                    v = self.text(st, fr, args[0])
                    if v is None:
                        v = (("ch", self.ev(st, fr, args[0]), N(1)),)
                self.setstr(st, fr, loc, t, v, line)
                fr.vals[e] = ("loc", loc)
                return [(st, fr)]
            if short == "clear" or (short == "erase" and not args):
                self.setstr(st, fr, loc, t, (), line)
                return [(st, fr)]
            if short == "substr":
                start = self.ev(st, fr, args[0]) if args else N(0)
                cnt = self.ev(st, fr, args[1]) if len(args) > 1 and F.x[args[1]][0] != "opq" else None
                if cnt is not None and not isinstance(cnt, Lin):
                    cnt = None
                if cnt is not None and cnt.const is not None and cnt.const >= 2 ** 62:
                    cnt = None
                out = []
                for s, v in self.substr(st, fr, loc, val, start, cnt, line):
                    g = fr.copy()
                    g.vals[e] = v
                    out.append((s, g))
                return out
            if short in ("operator[]", "at"):
                i = self.ev(st, fr, args[0])
                c = self.char_at(st, val, i)
                fr.vals[e] = c
                return [(st, fr)]
            if short in ("back", "front"):
                fr.vals[e] = self.char_at(st, val, slen(val[1]) - 1 if short == "back" else N(0))
                return [(st, fr)]
            if short in ("c_str", "data"):
                fr.vals[e] = val
                return [(st, fr)]
            if short in ("begin", "end", "rbegin", "rend"):
                fr.vals[e] = ("sit", short, loc)
                return [(st, fr)]
            if short in ("find_first_not_of", "find", "find_first_of", "find_last_not_of", "rfind"):
                L = slen(val[1])
                # npos, or a position within the text
                s2 = st.copy()
                g2 = fr.copy()
                fr.vals[e] = N(2 ** 64 - 1)
                r = self.sym(s2, "pos", 0)
                ok = s2.assume_ge0(L - 1 - r)
                g2.vals[e] = r
                return [(st, fr)] + ([(s2, g2)] if ok else [])
            if not sig.endswith("const"):
                self.setstr(st, fr, loc, t, (("mix", short, self.sym(st, "len", 0)),), line)
            fr.vals[e] = ("loc", loc) if isstr(x[2]) else self.result(st, fr, e, x)
            return [(st, fr)]
        if op == "*" and "reverse_iterator" in qn and obj is not None and obj >= 0:
            v = self.ev(st, fr, obj)
            if isinstance(v, tuple) and v and v[0] == "sit" and v[1] == "rbegin" and v[2] in st.env:
                w = st.env[v[2]]
                fr.vals[e] = self.char_at(st, w, slen(w[1]) - 1)
                return [(st, fr)]
        if qn == "std::operator+" and len(args) == 2 and isstr(x[2]):
            a, b = self.text(st, fr, args[0]), self.text(st, fr, args[1])
            fr.vals[e] = ("S", self.simplify(st, (a or ()) + (b or ())))
            return [(st, fr)]
        if short == "operator<<" and ("basic_ostream" in qn or qn == "std::operator<<"):
            dest = obj if obj is not None and obj >= 0 else args[0]
            val = args[0] if obj is not None and obj >= 0 else args[1]
            loc = self.lv(st, fr, dest)
            fr.vals[e] = ("loc", loc)
            if loc in st.env and isinstance(st.env[loc], tuple) and st.env[loc] and st.env[loc][0] == "S":
                vx = F.x[val]
                v = self.ev(st, fr, val)
                w = st.ghost.pop(("setw", loc), None)
                if isinstance(v, tuple) and v and v[0] == "setw":
                    st.ghost[("setw", loc)] = v[1]
                    return [(st, fr)]
                if isinstance(v, Lin) and bare(vx[2]) in INTS and bare(vx[2]) not in ("char", "unsigned char", "signed char", "bool"):
                    add = (self.number(st, v),)
                else:
                    add = self.text(st, fr, val)
                    if add is None:
                        add = (("mix", "o", self.sym(st, "len", 0)),)
                if w is not None:
                    out = []
                    L = slen(add)
                    for s, b in self.compare(st, ">", w, L):
                        a2 = ((("sp", None, s.norm(w - L)),) + add) if b else add
                        g = fr.copy()
                        self.append(s, g, loc, "std::basic_string<char>", a2, line)
                        out.append((s, g))
                    return out
                self.append(st, fr, loc, "std::basic_string<char>", add, line)
                return [(st, fr)]
            v = None
            vx = F.x[val]
            if isstr(vx[2]) or bare(vx[2]) in ("char",) or vx[0] == "str" or "char" in vx[2]:
                self.argloc = self.lv(st, fr, val)
                v = self.text(st, fr, val)
            self.on_stream(st, fr, loc, v, line)
            self.argloc = None
            return [(st, fr)]
        if short == "setw" and args:
            fr.vals[e] = ("setw", self.ev(st, fr, args[0]))
            return [(st, fr)]
        if "stringstream" in qn and short == "str":
            loc = self.lv(st, fr, obj)
            if args:
                st.env[loc] = ("S", self.text(st, fr, args[0]) or ())
            else:
                v = st.env.get(loc)
                fr.vals[e] = v if isinstance(v, tuple) and v and v[0] == "S" else self.unknown(st, "o")
            return [(st, fr)]
        if "stringstream" in qn and x[0] == "ctor":
            fr.vals[e] = ("S", ())
            return [(st, fr)]
        if short in ("min", "max") and qn.startswith("std::") and len(args) == 2:
            a, b = self.ev(st, fr, args[0]), self.ev(st, fr, args[1])
            if isinstance(a, Lin) and isinstance(b, Lin):
                out = []
                for s, le in self.compare(st, "<=", a, b):
                    g = fr.copy()
                    g.vals[e] = (a if le else b) if short == "min" else (b if le else a)
                    out.append((s, g))
                return out
        if short in ("good", "fail", "eof", "bad") and obj is not None:
            fr.vals[e] = ("b", fr.id, e, self.fresh())
            return [(st, fr)]
        return None

    def run_of(self, c, n):
        if isinstance(c, Lin) and c.const == 32:
            return ("sp", None, n)
        if n.const == 1:
            return ("ch", c, N(1))
        return ("rep", c, n)

    argloc = None
