"""A small abstract interpreter over the extracted control flow graphs whose
value domain is polynomials with rational coefficients over atoms: the initial
contents of locations, uninterpreted applications of library functions, and
truth values of comparisons.  A polynomial is kept in normal form, so two
expressions which are equal by the ring laws are the same value; the domain
is exact (nothing is run, sampled or handed to a solver).  Branches on a value
which is not constant fork; loops are unrolled while their condition is
constant.  Anything else raises Undecided."""
import re
from fractions import Fraction


class Undecided(Exception):
    pass


class Poly:
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = {k: c for k, c in m.items() if c}
        self._h = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(((k, c) for k, c in self.m.items()), key=repr))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __add__(self, o):
        r = dict(self.m)
        for k, c in o.m.items():
            r[k] = r.get(k, 0) + c
        return Poly(r)

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k, c in self.m.items():
            for l, d in o.m.items():
                e = dict(k)
                for a, n in l:
                    e[a] = e.get(a, 0) + n
                # atoms for square roots: the exponent of a root is reduced to its argument
                extra = None
                for a in list(e):
                    if a[0] == "sqrt" and e[a] not in (-1, 0, 1) and isinstance(a[1], Poly):
                        n = e.pop(a)
                        q, rem = divmod(n, 2)
                        if q > 0:
                            for _ in range(q):
                                extra = a[1] if extra is None else extra * a[1]
                            if rem:
                                e[a] = rem
                        else:
                            e[a] = n
                kk = tuple(sorted(((a, n) for a, n in e.items() if n), key=repr))
                if extra is None:
                    r[kk] = r.get(kk, 0) + c * d
                else:
                    for k2, c2 in (Poly({kk: c * d}) * extra).m.items():
                        r[k2] = r.get(k2, 0) + c2
        return Poly(r)

    def const(self):
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def atom(self):
        """the atom this polynomial consists of, if any"""
        if len(self.m) == 1:
            (k, c), = self.m.items()
            if c == 1 and len(k) == 1 and k[0][1] == 1:
                return k[0][0]
        return None

    def lead(self):
        return self.key()[0][1] if self.m else Fraction(1)

    def atoms(self):
        out = set()
        for k in self.m:
            for a, n in k:
                out.add(a)
        return out

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()})

    def inv(self):
        if not self.m:
            raise Undecided("division by zero")
        if len(self.m) == 1:
            (k, c), = self.m.items()
            return Poly({tuple((a, -n) for a, n in k): 1 / c})
        l = self.lead()
        return Poly({((("sum", self.scale(1 / l)), -1),): 1 / l})

    def subst(self, f):
        """replace atoms: f(atom) gives a Poly or None"""
        r = Poly({})
        for k, c in self.m.items():
            t = K(c)
            for a, n in k:
                v = f(a)
                if v is None:
                    t = t * Poly({((a, n),): Fraction(1)})
                else:
                    for _ in range(abs(n)):
                        t = t * (v if n > 0 else v.inv())
            r = r + t
        return r

    def __repr__(self):
        return show(self)


def K(c):
    return Poly({(): Fraction(c)})


def A(*a):
    return Poly({((tuple(a), 1),): Fraction(1)})


ZERO = K(0)
ONE = K(1)


NAMES = {}
FAULTS = set()          # constant indices outside of their array, wherever an interpretation met one


def name(l):
    if l in NAMES:
        return NAMES[l]
    if not isinstance(l, tuple):
        return str(l)
    if l[0] == "fld":
        q = l[2].split("::")[-1]
        b = name(l[1])
        return q if b == "*this" else b + "." + q
    if l[0] == "elem":
        return "%s[%s]" % (name(l[1]), l[2])
    if l[0] == "deref":
        return "*" + name(l[1])
    if l[0] == "init":
        return name(l[1])
    if l[0] in ("v", "par", "tmp"):
        return str(l[-1] if l[0] != "v" else l[3])
    if l[0] in ("this", "null"):
        return l[0]
    if l[0] == "app":
        return "%s(%s)" % (str(l[1]).split("::")[-1], ",".join(name(x) for x in l[2:]))
    if l[0] in ("lt", "eq"):
        return "(%s %s 0)" % (l[1], "<" if l[0] == "lt" else "==")
    return str(l[0]) + "(" + ",".join(name(x) for x in l[1:]) + ")"


def show(p):
    if not p.m:
        return "0"
    out = []
    for k, c in p.key():
        t = "*".join(name(a) + ("^%d" % n if n != 1 else "") for a, n in k)
        if c.denominator > 10 ** 6 or abs(c) > 10 ** 9:
            c = "%g" % float(c)
        if not t:
            out.append(str(c))
        else:
            out.append(t if c == 1 else "-" + t if c == -1 else "%s*%s" % (c, t))
    return " + ".join(out)


def leaves(P, t, loc):
    """locations of the scalars of an object of type t"""
    from checks.attrs import value_class
    m = re.match(r"(.*?)\s*((?:\[\d+\])+)$", t)
    if m:
        dims = re.findall(r"\[(\d+)\]", m.group(2))
        rest = "".join("[%s]" % d for d in dims[1:])
        return [x for i in range(int(dims[0])) for x in leaves(P, (m.group(1) + rest).strip(), ("elem", loc, i))]
    if value_class(P, t):
        return [x for q, f in P.fields(t, True) for x in leaves(P, f, ("fld", loc, q))]
    return [loc]


def is_int(t):
    t = t.replace("const ", "").strip()
    return re.match(r"(unsigned |signed )?(int|long|short|char|size_t|unsigned|long long)( int| long)*$", t) is not None


def bare(t):
    t = re.sub(r"\bconst\b", "", t).replace("&", "").strip()
    return re.sub(r"\s+", " ", t)


class State:
    __slots__ = ("mem", "cond", "n", "log", "given")

    def __init__(self):
        self.mem = {}           # location -> Poly
        self.cond = {}          # comparison atom -> bool
        self.n = 0
        self.log = ()           # calls made to things which were not looked into
        self.given = ()         # for each of them, the contents of the objects whose address was passed

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.cond = dict(self.cond)
        s.n = self.n
        s.log = self.log
        s.given = self.given
        return s


class Frame:
    __slots__ = ("f", "this", "env", "vals", "id")

    def __init__(self, f, this, i):
        self.f = f
        self.this = this
        self.env = {}
        self.vals = {}
        self.id = i

    def copy(self):
        g = Frame(self.f, self.this, self.id)
        g.env = dict(self.env)
        g.vals = dict(self.vals)
        return g


class Interp:
    """run(func, this location, argument locations/values) -> list of (state, result, frame)"""
    max_paths = 400
    max_steps = 6000
    max_depth = 12

    def __init__(self, P, inline=None):
        self.P = P
        self.leaves = lambda t, l: leaves(P, t, l)
        self.inline = inline or (lambda f, this: True)
        self.steps = 0
        self.seen = set()
        self.faults = FAULTS
        self.uid = 0

    # ---- memory
    def load(self, st, loc):
        v = st.mem.get(loc)
        if v is not None:
            return v
        p = loc
        while isinstance(p, tuple) and p[0] in ("fld", "elem"):
            p = p[1]
            if ("sym", p) in st.mem:
                raise Undecided("load from an array stored through a symbolic index")
        if loc[0] in ("elem",) and not isinstance(loc[2], int):
            for k in st.mem:
                if isinstance(k, tuple) and k[0] == "elem" and k[1] == loc[1]:
                    raise Undecided("symbolic index")
        if loc[0] in ("v", "tmp") or (p[0] in ("v", "tmp") and not self.known(st, p)):
            return A("undef", loc)
        return A("init", loc)

    def known(self, st, p):
        return False

    def store(self, st, loc, v):
        if loc[0] == "elem" and not isinstance(loc[2], int):
            raise Undecided("store through a symbolic index")
        st.mem[loc] = v

    def copy(self, st, t, src, dst):
        vals = [self.load(st, l) for l in self.leaves(bare(t), src)]
        for l, v in zip(self.leaves(bare(t), dst), vals):
            self.store(st, l, v)

    def isobj(self, t):
        t = bare(t)
        if t.endswith("*"):
            return False
        return "[" in t or t in self.P.classes or t.startswith("std::")

    def valued(self, t):
        from checks.attrs import value_class
        t = bare(t)
        return "[" in t or value_class(self.P, t)

    # ---- lvalues / rvalues
    def lv(self, st, fr, e):
        r = self.ev(st, fr, e)
        if isinstance(r, tuple):
            return r
        a = r.atom()
        raise Undecided("not an lvalue: %s" % (fr.f.x[e][0]))

    def rv(self, st, fr, e):
        r = self.ev(st, fr, e)
        if isinstance(r, Poly):
            return r
        t = fr.f.x[e][2]
        if "[" in t and not t.endswith("*"):
            return A("addr", r)                 # decay
        if self.isobj(t):
            return A("obj", r)
        return self.load(st, r)

    def pointee(self, st, p):
        a = p.atom()
        if a is not None and a[0] == "addr":
            return a[1]
        if a is not None:
            return ("deref", a)
        # pointer arithmetic on one base
        base = None
        off = ZERO
        for k, c in p.m.items():
            if len(k) == 1 and c == 1 and k[0][1] == 1 and (k[0][0][0] == "addr" or k[0][0] in self.ptrs):
                if base is not None:
                    raise Undecided("pointer arithmetic")
                base = k[0][0]
            else:
                off = off + Poly({k: c})
        if base is None:
            raise Undecided("dereference of %s" % show(p))
        b = base[1] if base[0] == "addr" else ("deref", base)
        if b[0] == "elem":
            return self.elem(b[1], (K(b[2]) if isinstance(b[2], int) else b[2]) + off)
        return self.elem(b, off)

    ptrs = ()

    def elem(self, base, i):
        c = i.const()
        if c is not None and c.denominator == 1:
            return ("elem", base, int(c))
        return ("elem", base, i)

    def ev(self, st, fr, e):
        if e in fr.vals:
            return fr.vals[e]
        r = self.ev0(st, fr, e)
        fr.vals[e] = r
        return r

    def boolean(self, st, v):
        """Poly which is 0 or 1, from a value used as a condition"""
        c = v.const()
        if c is not None:
            return ONE if c else ZERO
        a = v.atom()
        if a is not None and a[0] in ("lt", "eq", "bool"):
            return v
        if a is not None and a[0] in ("addr", "this"):
            return ONE
        w = ONE - v
        a = w.atom()
        if a is not None and a[0] in ("lt", "eq", "bool"):
            return v
        if len(v.m) == 1:
            return ONE - self.eq(v)
        return ONE - self.eq(v)

    def eq(self, d):
        c = d.const()
        if c is not None:
            return ONE if c == 0 else ZERO
        if len(d.m) == 1:
            (k, c), = d.m.items()
            if len(k) == 1 and k[0][0][0] in ("addr", "this"):
                return ZERO
            a = d.atom()
            if a is not None and a[0] in ("lt", "eq", "bool"):
                return ONE - d
        return A("eq", d.scale(1 / d.lead()))

    def lt(self, d):
        c = d.const()
        if c is not None:
            return ONE if c < 0 else ZERO
        l = abs(d.lead())
        return A("lt", d.scale(1 / l))

    def arith(self, st, fr, op, a, b, t):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if is_int(t):
                x, y = a.const(), b.const()
                if x is not None and y:
                    return K(int(x / y))
                return A("app", "idiv", a, b)
            return a * b.inv()
        if op in ("<<", ">>", "%", "&", "|", "^"):
            x, y = a.const(), b.const()
            if op == "<<" and y is not None:
                return a.scale(2 ** int(y))
            if x is not None and y is not None and x.denominator == y.denominator == 1:
                x, y = int(x), int(y)
                if op == "%" and y == 0:
                    raise Undecided("modulo zero")
                return K({"<<": x << y, ">>": x >> y, "%": x % y if y else 0, "&": x & y, "|": x | y, "^": x ^ y}[op])
            return A("app", op, a, b)
        if op in ("==", "!="):
            r = self.eq(a - b)
            return r if op == "==" else ONE - r
        if op == "<":
            return self.lt(a - b)
        if op == ">":
            return self.lt(b - a)
        if op == "<=":
            return ONE - self.lt(b - a)
        if op == ">=":
            return ONE - self.lt(a - b)
        raise Undecided("operator " + op)

    def ev0(self, st, fr, e):
        x = fr.f.x[e]
        k = x[0]
        if k in ("int", "flt"):
            v = x[3]
            return K(Fraction(repr(v)) if isinstance(v, float) else Fraction(v))
        if k == "str":
            return A("str", x[3] if len(x) > 3 else "")
        if k == "null":
            return ZERO
        if k == "this":
            if fr.this[0] == "deref" and fr.this[1] == ("this",):
                return A("this")
            return A("addr", fr.this)
        if k == "var":
            if x[3] in fr.env:
                return fr.env[x[3]]
            return ("v", fr.id, x[3], fr.f.v[x[3]]["n"] if x[3] in fr.f.v else "?")
        if k == "fld":
            if len(x) > 5 and x[5]:
                base = self.pointee(st, self.rv(st, fr, x[3]))
            else:
                base = self.lv(st, fr, x[3])
            if "(anonymous union" in fr.f.x[x[3]][2]:
                NAMES.setdefault(base, x[4].split("::")[-1])
                return base                     # the members of a union share one location
            if "(anonymous" in x[2]:
                return ("fld", base, x[2])
            return ("fld", base, x[4])
        if k == "idx":
            bt = fr.f.x[x[3]][2]
            i = self.rv(st, fr, x[4])
            if "[" in bt and not bt.endswith("*"):
                m = re.search(r"\[(\d+)\]", bt)
                if m and i.const() is not None and not 0 <= i.const() < int(m.group(1)):
                    self.faults.add((fr.f.sig, fr.f.file, x[1], "index %s of an array of %s" % (i.const(), m.group(1))))
                return self.elem(self.lv(st, fr, x[3]), i)
            p = self.rv(st, fr, x[3])
            a = p.atom()
            if a is not None and a[0] == "addr" and a[1][0] == "elem":
                b = a[1]
                return self.elem(b[1], (K(b[2]) if isinstance(b[2], int) else b[2]) + i)
            b = self.pointee(st, p)
            if i.const() == 0 and b[0] == "deref":
                return b
            return self.elem(b, i)
        if k == "drf":
            p = self.rv(st, fr, x[3])
            a = p.atom()
            if a is not None and a[0] == "addr" and a[1][0] == "arr":
                return self.elem(a[1][1], ZERO)
            return self.pointee(st, p)
        if k == "adr":
            l = self.lv(st, fr, x[3])
            if l == ("deref", ("this",)):
                return A("this")
            if l[0] == "deref":
                return Poly({((l[1], 1),): Fraction(1)})
            return A("addr", l)
        if k == "un":
            v = self.rv(st, fr, x[4])
            if x[3] == "-":
                return -v
            if x[3] == "+":
                return v
            if x[3] == "!":
                return ONE - self.boolean(st, v)
            raise Undecided("operator " + x[3])
        if k == "bin":
            if x[3] in ("&&", "||"):
                a = self.truth(st, self.rv(st, fr, x[4])) if x[4] in fr.vals else None
                if a is None:
                    raise Undecided("logical operator")
                if a != (x[3] == "&&"):
                    return K(int(a))
                return self.boolean(st, self.rv(st, fr, x[5]))
            if x[3] == ",":
                return self.ev(st, fr, x[5])
            return self.arith(st, fr, x[3], self.rv(st, fr, x[4]), self.rv(st, fr, x[5]), x[2])
        if k == "cast":
            r = self.ev(st, fr, x[4])
            if isinstance(r, tuple) and (self.isobj(x[2]) or x[3] in ("lvalue",)):
                return r
            v = self.rv(st, fr, x[4])
            src = fr.f.x[x[4]][2]
            if bare(x[2]) == "bool" and bare(src) != "bool":
                return self.boolean(st, v)
            if is_int(x[2]) and bare(src) in ("double", "float"):
                c = v.const()
                return K(int(c)) if c is not None else A("app", "trunc", v)
            return v
        if k == "cnd":
            a = self.truth(st, self.rv(st, fr, x[3])) if x[3] in fr.vals else None
            if a is None:
                raise Undecided("conditional expression")
            return self.ev(st, fr, x[4] if a else x[5])
        if k == "asg":
            dst = self.lv(st, fr, x[4])
            if self.isobj(x[2]):
                if x[3] != "=":
                    raise Undecided("assignment")
                self.assign(st, fr, x[2], dst, x[5])
                return dst
            v = self.rv(st, fr, x[5])
            if x[3] != "=":
                v = self.arith(st, fr, x[3][:-1], self.load(st, dst), v, fr.f.x[x[4]][2])
            t = fr.f.x[x[4]][2]
            if is_int(t) and bare(fr.f.x[x[5]][2]) in ("double", "float") and v.const() is None:
                v = A("app", "trunc", v)
            self.store(st, dst, v)
            return dst
        if k == "inc":
            dst = self.lv(st, fr, x[4])
            old = self.load(st, dst)
            self.store(st, dst, old + (ONE if "++" in x[3] else -ONE))
            return old if x[3].startswith("x") else dst
        if k == "ilist":
            raise Undecided("initialiser list")
        if k in ("fn", "opq"):
            return A("opq", fr.f.sig, e)
        raise Undecided("construct " + k)

    def assign(self, st, fr, t, dst, e):
        src = self.ev(st, fr, e)
        if isinstance(src, Poly):
            a = src.atom()
            if a is None or a[0] != "obj":
                # an opaque result of class type: its members are applications
                for l in self.leaves(bare(t), dst):
                    self.store(st, l, A("part", src, self.sub(dst, l)))
                return
            src = a[1]
        if not self.valued(t):
            self.store(st, dst, A("copy", src, len(st.log)) if False else self.load(st, src))
            return
        self.copy(st, t, src, dst)

    def sub(self, base, l):
        """path of l below base"""
        out = []
        while l != base:
            out.append(l[2])
            l = l[1]
        return tuple(reversed(out))

    def truth(self, st, v):
        b = self.boolean(st, v)
        c = b.const()
        if c is not None:
            return bool(c)
        a = b.atom()
        if a is not None:
            return self.known_cond(st, a)
        a = (ONE - b).atom()
        r = self.known_cond(st, a)
        return None if r is None else not r

    def known_cond(self, st, a):
        r = st.cond.get(a)
        if r is not None:
            return r
        if a[0] == "lt":
            # d < 0 contradicts -d < 0 and d == 0
            if st.cond.get(("lt", -a[1])) or st.cond.get(("eq", a[1].scale(1 / a[1].lead()))):
                return False
            if st.cond.get(("lt", -a[1])) is False and st.cond.get(("eq", a[1].scale(1 / a[1].lead()))) is False:
                return True
        if a[0] == "eq":
            l = abs(a[1].lead())
            d = a[1].scale(1 / l)
            if st.cond.get(("lt", d)) or st.cond.get(("lt", -d)):
                return False
            if st.cond.get(("lt", d)) is False and st.cond.get(("lt", -d)) is False:
                return True
        return None

    # ---- calls
    def call(self, st, fr, e, depth):
        """evaluate a call element; list of (state, frame) continuations"""
        x = fr.f.x[e]
        if x[0] == "ctor":
            sig, qn, args, modes, obj, virt, op = x[3], x[4], x[5], x[6], -1, False, ""
        else:
            sig, qn, obj, args, virt, op, modes = x[3], x[4], x[5], x[6], x[7], x[8], x[9]
        short = qn.split("::")[-1]
        t = x[2]
        # where a class type result is put
        self.uid += 1
        st.n += 1
        tmp = ("tmp", fr.id, e, st.n)
        this = None
        if x[0] == "ctor":
            this = fr.vals.get(("dest", e)) or tmp
        elif obj is not None and obj >= 0:
            ot = fr.f.x[obj][2]
            r = self.ev(st, fr, obj)
            if isinstance(r, tuple) and not bare(ot).endswith("*"):
                this = r
            elif isinstance(r, Poly) and r.atom() and r.atom()[0] == "obj":
                this = r.atom()[1]
            else:
                p = self.rv(st, fr, obj)
                if p.const() is not None:
                    raise Undecided("call through NULL")
                this = self.pointee(st, p) if bare(ot).endswith("*") else None
                if this is None:
                    this = ("deref", p.atom() or ("val", p))
        out = self.builtin(st, fr, e, x, short, qn, this, args, op, t)
        if out is not None:
            fr.vals[e] = out
            return [(st, fr)]
        f = self.P.funcs.get(sig)
        exact = this is not None and (this[0] in ("v", "tmp") or this == ("deref", ("this",)))
        if f is not None and (not virt or exact) and depth < self.max_depth and self.inline(f, this):
            self.seen.add(f.sig)
            vals = []
            for i, a in enumerate(args):
                m = modes[i] if i < len(modes) else "v"
                pt = f.params[i]["t"] if i < len(f.params) else ""
                if m in ("r", "c") or pt.rstrip().endswith("&"):
                    r = self.ev(st, fr, a)
                    if isinstance(r, Poly):
                        at = r.atom()
                        if at is not None and at[0] == "obj":
                            r = at[1]
                        else:
                            l = ("tmp", fr.id, a, "v%d" % st.n)
                            if self.isobj(fr.f.x[a][2]):
                                self.assign(st, fr, fr.f.x[a][2], l, a)
                            else:
                                self.store(st, l, r)
                            r = l
                    vals.append(("ref", r))
                elif self.isobj(pt):
                    l = ("tmp", fr.id, a, "c%d" % st.n)
                    self.assign(st, fr, pt, l, a)
                    vals.append(("ref", l))
                else:
                    vals.append(("val", self.rv(st, fr, a)))
            outs = []
            for s2, rv in self.enter(st, f, this, vals, depth + 1):
                g = fr.copy()
                if x[0] == "ctor":
                    g.vals[e] = this
                elif rv is None:
                    g.vals[e] = ZERO
                elif isinstance(rv, tuple) and rv[0] == "objres":
                    g.vals[e] = rv[1]
                else:
                    g.vals[e] = rv
                outs.append((s2, g))
            return outs
        # uninterpreted: a function of its arguments, and its own effects on reference arguments
        if x[0] == "ctor":
            if not self.valued(t):
                fr.vals[e] = this
                return [(st, fr)]
            raise Undecided("constructor " + qn)
        key = [qn]
        if this is not None:
            key.append(self.ident(st, this, fr.f.x[obj][2] if obj >= 0 else ""))
        outs = []
        for i, a in enumerate(args):
            m = modes[i] if i < len(modes) else "v"
            r = self.ev(st, fr, a)
            if m == "r" and isinstance(r, tuple):
                outs.append((i, r, fr.f.x[a][2]))
                lt = fr.f.x[a][2]
                key.append(("out", i, self.ident(st, r, lt) if self.isobj(lt) else self.load(st, r)))
            else:
                key.append(self.rv(st, fr, a) if not (isinstance(r, tuple) and self.isobj(fr.f.x[a][2]) and "[" not in fr.f.x[a][2]) else self.ident(st, r, fr.f.x[a][2]))
        app = ("app",) + tuple(key)
        snap = {}
        for i, a in enumerate(args):
            at = key[i - len(args)].atom() if isinstance(key[i - len(args)], Poly) else None
            ty = bare(fr.f.x[a][2])
            if at is not None and at[0] == "addr" and ty.endswith("*") and self.valued(ty[:-1].strip()):
                snap[i] = self.ident(st, at[1], ty[:-1].strip())
        st.given = st.given + (snap,)
        for i, a in enumerate(args):
            if i < len(modes) and modes[i] == "p" and isinstance(key[i - len(args)], Poly):
                at = key[i - len(args)].atom()
                if at is not None and at[0] == "addr":
                    self.havoc(st, fr, at[1], ("part", app, i))
        for i, l, lt in outs:
            if self.valued(lt):
                for q in self.leaves(bare(lt), l):
                    self.store(st, q, A("part", app, i, self.sub(l, q)))
            elif not self.isobj(lt):
                self.store(st, l, A("part", app, i))
        st.log = st.log + (app,)
        if bare(t) == "bool":
            fr.vals[e] = A("bool", app)
        elif self.isobj(t) and self.valued(t):
            for q in self.leaves(bare(t), tmp):
                self.store(st, q, A("part", app, "ret", self.sub(tmp, q)))
            fr.vals[e] = tmp
        elif t.rstrip().endswith("&") or (self.isobj(t)):
            fr.vals[e] = ("deref", app)
        else:
            fr.vals[e] = A(*app)
        return [(st, fr)]

    def havoc(self, st, fr, loc, tag):
        """something opaque was given the address loc: it may have written there and beyond"""
        p = loc
        while p[0] in ("fld", "elem"):
            p = p[1]
        if p[0] == "v" and p[1] == fr.id and p[2] in fr.f.v:
            t = bare(fr.f.v[p[2]]["t"])
            ls = self.leaves(t, p) if self.valued(t) else [p]
            if loc[0] == "elem" and loc in ls:
                ls = ls[ls.index(loc):]
            for i, l in enumerate(ls):
                self.store(st, l, A(*(tag + (i,))))
            return
        if p[0] in ("tmp",):
            raise Undecided("address of a temporary passed on")
        for l in list(st.mem):
            q = l
            while isinstance(q, tuple) and q[0] in ("fld", "elem") and q != loc:
                q = q[1]
            if q == loc:
                st.mem[l] = A(*(tag + (l,)))
        st.mem.setdefault(loc, A(*tag))

    def ident(self, st, loc, t):
        """value of an object passed to something opaque"""
        if self.valued(t):
            return tuple(self.load(st, l) for l in self.leaves(bare(t), loc))
        return ("at", loc)

    def builtin(self, st, fr, e, x, short, qn, this, args, op, t):
        if short in ("abs", "fabs"):
            v = self.rv(st, fr, args[0])
            c = v.const()
            if c is not None:
                return K(abs(c))
            # a sum of even powers with positive coefficients is its own absolute value
            if all(c > 0 and all(n % 2 == 0 for a, n in k) for k, c in v.m.items()):
                return v
            l = v.scale(1 / v.lead())
            return A("app", "abs", l).scale(abs(v.lead()))
        if short == "sqrt":
            v = self.rv(st, fr, args[0])
            c = v.const()
            if c in (0, 1):
                return K(c)
            return A("sqrt", v)
        if short in ("sin", "cos") and len(args) == 1:
            v = self.rv(st, fr, args[0])
            if v.const() == 0:
                return ZERO if short == "sin" else ONE
            if v.lead() < 0:
                r = A("app", short, -v)
                return r if short == "cos" else -r
            return A("app", short, v)
        if short in ("tan", "atan2", "atan", "acos", "asin", "floor", "ceil", "pow", "exp", "log"):
            return A("app", short, *[self.rv(st, fr, a) for a in args])
        if short in ("max", "min") and len(args) == 2:
            vs = sorted((self.rv(st, fr, a) for a in args), key=repr)
            if vs[0] == vs[1]:
                return vs[0]
            return A("app", short, *vs)
        if short == "memset" and len(args) == 3:
            p = self.rv(st, fr, args[0]).atom()
            if self.rv(st, fr, args[1]).const() != 0 or p is None or p[0] != "addr":
                raise Undecided("memset")
            n = self.rv(st, fr, args[2]).const()
            ty = fr.f.x[args[0]][2]
            ls = self.leaves(bare(ty), p[1])
            if n != 8 * len(ls):
                ls = ls[:int(n) // 8] if n is not None else None
                if ls is None:
                    raise Undecided("memset")
            for l in ls:
                self.store(st, l, ZERO)
            return A("addr", p[1])
        if short in ("memcpy", "memmove") and len(args) == 3:
            d = self.rv(st, fr, args[0]).atom()
            s = self.rv(st, fr, args[1]).atom()
            n = self.rv(st, fr, args[2]).const()
            if d is None or s is None or d[0] != "addr" or s[0] != "addr" or n is None:
                raise Undecided("memcpy")
            dl = self.leaves(bare(fr.f.x[args[0]][2]), d[1])
            sl = self.leaves(bare(fr.f.x[args[1]][2]), s[1])
            n = int(n) // 8
            vs = [self.load(st, l) for l in sl[:n]]
            for l, v in zip(dl[:n], vs):
                self.store(st, l, v)
            return A("addr", d[1])
        if op == "=" and this is not None and x[0] == "call" and args:
            ty = bare(t)
            if self.valued(ty) and x[3] not in self.P.funcs:
                self.assign(st, fr, ty, this, args[0])
                return this
        if op == "<<" and "ostream" in t:
            return ("deref", ("stream",))
        if qn.startswith("std::list::") or qn.startswith("std::vector::"):
            if this is not None:
                if short in ("begin", "cbegin"):
                    return A("iter", this, 0)
                if short in ("end", "cend"):
                    return A("iter", this, "end")
                if short in ("rbegin", "crbegin"):
                    return A("riter", this, 0)
                if short in ("rend", "crend"):
                    return A("riter", this, "end")
                if short == "front":
                    return ("elem", this, 0)
                if short == "back":
                    return ("elem", this, -1)
                if short == "empty":
                    return self.eq(A("size", this))
                if short == "size":
                    return A("size", this)
                if short in ("operator[]", "at") and len(args) == 1:
                    return self.elem(this, self.rv(st, fr, args[0]))
        if "iterator" in qn and op in ("*", "->", "++", "--", "==", "!="):
            v = self.rv(st, fr, x[5]) if x[5] >= 0 else None
            a = v.atom() if v is not None else None
            if a is not None and a[0] == "obj":
                v = self.load(st, a[1])
                a = v.atom()
            if op == "*" and a is not None and a[0] in ("iter", "riter"):
                i = a[2]
                if i == "end":
                    raise Undecided("end iterator")
                return ("elem", a[1], i if a[0] == "iter" else -1 - i)
            if op == "--" and a is not None and a[0] == "iter" and a[2] == "end":
                l = self.ev(st, fr, x[5])
                n = A("iter", a[1], -1)
                if isinstance(l, tuple):
                    self.store(st, l, n)
                    return l
                return n
            raise Undecided("iterator")
        return None

    # ---- control
    def enter(self, st, f, this, vals, depth):
        """run f; list of (state, result Poly / location / None)"""
        self.uid += 1
        fr = Frame(f, this, self.uid)
        for p, v in zip(f.params, vals):
            if v[0] == "ref":
                fr.env[p["v"]] = v[1]
            else:
                l = ("v", fr.id, p["v"], p["n"])
                st.mem[l] = v[1]
        out = []
        work = [(st, fr, f.entry, 0)]
        while work:
            s, g, b, i = work.pop()
            self.steps += 1
            if self.steps > self.max_steps or len(out) + len(work) > self.max_paths:
                raise Undecided("too many paths in " + f.name)
            blk = f.blocks[b]
            if i == 0:
                ids = [q for q in blk["e"] if isinstance(q, int)]
                for q in ids:
                    g.vals.pop(q, None)
            es = blk["e"]
            done = False
            while i < len(es):
                el = es[i]
                i += 1
                if isinstance(el, int):
                    if f.x[el][0] in ("call", "ctor"):
                        # destination of a constructor called for a declaration
                        if f.x[el][0] == "ctor":
                            d = self.dest(f, es, i, el, g)
                            if d is not None:
                                g.vals[("dest", el)] = d
                        cs = self.call(s, g, el, depth)
                        if len(cs) != 1:
                            for s2, g2 in cs:
                                work.append((s2, g2, b, i) if i else None)
                            done = True
                            break
                        s, g = cs[0]
                    else:
                        self.lazy(s, g, el)
                    continue
                if el[0] == "decl":
                    v = f.v[el[2]]
                    l = ("v", g.id, el[2], v["n"])
                    if len(el) > 3 and el[3] is not None and el[3] >= 0:
                        if v.get("ref"):
                            r = self.ev(s, g, el[3])
                            if isinstance(r, Poly):
                                a = r.atom()
                                if a is not None and a[0] == "obj":
                                    r = a[1]
                                else:
                                    self.store(s, l, r)
                                    r = l
                            g.env[el[2]] = r
                        elif f.x[el[3]][0] == "ctor" and g.vals.get(el[3]) == l:
                            pass
                        elif f.x[el[3]][0] == "ilist":
                            self.ilist(s, g, l, v["t"], el[3])
                        elif self.isobj(v["t"]) and self.valued(v["t"]):
                            self.assign(s, g, v["t"], l, el[3])
                        else:
                            try:
                                self.store(s, l, self.rv(s, g, el[3]))
                            except Undecided:
                                self.store(s, l, A("unk", l))
                    else:
                        for q in self.leaves(bare(v["t"]), l) if self.valued(v["t"]) else [l]:
                            s.mem[q] = A("undef", q)
                elif el[0] == "init":
                    if f.x[el[3]][0] == "ctor":
                        r = self.ev(s, g, el[3])
                        dst = ("fld", g.this, el[2])
                        if isinstance(r, tuple) and r != dst and self.valued(f.x[el[3]][2]):
                            self.copy(s, f.x[el[3]][2], r, dst)
                    else:
                        dst = ("fld", g.this, el[2])
                        t = f.x[el[3]][2]
                        if self.isobj(t) and self.valued(t):
                            self.assign(s, g, t, dst, el[3])
                        elif not self.isobj(t):
                            self.store(s, dst, self.rv(s, g, el[3]))
                elif el[0] == "ret":
                    r = None
                    if el[2] is not None and el[2] >= 0:
                        rt = f.ret
                        if rt.rstrip().endswith("&"):
                            r = self.lv(s, g, el[2])
                        elif self.isobj(rt) and self.valued(rt):
                            s.n += 1
                            r = ("tmp", g.id, "ret", s.n)
                            self.assign(s, g, rt, r, el[2])
                        else:
                            r = self.rv(s, g, el[2])
                            if bare(rt) == "bool":
                                r = self.boolean(s, r)
                    g.vals["ret"] = r
            if done:
                continue
            if b == f.exit:
                out.append((s, g.vals.get("ret")))
                continue
            succ = blk["s"]
            live = [q for q in succ if q is not None]
            t = blk.get("t")
            if t is not None and t.get("k") in ("CXXTryStmt",):
                raise Undecided("try block")
            if len(live) == 0:
                continue
            if t is not None and t.get("k") == "SwitchStmt":
                v = self.rv(s, g, t["c"])
                every = [x for q in live for x in (f.blocks[q].get("l") or []) if isinstance(x, int)]
                for q in live:
                    labs = f.blocks[q].get("l") or ["default"]
                    for lab in labs:
                        s2, g2 = s.copy(), g.copy()
                        if all(self.assume(s2, self.eq(v - K(x)), lab == x) for x in every):
                            work.append((s2, g2, q, 0))
                continue
            if len(succ) == 1 or len(live) == 1 and len(succ) == 1:
                work.append((s, g, live[0], 0))
                continue
            if t is None or t.get("c") is None:
                if len(live) == 1:
                    work.append((s, g, live[0], 0))
                    continue
                raise Undecided("branch without a condition")
            v = self.boolean(s, self.rv(s, g, t["c"]))
            d = self.truth(s, v)
            for j, q in enumerate(succ[:2]):
                if q is None or (d is not None and d != (j == 0)):
                    continue
                s2, g2 = (s, g) if d is not None else (s.copy(), g.copy())
                if d is None:
                    a = v.atom()
                    if a is not None:
                        s2.cond[a] = (j == 0)
                    else:
                        s2.cond[(ONE - v).atom()] = (j != 0)
                g2.vals[t["c"]] = K(1 if j == 0 else 0)
                work.append((s2, g2, q, 0))
        return out

    def assume(self, st, v, want):
        d = self.truth(st, v)
        if d is not None:
            return d == want
        a = v.atom()
        if a is not None:
            st.cond[a] = want
        else:
            st.cond[(ONE - v).atom()] = not want
        return True

    def dest(self, f, es, i, el, g):
        for e in es[i:]:
            if isinstance(e, list) and e[0] == "decl" and e[3] == el:
                return ("v", g.id, e[2], f.v[e[2]]["n"])
            if isinstance(e, list) and e[0] == "init" and e[3] == el:
                return ("fld", g.this, e[2])
        return None

    def ilist(self, st, fr, l, t, e):
        items = fr.f.x[e][3]
        ls = self.leaves(bare(t), l)
        flat = []

        def walk(q):
            if fr.f.x[q][0] == "ilist":
                for z in fr.f.x[q][3]:
                    walk(z)
            else:
                flat.append(self.rv(st, fr, q))
        for q in items:
            walk(q)
        for i, q in enumerate(ls):
            self.store(st, q, flat[i] if i < len(flat) else ZERO)

    def lazy(self, st, fr, e):
        """evaluate an element; a failure counts only if its value is used"""
        x = fr.f.x[e]
        if x[0] in ("asg", "inc"):
            self.ev(st, fr, e)
            return
        if x[0] == "bin" and x[3] in ("&&", "||") or x[0] in ("cnd", "ilist", "fn", "opq"):
            try:
                self.ev(st, fr, e)
            except Undecided:
                pass
            return
        if x[0] in ("new", "del", "throw", "lambda"):
            raise Undecided("construct " + x[0])
        try:
            self.ev(st, fr, e)
        except Undecided:
            fr.vals.pop(e, None)

    def run(self, f, this=("deref", ("this",)), args=None):
        st = State()
        vals = []
        for i, p in enumerate(f.params):
            a = (args or {}).get(i)
            if a is not None:
                vals.append(a)
            elif p["t"].rstrip().endswith("&") or self.isobj(p["t"]):
                vals.append(("ref", ("par", i, p["n"])))
            else:
                vals.append(("val", A("init", ("par", i, p["n"]))))
        self.steps = 0
        return self.enter(st, f, this, vals, 0)
