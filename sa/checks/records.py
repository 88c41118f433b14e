"""P13: the records of the file: 80 columns, section letter, own number, nothing lost between lines."""
import program
from checks import chain
from poly import Undecided
from lines import Interp, St, Lin, N, slen, bare, isstr, INF, INTS

LIMIT = 9999999


def show(w):
    if not w:
        return ""
    return " (for instance " + ", ".join("%s=%s" % (k.split("'")[0], v) for k, v in sorted(w.items())) + ")"


class Rec(Interp):
    """carry: location of the line being filled; sink: location the finished lines are appended to (or a
    stream parameter); width: text columns; letter: section letter; de: value of the DE pointer column, if any;
    index: location of the line counter"""

    def __init__(self, P, width=72, letter="G", carry=None, sink=None, de=None, index=None, idx0=None, summary=True):
        Interp.__init__(self, P)
        self.width, self.letter = width, letter
        self.carry, self.sink, self.de, self.index, self.idx0 = carry, sink, de, index, idx0
        self.summary = summary
        self.bad = {}
        self.unk = {}
        self.nlines = set()
        self.elemlen = {}
        self.pushes = {}
        self.root = None

    # ---- reporting
    def alarm(self, fr, line, what):
        if not self.mute:
            self.bad.setdefault((fr.f.file, fr.f.short, line, what.split(" (for")[0]), what)

    def unsure(self, fr, line, what):
        if not self.mute:
            self.unk.setdefault((fr.f.file, fr.f.short, line, what), what)

    def fault(self, st, fr, line, what, w=None):
        if w is not None:
            self.alarm(fr, line, what + show(w))
        else:
            self.unsure(fr, line, what)

    # ---- helpers of the library
    def inline(self, f):
        return f.file.startswith("iges/iges_io") and f.short not in ("ReadIGESRecord",) or (self.root is not None and f.file == self.root.file and f.cls == self.root.cls and f.nel < 400 and f is not self.root and self.wanted(f))

    def wanted(self, f):
        return False

    opaque = False             # the end of an item is looked at in a way that is not followed

    def on_call(self, st, fr, e, x, short, qn, obj, args, op):
        F = fr.f
        if qn.startswith("std::basic_string") and short in ("find", "rfind", "find_first_of", "find_last_of", "find_last_not_of", "compare", "end", "rend", "c_str", "data"):
            self.opaque = True
        if short == "FormatDEInt" and self.summary and len(args) == 2:
            v = self.ev(st, fr, args[1])
            if not isinstance(v, Lin):
                v = self.sym(st, "n", -2147483648, 2147483647)
            loc = self.lv(st, fr, args[0])
            out = []
            lo, hi = st.bounds(v)
            if hi > 99999999 or lo < -9999999:
                b = st.copy()
                g = fr.copy()
                g.vals[e] = N(0)
                self.setstr(b, g, loc, "std::basic_string<char>", (("mix", "f", self.sym(b, "len", 0)),), x[1])
                out.append((b, g))
            if not (st.assume_ge0(v + 9999999) and st.assume_ge0(-v + 99999999)):
                return out
            self.setstr(st, fr, loc, "std::basic_string<char>", (("n8", v, N(8)),), x[1])
            fr.vals[e] = N(1)
            out.append((st, fr))
            return out
        if short == "ReadIGESRecord" and self.summary and args:
            a = self.ev(st, fr, args[0])
            loc = a[1] if isinstance(a, tuple) and a[0] == "addr" else a
            b, g = st.copy(), fr.copy()
            g.vals[e] = N(0)
            for k in [k for k in st.env if k[0] == "fld" and k[1] == loc]:
                del st.env[k]
            st.env[("fld", loc, "data")] = ("S", (("mix", "rec", N(72)),))
            st.env[("fld", loc, "index")] = self.sym(st, "recno", 1, 99999999)
            fr.vals[e] = N(1)
            return [(b, g), (st, fr)]
        if op in ("==", "!=") and len(args) == 2 and (obj is None or obj < 0) and "iterator" in F.x[args[0]][2]:
            fr.vals[e] = self.itcmp(st, op, self.ev(st, fr, args[0]), self.ev(st, fr, args[1]))
            return [(st, fr)]
        if "_List_iterator" in qn or "_List_const_iterator" in qn or "__normal_iterator" in qn:
            if obj is None or obj < 0:
                if x[0] == "ctor" and args:
                    fr.vals[e] = self.ev(st, fr, args[0])
                    return [(st, fr)]
                if op in ("==", "!=") and len(args) == 2:
                    fr.vals[e] = self.itcmp(st, op, self.ev(st, fr, args[0]), self.ev(st, fr, args[1]))
                    return [(st, fr)]
                return None
            loc = self.lv(st, fr, obj)
            it = st.env.get(loc)
            lst = it[1] if isinstance(it, tuple) and it[0] == "it" else None
            if op == "->":
                fr.vals[e] = ("addr", ("cur", lst, loc))
                return [(st, fr)]
            if op == "*":
                fr.vals[e] = ("loc", ("cur", lst, loc))
                return [(st, fr)]
            if op in ("++", "--"):
                self.passed(st, fr, lst, loc, x[1])
                fr.vals[e] = it if it else ("r", fr.id, e)
                return [(st, fr)]
            if op in ("==", "!=") and args:
                fr.vals[e] = self.itcmp(st, op, it, self.ev(st, fr, args[0]))
                return [(st, fr)]
            if op == "=" and args:
                v = self.ev(st, fr, args[0])
                st.env[loc] = v
                self.dropcur(st, loc)
                return [(st, fr)]
            return None
        if qn.startswith("std::vector") and short == "size" and obj is not None and obj >= 0:
            fr.vals[e] = self.named(st, ("size", self.lv(st, fr, obj)))
            return [(st, fr)]
        if short == "getline" and len(args) >= 2:
            loc = self.lv(st, fr, args[1])
            self.n += 1
            st.env[loc] = ("S", (("mix", "input line", self.sym(st, "line length", 0)),))
            fr.vals[e] = ("b", fr.id, e, self.fresh())
            return [(st, fr)]
        if qn.startswith("std::list") or qn.startswith("std::__cxx11::list") or "::list::" in qn:
            if obj is None or obj < 0:
                return None
            lst = self.lv(st, fr, obj)
            if short == "begin":
                o = st.ghost.pop(("out", lst), None)
                if st.ghost.pop(("complete", lst), None):
                    st.ghost[("elems", lst)] = o or "none"
                st.ghost[("pass", lst)] = True
                fr.vals[e] = ("it", lst, self.fresh() if False else 0)
                return [(st, fr)]
            if short == "end":
                fr.vals[e] = ("end", lst)
                return [(st, fr)]
            if short in ("push_back", "push_front", "insert"):
                t = self.text(st, fr, args[-1])
                if t is not None:
                    lo, hi = st.bounds(slen(t))
                    self.inserted(st, fr, lst, t, lo, hi, x[1], short == "insert")
                return [(st, fr)]
            if short == "erase":
                v = self.ev(st, fr, args[0])
                l0 = self.lv(st, fr, args[0])
                for k in list(st.env):
                    if k[0] == "cur" and k[1] == lst:
                        self.delivered_elem(st, fr, k, x[1])
                        del st.env[k]
                fr.vals[e] = ("it", lst, 0)
                return [(st, fr)]
            if short == "empty":
                fr.vals[e] = ("empty", lst)
                return [(st, fr)]
            if short == "size":
                fr.vals[e] = self.named(st, ("size", lst))
                return [(st, fr)]
            return None
        return None

    def itcmp(self, st, op, a, b):
        lst = [v[1] for v in (a, b) if isinstance(v, tuple) and v and v[0] in ("it", "end")]
        if not lst:
            return ("b", self.fresh())
        if st.ghost.get(("elems", lst[0])) == "none":
            return N(1 if op == "==" else 0)
        return ("itend", op, lst[0], self.fresh())

    def decide(self, st, v):
        if isinstance(v, tuple) and v and v[0] == "itend":
            a, b = st, st.copy()
            a.ghost[("complete", v[2])] = v[1] == "=="
            b.ghost[("complete", v[2])] = v[1] != "=="
            return [(a, True), (b, False)]
        return Interp.decide(self, st, v)

    def named(self, st, key):
        if key not in st.env:
            st.env[key] = self.sym(st, "size", 0)
        return st.env[key]

    def dropcur(self, st, loc):
        for k in list(st.env):
            if k[0] == "cur" and k[2] == loc:
                del st.env[k]
        for k in list(st.ghost):
            if k[0] == "copied" and isinstance(k[1], tuple) and k[1][:1] == ("el",) and k[1][2] == loc:
                del st.ghost[k]

    def hull(self, st, lst, lo, hi):
        o = st.ghost.get(("out", lst))
        st.ghost[("out", lst)] = (min(o[0], lo), max(o[1], hi)) if o else (lo, hi)

    def passed(self, st, fr, lst, loc, line):
        k = ("cur", lst, loc)
        if k in st.env:
            v = st.env[k]
            if isinstance(v, tuple) and v[0] == "S":
                self.hull(st, lst, *st.bounds(slen(v[1])))
            self.delivered_elem(st, fr, k, line)
        elif lst is not None:
            lo, hi = self.elems(st, lst)
            self.hull(st, lst, lo, hi)
            if hi > 0 and st.ghost.get(("pass", lst)) is True:
                st.ghost[("pass", lst)] = "an element is passed over without being written"
        self.dropcur(st, loc)

    def elems(self, st, lst):
        e = st.ghost.get(("elems", lst))
        if e and e != "none":
            return e
        return self.elemlen.get(lst[-1] if lst and lst[0] == "fld" else None) or (0, INF)

    def inserted(self, st, fr, lst, t, lo, hi, line, within):
        if not self.mute:
            self.pushes.setdefault((lst[-1] if lst[0] == "fld" else "?"), []).append((fr.f, line, lo, hi, st.witness(slen(t) - 73), st.witness(-slen(t) + 71)))
        if within:
            self.hull(st, lst, lo, hi)
        for g in t:
            if g[0] == "src":
                self.advance(st, fr, g, line)

    def delivered_elem(self, st, fr, k, line):
        key = ("el",) + k[1:]
        c = st.ghost.get(("copied", key))
        L = st.ghost.get(("len", key))
        if c is None or L is None:
            return
        d = st.norm(L - c)
        if d.const == 0 or st.bounds(d) == (0, 0) or st.bounds(L) == (0, 0):
            return
        if st.ghost.get(("pass", k[1])) is True:
            w = st.witness(d - 1)
            st.ghost[("pass", k[1])] = ("part" if w is None else "the text of an element is not written completely" + show(w))

    def load(self, st, fr, loc, t, name="x"):
        if loc not in st.env and loc[0] == "cur":
            lo, hi = self.elems(st, loc[1])
            L = self.sym(st, "element", lo, hi) if lo != hi else N(lo)
            key = ("el",) + loc[1:]
            st.ghost[("copied", key)] = N(0)
            st.ghost[("len", key)] = L
            st.env[loc] = ("S", (("src", key, N(0), L),))
        return Interp.load(self, st, fr, loc, t, name)

    def anyghost(self, st, k, vs):
        if k[0] in ("out", "elems"):
            vs = [v for v in vs if v and v != "none"]
            return (min(v[0] for v in vs), max(v[1] for v in vs)) if vs else None
        if k[0] == "pass":
            for v in vs:
                if v is not True:
                    return v
        return None

    def compare(self, st, op, a, b):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, tuple) and p and p[0] == "n8first" and isinstance(q, Lin) and q.const == 32 and op in ("==", "!="):
                v = p[1]
                out = []
                s = st.copy()
                if s.assume_ge0(-v + 9999999) and s.assume_ge0(v + 999999):
                    out.append((s, op == "=="))
                for c in (v - 10000000, -v - 1000000):
                    s = st.copy()
                    if s.assume_ge0(c):
                        out.append((s, op != "=="))
                return out
        return Interp.compare(self, st, op, a, b)

    # ---- the text on its way
    def advance(self, st, fr, g, line):
        """a stretch of an input text goes out"""
        key = ("copied", g[1])
        c = st.ghost.get(key)
        if c is None:
            return
        d = st.norm(g[2] - c)
        if not self.mute and d.const != 0 and st.bounds(d) != (0, 0):
            w = st.witness(d - 1)
            w2 = w if w is not None else st.witness(-d - 1)
            if w is not None:
                self.alarm(fr, line, "text is left out between two pieces" + show(w))
            elif w2 is not None:
                self.alarm(fr, line, "text is written twice" + show(w2))
            else:
                self.unsure(fr, line, "whether consecutive pieces are written")
        st.ghost[key] = g[2] + g[-1]

    def on_append(self, st, fr, loc, old, add, line):
        if loc == self.sink:
            self.out(st, fr, add, line)
            return ()
        if loc == self.carry:
            st.ghost["flushed"] = False
            res = []
            for g in add:
                if g[0] == "src":
                    self.advance(st, fr, g, line)
                    res.append(("done",) + g[1:])
                else:
                    if g[0] == "ch" and g[1] == self.delim:
                        st.ghost["delims"] = N(1)
                    res.append(g)
            return tuple(res)
        return add

    delim = None

    def append(self, st, fr, loc, t, add, line):
        if loc == self.sink:
            self.on_append(st, fr, loc, None, add, line)
            return
        Interp.append(self, st, fr, loc, t, add, line)

    def setstr(self, st, fr, loc, t, val, line):
        """x = x + y is x += y"""
        if loc is not None and loc in (self.carry, self.sink):
            old = self.load(st, fr, loc, t)
            old = old[1] if isinstance(old, tuple) and old and old[0] == "S" else ()
            k = len(old)
            rest = None
            if k and tuple(val[:k]) == tuple(old):
                rest = tuple(val[k:])
            elif k and len(val) >= k and tuple(val[:k - 1]) == tuple(old[:k - 1]) and val[k - 1][0] == "sp" and old[k - 1][0] == "sp":
                rest = (("sp", None, st.norm(val[k - 1][-1] - old[k - 1][-1])),) + tuple(val[k:])
            if rest is not None:
                self.append(st, fr, loc, t, rest, line)
                return
        Interp.setstr(self, st, fr, loc, t, val, line)

    def on_overwrite(self, st, fr, loc, old, new, line):
        if loc != self.carry:
            return
        if not st.ghost.get("flushed"):
            L = slen(old[1]) if isinstance(old, tuple) and old[0] == "S" else N(0)
            if st.bounds(L)[1] > 0:
                w = st.witness(L - 1)
                if w is not None:
                    self.alarm(fr, line, "the line is discarded before it was written" + show(w))
        st.ghost["flushed"] = False

    def on_stream(self, st, fr, loc, v, line):
        if self.sink is not None and loc == self.sink:
            self.out(st, fr, v if v is not None else (("mix", "o", self.sym(st, "len", 0)),), line)

    def out(self, st, fr, add, line):
        cur = st.env.get(self.carry) if self.carry is not None else None
        cur = cur[1] if isinstance(cur, tuple) and cur and cur[0] == "S" else ()
        if self.argloc is not None and self.argloc == self.carry or cur and tuple(add[:len(cur)]) == tuple(cur):
            st.ghost["flushed"] = True
        pend = st.ghost.get("pend")
        segs = (pend[1] if pend else ())
        for g in add:
            if g[0] == "src":
                self.advance(st, fr, g, line)
                g = ("done",) + g[1:]
            if g[0] == "lit" and "\n" in g[1] and g[1] != "\n":
                i = g[1].index("\n")
                parts = [("lit", g[1][:i], N(i)), ("lit", "\n", N(1)), ("lit", g[1][i + 1:], N(len(g[1]) - i - 1))]
            else:
                parts = [g]
            for p in parts:
                if st.norm(p[-1]).const == 0:
                    continue
                if (p[0] == "lit" and p[1] == "\n") or (p[0] == "ch" and isinstance(p[1], Lin) and p[1].const == 10):
                    self.record(st, fr, segs, line)
                    segs = ()
                else:
                    segs = segs + (p,)
        st.ghost["pend"] = ("pend", segs)

    def record(self, st, fr, segs, line):
        if not self.mute:
            self.nlines.add((fr.f.short, line))
        lines = st.ghost["lines"]
        st.ghost["lines"] = lines + 1
        if self.mute:
            return
        rest = list(segs)
        if len(rest) < 2 or rest[-1][0] != "n7" or rest[-2][0] != "ch":
            tot = slen(segs)
            if rest and rest[-1][0] == "n8":
                self.alarm(fr, line, "the record has no section letter in column 73")
            elif any(g[0] == "n7" for g in rest):
                self.alarm(fr, line, "the record does not end with the section letter and its number")
            else:
                self.unsure(fr, line, "how the record ends")
            return
        val, let = rest[-1][1], rest[-2][1]
        rest = rest[:-2]
        want = self.letter_at(st)
        if not (isinstance(let, Lin) and let.const is not None and chr(let.const) == want):
            self.alarm(fr, line, "the section letter is %s, not %s" % (repr(chr(let.const)) if isinstance(let, Lin) and let.const is not None else "unknown", want))
        lo, hi = st.bounds(val)
        if hi > LIMIT:
            w = st.witness(val - LIMIT - 1)
            if w is not None:
                self.alarm(fr, line, "the section letter overwrites the first digit of a record number above 9999999")
        exp = self.number_at(st, lines)
        if exp is not None:
            d = st.norm(val - exp)
            if d.const != 0 and st.bounds(d) != (0, 0):
                w = st.witness(d - 1) or st.witness(-d - 1)
                if w is not None or d.const is not None:
                    self.alarm(fr, line, "the record carries the number of another record (off by %s)" % (d.const if d.const is not None else "a variable amount"))
                else:
                    self.unsure(fr, line, "which number the record carries")
        de = self.de_at(st)
        if de is not None:
            if not rest or rest[-1][0] != "n8":
                self.alarm(fr, line, "columns 65 to 72 do not hold the DE number")
                return
            if st.norm(rest[-1][1] - de).const != 0:
                self.alarm(fr, line, "columns 65 to 72 hold another number than the DE number")
            rest = rest[:-1]
        L = st.norm(slen(rest) - self.width_at(st))
        if L.const == 0 or st.bounds(L) == (0, 0):
            return
        w = st.witness(L - 1)
        if w is None:
            w = st.witness(-L - 1)
        if w is not None:
            t = st.norm(slen(rest)).const
            self.alarm(fr, line, "the text of the record does not have %d columns%s" % (self.width_at(st), " but %d" % t if t is not None else show(w)))
        else:
            self.unsure(fr, line, "the width of the record")

    def letter_at(self, st):
        return self.letter

    def number_at(self, st, lines):
        return self.idx0 + lines if self.idx0 is not None else None

    def de_at(self, st):
        return self.de

    def width_at(self, st):
        return self.width


def flush(rep, rule, R, f, n):
    for (file, fn, line, k), what in sorted(R.bad.items()):
        rep.violate(rule, "%s|%s|%s" % (rule, fn, k), "%s(): %s" % (fn, what), "%s:%d" % (file, line))
    for (file, fn, line, what) in sorted(R.unk):
        rep.undecided(rule, "%s:%d %s(): %s" % (file, line, fn, what))
    if not R.bad and not R.unk:
        rep.ok(rule, n)


def helper(rep, P, name, width, letter, hstr, depos):
    """AddPDItem, AddPDHStr, AddSecItem, AddSecHStr"""
    fs = [f for f in P.byname.get(name, []) if f.file.startswith("iges/")]
    if len(fs) != 1:
        raise program.Broken("helper %s not found" % name)
    f = fs[0]
    rep.fn(f)
    st = St()
    ps = f.params
    nm = {p["n"]: p["v"] for p in ps}
    R = Rec(P, width, letter)
    L = R.sym(st, "item length", 0 if hstr else 1, INF)
    c0 = R.sym(st, "line length", 0, width)
    i0 = R.sym(st, "record number", 1, LIMIT + 1)
    de = R.sym(st, "DE number", 1, LIMIT) if depos is not None else None
    item, carry, sink, index = ("p", "item"), ("p", "carry"), ("p", "out"), ("p", "index")
    st.env[item] = ("S", (("src", "item", N(0), L),))
    st.env[carry] = ("S", (("mix", "line", c0),))
    st.env[sink] = ("S", (("mix", "written", R.sym(st, "written", 1)),))
    st.env[index] = i0
    st.ghost.update({"lines": N(0), ("copied", "item"): N(0), "flushed": False, "pend": ("pend", ()), "delims": N(0)})
    R.carry, R.sink, R.index, R.idx0, R.de, R.root = carry, sink, index, i0, de, f
    refs = [item, carry, sink, index]
    args = []
    k = 0
    chars = iter([("pd",), ("rd",), ("delim",)])
    for p in ps:
        if isstr(p["t"]) or (bare(p["t"]) == "int" and "&" in p["t"]):
            args.append(("ref", refs[k]))
            k += 1
        elif bare(p["t"]) == "char":
            args.append(("val", next(chars)))
        elif bare(p["t"]) == "int":
            args.append(("val", de if de is not None else R.sym(st, "int")))
        else:
            args.append(("val", ("?", p["n"])))
    if k != 4:
        raise program.Broken("parameters of %s" % name)
    if hstr:
        R.delim = ("delim",)
    n = 0
    try:
        outs = R.run(f, st, args)
    except Undecided as ex:
        rep.undecided("rec-" + name, "%s: %s" % (name, ex))
        return
    except (KeyError, TypeError, IndexError, AttributeError, ValueError, RecursionError) as ex:
        rep.undecided("rec-" + name, "%s: analysis failed (%s)" % (name, type(ex).__name__))
        return
    fr = type("F", (), {})()
    fr.f = f
    for s, v in outs:
        if not (isinstance(v, Lin) and s.norm(v).const is not None):
            rep.undecided("rec-" + name, "result of %s" % name)
            continue
        if s.norm(v).const == 0:
            continue
        n += 1
        d = s.norm(s.env[index] - i0 - s.ghost["lines"])
        if d.const != 0 and s.bounds(d) != (0, 0):
            R.alarm(fr, f.line, "the record counter is not advanced once per record written")
        if s.ghost["pend"] and s.ghost["pend"][1]:
            R.alarm(fr, f.line, "a record is left without its end of line")
        cv = s.env[carry]
        CL = s.norm(slen(cv[1]))
        w = s.witness(CL - width - 1)
        if w is not None:
            R.alarm(fr, f.line, "the line being filled grows beyond %d columns%s" % (width, show(w)))
        # delivered?
        done = s.norm(s.ghost[("copied", "item")] - L)
        ok = done.const == 0 or s.bounds(done) == (0, 0)
        frz = [k for k in s.ghost if isinstance(k, tuple) and k[0] == "def"]
        if hstr:
            if s.bounds(L) == (0, 0):
                ok = s.ghost["delims"].const == 1
                if not ok:
                    R.alarm(fr, f.line, "an empty string is written without its delimiter")
                    ok = True
            else:
                ok = False
                for k in frz:
                    segs = s.ghost[k][1]
                    if any(g[0] == "src" and g[1] == "item" and s.norm(g[-1] - L).const == 0 and s.norm(g[2]).const == 0 for g in segs):
                        c = s.norm(s.ghost[("copied", k[1])] - slen(segs))
                        good = c.const == 0 or s.bounds(c) == (0, 0)
                        i = [j for j, g in enumerate(segs) if g[0] == "src"][0]
                        pre = segs[:i]
                        if not (len(pre) == 2 and pre[0][0] == "num" and s.norm(pre[0][1] - L).const == 0 and ((pre[1][0] == "lit" and pre[1][1] == "H") or (pre[1][0] == "ch" and isinstance(pre[1][1], Lin) and pre[1][1].const == 72))):
                            R.alarm(fr, f.line, "the string is not preceded by its length and H")
                        if not (len(segs) == i + 2 and segs[-1] == ("ch", ("delim",), N(1))):
                            R.alarm(fr, f.line, "the string is not followed by the delimiter")
                        ok = ok or good
        if not ok:
            w = s.witness(-done - 1) if not hstr else {}
            R.alarm(fr, f.line, "the item is not written completely%s" % show(w or {}))
        end = [k for k in s.cond if k[0] == "eq" and ("rd",) in k[1:] and s.cond[k]]
        if end and s.bounds(CL)[1] > 0:
            w = s.witness(CL - 1)
            if w is not None:
                (R.unsure if R.opaque else R.alarm)(fr, f.line, "the last line of the record is not written")
        if s.bounds(CL)[1] > 0 and not end and not [k for k in s.cond if k[0] == "eq" and ("rd",) in k[1:]]:
            (R.unsure if R.opaque else R.alarm)(fr, f.line, "whether the item ends the record is not looked at")
    rep.need("rec-" + name, 1)
    if not n:
        R.alarm(fr, f.line, "never succeeds")
    flush(rep, "rec-" + name, R, f, n)
    for g in R.seen:
        rep.fn(P.funcs[g])
    rep.note("%s: %d successful ends, %d places which end a record" % (name, n, len(R.nlines)))


def check(rep, P):
    rep.rule("rec-AddPDItem", "AddPDItem: every line is 64 columns of text, the DE number, P and its own number; the counter counts lines; the item is written whole")
    rep.rule("rec-AddPDHStr", "AddPDHStr: the same, and the Hollerith string is complete: length, H, text and delimiter, in consecutive pieces")
    rep.rule("rec-AddSecItem", "AddSecItem: every line is 72 columns of text, G and its own number; the counter counts lines; the item is written whole")
    rep.rule("rec-AddSecHStr", "AddSecHStr: the same, and the Hollerith string is complete")
    helper(rep, P, "AddPDItem", 64, "P", False, 4)
    helper(rep, P, "AddPDHStr", 64, "P", True, 4)
    helper(rep, P, "AddSecItem", 72, "G", False, None)
    helper(rep, P, "AddSecHStr", 72, "G", True, None)

THIS = ("this",)


def member(n):
    return ("fld", THIS, n)


def method(P, cls, name, pick=None):
    fs = [f for f in P.funcs.values() if f.cls == cls and f.short == name and (pick is None or pick(f))]
    if len(fs) != 1:
        raise program.Broken("%s::%s not found" % (cls, name))
    return fs[0]


def params(f, R, st, given):
    """one abstract argument per parameter; reference parameters become locations ("p", name)"""
    args = []
    for p in f.params:
        t = p["t"]
        if p["v"] in given:
            args.append(given[p["v"]])
        elif t.rstrip().endswith("&"):
            args.append(("ref", ("p", p["n"])))
        elif bare(t) in INTS and bare(t) not in ("bool", "char"):
            args.append(("val", R.sym(st, p["n"], -2147483648, 2147483647)))
        else:
            args.append(("val", ("arg", p["n"])))
    return args


class F:
    def __init__(self, f):
        self.f = f


def succeeded(s, v):
    return isinstance(v, Lin) and s.norm(v).const not in (0, None)


def go(rep, rule, R, f, st, args):
    rep.fn(f)
    R.root = f
    try:
        return R.run(f, st, args, THIS)
    except Undecided as ex:
        rep.undecided(rule, "%s: %s" % (f.short, ex))
        return None
    except (KeyError, TypeError, IndexError, AttributeError, ValueError, RecursionError) as ex:
        rep.undecided(rule, "%s: analysis failed (%s)" % (f.short, type(ex).__name__))
        return None


def number(rep, P):
    """FormatDEInt: 8 columns, right justified, for every number which fits"""
    rule = "rec-number"
    f = [f for f in P.byname.get("FormatDEInt", [])][0]
    R = Rec(P, summary=False)
    st = St()
    v = R.sym(st, "number", -2147483648, 2147483647)
    st.env[("p", "out")] = ("S", (("mix", "before", R.sym(st, "len", 0)),))
    args = [("ref", ("p", "out")) if isstr(p["t"]) else ("val", v) for p in f.params]
    outs = go(rep, rule, R, f, st, args)
    if outs is None:
        return
    n = 0
    for s, r in outs:
        if not succeeded(s, r):
            if not (isinstance(r, Lin) and s.norm(r).const == 0):
                R.unsure(F(f), f.line, "its result")
                continue
            w = s.witness(-v + 99999999, v + 9999999)
            if w is not None:
                R.alarm(F(f), f.line, "refuses a number of at most 8 columns" + show(w))
            continue
        n += 1
        segs = s.env[("p", "out")][1]
        L = s.norm(slen(segs) - 8)
        if not (L.const == 0 or s.bounds(L) == (0, 0)):
            w = s.witness(L - 1) or s.witness(-L - 1)
            if w is not None:
                R.alarm(F(f), f.line, "the result does not have 8 columns" + show(w))
            else:
                R.unsure(F(f), f.line, "the width of the result")
        if not (segs and segs[-1][0] == "num" and segs[-1][1] == v and all(g[0] == "sp" for g in segs[:-1])):
            R.alarm(F(f), f.line, "the result is not the number preceded by blanks")
    if not n:
        R.alarm(F(f), f.line, "never succeeds")
    flush(rep, rule, R, f, n)
    rep.need(rule, 1)


def reader(rep, P):
    """ReadIGESRecord: columns 1-72 are the text, 73 the letter, the number is read from field 9"""
    rule = "rec-read"
    f = [f for f in P.byname.get("ReadIGESRecord", [])][0]

    class RR(Rec):
        def on_call(self, st, fr, e, x, short, qn, obj, args, op):
            if short == "DEItemToInt":
                fld = self.ev(st, fr, args[1])
                loc = self.lv(st, fr, args[2])
                b, g = st.copy(), fr.copy()
                g.vals[e] = N(0)
                n = self.sym(st, "number", -2147483648, 2147483647)
                st.env[loc] = n
                st.ghost["field"] = ("field", st.norm(fld).const if isinstance(fld, Lin) else None, n)
                fr.vals[e] = N(1)
                return [(b, g), (st, fr)]
            return Rec.on_call(self, st, fr, e, x, short, qn, obj, args, op)

        def inline(self, f):
            return False

        def block(self, f, st, fr, b, depth):
            t = f.blocks[b].get("t")
            if t and "cases" in t:
                els = f.blocks[b]
                out = []
                nx = [(st, fr)]
                for el in els["e"]:
                    n2 = []
                    for s, g in nx:
                        n2 += self.element(s, g, el, depth) if not isinstance(el, list) else [(s, g)]
                    nx = n2
                for s, g in nx:
                    for q in els["s"]:
                        if q is not None:
                            out.append((s.copy(), g.copy(), q))
                return out, []
            return Rec.block(self, f, st, fr, b, depth)
    R = RR(P, summary=False)
    st = St()
    outs = go(rep, rule, R, f, st, params(f, R, st, {}))
    if outs is None:
        return
    n = 0
    rec = ("arg", f.params[0]["n"])
    for s, r in outs:
        if not succeeded(s, r):
            continue
        n += 1
        d = s.env.get(("fld", rec, "data"))
        if not (isinstance(d, tuple) and d and d[0] == "S"):
            R.alarm(F(f), f.line, "the text of the record is not delivered")
            continue
        L = s.norm(slen(d[1]))
        if L.const != 72:
            R.alarm(F(f), f.line, "the text of the record is not its first 72 columns")
        elif not (len(d[1]) == 1 and d[1][0][0] == "src" and s.norm(d[1][0][2]).const == 0):
            R.alarm(F(f), f.line, "the text of the record does not start in column 1")
        c = s.env.get(("fld", rec, "section_type"))
        if not (isinstance(c, tuple) and c and c[0] == "chr" and (c[-1] == 72 or c[-1] == N(72))):
            R.alarm(F(f), f.line, "the section letter is not taken from column 73")
        i = s.env.get(("fld", rec, "index"))
        fl = s.ghost.get("field")
        if not (fl and fl[1] == 9 and i == fl[2]):
            R.alarm(F(f), f.line, "the number of the record is not taken from columns 73 to 80")
        elif s.bounds(i)[0] < 1:
            R.alarm(F(f), f.line, "a record number below 1 is accepted")
    if not n:
        R.alarm(F(f), f.line, "never succeeds")
    flush(rep, rule, R, f, n)
    rep.need(rule, 1)


def comments(rep, P):
    rule = "rec-comments"
    f = method(P, "IGES_ENTITY", "formatComments")
    st = St()
    R = Rec(P, 64, "P", None, member("pdout"))
    R.idx0 = R.sym(st, "record number", 1, LIMIT + 1)
    R.de = R.sym(st, "DE number", 1, LIMIT)
    st.env[member("sequenceNumber")] = R.de
    st.env[member("pdout")] = ("S", ())
    st.ghost.update({"lines": N(0), "flushed": False, "pend": ("pend", ()), "delims": N(0)})
    ix = None
    given = {}
    for p in f.params:
        if bare(p["t"]) == "int":
            ix = ("p", p["n"])
            st.env[ix] = R.idx0
            given[p["v"]] = ("ref", ix) if "&" in p["t"] else ("val", R.idx0)
    outs = go(rep, rule, R, f, st, params(f, R, st, given))
    if outs is None:
        return
    n = 0
    lst = member("comments")
    for s, r in outs:
        if not succeeded(s, r):
            continue
        n += 1
        d = s.norm(s.env[ix] - R.idx0 - s.ghost["lines"])
        if d.const != 0 and s.bounds(d) != (0, 0):
            R.alarm(F(f), f.line, "the record counter is not advanced once per record written")
        if s.ghost["pend"] and s.ghost["pend"][1]:
            R.alarm(F(f), f.line, "a record is left without its end of line")
        p = s.ghost.get(("pass", lst))
        if p is True or s.cond.get(("empty", lst)):
            continue
        if p is None or p == "part":
            R.unsure(F(f), f.line, "whether every comment is written")
        else:
            R.alarm(F(f), f.line, p)
    if not n or not R.nlines:
        R.alarm(F(f), f.line, "never writes a comment")
    flush(rep, rule, R, f, n)
    rep.need(rule, 1)


def start(rep, P):
    """the lines of the start section: 72 columns wherever they come from, and all of them written"""
    rule = "rec-start"
    pushes = []
    bad = 0
    lens = []
    lst = member("startSection")
    fs = set()
    for g in P.funcs.values():
        for x in g.x.values():
            if x[0] == "call" and x[4].startswith("std::list") and x[4].split("::")[-1] in ("push_back", "push_front", "insert", "assign", "emplace_back", "splice", "resize") \
                    and x[5] is not None and x[5] >= 0 and g.x[x[5]][0] == "fld" and g.x[x[5]][4].endswith("IGES::startSection"):
                fs.add(g)
    ws = method(P, "IGES", "writeStart")
    if not any(g.short == "AddToHeader" for g in fs):
        raise program.Broken("AddToHeader does not add to the start section")
    for f in sorted(fs - {ws}, key=lambda g: g.sig) + [ws]:
        name = f.short
        st = St()
        R = Rec(P, 72, "S")
        R.idx0 = N(1)
        st.ghost.update({"lines": N(0), "flushed": False, "pend": ("pend", ()), "delims": N(0)})
        given = {}
        for p in f.params:
            if "basic_ofstream" in p["t"] or "basic_ostream" in p["t"]:
                R.sink = ("p", p["n"])
            if name == "AddToHeader" and "char" in p["t"]:
                a = ("ref", ("p", p["n"])) if "&" in p["t"] else None
                st.ghost[("copied", "header")] = N(0)
                L = R.sym(st, "header length", 1, INF)
                src = ("S", (("src", "header", N(0), L),))
                if a:
                    st.env[a[1]] = src
                given[p["v"]] = a or ("val", src)
        if name == "writeStart":
            lo, hi = (min(l[0] for l in lens), max(l[1] for l in lens)) if lens else (0, INF)
            # lines added by the function itself are seen in a first run
            for rnd in (0, 1):
                R2 = Rec(P, 72, "S", None, R.sink)
                R2.idx0 = N(1)
                R2.elemlen = {"startSection": (lo, hi)}
                s2 = St()
                s2.ghost.update({"lines": N(0), "flushed": False, "pend": ("pend", ()), "delims": N(0)})
                outs = go(rep, rule, R2, f, s2, params(f, R2, s2, given))
                if outs is None:
                    return
                for g, line, a, b, w1, w2 in R2.pushes.get("startSection", []):
                    lo, hi = min(lo, a), max(hi, b)
                R = R2
        else:
            outs = go(rep, rule, R, f, st, params(f, R, st, given))
            if outs is None:
                return
            rep.note("%s adds lines to the start section at %d places" % (f.short, len(R.pushes.get("startSection", []))))
            for g, line, a, b, w1, w2 in R.pushes.get("startSection", []):
                lens.append((a, b))
                pushes.append((g, line))
                if w1 is not None or w2 is not None:
                    R.alarm(F(g), line, "a line of the start section which does not have 72 columns" + show(w1 or w2))
        n = 0
        for s, r in outs:
            if not succeeded(s, r):
                continue
            n += 1
            if name == "AddToHeader":
                d = s.norm(s.ghost[("copied", "header")] - L)
                if d.const == 0 or s.bounds(d) == (0, 0):
                    continue
                if [k for k in s.cond if s.cond[k] and k[0] == "eq" and N(0) in k]:
                    continue                                  # an empty header
                w = s.witness(-d - 1)
                if w is not None:
                    R.alarm(F(f), f.line, "the text is not stored completely" + show(w))
                else:
                    R.unsure(F(f), f.line, "whether the whole text is stored")
            if name == "writeStart":
                p = s.ghost.get(("pass", lst))
                if p is None or p == "part":
                    R.unsure(F(f), f.line, "whether every line is written")
                elif p is not True:
                    R.alarm(F(f), f.line, p)
        if not n and name in ("writeStart", "AddToHeader"):
            R.alarm(F(f), f.line, "never succeeds")
        if name == "writeStart" and not R.nlines:
            R.alarm(F(f), f.line, "never writes a line")
        flush(rep, rule, R, f, n)
    rep.need(rule, 3)


class Term(Rec):
    """IGES::Write: sequence numbers, order of the sections, terminate record"""

    SECT = {"writeStart": "S", "writeGlobals": "G", "writeDE": "D", "writePD": "P"}
    LOOPS = ("format", "writeDE", "writePD")
    lost = False

    def wanted(self, f):
        return f.short not in self.SECT and any(p["t"].endswith("&") and "ofstream" in p["t"] for p in f.params)

    def isvec(self, qn, obj):
        return qn.startswith("std::vector") and obj is not None and obj >= 0

    def on_call(self, st, fr, e, x, short, qn, obj, args, op):
        if self.isvec(qn, obj) and (short in ("operator[]", "at") or op == "[]") and args:
            fr.vals[e] = ("loc", ("elem", self.lv(st, fr, obj), self.ev(st, fr, args[0])))
            return [(st, fr)]
        if self.isvec(qn, obj) and short == "empty":
            v = self.named(st, ("size", self.lv(st, fr, obj)))
            a, b = st.copy(), fr.copy()
            out = []
            if st.assume_ge0(-v):
                fr.vals[e] = N(1)
                out.append((st, fr))
            if a.assume_ge0(v - 1):
                b.vals[e] = N(0)
                out.append((a, b))
            return out
        cls = qn.rsplit("::", 1)[0]
        if obj is not None and obj >= 0 and cls in ("IGES", "IGES_ENTITY"):
            t = fr.f.x[obj][2]
            o = self.ev(st, fr, obj) if t.rstrip().endswith("*") else self.lv(st, fr, obj)
            if cls == "IGES_ENTITY" and short in self.LOOPS:
                self.count(st, fr, o, short, x[1])
                if short == "format" and args:
                    loc = self.lv(st, fr, args[0])
                    v = self.load(st, fr, loc, "int")
                    prev = st.ghost.get("indexnow")
                    if prev is not None and isinstance(v, Lin) and isinstance(prev, Lin):
                        d = st.norm(v - prev)
                        if d.const != 0 and st.bounds(d) != (0, 0):
                            if d.const is not None:
                                self.alarm(fr, x[1], "the records of the next entity do not start after those of the one before")
                            else:
                                self.unsure(fr, x[1], "whether the next entity continues the numbering")
                    nv = self.sym(st, "next record", 1, INF)
                    st.env[loc] = nv
                    st.ghost["indexnow"] = nv
                    fr.vals[e] = ("b", fr.id, e, self.fresh())
                    return [(st, fr)]
            if short in self.SECT and (cls == "IGES_ENTITY" or o == THIS):
                if not args or self.lv(st, fr, args[0]) != self.sink:
                    self.unsure(fr, x[1], "where the section is written")
                c = self.SECT[short]
                self.section(st, fr, c, x[1])
            if o == THIS and cls == "IGES":
                for m in self.P.mods(x[3]):
                    k = member(m.split("::")[-1])
                    if k in st.env:
                        del st.env[k]
                if short == "Cull":
                    for k in [k for k in st.env if k[0] == "fld" and k[1] == ("size",)]:
                        del st.env[k]
            # any other call on an entity or the model may fail or not
        return Rec.on_call(self, st, fr, e, x, short, qn, obj, args, op)

    def section(self, st, fr, c, line):
        order = "SGDPT"
        i = order.index(c)
        for d in order[i + 1:]:
            if st.norm(st.ghost[("sec", d)]).const != 0:
                self.alarm(fr, line, "section %s is written after section %s" % (c, d))
        for d in order[:i]:
            if d in "DP" and c != d and c in "PT":
                # written by a loop over all entities, which is not empty
                n = st.ghost[("n", "writeDE" if d == "D" else "writePD")]
                self.complete(st, fr, n, "section %s" % d, line)
            elif st.norm(st.ghost[("sec", d)]).const != 1:
                self.alarm(fr, line, "section %s is written before section %s" % (c, d))
        st.ghost[("sec", c)] = N(1)

    def size(self, st):
        return self.named(st, ("size", member("entities")))

    def complete(self, st, fr, n, what, line):
        if self.lost:
            return
        d = st.norm(n - self.size(st))
        if d.const == 0 or st.bounds(d) == (0, 0):
            return
        w = st.witness(d - 1) or st.witness(-d - 1)
        if w is not None:
            self.alarm(fr, line, "%s does not hold every entity%s" % (what, show(w)))
        else:
            self.unsure(fr, line, "whether %s holds every entity" % what)

    def index_of(self, o):
        """the index of the entity an object expression denotes"""
        while isinstance(o, tuple) and o and o[0] in ("deref", "val", "addr"):
            o = o[1]
        if isinstance(o, tuple) and o and o[0] == "elem" and o[1] == member("entities") and isinstance(o[2], Lin):
            return o[2]
        return None

    def count(self, st, fr, o, what, line):
        i = self.index_of(o)
        n = st.ghost[("n", what)]
        if i is None:
            self.lost = True
            self.unsure(fr, line, "which entity it is (%s)" % what)
        else:
            d = st.norm(i - n)
            if d.const != 0 and st.bounds(d) != (0, 0):
                w = st.witness(d - 1) or st.witness(-d - 1)
                if w is not None:
                    self.alarm(fr, line, "%s is called for entity %s, not for the next one" % (what, "n" + ("%+d" % d.const if d.const is not None else "?")))
                else:
                    self.unsure(fr, line, "whether the entities are taken in order (%s)" % what)
        st.ghost[("n", what)] = n + 1

    def store(self, st, fr, loc, v, line):
        if isinstance(loc, tuple) and loc[0] == "fld" and loc[2] == "sequenceNumber":
            i = self.index_of(loc[1])
            if i is None:
                self.unsure(fr, line, "whose sequence number it is")
            else:
                if st.norm(st.ghost[("n", "format")]).const != 0:
                    self.alarm(fr, line, "the sequence number changes after the entity was formatted")
                d = st.norm(v - i.scale(2)) if isinstance(v, Lin) else None
                if d is None:
                    self.unsure(fr, line, "the sequence number")
                elif d.const != 1 and st.bounds(d) != (1, 1):
                    if d.const is not None or st.witness(d - 2) or st.witness(-d):
                        self.alarm(fr, line, "the sequence number is not that of the entity's first directory record")
                    else:
                        self.unsure(fr, line, "the sequence number")
                self.count(st, fr, loc[1], "number", line)
        Rec.store(self, st, fr, loc, v, line)

    def record(self, st, fr, segs, line):
        if not self.mute:
            self.nlines.add((fr.f.short, line))
        self.section(st, fr, "T", line)
        if self.mute:
            return
        f = self.fields(st, segs)
        if f is None:
            self.unsure(fr, line, "the terminate record")
            return
        want = [("S", self.named(st, ("size", member("startSection")))),
                ("G", self.load(st, fr, member("nGlobSecLines"), "int")),
                ("D", self.size(st).scale(2)),
                ("P", (st.ghost["indexnow"] - 1) if isinstance(st.ghost.get("indexnow"), Lin) else None)]
        if len(f) < 6:
            self.alarm(fr, line, "the terminate record lacks a field")
            return
        for (l, v), (wl, wv) in zip(f, want):
            if l != wl:
                self.alarm(fr, line, "the terminate record holds %r where the count of section %s belongs" % (l, wl))
                continue
            if not isinstance(v, Lin) or not isinstance(wv, Lin):
                if not isinstance(v, Lin):
                    self.alarm(fr, line, "the terminate record lacks the count of section %s" % wl)
                else:
                    self.unsure(fr, line, "the count of section %s" % wl)
                continue
            d = st.norm(v - wv)
            if d.const != 0 and st.bounds(d) != (0, 0):
                if st.witness(d - 1) is not None or st.witness(-d - 1) is not None:
                    self.alarm(fr, line, "the terminate record states another number of records for section %s" % wl)
                else:
                    self.unsure(fr, line, "the count of section %s" % wl)
        if f[4][0] != " " or st.norm(f[4][1]).const != 40:
            self.alarm(fr, line, "columns 33 to 72 of the terminate record are not blank")
        if f[5][0] != "T" or not isinstance(f[5][1], Lin) or st.norm(f[5][1]).const != 1 or len(f) > 6:
            self.alarm(fr, line, "the terminate record is not record T 1")

    def fields(self, st, segs):
        out = []
        i = 0
        segs = [g for g in segs if st.norm(g[-1]).const != 0]
        while i < len(segs):
            g = segs[i]
            if g[0] == "sp" or (g[0] == "lit" and not g[1].strip(" ")):
                if out and out[-1][0] == " ":
                    out[-1] = (" ", out[-1][1] + g[-1])
                else:
                    out.append((" ", g[-1]))
                i += 1
            elif g[0] == "n8":
                out.append((" ", g[1]))
                i += 1
            elif g[0] == "ch" and isinstance(g[1], Lin) and g[1].const is not None and i + 1 < len(segs) and segs[i + 1][0] == "n7":
                out.append((chr(g[1].const), segs[i + 1][1]))
                i += 2
            elif g[0] == "lit" and len(g[1]) == 8:
                t = g[1]
                out.append((t[0], N(int(t[1:])) if t[1:].strip().isdigit() else None))
                i += 1
            else:
                return None
        return out


def terminate(rep, P):
    rule = "rec-terminate"
    f = method(P, "IGES", "Write", lambda f: len(f.params) == 2)
    R = Term(P, 72, "T", None, None)
    sinks = [v for v, d in f.v.items() if d["t"].endswith("ofstream") or "basic_ofstream" in d["t"]]
    if len(sinks) != 1:
        rep.undecided(rule, "the stream the file is written to")
        return
    st = St()
    st.ghost.update({"indexnow": N(1), "lines": N(0), "flushed": False, "pend": ("pend", ())})
    for c in "SGDPT":
        st.ghost[("sec", c)] = N(0)
    for c in ("number",) + Term.LOOPS:
        st.ghost[("n", c)] = N(0)
    R.sink = ("v", R.uid + 1, sinks[0])
    outs = go(rep, rule, R, f, st, params(f, R, st, {}))
    if outs is None:
        return
    n = 0
    for s, r in outs:
        if not succeeded(s, r):
            continue
        n += 1
        if s.norm(s.ghost[("sec", "T")]).const != 1:
            R.alarm(F(f), f.line, "succeeds without a terminate record")
        for what in ("number", "format"):
            R.complete(s, F(f), s.ghost[("n", what)], "what was numbered" if what == "number" else "what was formatted", f.line)
    if not n:
        R.alarm(F(f), f.line, "never succeeds")
    flush(rep, rule, R, f, n)
    rep.need(rule, 1)


def params_read(rep, P):
    """readPD: columns 1-64 of exactly the records the directory entry names"""
    rule = "rec-params"
    f = method(P, "IGES_ENTITY", "readPD")
    out = member("pdout")
    seq = None

    class RP(Rec):
        lost = False

        def wanted(self, f):
            return f.short not in ("readExtraParams", "readComments")

        def on_call(self, st, fr, e, x, short, qn, obj, args, op):
            if short == "ReadIGESRecord" and args:
                a = self.ev(st, fr, args[0])
                loc = a[1] if isinstance(a, tuple) and a[0] == "addr" else a
                b, g = st.copy(), fr.copy()
                g.vals[e] = N(0)
                if st.ghost.get("fresh") == N(1):
                    self.alarm(fr, x[1], "a record is read and its text dropped")
                for k in [k for k in st.env if k[0] == "fld" and k[1] == loc]:
                    del st.env[k]
                st.env[("fld", loc, "data")] = ("S", (("src", "rec", N(0), N(72)),))
                st.env[("fld", loc, "index")] = st.ghost["recno"] = self.sym(st, "recno", 1, 99999999)
                st.env[("fld", loc, "section_type")] = st.ghost["letter"] = self.sym(st, "letter", 0, 127)
                st.ghost["de"] = self.sym(st, "unchecked DE")
                st.ghost["fresh"] = N(1)
                fr.vals[e] = N(1)
                return [(b, g), (st, fr)]
            if short == "DEItemToInt" and len(args) >= 3:
                t = self.text(st, fr, args[0])
                fl = self.ev(st, fr, args[1])
                loc = self.lv(st, fr, args[2])
                b, g = st.copy(), fr.copy()
                g.vals[e] = N(0)
                self.store(st, fr, loc, self.sym(st, "field", -2147483648, 2147483647), x[1])
                if t and len(t) == 1 and t[0][0] == "src" and isinstance(fl, Lin) and st.norm(fl).const == 8:
                    st.ghost["de"] = st.env[loc]
                fr.vals[e] = N(1)
                return [(b, g), (st, fr)]
            if short in ("ParseInt", "ParseReal", "ParseHString"):
                b, g = st.copy(), fr.copy()
                g.vals[e] = N(0)
                for i in range(1, 4):
                    loc = self.lv(st, fr, args[i])
                    if loc in st.env:
                        self.store(st, fr, loc, self.sym(st, "parsed", -2147483648, 2147483647), x[1])
                fr.vals[e] = N(1)
                return [(b, g), (st, fr)]
            return Rec.on_call(self, st, fr, e, x, short, qn, obj, args, op)

        def equal(self, st, fr, a, b, line, what):
            d = st.norm(a - b)
            if d.const == 0 or st.bounds(d) == (0, 0):
                return
            if d.const is not None or st.witness(d - 1) is not None or st.witness(-d - 1) is not None:
                self.alarm(fr, line, what)
            else:
                self.unsure(fr, line, "whether " + what)

        def append(self, st, fr, loc, t, add, line):
            if loc == out:
                n = st.ghost["n"]
                if len(add) != 1 or add[0][0] != "src":
                    self.lost = True
                    self.unsure(fr, line, "what is added to the parameter data")
                elif st.norm(add[0][2]).const != 0 or st.norm(add[0][3]).const != 64:
                    self.alarm(fr, line, "not columns 1 to 64 of the record are added to the parameter data")
                elif st.norm(st.ghost["fresh"]).const != 1:
                    self.alarm(fr, line, "a record is added to the parameter data twice")
                else:
                    self.equal(st, fr, st.ghost["letter"], N(80), line, "a record of another section is accepted")
                    self.equal(st, fr, st.ghost["recno"], self.load(st, fr, member("parameterData"), "int") + n, line, "a record with another number is accepted")
                    self.equal(st, fr, st.ghost["de"], self.load(st, fr, member("sequenceNumber"), "int"), line, "a record of another directory entry is accepted")
                st.ghost["n"] = n + 1
                st.ghost["fresh"] = N(0)
            Rec.append(self, st, fr, loc, t, add, line)

    R = RP(P, summary=False)
    st = St()
    st.ghost.update({"n": N(0), "fresh": N(0), "recno": N(0), "letter": N(0), "de": N(0)})
    st.env[member("pdout")] = ("S", (("mix", "before", R.sym(st, "old", 0)),))
    start = R.sym(st, "aSequenceVar", 0, LIMIT)
    for p in f.params:
        if p["t"].replace(" ", "") == "int&":
            seq = ("p", p["n"])
            st.env[seq] = start
    outs = go(rep, rule, R, f, st, params(f, R, st, {}))
    if outs is None:
        return
    k = 0
    for s, r in outs:
        if not succeeded(s, r):
            continue
        k += 1
        n = s.ghost["n"]
        fr = F(f)
        if s.norm(n).const == 0:
            et = s.env.get(member("entityType"))
            if isinstance(et, Lin) and s.bounds(et) == (0, 0):
                continue                                      # the NULL entity has no parameters
        R.equal(s, fr, n, R.load(s, fr, member("paramLineCount"), "int"), f.line, "another number of records is read than the directory entry says")
        if seq:
            R.equal(s, fr, s.env[seq] - start, n, f.line, "the counter of parameter records is not advanced by the records read")
        v = s.env.get(out)
        if isinstance(v, tuple) and v[0] == "S":
            if not R.lost:
                R.equal(s, fr, slen(v[1]), n.scale(64), f.line, "the parameter data is not the text of the records read")
    if not k:
        R.alarm(F(f), f.line, "never succeeds")
    flush(rep, rule, R, f, k)
    rep.need(rule, 1)


def fields_read(rep, P):
    """DEItemToInt, DEItemToStr: field n is columns 8n+1 to 8n+8 without its leading blanks"""
    rule = "rec-field"

    class RF(Rec):
        field = 0
        starts = None

        def on_call(self, st, fr, e, x, short, qn, obj, args, op):
            if short == "find_first_not_of" and obj is not None and obj >= 0:
                v = self.ev(st, fr, obj)
                w = self.sym(st, "blanks", 0, 7)
                if isinstance(v, tuple) and v and v[0] == "S" and len(v[1]) == 1 and v[1][0][0] == "src":
                    a = st.norm(v[1][0][2]).const
                    n = st.norm(v[1][0][3]).const
                    if a is not None and n is not None:
                        if (a, n) != (8 * self.field, 8):
                            self.alarm(fr, x[1], "columns %d to %d are searched for field %d" % (a + 1, a + n, self.field))
                        b, g = st.copy(), fr.copy()
                        g.vals[e] = N(2 ** 64 - 1)
                        fr.vals[e] = w
                        st.ghost["blanks"] = w
                        return [(b, g), (st, fr)]
            if short in ("strtol", "atoi", "strtoul", "stoi") and args:
                st.ghost["converted"] = N(1)
                v = st.ghost["number"] = self.sym(st, "number", -INF, INF)
                fr.vals[e] = v
                return [(st, fr)]
            return Rec.on_call(self, st, fr, e, x, short, qn, obj, args, op)

        def store(self, st, fr, loc, v, line):
            if isinstance(loc, tuple) and loc[0] == "elem" and isinstance(loc[2], Lin) and loc[1][0] == "v":
                n = st.ghost["n"]
                if isinstance(v, tuple) and v and v[0] == "chr" and isinstance(v[-1], Lin):
                    self.same(st, fr, loc[2] - n, line, "the characters of the field are not stored one after another")
                    self.same(st, fr, v[-1] - n - st.ghost["blanks"] - 8 * self.field, line, "the number is not taken from the columns of its field")
                    st.ghost["n"] = n + 1
                elif isinstance(v, Lin) and st.norm(v).const == 0:
                    self.same(st, fr, loc[2] - n, line, "the characters of the field are not closed where they end")
                    self.same(st, fr, n + st.ghost["blanks"] - 8, line, "not all columns of the field are taken")
                    st.ghost["closed"] = N(1)
                else:
                    self.unsure(fr, line, "what is stored")
                return
            Rec.store(self, st, fr, loc, v, line)

        def same(self, st, fr, d, line, what):
            d = st.norm(d)
            if d.const == 0 or st.bounds(d) == (0, 0):
                return
            if d.const is not None or st.witness(d - 1) is not None or st.witness(-d - 1) is not None:
                self.alarm(fr, line, what)
            else:
                self.unsure(fr, line, "whether " + what)

    for name in ("DEItemToInt", "DEItemToStr"):
        f = [f for f in P.byname.get(name, [])][0]
        total = 0
        R = RF(P, summary=False)
        for k in range(10):
            R.field = k
            st = St()
            st.ghost.update({"n": N(0), "blanks": N(0), "closed": N(0), "converted": N(0), "number": N(0)})
            given = {}
            txt = None
            for p in f.params:
                if isstr(p["t"]) and "const" in p["t"]:
                    txt = ("p", p["n"])
                    st.env[txt] = ("S", (("src", "line", N(0), R.sym(st, "line length", 72 if k < 9 else 80, 81)),))
                    given[p["v"]] = ("ref", txt)
                elif p["t"].strip() == "int":
                    given[p["v"]] = ("val", N(k))
                elif p["t"].replace(" ", "") == "int&":
                    num = ("p", p["n"])
                    st.env[num] = R.sym(st, "var", -2147483648, 2147483647)
                elif isstr(p["t"]):
                    res = ("p", p["n"])
                    st.env[res] = ("S", (("mix", "before", R.sym(st, "old", 0)),))
                    given[p["v"]] = ("ref", res)
            if txt is None:
                rep.undecided(rule, "%s: its text" % name)
                return
            outs = go(rep, rule, R, f, st, params(f, R, st, given))
            if outs is None:
                return
            n = 0
            for s, r in outs:
                if not succeeded(s, r):
                    continue
                n += 1
                if name == "DEItemToInt":
                    if s.norm(s.ghost["converted"]).const == 1 and s.norm(s.ghost["closed"]).const != 1:
                        R.unsure(F(f), f.line, "which text is converted")
                    if s.norm(s.ghost["converted"]).const == 1:
                        v = s.env.get(num)
                        if isinstance(v, Lin):
                            R.same(s, F(f), v - s.ghost["number"], f.line, "another number than that of the field is delivered")
                        else:
                            R.unsure(F(f), f.line, "the number delivered")
                    elif s.norm(s.ghost["n"]).const != 0:
                        R.alarm(F(f), f.line, "the number of the field is not delivered")
                    continue
                v = s.env.get(res)
                if not (isinstance(v, tuple) and v[0] == "S"):
                    R.unsure(F(f), f.line, "the text delivered")
                    continue
                if not v[1] or s.norm(slen(v[1])).const == 0:
                    continue
                if len(v[1]) == 1 and v[1][0][0] == "src":
                    R.same(s, F(f), v[1][0][2] - s.ghost["blanks"] - 8 * k, f.line, "the text is not taken from the columns of its field")
                    R.same(s, F(f), v[1][0][2] + v[1][0][3] - 8 * k - 8, f.line, "not all columns of the field are delivered")
                else:
                    R.alarm(F(f), f.line, "the text delivered is not that of the field")
            total += n
            if not n:
                R.alarm(F(f), f.line, "never succeeds for field %d" % k)
        flush(rep, rule, R, f, total)
    rep.need(rule, 20)


def out(rep, P):
    """writePD: all records of the entity, as they were made, once"""
    rule = "rec-out"
    f = method(P, "IGES_ENTITY", "writePD")

    class RO(Rec):
        def on_stream(self, st, fr, loc, v, line):
            if loc == self.sink:
                n = st.ghost["n"]
                for g in v or ():
                    if g[0] == "src" and st.norm(g[2] - n).const == 0:
                        n = n + g[3]
                    else:
                        self.alarm(fr, line, "other text than the records of the entity is written")
                if v is None:
                    self.unsure(fr, line, "what is written")
                st.ghost["n"] = n

        def append(self, st, fr, loc, t, add, line):
            if loc == self.sink:
                self.on_stream(st, fr, loc, add, line)
                return
            Rec.append(self, st, fr, loc, t, add, line)
    R = RO(P, summary=False)
    st = St()
    st.ghost["n"] = N(0)
    L = R.sym(st, "records", 0, INF)
    st.env[member("pdout")] = ("S", (("src", "pdout", N(0), L),))
    for p in f.params:
        if "ofstream" in p["t"]:
            R.sink = ("p", p["n"])
    outs = go(rep, rule, R, f, st, params(f, R, st, {}))
    if outs is None:
        return
    k = 0
    for s, r in outs:
        if not succeeded(s, r):
            continue
        k += 1
        d = s.norm(s.ghost["n"] - L)
        if d.const != 0 and s.bounds(d) != (0, 0):
            if s.witness(d - 1) is not None or s.witness(-d - 1) is not None:
                R.alarm(F(f), f.line, "not all records of the entity are written")
            else:
                R.unsure(F(f), f.line, "whether all records are written")
    if not k:
        R.alarm(F(f), f.line, "never succeeds")
    flush(rep, rule, R, f, k)
    rep.need(rule, 1)


def run(P, rep):
    rep.guard("rec-AddPDItem", check, rep, P)
    rep.rule("rec-number", "FormatDEInt: the number right justified in 8 columns, for every number which fits")
    rep.rule("rec-read", "ReadIGESRecord: text from columns 1-72, letter from column 73, number from columns 73-80")
    rep.rule("rec-comments", "formatComments: every comment goes out completely, in records like those of the parameters")
    rep.rule("rec-start", "the lines of the start section have 72 columns wherever they come from, and writeStart writes each of them with its number")
    rep.guard("rec-number", number, rep, P)
    rep.guard("rec-read", reader, rep, P)
    rep.guard("rec-comments", comments, rep, P)
    rep.guard("rec-start", start, rep, P)
    rep.rule("rec-terminate", "IGES::Write: sections in order, each entity numbered, formatted and written once, terminate record states the counts")
    rep.guard("rec-terminate", terminate, rep, P)
    rep.rule("rec-params", "IGES_ENTITY::readPD: columns 1-64 of the records from parameterData on, each checked for section, number and directory entry")
    rep.guard("rec-params", params_read, rep, P)
    rep.rule("rec-field", "DEItemToInt, DEItemToStr: field n is read from columns 8n+1 to 8n+8, all of them")
    rep.guard("rec-field", fields_read, rep, P)
    rep.rule("rec-out", "IGES_ENTITY::writePD: all records of the entity go to the file once, as they were made")
    rep.guard("rec-out", out, rep, P)
    chain.run(P, rep)
