"""Failure propagation: a step that fails makes the operation it belongs to fail."""
import os
import engine
from engine import C, TRUE, isc

FALSE = C(False)
NULL = C(0)
DIRS = ("entities", "iges", "geom", "dllapi", "idf")

# the fallible steps, by the name of the function which performs them
STEPS = {
    "fail-input": ("ParseInt ParseReal ParseHString ParseLString DEItemToInt DEItemToStr ReadIGESRecord readGlobals readDE readPD readTS "
                   "readExtraParams readComments associate"),
    "fail-output": ("FormatDEInt FormatPDREal AddPDItem AddPDHStr AddSecItem AddSecHStr writeStart writeGlobals formatExtraParams "
                    "formatComments format writeDE writePD Write"),
    "fail-scale": "rescale ConvertUnits ChangeModelScale",
    "fail-link": "addReference",
}
STEPS = {n: r for r, s in STEPS.items() for n in s.split()}


class F(engine.Check):
    max_depth = 3
    max_states = 20000
    join_cap = 48

    def __init__(self, P, fn, reach):
        self.P = P
        self.fn = fn
        self.reach = reach
        self.sites = {}

    def joinkey(self, st):
        return st.prop

    def inline(self, E, st, c, callee):
        return callee.short not in STEPS and callee.sig in self.reach and not callee.virt and callee.nel < 400 and callee.access != 0

    def on_store(self, E, st, loc, val, func, line):
        # a default substituted for an item which could not be read
        if st.prop and st.prop[1] is not None and loc in st.prop[1] and isc(val):
            st.prop = ()

    def on_assume(self, E, st, term, truth, func, line):
        # a NULL entity stands for an unsupported one and refuses every reference by design
        if st.prop and st.prop[2] is not None:
            lo, hi = E.iv(st, ("r", ("etype", st.prop[2])))[:2]
            if lo == 0 and hi == 0:
                st.prop = ()

    def step(self, c):
        if c.short not in STEPS:
            return False
        g = self.P.funcs.get(c.sig)
        return g is not None and g.ret == "bool" and g.file.startswith(DIRS) or \
            g is None and c.name.rsplit("::", 1)[0] in self.P.classes

    def on_call(self, E, st, c):
        if c.short == "GetEntityType" and c.objval is not None and not c.args:
            return [(st, ("r", ("etype", E.strip(c.objval))))]
        if not self.step(c):
            return None
        out = None
        if STEPS[c.short] == "fail-input":
            out = tuple(c.argloc(st, i) for i in range(len(c.args)) if i < len(c.modes) and c.modes[i] == "r")
        E.opaque_call(st, c)
        k = (c.func.name, c.short, c.line, c.site)
        self.sites.setdefault(k, "%s:%d" % (c.func.file, c.line))
        if st.prop:
            return [(st, st.vals[(c.ctx, c.id)])]
        bad = st.copy()
        bad.prop = (k, out, E.strip(c.objval) if STEPS[c.short] == "fail-link" and c.objval is not None else None)
        return [(st, TRUE), (bad, FALSE)]


class S(engine.Check):
    """output streams owned by a function: their state decides its result"""
    max_depth = 2
    max_states = 20000
    join_cap = 64

    def __init__(self, P, fn, streams):
        self.P = P
        self.fn = fn
        self.streams = streams
        self.n = 0

    def joinkey(self, st):
        return st.prop

    def inline(self, E, st, c, callee):
        return False

    def which(self, E, l):
        return E.lvtype.get((l[1], l[2])) if isinstance(l, tuple) and l and l[0] == "lv" else None

    def stream(self, E, st, c):
        """the stream a call works on"""
        if c.obj is not None and "fstream" in (self.which(E, c.obj) or ""):
            return c.obj
        for i in range(len(c.args)):
            l = c.argloc(st, i)
            if l is not None and "fstream" in (self.which(E, l) or ""):
                return l
        return None

    def on_call(self, E, st, c):
        l = self.stream(E, st, c)
        if l is None or c.ctx != 0:
            return None
        s = c.short
        p = dict(st.prop)
        if s in ("fail", "operator!", "bad", "good", "operator bool", "is_open", "rdstate", "eof"):
            if s in ("fail", "operator!", "good", "operator bool"):
                E.opaque_call(st, c)
                p[("t", st.vals[(c.ctx, c.id)])] = (l, s in ("good", "operator bool"))
                st.prop = frozenset(p.items())
                return [(st, st.vals[(c.ctx, c.id)])]
            return None
        for k in [k for k, v in p.items() if k[0] == "t" and v[0] == l]:
            del p[k]
        if s == "exceptions" and c.args:
            a = c.args[0]
            p[("x", l)] = not (isc(a) and a[1] == 0 or a[0] == "g" and "goodbit" in str(a[1]))
        elif s in ("open", "basic_ofstream", "setf", "precision", "clear", "unsetf", "width"):
            if s == "open":
                p[("d", l)] = False
                p[("c", l)] = False
        elif s == "close":
            p[("c", l)] = True
            if p.get(("x", l)):
                p[("d", l)] = False
        else:
            p[("d", l)] = True
            p[("c", l)] = False
            self.n += 1
        st.prop = frozenset(p.items())
        return None

    def on_assume(self, E, st, term, truth, func, line):
        p = dict(st.prop)
        for k, v in list(p.items()):
            if k[0] == "t" and E.truth(st, k[1]) is v[1] and p.get(("c", v[0])):
                p[("d", v[0])] = False
                st.prop = frozenset(p.items())


CONV = {"strtol": 1, "strtod": 1, "strtoul": 1, "strtoll": 1, "strtof": 1, "strtoull": 1}
ERRNO = ("deref", ("g", "errno"))


class N(engine.Check):
    """numbers converted from text: the conversion's own verdict decides"""
    max_depth = 2
    max_states = 20000
    join_cap = 64

    def __init__(self, P, fn):
        self.P = P
        self.fn = fn
        self.sites = {}

    def joinkey(self, st):
        return st.prop

    def inline(self, E, st, c, callee):
        return callee.access != 0 and callee.nel < 60

    def on_call(self, E, st, c):
        s = c.short
        if s == "__errno_location":
            return [(st, ("g", "errno"))]
        if s in CONV and len(c.args) >= 2:
            E.opaque_call(st, c)
            r = st.vals[(c.ctx, c.id)]
            E.rawstore(st, ERRNO, ("r", ("errno", c.site)))
            end = E.load(st, E.deref(c.args[1])) if c.args[1][0] == "addr" else None
            k = (c.func.name, s, c.line, c.site)
            self.sites.setdefault(k, "%s:%d" % (c.func.file, c.line))
            st.prop = frozenset(st.prop) | {("num", k, r, c.args[0], end, ())}
            return [(st, r)]
        if c.op == ">>" and c.args:
            l, i = (c.obj, 0) if c.obj is not None else (c.argloc(st, 0), 1)
            t = E.lvtype.get((l[1], l[2])) if isinstance(l, tuple) and l and l[0] == "lv" else None
            if t and "stringstream" in t:
                k = (c.func.name, ">>", c.line, c.site)
                self.sites.setdefault(k, "%s:%d" % (c.func.file, c.line))
                st.prop = frozenset(st.prop) | {("str", k, l, c.argloc(st, i))}
            return None
        if s in ("fail", "operator!", "good", "operator bool") and c.obj is not None and c.obj[0] == "lv":
            E.opaque_call(st, c)
            st.prop = frozenset(x for x in st.prop if not (x[0] == "t" and x[1] == c.obj)) | {("t", c.obj, st.vals[(c.ctx, c.id)], s in ("good", "operator bool"))}
            return [(st, st.vals[(c.ctx, c.id)])]
        return None

    def on_assume(self, E, st, term, truth, func, line):
        new = set()
        for x in st.prop:
            if x[0] == "num":
                d = set(x[5])
                if x[4] is not None and E.truth(st, ("op", "==", x[3], x[4])) is False:
                    d.add("end")
                if E.truth(st, ("r", ("errno", x[1][3]))) is False:
                    d.add("errno")
                if x[1][1] == "strtol" and "cut" not in d:
                    lo, hi = E.iv(st, x[2])[:2]
                    if lo < -2 ** 31 or hi > 2 ** 31 - 1:
                        if any(v == x[2] and l[0] == "lv" and E.lvtype.get((l[1], l[2])) in ("int", "const int") for l, v in st.env.items()):
                            d.add("cut")
                if "cut" in d and x[4] is not None and E.iv(st, ("op", "-", x[4], x[3]))[1] <= 9:
                    d.add("few")
                new.add(x[:5] + (tuple(sorted(d)),))
            elif x[0] == "str" and any(y[0] == "t" and y[1] == x[2] and E.truth(st, y[2]) is not None for y in st.prop):
                if any(y[0] == "t" and y[1] == x[2] and E.truth(st, y[2]) is not y[3] for y in st.prop):
                    new.add(("bad",) + x[1:])
            else:
                new.add(x)
        st.prop = frozenset(new)

    def on_store(self, E, st, loc, val, func, line):
        # a default substituted for what is no number
        if any(x[0] == "bad" and x[3] == loc for x in st.prop):
            st.prop = frozenset(x for x in st.prop if not (x[0] == "bad" and x[3] == loc))

    def short(self, E, st, a):
        """the text lies in an array too short to hold a number which exceeds an int"""
        if a[0] == "addr" and a[1][0] == "elem" and a[1][1][0] == "lv":
            t = E.lvtype.get((a[1][1][1], a[1][1][2])) or ""
            return t.startswith("char[") and t[5:-1].isdigit() and int(t[5:-1]) <= 10
        return False

    def verdict(self, E, st):
        for x in st.prop:
            if x[0] == "bad" and self.fn.ret != "void":
                yield x[1], "text which is no number is accepted"
            if x[0] == "str":
                yield x[1], "whether a number was found is not tested"
            elif x[0] == "num":
                if "end" not in x[5] and x[4] is not None:
                    yield x[1], "whether any digit was found is not tested"
                elif "errno" not in x[5]:
                    yield x[1], "whether the number was in range is not tested"
                elif "cut" in x[5] and "few" not in x[5] and not self.short(E, st, x[3]):
                    yield x[1], "a number too large for an int is cut off"


class K(engine.Check):
    """a failed read leaves nothing behind"""
    max_depth = 1
    max_states = 20000
    join_cap = 64

    def __init__(self, P, fn):
        self.P = P
        self.fn = fn

    def joinkey(self, st):
        return st.prop

    def inline(self, E, st, c, callee):
        return False

    def on_call(self, E, st, c):
        g = self.P.funcs.get(c.sig)
        if c.objval is not None and E.strip(c.objval) == ("this",) and g is not None:
            if c.short == "Clear":
                st.prop = ()
            elif not g.const:
                st.prop = ("changed",)
        return None

    def on_store(self, E, st, loc, val, func, line):
        b = loc
        while isinstance(b, tuple) and b[0] in ("fld", "elem", "size", "v"):
            if b[0] == "fld" and b[1] in (("this",), ("deref", ("this",))):
                if b[2].split("::")[-1] not in ("errormsg",):
                    st.prop = ("changed",)
                return
            b = b[1]


def handlers(P, rep):
    """exception handlers: the failure is passed on"""
    for f in sorted(P.funcs.values(), key=lambda f: f.sig):
        if not f.file.startswith(DIRS):
            continue
        for b, blk in f.blocks.items():
            if not (blk.get("l") and "catch" in blk["l"]):
                continue
            rep.fn(f)
            seen, work, bad = set(), [int(b)], None
            while work:
                n = work.pop()
                if n in seen:
                    continue
                seen.add(n)
                stop = False
                for e in f.blocks[n]["e"]:
                    if isinstance(e, list) and e[0] == "ret":
                        v = f.x[e[2]] if e[2] >= 0 else None
                        lit = None
                        while v is not None and v[0] in ("cast", "opq", "paren") and isinstance(v[4] if len(v) > 4 else v[3], int):
                            v = f.x[v[4] if len(v) > 4 else v[3]]
                        if v is not None and v[0] in ("lit", "const", "null"):
                            lit = v[-1]
                        if v is None or lit in (1, True, "true"):
                            bad = e[1]
                        stop = True
                    elif isinstance(e, int) and f.x[e][0] == "throw":
                        stop = True
                if stop:
                    continue
                for s in f.blocks[n]["s"]:
                    if s is not None:
                        if int(s) == f.exit and f.ret == "void":
                            bad = f.end
                        work.append(int(s))
            key = "%s:catch" % f.name
            if bad is not None:
                rep.violate("fail-catch", key, "%s catches an exception and goes on as if nothing had failed" % f.name, "%s:%s" % (f.file, bad))
            else:
                rep.ok("fail-catch")


def users(P, f):
    for b, e in f.elems():
        if isinstance(e, int) and f.x[e][0] == "call":
            yield f.x[e][4].split("::")[-1]


def run(P, rep):
    texts = {"fail-input": "a value or record which cannot be read makes the reading operation report failure",
             "fail-output": "a field or section which cannot be formatted or written makes the writing operation report failure",
             "fail-scale": "a part which cannot be rescaled makes the rescaling operation report failure",
             "fail-link": "a refused reference makes the linking operation report failure"}
    for r, t in texts.items():
        rep.rule(r, t)
    rep.rule("fail-stream", "a function which writes a file of its own reports success only when the stream's state was good after the file was closed")
    rep.rule("fail-clean", "a reading operation which fails leaves no partial model behind")
    rep.rule("fail-catch", "an exception which is caught is turned into a failure result or thrown again")
    rep.rule("fail-number", "text which is no number, or one too large for its variable, is not taken for a number")
    handlers(P, rep)
    for f in sorted(P.funcs.values(), key=lambda f: f.sig):
        if not f.file.startswith(DIRS):
            continue
        us = set(users(P, f))
        if us & set(CONV) or "operator>>" in us:
            chk = N(P, f)
            E = engine.Engine(P, chk, f.cls)
            rep.fn(f)
            out = E.run(f)
            if E.limit_hit:
                rep.undecided("fail-number", f.name)
            bad = {}
            for st, val, th in out:
                if th or val is not None and E.truth(st, val) is False:
                    continue
                for k, t in chk.verdict(E, st):
                    bad[k] = t
            for k, w in chk.sites.items():
                if k in bad:
                    rep.violate("fail-number", "%s:%s#%d" % (k[0], k[1], sorted(x[2] for x in chk.sites).index(k[2])), "%s: %s" % (f.name, bad[k]), w)
                else:
                    rep.ok("fail-number")
        own = [v for v in f.v.values() if isinstance(v, list) and any("basic_ofstream" in str(x) for x in v)] if isinstance(f.v, dict) else []
        if any(f.x[i][0] == "var" and "basic_ofstream" in str(f.x[i][2]) and "&" not in str(f.x[i][2]) for i in f.x) and not any("ofstream" in p["t"] for p in f.params):
            chk = S(P, f, own)
            E = engine.Engine(P, chk, f.cls)
            rep.fn(f)
            out = E.run(f)
            if E.limit_hit:
                rep.undecided("fail-stream", f.name)
            elif any(not th and (val is None or E.truth(st, val) is not False) and any(k[0] == "d" and v for k, v in st.prop) for st, val, th in out):
                rep.violate("fail-stream", f.name, "%s may report success although data it wrote did not reach the file" % f.name, "%s:%d" % (f.file, f.line))
            else:
                rep.ok("fail-stream", max(1, chk.n))
        if f.cls and f.short in ("Read", "ReadFile") and P.byname.get(f.cls + "::Clear") and f.file.startswith(("iges", "idf")):
            chk = K(P, f)
            E = engine.Engine(P, chk, f.cls)
            rep.fn(f)
            out = E.run(f)
            if E.limit_hit:
                rep.undecided("fail-clean", f.name)
            for st, val, th in out:
                if th or E.truth(st, val) is True:
                    continue
                if st.prop:
                    rep.violate("fail-clean", f.name, "%s fails and leaves what it read so far in the model" % f.name, "%s:%d" % (f.file, f.line))
                else:
                    rep.ok("fail-clean")
    reach = set()
    direct = {f.sig for f in P.funcs.values() if any(n in STEPS for n in users(P, f))}
    for f in P.funcs.values():
        if f.file.startswith(DIRS) and f.sig in direct:
            reach.add(f.sig)
    for f in sorted(P.funcs.values(), key=lambda f: f.sig):
        if f.sig not in direct or not f.file.startswith(DIRS) or f.ret == "void" or f.ret is None:
            continue
        chk = F(P, f, reach)
        E = engine.Engine(P, chk, f.cls)
        rep.fn(f)
        try:
            if os.environ.get("SA_T"): print(f.name, flush=True)
            out = E.run(f)
        except engine.Limit:
            rep.undecided("fail-input", f.name)
            continue
        bad = {}
        for st, val, thrown in out:
            if thrown or not st.prop:
                continue
            k = st.prop[0]
            t = E.truth(st, val) if val is not None else None
            if t is not False:
                bad[k] = t
        if E.limit_hit:
            rep.undecided("fail-input", f.name)
            continue
        for k, w in chk.sites.items():
            r = STEPS[k[1]]
            if k in bad:
                rep.violate(r, "%s:%s" % (k[0], k[1]), "%s may report success although %s failed" % (f.name, k[1]), w)
            else:
                rep.ok(r)
