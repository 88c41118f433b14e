"""P13: how the writers of parameter data and of the global section use the record helpers."""
import engine
import program
from engine import TRUE, isc, C

ADD = {"AddPDItem": ("tstr", "carry", "out", "index", "de", "pd", "rd"),
       "AddPDHStr": ("tstr", "carry", "out", "index", "de", "pd", "rd", "delim"),
       "AddSecItem": ("tstr", "carry", "out", "index", "pd", "rd"),
       "AddSecHStr": ("tstr", "carry", "out", "index", "pd", "rd", "delim"),
       "formatExtraParams": ("carry", "index", "pd", "rd"),
       "formatComments": ("index",)}
CHANGES = ("clear", "erase", "assign", "append", "push_back", "insert", "replace", "resize", "swap")
COUNT = {"format": "IGES_ENTITY::paramLineCount", "writeGlobals": "IGES::nGlobSecLines"}
LAST = 9999990                      # the very last numbers may be refused
THIS = ("deref", ("this",))


class Writer(engine.Check):
    max_depth = 3

    def __init__(self, f):
        self.f = f
        self.bad = {}
        self.unk = {}
        self.calls = set()
        self.ends = 0
        self.memo = {}

    def joinkey(self, st):
        return st.prop

    def get(self, st, k):
        return dict(st.prop).get(k)

    def put(self, st, **kw):
        d = dict(st.prop)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        st.prop = tuple(sorted(d.items(), key=lambda p: p[0]))

    def alarm(self, func, line, what):
        self.bad.setdefault((func.file, line, func.short, what), 1)

    def unsure(self, func, line, what):
        self.unk.setdefault((func.file, line, func.short, what), 1)

    def inline(self, E, st, c, callee):
        return callee.short not in ADD and callee.nel < 400 and callee.short not in ("unlink", "unformat") and self.reaches(E, callee)

    def reaches(self, E, f, depth=0):
        """does the function use a record helper"""
        if f is None or depth > 2 or f.short in ("format", "Write", "Export"):
            return False
        if f.sig not in self.memo:
            self.memo[f.sig] = False
            for x in f.x.values():
                if x[0] == "call" and (x[4].split("::")[-1] in ADD or self.reaches(E, E.P.funcs.get(x[3]), depth + 1)):
                    self.memo[f.sig] = True
                    break
        return self.memo[f.sig]

    def on_call(self, E, st, c):
        s = c.short
        if s in ADD and len(c.argids) >= len(ADD[s]):
            self.add(E, st, c, s)
            return None
        if "operator<<" in c.name and len(c.argids) and self.get(st, "out") is not None:
            l = E.loc(c.func, c.ctx, c.argids[-1], st)
            if l == self.get(st, "out"):
                if self.get(st, "emitted"):
                    self.alarm(c.func, c.line, "the records are written twice")
                self.put(st, emitted=True)
        if c.obj is not None and "basic_string" in c.name and not c.isconst:
            if s in CHANGES or c.op in ("=", "+="):
                self.touch(E, st, c.obj, s, c)
        elif "operator<<" not in c.name:
            for i, m in enumerate(c.modes or ""):
                if m == "r" and i < len(c.argids):
                    l = c.argloc(st, i)
                    if l is not None and l in (self.get(st, "carry"), self.get(st, "index")):
                        if c.callee is None or not self.inline(E, st, c, c.callee):
                            self.unsure(c.func, c.line, "what %s does with the started line or the counter" % s)
        return None

    def touch(self, E, st, loc, s, c):
        if loc == self.get(st, "carry"):
            if not self.get(st, "spoilt"):
                self.put(st, spoilt=("the started line is changed other than by the record helpers", c.func.file, c.line, c.func.short))
        if loc == self.get(st, "out"):
            self.put(st, spoilt=("finished records are changed or dropped", c.func.file, c.line, c.func.short))
        elif s == "clear" or (s == "erase" and not c.args) or (s == "resize" and c.args == (C(0),)) or (c.op == "=" and c.args and c.args[0] in (("str", ""), ("r", ""))):
            e = set(self.get(st, "cleared") or ())
            e.add(loc)
            self.put(st, cleared=tuple(sorted(e, key=repr)))
        else:
            e = set(self.get(st, "cleared") or ())
            e.discard(loc)
            self.put(st, cleared=tuple(sorted(e, key=repr)) or None)

    def add(self, E, st, c, s):
        names = ADD[s]
        self.calls.add((c.func.file, c.line))
        f = self.f
        for i, n in enumerate(names):
            if n in ("tstr", "delim"):
                continue
            if n in ("carry", "out", "index"):
                v = c.argloc(st, i)
                have = self.get(st, n)
                if v is None:
                    self.unsure(c.func, c.line, "which %s is passed" % n)
                elif have is None:
                    self.put(st, **{n: v})
                elif v != have:
                    self.alarm(c.func, c.line, {"carry": "another line is continued than the one before", "out": "records go to another place than the ones before",
                                               "index": "another record counter is used than before"}[n])
            elif n == "de":
                want = E.load(st, ("fld", THIS, "IGES_ENTITY::sequenceNumber"))
                if c.args[i] != want:
                    self.alarm(c.func, c.line, "the records carry another number than the sequence number of the entity")
            else:
                have = self.get(st, n)
                v = c.args[i]
                if have is None:
                    self.put(st, **{n: v})
                    if not self.isdelim(E, st, v, n):
                        self.alarm(c.func, c.line, "the %s delimiter passed is not that of the file" % ("parameter" if n == "pd" else "record"))
                elif v != have and not E.truth(st, ("op", "==", v, have)) is True:
                    self.alarm(c.func, c.line, "the %s delimiter changes within the record" % ("parameter" if n == "pd" else "record"))
        sp = self.get(st, "spoilt")
        if sp:
            self.bad.setdefault((sp[1], sp[2], sp[3], sp[0]), 1)
        self.put(st, counted=None)
        if self.get(st, "emitted"):
            self.alarm(c.func, c.line, "records are made after the section was written")
        if s == "formatComments":
            if self.get(st, "comments"):
                self.alarm(c.func, c.line, "the comments are written twice")
            self.put(st, comments=True)
            return
        if self.get(st, "comments"):
            self.alarm(c.func, c.line, "parameters are written after the comments")
        if not self.get(st, "started"):
            self.put(st, started=True)
            self.first(E, st, c)

    def isdelim(self, E, st, v, n):
        q = "pdelim" if n == "pd" else "rdelim"
        for t in subs(v):
            if t[0] == "v" and isinstance(t[1], tuple) and t[1][0] == "fld" and t[1][2].endswith("::" + q):
                return True
            if t[0] == "p" and (t[2] == n):
                return True
        return False

    def first(self, E, st, c):
        f = self.f
        if f.short == "format":
            idx = self.get(st, "index")
            want = ("deref", ("p",))
            iv = E.load(st, idx)
            pdl = E.load(st, ("fld", THIS, "IGES_ENTITY::parameterData"))
            if not self.entry(iv, f):
                self.alarm(c.func, c.line, "the first record does not take the record number handed in")
            if pdl != iv:
                self.alarm(c.func, c.line, "the directory entry does not point at the first record of the parameters")
            out = self.get(st, "out")
            if out is not None and out not in (self.get(st, "cleared") or ()):
                self.alarm(c.func, c.line, "the records of an earlier call are not removed")
            if out is not None and out != ("fld", THIS, "IGES_ENTITY::pdout"):
                self.unsure(c.func, c.line, "where the records go")
        elif f.short == "writeGlobals":
            idx = self.get(st, "index")
            if E.load(st, idx) != C(1):
                self.alarm(c.func, c.line, "the first record of the section is not number 1")
        elif f.short == "formatExtraParams":
            idx = self.get(st, "index")
            if not (idx[0] == "deref" and idx[1][0] == "p"):
                self.alarm(c.func, c.line, "the record counter is not that of the caller")
            cy = self.get(st, "carry")
            if cy is not None and not (cy[0] == "deref" and cy[1][0] == "p"):
                self.alarm(c.func, c.line, "the started line is not that of the caller")

    def refused(self, E, st, func, line):
        """record numbers of up to seven digits are no reason to refuse"""
        if self.f.short != "format":
            return
        for i, p in enumerate(self.f.params):
            if p["t"].replace(" ", "") == "int&":
                v = ("v", ("deref", ("p", i, p["n"])))
                lo, hi = E.iv(st, v)[:2]
                if hi < 1 or lo > LAST or (lo <= 1 and hi >= LAST):
                    continue
                self.alarm(func, line, "refuses record numbers which the record has room for")

    def entry(self, v, f):
        return v[0] == "v" and v[1][0] == "deref" and v[1][1][0] == "p"

    def on_store(self, E, st, loc, val, func, line):
        want = COUNT.get(self.f.short)
        if want is not None and loc == ("fld", THIS, want):
            idx = self.get(st, "index")
            ok = "early"
            if idx is not None:
                first = C(1) if self.f.short == "writeGlobals" else E.load(st, ("fld", THIS, "IGES_ENTITY::parameterData"))
                w = E.arith(st, "-", E.load(st, idx), first, "int")
                d = E.arith(st, "-", val, w, "int")
                ok = "ok" if val == w or (isc(d) and d[1] == 0) else "bad"
            self.put(st, counted=ok)
        if loc == ("fld", THIS, "IGES_ENTITY::parameterData") and self.get(st, "started"):
            self.alarm(func, line, "the pointer to the first record changes after it was made")
        if val is not None and val[0] == "out":
            return
        if loc is not None and loc == self.get(st, "index") and self.get(st, "started"):
            self.put(st, spoilt=("the record counter is changed other than by the record helpers", func.file, line, func.short))

    def on_return(self, E, st, val, func, ctx, line):
        if ctx != 0:
            return
        t = E.truth(st, val) if val is not None else None
        if t is False or val == C(0):
            self.refused(E, st, func, line)
            return
        if t is None:
            self.unsure(func, line, "whether the function succeeds")
            return
        self.ends += 1
        sp = self.get(st, "spoilt")
        if sp:
            self.bad.setdefault((sp[1], sp[2], sp[3], sp[0]), 1)
        if self.f.short in COUNT and self.get(st, "started"):
            k = self.get(st, "counted")
            if k != "ok":
                self.alarm(func, line, "the number of records %s is %s" % (
                    "in the directory entry" if self.f.short == "format" else "of the global section",
                    "not that of the records written" if k else "not updated after the last record"))
            if self.f.short == "writeGlobals" and not self.get(st, "emitted"):
                self.alarm(func, line, "succeeds without writing the section")
            if self.f.short == "format" and not self.get(st, "comments"):
                self.alarm(func, line, "succeeds without writing the comments")


def subs(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            for y in subs(x):
                if isinstance(y, tuple) and y:
                    yield y


def run(P, rep):
    rule = "rec-chain"
    rep.rule(rule, "format(), formatExtraParams() and writeGlobals() fill one line from one helper call to the next, with one counter, the entity's own number, the file's delimiters, and count what they wrote")
    fs = []
    for f in P.funcs.values():
        names = {x[4].split("::")[-1] for x in f.x.values() if x[0] == "call"}
        if f.short in ("format", "formatExtraParams", "writeGlobals") and f.blocks:
            if f.short != "format" or (f.cls and f.params):
                fs.append(f)
    for f in sorted(fs, key=lambda f: (f.cls or "", f.short)):
        if f.cls == "IGES_ENTITY" and f.short == "format":
            continue
        W = Writer(f)
        rep.fn(f)
        E = engine.Engine(P, W, f.cls)
        try:
            E.run(f)
        except (KeyError, TypeError, IndexError, RecursionError) as ex:
            rep.undecided(rule, "%s::%s: analysis failed (%s)" % (f.cls, f.short, type(ex).__name__))
            continue
        if E.limit_hit:
            rep.undecided(rule, "%s::%s: too many states" % (f.cls, f.short))
        for (file, line, fn, what) in sorted(W.bad):
            rep.violate(rule, "%s|%s::%s|%s" % (rule, f.cls, fn, what), "%s::%s(): %s" % (f.cls, fn, what), "%s:%d" % (file, line))
        for (file, line, fn, what) in sorted(W.unk):
            rep.undecided(rule, "%s:%d %s::%s(): %s" % (file, line, f.cls, fn, what))
        if not W.bad:
            rep.ok(rule, len(W.calls))
        if f.short != "formatExtraParams" and not W.ends and W.calls:
            rep.undecided(rule, "%s::%s: no successful end seen" % (f.cls, f.short))
    rep.need(rule, 20)
