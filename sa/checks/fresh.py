"""Output and queries reflect the current data of the model only: locale guard, derived copies, transient state of the writer."""
import re
from checks import refs

BASE = refs.BASE
CORE = ("iges/", "entities/")
GROW = {"push_back", "push_front", "insert", "emplace", "emplace_back", "emplace_front", "splice"}
SHRINK = {"erase", "pop_back", "pop_front", "remove", "clear"}
ALTER = {"swap", "assign", "resize", "sort", "reverse", "operator="}


# ------------------------------------------------------------------------------------------------ locale

def root(f, i):
    """the variable or member at the bottom of a chain of stream insertions"""
    for _ in range(200):
        n = f.x.get(i)
        if n is None:
            return None
        if n[0] == "call" and n[8] in ("<<", ">>"):
            i = n[5] if n[5] >= 0 else (n[6][0] if n[6] else -1)
        elif n[0] == "cast":
            i = n[4]
        else:
            return n
    return None


NUM = re.compile(r"operator(<<|>>)\((?:const )?(?:unsigned |signed )?(?:int|long|short|long long|double|float|long double)(?: &)?\)")


def sinks(f):
    """conversions between numbers and text which follow the locale: nodes"""
    out = []
    for i, n in f.x.items():
        if n[0] != "call":
            continue
        s = n[4].split("::")[-1]
        if s in ("strtod", "strtof", "strtold", "atof", "stod", "stof", "stold", "to_string", "snprintf", "vsnprintf", "sscanf"):
            out.append(i)
        elif s == "sprintf" and any(f.x[a][0] == "str" and re.search(r"%[-+ #0-9.*]*(l|L|h)*[aAeEfFgG]", str(f.x[a][3])) for a in n[6]):
            out.append(i)
        elif n[8] in ("<<", ">>") and NUM.search(n[3]):
            r = root(f, i)
            if r is None:
                continue
            t = r[2]
            if "stringstream" in t or "fstream" in t:
                # a message only: goes nowhere but into the error channel
                out.append(i)
    return out


def guards(P):
    """classes whose constructor switches the locale and whose destructor switches it back"""
    res = {}
    for f in P.funcs.values():
        if f.kind not in ("ctor", "dtor") or not f.cls:
            continue
        if any(n[0] == "call" and (n[4] == "setlocale" or n[4] == "std::locale::global") for n in f.x.values()):
            res.setdefault(f.cls, {})[f.kind] = f
    return {c: d for c, d in res.items() if "ctor" in d and "dtor" in d}


def elements(f, b):
    return f.blocks[b]["e"]


def paths(f, start, step):
    """forward exploration of (block, state); step(elem, state) -> state or None to stop"""
    seen = set()
    work = [(f.entry, start)]
    while work:
        b, s = work.pop()
        if (b, s) in seen:
            continue
        seen.add((b, s))
        for e in elements(f, b):
            s = step(e, s)
            if s is None:
                break
        if s is None:
            continue
        if b == f.exit:
            step("exit", s)
            continue
        for t in f.blocks[b]["s"]:
            if t is not None and t >= 0:
                work.append((t, s))


# steps of reading and writing which IGES::Read and IGES::Write run on every entity
PROTOCOL = ("readDE", "readPD", "writeDE", "writePD", "format", "associate", "rescale", "unformat")


def targets(P, f, n):
    if n[0] == "call" and n[7]:
        return [g.sig for g in P.overriders(n[3])]
    g = P.resolve(n[3], f)
    return [g.sig] if g is not None else []


def locale(P, rep):
    R = "fresh-locale"
    G = guards(P)
    core = [f for f in P.funcs.values() if f.file.startswith(CORE)]
    direct = {f.sig: sinks(f) for f in core}
    need = {}
    # functions which reach a conversion while no guard is alive
    changed = True
    callees = {f.sig: {i: targets(P, f, n) for i, n in f.x.items() if n[0] in ("call", "ctor")} for f in core}
    while changed:
        changed = False
        for f in core:
            if f.sig in need:
                continue
            bad = []
            d = set(direct[f.sig])
            gv = {v for v, q in f.v.items() if q["t"].replace("class ", "") in G}

            def step(e, s):
                if e == "exit":
                    return None
                if isinstance(e, list):
                    if e[0] == "decl" and e[2] in gv:
                        return True
                    if e[0] == "dtor" and e[2] in gv:
                        return False
                    return s
                if not s:
                    if e in d:
                        bad.append(e)
                    else:
                        for g in callees[f.sig].get(e, ()):
                            if g in need:
                                bad.append(e)
                return s
            paths(f, False, step)
            if bad:
                need[f.sig] = (bad[0], f.x[bad[0]][1])
                changed = True
    n = 0
    for f in sorted(core, key=lambda f: f.sig):
        if not f.cls or f.access != 0 or f.kind in ("ctor", "dtor") or f.short in PROTOCOL:
            continue
        rep.fn(f)
        if f.sig not in need:
            n += 1
            continue
        chain = [f.name]
        g = f
        for _ in range(20):
            e, line = need[g.sig]
            nx = [s for s in callees[g.sig].get(e, ()) if s in need]
            if not nx:
                break
            g = P.funcs[nx[0]]
            chain.append(g.name)
        rep.violate(R, f.name, "%s converts numbers to or from text with no guard that selects the classic locale: %s" % (f.name, " > ".join(chain)),
                    "%s:%d" % (f.file, need[f.sig][1]))
    rep.ok(R, n)
    # what the guards do
    for c, d in sorted(G.items()):
        f = d["ctor"]
        rep.fn(f)
        cx, cc = False, False
        saved = {}
        for b in order(f):
            for e in elements(f, b):
                if isinstance(e, list) and e[0] == "init" and f.x[e[3]][0] == "ctor" and f.x[e[3]][2] == "std::locale":
                    saved[e[2]] = "cxx" if not cx else "changed"
                if not isinstance(e, int) or f.x[e][0] != "call":
                    continue
                n = f.x[e]
                if n[4] == "std::locale::global":
                    a = f.x[n[6][0]]
                    if a[0] == "call" and a[4] == "std::locale::classic":
                        cx = cc = True
                    else:
                        cx = False
                elif n[4] == "setlocale":
                    cat, to = f.x[n[6][0]], f.x[n[6][1]]
                    while to[0] == "cast":
                        to = f.x[to[4]]
                    if to[0] == "str":
                        cc = to[3] in ("C", "POSIX") and cat[0] == "int" and cat[3] in (6, 1)
                    elif to[0] not in ("null", "int"):
                        cc = False
        for what, good in (("the C++ locale, which streams use,", cx), ("the C locale", cc)):
            if not good:
                rep.violate(R, "%s:%s" % (c, what.split()[1]), "%s leaves %s as the user set it" % (f.name, what), "%s:%d" % (f.file, f.line))
            else:
                rep.ok(R)
        f = d["dtor"]
        rep.fn(f)
        rx = rc = False
        for b in order(f):
            for e in elements(f, b):
                if not isinstance(e, int) or f.x[e][0] != "call":
                    continue
                n = f.x[e]
                if n[4] == "std::locale::global":
                    a = f.x[n[6][0]]
                    rx = a[0] == "fld" and saved.get(a[4], "cxx") == "cxx"
                    rc = False          # a named locale replaces the C locale too
                elif n[4] == "setlocale":
                    to = f.x[n[6][1]]
                    while to[0] in ("cast", "call"):
                        to = f.x[to[4] if to[0] == "cast" else to[5]]
                    rc = to[0] in ("fld", "idx")
        if cx and not rx or not rc:
            rep.violate(R, c + ":restore", "%s does not give the user's locale back" % f.name, "%s:%d" % (f.file, f.line))
        else:
            rep.ok(R)
    if not G:
        rep.violate(R, "guard", "no class guards the locale", "iges/iges.cpp:1")


def order(f):
    """blocks in reverse postorder"""
    seen, out = set(), []

    def go(b):
        stack = [(b, iter(f.blocks[b]["s"]))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for t in it:
                if t is not None and t >= 0 and t not in seen:
                    seen.add(t)
                    stack.append((t, iter(f.blocks[t]["s"])))
                    break
            else:
                out.append(x)
                stack.pop()
    go(f.entry)
    return out[::-1]


# ------------------------------------------------------------------------------------------------ derived copies

def strip(f, i):
    n = f.x.get(i)
    while n is not None and n[0] == "cast":
        i = n[4]
        n = f.x.get(i)
    return n


def field(f, i, alias=None):
    """the qualified member the expression denotes (whichever object)"""
    n = strip(f, i)
    if n is None:
        return None
    if n[0] == "fld":
        return n[4]
    if n[0] == "drf" and len(n) > 3:
        return field(f, n[3], alias)
    if alias and n[0] == "var":
        return alias.get(n[3])
    return None


def aliases(f):
    """locals which are pointers or references to a member, and iterators over one"""
    al, it = {}, {}

    def rhs(v, i):
        n = strip(f, i)
        if n is None:
            return
        if n[0] == "adr":
            q = field(f, n[3])
            if q:
                al.setdefault(v, q)
        elif n[0] == "fld" and f.v[v].get("ref"):
            al.setdefault(v, n[4])
        elif n[0] == "call" and n[4].split("::")[-1] in ("begin", "rbegin", "end", "insert", "erase", "find") and n[5] is not None and n[5] >= 0:
            q = field(f, n[5], al)
            if q:
                it.setdefault(v, q)
        elif n[0] == "ctor" and n[5]:
            rhs(v, n[5][0])
    for _ in range(2):
        for b in f.blocks.values():
            for e in b["e"]:
                if isinstance(e, list) and e[0] == "decl" and e[3] is not None and e[3] >= 0:
                    rhs(e[2], e[3])
        for n in f.x.values():
            if n[0] == "asg" and f.x[n[4]][0] == "var":
                rhs(f.x[n[4]][3], n[5])
            elif n[0] == "call" and n[8] == "=" and n[5] is not None and n[5] >= 0 and f.x[n[5]][0] == "var" and n[6]:
                rhs(f.x[n[5]][3], n[6][0])
    return al, it


def events(f):
    """element -> list of (kind, member)"""
    al, it = aliases(f)
    out = {}

    def elem_of(i):
        # member whose element the lvalue is (part of)
        for _ in range(20):
            n = strip(f, i)
            if n is None:
                return None
            if n[0] == "call" and n[8] in ("*", "->") and n[5] is not None and n[5] >= 0:
                v = strip(f, n[5])
                return it.get(v[3]) if v is not None and v[0] == "var" else None
            if n[0] == "call" and n[8] == "[]" or n[0] == "call" and n[4].split("::")[-1] in ("at", "front", "back"):
                return field(f, n[5], al) if n[5] is not None and n[5] >= 0 else None
            if n[0] == "fld":
                i = n[3]
            elif n[0] in ("idx", "drf"):
                i = n[3]
            else:
                return None
        return None
    for i, n in f.x.items():
        ev = []
        if n[0] == "call" and n[5] is not None and n[5] >= 0:
            s = n[4].split("::")[-1]
            q = field(f, n[5], al)
            if q:
                if s in GROW:
                    ev.append(("grow", q))
                if s in SHRINK:
                    ev.append(("clear" if s == "clear" else "shrink", q))
                if s in ALTER:
                    ev.append(("alter", q))
            if s in ("append", "assign", "erase", "insert", "clear", "resize", "replace", "push_back", "swap", "operator=", "operator+=") and not n[10]:
                q = elem_of(n[5])
                if q:
                    ev.append(("elem", q))
        elif n[0] in ("asg", "inc"):
            l = strip(f, n[4])
            if l is not None and l[0] != "var":
                if l[0] == "fld" and l[3] in f.x and not through(f, l[3]):
                    pass
                q = elem_of(n[4])
                if q:
                    ev.append(("elem", q))
        if ev:
            out[i] = ev
    return out


def through(f, i):
    return True


def copies(P):
    """(class, copy, source, function): members which hold a copy of another container for handing out"""
    res = []
    for f in P.funcs.values():
        if not f.cls or not f.file.startswith(CORE + ("geom/",)):
            continue
        al, it = aliases(f)
        ev = events(f)
        grown = {q for l in ev.values() for k, q in l if k == "grow"}
        handed = set()
        for n in f.x.values():
            if n[0] == "adr":
                m = strip(f, n[3])
                if m is not None and m[0] == "call" and m[8] == "[]" and m[5] is not None and m[5] >= 0:
                    handed.add(field(f, m[5], al))
            elif n[0] == "call" and n[4].split("::")[-1] == "data" and n[5] is not None and n[5] >= 0:
                handed.add(field(f, n[5], al))
        for q in grown & handed:
            if "vector" not in ftype(P, q):
                continue
            src = {x for x in it.values() if x != q}
            for s in src:
                res.append((q.rsplit("::", 1)[0], q, s, f))
    return res


def ftype(P, q):
    c, m = q.rsplit("::", 1)
    for fl in P.fields(c):
        if isinstance(fl, dict):
            if fl.get("q", fl.get("n")) in (q, m):
                return fl.get("t", "")
        elif fl[0] in (q, m):
            return fl[1]
    return "vector"


LOADERS = ("readPD", "readDE", "associate", "readExtraParams", "readComments")


def derived(P, rep):
    R = "fresh-copy"
    cp = copies(P)
    evs = {}
    seen = set()
    for cls, V, L, g in sorted(cp, key=lambda t: (t[1], t[2], t[3].sig)):
        rep.fn(g)
        where = "%s:%d" % (g.file, g.line)
        # is the copy handed out compared with its source, or made anew?
        ev = events(g)
        compared = any(n[0] == "bin" and n[3] in ("!=", "==") and {sized(g, n[4]), sized(g, n[5])} == {V, L} for n in g.x.values())
        state = {"anew": True, "hand": 0}
        grows = {i for i, l in ev.items() if ("grow", V) in l}
        hands = set()
        al, _ = aliases(g)
        for i, n in g.x.items():
            if n[0] == "adr":
                m = strip(g, n[3])
                if m is not None and m[0] == "call" and m[8] == "[]" and m[5] is not None and m[5] >= 0 and field(g, m[5], al) == V:
                    hands.add(i)

        def step(e, s):
            if isinstance(e, int):
                if ("clear", V) in ev.get(e, ()):
                    return True
                if e in hands and not s:
                    state["anew"] = False
            return s
        paths(g, False, step)
        if not compared and not state["anew"]:
            rep.violate(R, "%s:%s" % (g.name, V), "%s hands out %s without comparing it with %s" % (g.name, V, L), where)
            continue
        rep.ok(R)
        if state["anew"] or (V, L) in seen:
            continue
        seen.add((V, L))
        # the comparison sees the number of elements only: the copy must not survive changes which keep it
        bad = {"grow": [], "shrink": [], "elem": []}
        for f in P.funcs.values():
            if f.kind == "dtor" or f is g:
                continue
            if f.sig not in evs:
                evs[f.sig] = events(f)
            ev = evs[f.sig]
            hit = {i: k for i, l in ev.items() for k, q in l if q == L}
            if not hit:
                continue
            rep.fn(f)
            for kind in ("grow", "shrink", "elem"):
                if kind == "grow" and f.short in LOADERS or f.kind == "ctor":
                    continue
                found = []

                def step(e, s, kind=kind, found=found, hit=hit, ev=ev, f=f):
                    touched, cleared, line = s
                    if e == "exit":
                        if touched and not cleared:
                            found.append(line)
                        return None
                    if isinstance(e, int):
                        k = hit.get(e)
                        if k is not None and ({"clear": "shrink"}.get(k, k) == kind or k == "alter"):
                            touched, line = True, f.x[e][1]
                        if ("clear", V) in ev.get(e, ()) or cleans(P, f, e, V):
                            cleared = True
                    return (touched, cleared, line)
                paths(f, (False, False, 0), step)
                if found:
                    bad[kind].append((f, found[0]))
                elif kind in hit.values() or kind == "shrink" and "clear" in hit.values():
                    rep.ok(R)
        for f, line in bad["elem"]:
            rep.violate(R, "%s:%s" % (f.name, V), "%s changes elements of %s and keeps the copy %s that %s hands out" % (f.name, L, V, g.name), "%s:%d" % (f.file, line))
        if bad["grow"] and bad["shrink"]:
            f, line = bad["grow"][0]
            h, _ = bad["shrink"][0]
            rep.violate(R, "%s:%s" % (L, V), "%s keeps the copy %s when it adds to %s, as does %s when it removes: after one of each %s hands out a stale copy" % (
                f.name, V, L, h.name, g.name), "%s:%d" % (f.file, line))


def sized(f, i):
    n = strip(f, i)
    if n is not None and n[0] == "call" and n[4].split("::")[-1] == "size" and n[5] is not None and n[5] >= 0:
        return field(f, n[5], aliases(f)[0])
    return None


def cleans(P, f, e, V):
    n = f.x.get(e)
    if n is None or n[0] != "call" or n[3] not in P.funcs:
        return False
    g = P.funcs[n[3]]
    c = P.__dict__.setdefault("_cleans", {})
    k = (g.sig, V)
    if k in c:
        return c[k]
    c[k] = False
    if not g.blocks or V not in P.mods(g.sig):
        return False
    ev = events(g)
    out = []

    def step(x, s):
        if x == "exit":
            out.append(s)
            return None
        if isinstance(x, int) and (("clear", V) in ev.get(x, ()) or cleans(P, g, x, V)):
            return True
        return s
    paths(g, False, step)
    c[k] = bool(out) and all(out)
    return c[k]


# ------------------------------------------------------------------------------------------------ bounding box

def box(P, rep):
    """what is derived from the segments of an outline is used only while it matches them"""
    R = "fresh-box"
    C = "MCAD_OUTLINE"
    BOX = {C + "::mBottomLeft", C + "::mTopRight"}
    FLAG = C + "::mBBisOK"
    SEGS = C + "::msegments"
    classes = [C] + sorted(P.subclasses(C))
    fs = [f for f in P.funcs.values() if f.cls in classes and f.blocks]
    calc = [f for f in fs if f.short == "calcBoundingBox"]
    if not calc:
        rep.undecided(R, "calcBoundingBox")
        return
    maint = {f.sig for f in fs if P.direct_mods(f) & BOX}
    byname = {f.sig: f for f in fs}

    def scan(f, start):
        """uses while the box may be out of date, and such calls of methods that use it themselves"""
        uses = {i for i, n in f.x.items() if n[0] == "fld" and n[4] in BOX}
        bad, calls = [], set()
        seen = set()
        work = [(f.entry, start)]
        while work:
            b, s = work.pop()
            if (b, s) in seen:
                continue
            seen.add((b, s))
            for e in elements(f, b):
                if not isinstance(e, int):
                    continue
                n = f.x[e]
                own = n[0] == "call" and n[5] is not None and n[5] >= 0 and f.x[n[5]][0] == "this"
                if own and n[4].split("::")[-1] == "calcBoundingBox":
                    s = 1
                elif n[0] == "asg" and field(f, n[4]) == FLAG:
                    s = 0
                elif n[0] == "call" and n[5] is not None and n[5] >= 0 and field(f, n[5]) == SEGS and n[4].split("::")[-1] in GROW | SHRINK | ALTER:
                    s = 0
                elif own and n[3] in byname:
                    if not s:
                        calls.add(n[3])
                    if SEGS in P.mods(n[3]) or FLAG in P.mods(n[3]):
                        s = 1 if always(byname[n[3]]) else 0
                elif e in uses and not s:
                    bad.append(n[1])
            t = f.blocks[b].get("t")
            ss = f.blocks[b]["s"]
            val = None
            if t is not None and t.get("c") is not None and len(ss) == 2:
                neg = False
                m = strip(f, t["c"])
                while m is not None and m[0] == "un" and m[3] == "!":
                    neg = not neg
                    m = strip(f, m[4])
                if m is not None and m[0] == "fld" and m[4] == FLAG:
                    val = neg
            for k, x in enumerate(ss):
                if x is None or x < 0:
                    continue
                work.append((x, 1 if val is not None and (k == 0) != val else s))
        ends = {s for b, s in seen if b == f.exit}
        return bad, calls, ends

    memo = {}

    def always(f):
        if f.sig not in memo:
            memo[f.sig] = False
            memo[f.sig] = f.short == "calcBoundingBox" or f.sig not in maint and scan(f, 0)[2] == {1}
        return memo[f.sig]
    stale = {f.sig: 0 for f in fs if f.access == 0}     # what may run while the box is out of date
    work = list(stale)
    while work:
        x = work.pop()
        f = byname[x]
        if f.kind in ("ctor", "dtor") or f.sig in maint:
            continue
        for y in scan(f, 0)[1]:
            if y not in stale:
                stale[y] = 0
                work.append(y)
    for f in sorted(fs, key=lambda f: f.sig):
        if f.kind in ("ctor", "dtor") or f.sig in maint:
            continue
        uses = [i for i, n in f.x.items() if n[0] == "fld" and n[4] in BOX]
        if not uses:
            continue
        rep.fn(f)
        bad = scan(f, 0 if f.sig in stale else 1)[0]
        if bad:
            rep.violate(R, f.name, "%s uses the bounding box of the outline without making sure that it matches the segments" % f.name, "%s:%d" % (f.file, bad[0]))
        else:
            rep.ok(R, len(uses))
    # the flag is set by what works on the box only
    for f in sorted(fs, key=lambda f: f.sig):
        if f.sig in maint:
            continue
        own = any(n[0] == "call" and n[3] in byname and (n[4].split("::")[-1] == "calcBoundingBox" or n[3] in maint) for n in f.x.values())
        for n in f.x.values():
            if n[0] != "asg" or field(f, n[4]) != FLAG:
                continue
            v = strip(f, n[5])
            if v is not None and v[0] == "int" and v[3] and not own:
                rep.violate(R, f.name + ":set", "%s marks the bounding box as up to date without calculating it" % f.name, "%s:%d" % (f.file, n[1]))
            else:
                rep.ok(R)
    # the flag: set only together with the box, cleared before the segments change
    def sets(f, n):
        # an operation on the same outline which may calculate the box
        m = strip(f, n[5]) if n[0] == "call" and n[5] is not None and n[5] >= 0 else None
        return m is not None and m[0] == "this" and n[3] in byname and FLAG in P.mods(n[3])

    for f in sorted(fs, key=lambda f: f.sig):
        if f.kind in ("ctor", "dtor"):
            continue
        ev = events(f)
        changes = [i for i, l in ev.items() for k, q in l if q == SEGS and k != "elem"]
        if not changes:
            continue
        rep.fn(f)
        bad = []

        def step(e, s):
            # s: 0 nothing known, 1 flag cleared or box kept up to date
            if e == "exit":
                return None
            if not isinstance(e, int):
                return s
            n = f.x[e]
            if n[0] == "asg" and field(f, n[4]) == FLAG:
                v = strip(f, n[5])
                if v is not None and v[0] == "int" and not v[3]:
                    return 1
                if f.sig in maint:
                    return 1
                bad.append(n[1])
            if sets(f, n):
                return 0
            if e in changes and not s and f.sig not in maint:
                # an internal operation whose callers have cleared the flag
                bad.append(n[1])
            return s
        paths(f, 0, step)
        if bad and f.access != 0:
            callers = [(h, i) for h in fs for i, n in h.x.items() if n[0] == "call" and n[3] == f.sig]
            ok = bool(callers)
            for h, i in callers:
                b2 = []

                def step2(e, s, h=h, i=i, b2=b2):
                    if isinstance(e, int):
                        n = h.x[e]
                        if n[0] == "asg" and field(h, n[4]) == FLAG:
                            v = strip(h, n[5])
                            return 1 if v is not None and v[0] == "int" and not v[3] else 0
                        if e == i and not s:
                            b2.append(n[1])
                        if sets(h, n):
                            return 0
                    return None if e == "exit" else s
                paths(h, 0, step2)
                if b2:
                    ok = False
            if ok:
                bad = []
        if bad:
            rep.violate(R, f.name + ":flag", "%s changes the segments of the outline while the bounding box counts as up to date" % f.name, "%s:%d" % (f.file, bad[0]))
        else:
            rep.ok(R, len(changes))


# ------------------------------------------------------------------------------------------------ transient state of the writer

class Flow:
    """members of the object (this) which a method reads before it has set them, and those it has set when it succeeds"""

    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.memo = {}
        self.fns = set()
        self.changed = set()
        self.paths = set()

    def path(self, f, i):
        """member path of an lvalue rooted at this: 'Class::member' or 'Class::member.part'"""
        n = strip(f, i)
        if n is None or n[0] != "fld":
            return None
        b = strip(f, n[3])
        if b is None:
            return None
        if b[0] == "this" or b[0] == "drf" and strip(f, b[3]) is not None and strip(f, b[3])[0] == "this":
            return n[4]
        if not n[5]:
            p = self.path(f, n[3])
            if p:
                return p + "." + n[4].split("::")[-1]
        return None

    def target(self, f, n):
        if n[0] != "call" or n[5] is None or n[5] < 0:
            return None
        o = strip(f, n[5])
        if o is None or o[0] != "this":
            return None
        short = n[4].split("::")[-1]
        if n[7]:
            tail = n[3].split("::" + short, 1)[1] if "::" + short in n[3] else None
            return self.P.method(self.cls, short, tail)
        return self.P.funcs.get(n[3])

    def summary(self, f):
        if f.sig in self.memo:
            return self.memo[f.sig]
        self.memo[f.sig] = ({}, frozenset())
        self.fns.add(f)
        skip, kill = set(), {}
        x = f.x

        def base(i):
            # inner members of a path are not reads of their own
            n = strip(f, i)
            while n is not None and n[0] == "fld" and not n[5]:
                m = strip(f, n[3])
                if m is None or m[0] != "fld":
                    break
                skip.add(n[3])
                n = m
        ids = {}
        for i, n in x.items():
            if n[0] == "fld":
                base(i)
        for i, n in x.items():
            if n[0] == "asg" and n[3] == "=":
                p = self.path(f, n[4])
                if p:
                    skip.add(n[4])
                    kill[i] = p
            elif n[0] == "call" and n[5] is not None and n[5] >= 0:
                s = n[4].split("::")[-1]
                if s in ("clear", "operator=", "assign") and s != "clear" or s == "clear":
                    p = self.path(f, n[5])
                    if p:
                        skip.add(n[5])
                        kill[i] = p
            ch = None
            if n[0] in ("asg", "inc"):
                ch = n[4]
            elif n[0] == "call" and n[5] is not None and n[5] >= 0 and not n[10] and n[3] not in self.P.funcs and \
                    n[4].split("::")[-1] in GROW | SHRINK | ALTER | {"append", "operator+=", "replace"}:
                ch = n[5]
            if n[0] == "call":
                for a, m in zip(n[6], n[9]):
                    if m == "r" and self.path(f, a) and n[8] not in ("<<", ">>"):
                        self.changed.add(self.path(f, a).split(".")[0])
                        self.paths.add(self.path(f, a))
            while ch is not None:
                q = self.path(f, ch)
                if q:
                    self.changed.add(q.split(".")[0])
                    self.paths.add(q)
                    break
                m = strip(f, ch)
                ch = m[3] if m is not None and m[0] in ("idx", "drf", "fld") and not (m[0] == "fld" and m[5]) else None
        # "if( m is out of range ) m = constant": m is as good as set afterwards
        edge = {}
        holder = {e: b for b in f.blocks for e in f.blocks[b]["e"] if isinstance(e, int)}
        for i, p in kill.items():
            if x[i][0] != "asg" or i not in holder:
                continue
            r = strip(f, x[i][5])
            if r is None or r[0] not in ("int", "flt", "str", "null"):
                continue
            B = holder[i]
            for A, blk in f.blocks.items():
                t = blk.get("t")
                if t is None or B not in blk["s"] or t.get("c") is None:
                    continue
                reads = [j for j in subtree(f, t["c"]) if x[j][0] == "fld" and self.path(f, j) == p]
                if reads:
                    skip.update(reads)
                    for t2 in blk["s"]:
                        if t2 is not None and t2 >= 0 and t2 != B:
                            edge.setdefault((A, t2), set()).add(p)
        exposed = {}
        order_ = order(f)
        IN = {f.entry: frozenset()}
        preds = {}
        for b in f.blocks:
            for t in f.blocks[b]["s"]:
                if t is not None and t >= 0:
                    preds.setdefault(t, []).append(b)
        OUT = {}
        done = []

        def flow(b, s, record):
            s = set(s)
            for e in f.blocks[b]["e"]:
                if isinstance(e, list):
                    if e[0] == "ret" and record:
                        v = strip(f, e[2]) if e[2] is not None and e[2] >= 0 else None
                        if not (v is not None and v[0] == "int" and not v[3]):
                            done.append(frozenset(s))
                    continue
                n = x[e]
                if n[0] == "fld" and e not in skip and record:
                    p = self.path(f, e)
                    if p and not killed(p, s):
                        exposed.setdefault(p, (f, n[1]))
                if e in kill:
                    s.add(kill[e])
                if n[0] == "call" and n[7] and self.cls == "IGES" and record and self.target(f, n) is None:
                    # what the entities look up in the model they belong to
                    for p, w in lookups(self.P, n[3]).items():
                        if not killed(p, s):
                            exposed.setdefault(p, w)
                t = self.target(f, n)
                if t is not None and t.blocks:
                    u, k = self.summary(t)
                    if record:
                        for p, w in u.items():
                            if not killed(p, s):
                                exposed.setdefault(p, w)
                    s |= k
            return frozenset(s)
        changed = True
        rounds = 0
        while changed and rounds < 60:
            changed = False
            rounds += 1
            for b in order_:
                if b != f.entry:
                    ps = [OUT[q] | edge.get((q, b), frozenset()) for q in preds.get(b, []) if q in OUT]
                    if not ps:
                        continue
                    IN[b] = frozenset.intersection(*ps)
                o = flow(b, IN[b], False)
                if OUT.get(b) != o:
                    OUT[b] = o
                    changed = True
        for b in order_:
            if b in IN:
                flow(b, IN[b], True)
        if f.ret == "void":
            done = [OUT[b] for b in preds.get(f.exit, []) if b in OUT]
        k = frozenset.intersection(*done) if done else frozenset()
        self.memo[f.sig] = (exposed, k)
        return self.memo[f.sig]

    def const(self, q):
        """every change of the member is the assignment of a constant"""
        for f in self.fns:
            for n in f.x.values():
                if n[0] == "asg" and (self.path(f, n[4]) or "").split(".")[0] == q:
                    r = strip(f, n[5])
                    if n[3] != "=" or r is None or r[0] not in ("int", "flt", "null", "str") and not (r[0] == "var" and r[3] not in f.v):
                        return False
                elif n[0] == "inc" and (self.path(f, n[4]) or "").split(".")[0] == q:
                    return False
                elif n[0] == "call" and n[5] is not None and n[5] >= 0 and not n[10] and n[3] not in self.P.funcs and (self.path(f, n[5]) or "").split(".")[0] == q:
                    return False
        return True


def lookups(P, sig):
    """members of the model which the entities' implementations of a method read"""
    memo = P.__dict__.setdefault("_lookups", {})
    if sig in memo:
        return memo[sig]
    res = memo[sig] = {}
    fs = P.overriders(sig)
    for s in P.closure(fs):
        f = P.funcs[s] if isinstance(s, str) else s
        if f.cls == "IGES":
            continue
        inner = {n[3] for n in f.x.values() if n[0] == "fld" and not n[5]}
        for i, n in f.x.items():
            if n[0] != "fld" or i in inner:
                continue
            p, j = [], i
            while True:
                m = strip(f, j)
                if m is None or m[0] != "fld":
                    break
                if m[4].startswith("IGES::"):
                    res.setdefault(".".join([m[4]] + p[::-1]), (f, n[1]))
                    break
                p.append(m[4].split("::")[-1])
                j = m[3]
    return res


def subtree(f, i):
    out, work = [], [i]
    while work:
        j = work.pop()
        if j in out or j not in f.x:
            continue
        out.append(j)
        n = f.x[j]
        kids = []
        if n[0] in ("cast", "un", "inc"):
            kids = [n[4]]
        elif n[0] in ("bin", "asg"):
            kids = [n[4], n[5]]
        elif n[0] in ("fld", "drf", "adr"):
            kids = [n[3]]
        elif n[0] == "idx":
            kids = [n[3], n[4]]
        elif n[0] == "call":
            kids = [n[5]] + list(n[6])
        work += [k for k in kids if isinstance(k, int) and k >= 0]
    return out


def killed(p, s):
    while True:
        if p in s:
            return True
        if "." not in p:
            return False
        p = p.rsplit(".", 1)[0]


def writer(P, rep):
    """what the writer leaves behind in the objects does not influence the next write"""
    R = "fresh-write"
    W = [f for f in P.byname.get("IGES::Write", []) if f.blocks]
    wf = W[0]
    # members of the entities which Write itself sets first
    pre = set()
    for f in W:
        for n in f.x.values():
            if n[0] == "asg" and n[3] == "=":
                l = strip(f, n[4])
                if l is not None and l[0] == "fld" and strip(f, l[3]) is not None and strip(f, l[3])[0] != "this" and l[4].startswith(BASE):
                    pre.add(l[4])
    for c in sorted(P.subclasses(BASE)):
        if c == BASE:
            continue
        fl = Flow(P, c)
        seq = [P.method(c, s) for s in ("format", "writeDE", "writePD")]
        if any(f is None or not f.blocks for f in seq):
            continue
        have = set(pre)
        exposed = {}
        for f in seq:
            u, k = fl.summary(f)
            for p, w in u.items():
                if not killed(p, have):
                    exposed.setdefault(p, w)
            have |= k
        for f in fl.fns:
            rep.fn(f)
        mods = fl.changed
        n = 0
        rd = P.method(c, "readPD")
        loaded = set().union(*(P.direct_mods(g) for g in (rd, P.method(c, "readDE")) if g is not None))
        for q in sorted(mods):
            if q in loaded and fl.const(q):
                n += 1          # an attribute is replaced by the default it must have: writing again gives the same
                continue
            if not any(q == k.split(".")[0] for k in list(exposed) + list(have)):
                continue
            hit = [p for p in exposed if p.split(".")[0] == q]
            if hit:
                f, line = exposed[hit[0]]
                rep.violate(R, "%s:%s" % (c, q), "writing an entity of class %s changes %s, and %s uses what an earlier write left there" % (c, q, f.name), "%s:%d" % (f.file, line))
            else:
                n += 1
        rep.ok(R, n)
    # the model's own counters and tables
    fl = Flow(P, "IGES")
    exposed, have = fl.summary(wf)
    for f in fl.fns:
        rep.fn(f)
    for q in sorted(fl.changed):
        if q in ("IGES::entities", "IGES::startSection"):
            continue            # culled (P14, own-cull) and padded (P13, rec-start): doing it again changes nothing
        hit = [p for p in exposed if p.split(".")[0] == q and any(a == p or a.startswith(p + ".") or p.startswith(a + ".") for a in fl.paths)]
        if hit:
            f, line = exposed[hit[0]]
            rep.violate(R, "IGES:%s" % hit[0], "writing changes %s, and %s uses what an earlier write left there" % (hit[0], f.name), "%s:%d" % (f.file, line))
        else:
            rep.ok(R)


def run(P, rep):
    rep.rule("fresh-locale", "every public operation of IGES which converts numbers to or from text does so under a guard that selects the classic locale, C and C++, and gives the user's back")
    rep.rule("fresh-copy", "a copy of a container kept for handing out is compared with its source or dropped whenever the source changes")
    rep.rule("fresh-box", "the bounding box of an outline is used only while it matches the segments")
    rep.guard("fresh-locale", locale, P, rep)
    rep.guard("fresh-copy", derived, P, rep)
    rep.guard("fresh-box", box, P, rep)
    rep.rule("fresh-write", "no member which the writer changes is read by the writer before it has been set again in the same write")
    rep.guard("fresh-write", writer, P, rep)
    rep.need("fresh-locale", 100)
    rep.need("fresh-copy", 6)
    rep.need("fresh-box", 20)
    rep.need("fresh-write", 60)
