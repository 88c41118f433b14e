"""Loads the program: runs the fact extractor over every translation unit of the
library (all of src/ except the test programs) and indexes functions, classes and globals."""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, pickle, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class Broken(Exception):
    """analysis broken: anchor vanished or source cannot be parsed"""


def ensure_extractor():
    r = subprocess.run(["bash", os.path.join(VERIF, "extractor", "build.sh")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(BUILD, "extract")
    if r.returncode != 0 or not os.path.exists(exe):
        raise Broken("extractor build failed: " + r.stdout[-2000:])
    return exe


def conf_dir():
    """libigesconf.h configured as the registered build does (SISL on, static)."""
    src = os.path.join(REPO, "src", "libigesconf.h.in")
    out = []
    for ln in open(src):
        m = re.match(r"#cmakedefine\s+(\w+)", ln)
        if m:
            out.append("#define %s\n" % m.group(1))
        else:
            out.append(re.sub(r"@LIBIGES_VERSION_\w+@", "0", ln))
    txt = "".join(out)
    d = os.path.join(BUILD, "conf-" + hashlib.sha256(txt.encode()).hexdigest()[:12])
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "libigesconf.h")
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(txt)
        os.replace(tmp, p)
    return d


def sources():
    root = os.path.join(REPO, "src")
    res = []
    for dp, dn, fn in os.walk(root):
        dn.sort()
        rel = os.path.relpath(dp, root)
        if rel.split(os.sep)[0] == "tests":
            continue
        for f in sorted(fn):
            if f.endswith((".cpp", ".cc", ".cxx")) and f != "entity_template.cpp":
                res.append(os.path.join(dp, f))
    return res


def tree_hash():
    h = hashlib.sha256()
    root = os.path.join(REPO, "src")
    for dp, dn, fn in sorted(os.walk(root)):
        for f in sorted(fn):
            if f.endswith((".h", ".hpp", ".in", ".inc", ".hh")):
                h.update(f.encode())
                h.update(open(os.path.join(dp, f), "rb").read())
    h.update(open(os.path.join(VERIF, "extractor", "extract.cpp"), "rb").read())
    return h


class Func:
    __slots__ = ("sig", "name", "file", "line", "end", "ret", "params", "cls", "virt", "const", "static", "kind",
                 "over", "blocks", "x", "v", "entry", "exit", "access", "_loops", "_back", "tu", "_cross", "nel", "_lassign", "linkage", "_rpo")

    def __init__(self, d, tu):
        self.tu = tu
        for k in ("sig", "name", "file", "line", "end", "ret", "params", "kind", "entry", "exit"):
            setattr(self, k, d[k])
        self.linkage = d.get("linkage", True)
        self.cls = d.get("cls")
        self.virt = d.get("virt", False)
        self.const = d.get("const", False)
        self.static = d.get("static", False)
        self.over = d.get("over", [])
        self.access = d.get("access", 0)
        self.blocks = {int(k): b for k, b in d["b"].items()}
        self.x = {int(k): n for k, n in d["x"].items()}
        self.v = {int(k): n for k, n in d["v"].items()}
        self._loops = None
        self._cross = None
        self._lassign = None
        self._rpo = None
        self._back = None
        self.nel = sum(len(b["e"]) for b in self.blocks.values())
        self.fold()
        self.plain()

    def same(self, a, b):
        """both nodes name the same variable or member"""
        while self.x[a][0] == "cast":
            a = self.x[a][4]
        while self.x[b][0] == "cast":
            b = self.x[b][4]
        m, n = self.x[a], self.x[b]
        if m[0] != n[0]:
            return False
        if m[0] == "var":
            return m[3] == n[3]
        if m[0] == "this":
            return True
        if m[0] == "fld":
            return m[4] == n[4] and self.same(m[3], n[3])
        return m[0] == "drf" and self.same(m[3], n[3])

    def fold(self):
        """x = x op (y) is x op= y, for numbers and strings"""
        for i, n in list(self.x.items()):
            if n[0] == "asg" and n[3] == "=":
                r = n[5]
                while self.x[r][0] == "cast":
                    r = self.x[r][4]
                m = self.x[r]
                if m[0] == "bin" and m[3] in ("+", "-", "*", "/") and self.same(n[4], m[4]):
                    self.x[i] = n[:3] + [m[3] + "=", n[4], m[5]] + n[6:]
                    for b, blk in self.blocks.items():
                        if r in blk["e"]:
                            blk["e"].remove(r)
            elif n[0] == "call" and n[4] == "std::basic_string::operator=" and n[5] >= 0 and len(n[6]) == 1:
                r = n[6][0]
                while self.x[r][0] == "cast" or self.x[r][0] == "ctor" and len(self.x[r][5]) == 1:
                    r = self.x[r][4] if self.x[r][0] == "cast" else self.x[r][5][0]
                m = self.x[r]
                if m[0] == "call" and m[4] == "std::operator+" and len(m[6]) == 2 and self.same(n[5], m[6][0]):
                    a = m[6][1]
                    t = self.x[a][2]
                    k = "char" if t.replace("const ", "") == "char" else "const char *" if "basic_string" not in t else "const std::basic_string<char> &"
                    self.x[i] = n[:3] + ["std::basic_string::operator+=(%s)" % k, "std::basic_string::operator+=", n[5], [a], n[7], "+=", ["v" if k == "char" else "q" if k[-1] == "*" else "c"]] + n[10:]
                    for b, blk in self.blocks.items():
                        if r in blk["e"]:
                            blk["e"].remove(r)
                    self.x[r] = ["int", m[1], "int", 0]

    def plain(self):
        """read local constants as what they stand for: a local which is initialised with a literal and only read is that
        literal, and one which holds the condition of the branch (or the result) that follows it is that condition"""
        decl, used, parent = {}, {}, {}
        for b, blk in self.blocks.items():
            for i, e in enumerate(blk["e"]):
                if isinstance(e, list) and e[0] == "decl":
                    decl.setdefault(e[2], []).append((b, i, e[3]))
        if not decl:
            return
        for i, n in self.x.items():
            if n[0] == "var":
                used.setdefault(n[3], []).append(i)
            for q in self.kids(i):
                parent.setdefault(q, []).append(i)
        roots = {}
        for b, blk in self.blocks.items():
            for e in blk["e"]:
                if isinstance(e, list):
                    for q in e[2:]:
                        if isinstance(q, int):
                            roots.setdefault(q, []).append(e)

        def read(u):
            return all(self.x[p][0] in ("un", "bin", "cast", "cnd") for p in parent.get(u, ()))
        for v, ds in decl.items():
            d = self.v.get(v)
            if len(ds) != 1 or d is None or d["k"] != "l" or d.get("ref") or d["t"].replace("const ", "") not in ("bool", "int", "unsigned int", "double", "unsigned long", "size_t"):
                continue
            b, pos, init = ds[0]
            us = used.get(v, [])
            if init < 0 or init not in self.x or not us or not (d.get("const") or all(read(u) for u in us)):
                continue
            n = self.x[init]
            if n[0] in ("int", "flt"):
                for u in us:
                    if read(u):
                        self.x[u] = n[:1] + [self.x[u][1]] + n[2:]
                if all(read(u) for u in us):
                    self.nel -= 1 + sum(init in blk["e"] for blk in self.blocks.values())
                continue
            if len(us) != 1 or parent.get(init):
                continue
            m = n
            while m[0] in ("cast", "un"):
                m = self.x[m[4]]
            if n[0] == "bin" and n[3] in ("&&", "||"):
                self.thread(b, pos, init, us[0], parent)
                continue
            if m[0] == "cnd" or m[0] == "bin" and m[3] in ("&&", "||"):
                continue
            blk = self.blocks[b]
            rest = blk["e"][pos + 1:]
            ok = True
            for e in rest:
                if isinstance(e, list):
                    ok = ok and e[0] == "ret"
                elif self.x[e][0] not in ("var", "cast", "un", "int", "flt", "bin"):
                    ok = False
            if not ok:
                continue
            # where the one use is: the branch at the end of this block, or its result
            u = us[0]
            up = [u]
            while len(parent.get(up[-1], ())) == 1 and self.x[parent[up[-1]][0]][0] in ("cast", "un"):
                up.append(parent[up[-1]][0])
            t = blk.get("t")
            top = up[-1]
            at_ret = [e for e in rest if isinstance(e, list) and e[2] == top]
            at_branch = t is not None and t.get("c", -1) == top
            if not at_ret and not at_branch or parent.get(top):
                continue
            self.nel -= 1 + sum(u in blk["e"] for blk in self.blocks.values())
            if len(up) > 1:
                self.x[up[1]] = [init if k == 4 and q == u else q for k, q in enumerate(self.x[up[1]])]
            elif at_ret:
                at_ret[0][2] = init
            else:
                t["c"] = init

    def merge(self, c, G):
        """replace the call at node c by the body of G"""
        n = self.x[c]
        where = [(b, k) for b, blk in self.blocks.items() for k, e in enumerate(blk["e"]) if e == c]
        if len(where) != 1:
            return False
        b, k = where[0]
        this = None
        if G.cls and any(m[0] == "this" for m in G.x.values()):
            this = n[5]
            if this is None or this < 0:
                return False
            while self.x[this][0] == "cast":
                this = self.x[this][4]
            if self.x[this][0] not in ("this", "var"):
                return False
        blk = self.blocks[b]
        rest = blk["e"][k + 1:]
        tail = len(rest) == 1 and isinstance(rest[0], list) and rest[0][0] == "ret" and rest[0][2] == c and self.ret == G.ret and blk["s"] == [self.exit]
        nx = max(self.x) + 1
        nv = max(self.v, default=-1) + 1
        nb = max(max(self.blocks), 0) + 1
        # variables
        vm = {}
        binds = []
        for v, d in G.v.items():
            if d["k"] == "g":
                hit = [u for u, e in self.v.items() if e == d]
                if hit:
                    vm[v] = hit[0]
                    continue
            vm[v] = nv
            self.v[nv] = dict(d, k="l") if d["k"] == "p" else dict(d)
            nv += 1
        written = set()
        for m in G.x.values():
            if m[0] == "asg" and G.x[m[4]][0] == "var":
                written.add(G.x[m[4]][3])
            elif m[0] in ("inc", "adr") and G.x[m[4 if m[0] == "inc" else 3]][0] == "var":
                written.add(G.x[m[4 if m[0] == "inc" else 3]][3])
        for p, a in zip(G.params, n[6]):
            d = G.v.get(p["v"])
            if d is None:
                return False
            if self.x[a][0] == "var" and (d.get("ref") or p["v"] not in written):
                vm[p["v"]] = self.x[a][3]
            elif self.x[a][0] in ("int", "flt", "null", "str") and not d.get("ref") and p["v"] not in written:
                vm[p["v"]] = self.x[a]
            else:
                binds.append(["decl", n[1], vm[p["v"]], a])
        xm = {}
        for i in G.x:
            xm[i] = nx
            nx += 1

        def node(m):
            m = list(m)
            t = m[0]

            def at(*ks):
                for q in ks:
                    if q < len(m) and isinstance(m[q], int) and m[q] >= 0:
                        m[q] = xm[m[q]]

            def lst(q):
                if isinstance(m[q], list):
                    m[q] = [xm[z] if isinstance(z, int) and z in xm else z for z in m[q]]
            if t in ("fld", "drf", "adr", "throw", "del"):
                at(3)
            elif t in ("un", "inc", "cast"):
                at(4)
            elif t == "idx":
                at(3, 4)
            elif t in ("bin", "asg"):
                at(4, 5)
            elif t == "cnd":
                at(3, 4, 5)
            elif t == "call":
                at(5)
                lst(6)
                if len(m) > 11:
                    at(11)
            elif t == "ctor":
                lst(5)
            elif t in ("ilist", "opq"):
                lst(3)
            elif t == "new":
                at(5, 6)
            elif t == "var":
                w = vm.get(m[3], m[3])
                if isinstance(w, list):
                    return list(w)
                m[3] = w
            elif t == "this" and this is not None and self.x[this][0] == "var":
                w = list(self.x[this])
                return w
            return m
        if this is not None and self.x[this][0] == "var" and not self.x[this][2].rstrip().endswith("*"):
            ref = nx
            nx += 1
            self.x[ref] = list(self.x[this])
            new = {xm[i]: (node(m) if m[0] != "this" else ["adr", m[1], m[2], ref]) for i, m in G.x.items()}
        else:
            new = {xm[i]: node(m) for i, m in G.x.items()}
        self.x.update(new)
        bm = {}
        for q in G.blocks:
            if q == G.exit:
                continue
            bm[q] = nb
            nb += 1
        cont = self.exit if tail else nb
        bm[G.exit] = cont
        res = None
        void = G.ret == "void"
        if not tail and not void:
            res = nv
            self.v[res] = {"k": "l", "n": "result of " + G.short, "t": G.ret, "const": False}
            if G.ret.endswith("&"):
                self.v[res]["ref"] = True
        if not tail:
            self.blocks[cont] = {"e": ([c] if not void else []) + rest, "s": list(blk["s"]), "t": blk.get("t")}
        for q, g in G.blocks.items():
            if q == G.exit:
                continue
            es = []
            for e in g["e"]:
                if isinstance(e, int):
                    es.append(xm[e])
                    continue
                e = list(e)
                if e[0] == "ret":
                    r = xm[e[2]] if e[2] is not None and e[2] >= 0 else -1
                    if tail:
                        es.append(["ret", e[1], r] + e[3:])
                    elif res is not None and r >= 0:
                        es.append(["decl", e[1], res, r])
                elif e[0] == "decl":
                    es.append(["decl", e[1], vm[e[2]], xm[e[3]] if e[3] is not None and e[3] >= 0 else e[3]] + e[4:])
                elif e[0] == "dtor":
                    w = vm.get(e[2], e[2])
                    if not isinstance(w, list):
                        es.append(["dtor", e[1], w] + e[3:])
                else:
                    es.append(e)
            t = g.get("t")
            if t:
                t = dict(t)
                for z in ("c", "own"):
                    if isinstance(t.get(z), int) and t[z] >= 0:
                        t[z] = xm[t[z]]
            self.blocks[bm[q]] = dict(g, e=es, s=[bm[z] if z is not None else None for z in g["s"]], t=t)
        if not void and not tail:
            self.x[c] = ["var", n[1], n[2], res]
        else:
            self.x[c] = ["int", n[1], "int", 0]
        blk["e"] = blk["e"][:k] + binds
        blk["s"] = [bm[G.entry]]
        blk["t"] = None
        # a body without branches leaves no seams
        for q in [b] + [bm[z] for z in G.blocks if z != G.exit]:
            while q in self.blocks and len(self.blocks[q]["s"]) == 1 and not self.blocks[q].get("t"):
                z = self.blocks[q]["s"][0]
                if z is None or z in (self.exit, self.entry, q) or sum(y == z for w in self.blocks.values() for y in w["s"]) != 1:
                    break
                o = self.blocks.pop(z)
                self.blocks[q]["e"] = self.blocks[q]["e"] + o["e"]
                self.blocks[q]["s"] = o["s"]
                self.blocks[q]["t"] = o.get("t")
        self._loops = self._cross = self._lassign = self._rpo = self._back = None
        self.nel = sum(len(q["e"]) for q in self.blocks.values())
        self.plain()
        return True

    def thread(self, b, pos, init, u, parent):
        """a branch on a local which holds the value of && or || is made where the operands are evaluated"""
        blk = self.blocks[b]
        t = blk.get("t")
        if t is None or pos != 1 or blk["e"][0] != init or len(blk["s"]) != 2 or None in blk["s"] or b in (self.entry, self.exit):
            return
        top, neg = u, False
        while len(parent.get(top, ())) == 1 and self.x[parent[top][0]][0] in ("cast", "un"):
            top = parent[top][0]
            if self.x[top][0] == "un":
                if self.x[top][3] != "!":
                    return
                neg = not neg
        if t.get("c", -1) != top or parent.get(top) or any(not isinstance(e, int) or self.x[e][0] not in ("var", "cast", "un") for e in blk["e"][2:]):
            return
        yes, no = blk["s"] if not neg else blk["s"][::-1]
        preds = [(k, j) for k, q in self.blocks.items() for j, x in enumerate(q["s"]) if x == b]
        last = [k for k, j in preds if len(self.blocks[k]["s"]) == 1]
        if len(last) != 1 or self.blocks[last[0]].get("t") or any(len(self.blocks[k]["s"]) not in (1, 2) or
                                                                  len(self.blocks[k]["s"]) == 2 and (self.blocks[k].get("t") or {}).get("k") != "BinaryOperator" for k, j in preds):
            return
        leaf = self.x[init][5]
        while self.x[leaf][0] == "bin" and self.x[leaf][3] in ("&&", "||"):
            leaf = self.x[leaf][5]
        if leaf not in self.blocks[last[0]]["e"] and self.x[leaf][0] not in ("var", "fld", "cast", "un"):
            return
        for k, j in preds:
            if k != last[0]:
                self.blocks[k]["s"][j] = yes if j == 0 else no
        q = self.blocks[last[0]]
        q["s"] = [yes, no]
        q["t"] = {"c": leaf, "k": t["k"], "line": t.get("line")}
        self.nel -= len(blk["e"])
        del self.blocks[b]

    @property
    def short(self):
        return self.name.split("::")[-1]

    def loops(self):
        """head block -> set of blocks of the natural loop(s); also back edges"""
        if self._loops is not None:
            return self._loops
        succ = {b: [s for s in self.blocks[b]["s"] if s is not None] for b in self.blocks}
        back = set()
        color = {}
        stack = [(self.entry, iter(succ[self.entry]))]
        color[self.entry] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                c = color.get(m, 0)
                if c == 0:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
                if c == 1:
                    back.add((n, m))
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, []).append(b)
        loops = {}
        for (t, h) in back:
            body = loops.setdefault(h, {h})
            work = [t]
            while work:
                q = work.pop()
                if q in body:
                    continue
                body.add(q)
                work.extend(pred.get(q, []))
        self._loops = loops
        self._back = back
        return loops

    def rpo(self):
        """block -> reverse post order index, loop bodies before loop exits"""
        if self._rpo is not None:
            return self._rpo
        loops = self.loops()

        def inner(b):
            return sum(1 for body in loops.values() if b in body)
        succ = {b: sorted({s for s in self.blocks[b]["s"] if s is not None}, key=lambda s: (inner(s), s)) for b in self.blocks}
        order, seen = [], set()
        stack = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        self._rpo = {b: i for i, b in enumerate(order)}
        for b in self.blocks:
            self._rpo.setdefault(b, len(order))
        return self._rpo

    def cross(self):
        """expression ids whose value is used in a block other than the one that evaluates it"""
        if self._cross is not None:
            return self._cross
        where = {}
        for b, blk in self.blocks.items():
            for e in blk["e"]:
                if isinstance(e, int):
                    where[e] = b
        used = set()

        def kids(i):
            n = self.x[i]
            k = n[0]
            if k in ("fld", "drf", "adr", "throw"):
                c = [n[3]]
            elif k in ("un", "inc", "cast"):
                c = [n[4]]
            elif k == "idx":
                c = [n[3], n[4]]
            elif k in ("bin", "asg"):
                c = [n[4], n[5]]
            elif k == "cnd":
                c = n[3:6]
            elif k == "call":
                c = [n[5]] + n[6] + (n[11:12] if len(n) > 11 else [])
            elif k == "ctor":
                c = n[5]
            elif k == "ilist":
                c = n[3]
            elif k == "new":
                c = n[5:7]
            elif k == "del":
                c = [n[3]]
            elif k == "opq":
                c = n[3]
            else:
                c = []
            return [q for q in c if isinstance(q, int) and q >= 0]

        def visit(i, b, seen):
            if i in seen:
                return
            seen.add(i)
            if where.get(i, b) != b:
                used.add(i)
            for c in kids(i):
                visit(c, b, seen)
        for b, blk in self.blocks.items():
            seen = set()
            for e in blk["e"]:
                if isinstance(e, int):
                    visit(e, b, seen)
                else:
                    for q in e[2:]:
                        if isinstance(q, int) and q >= 0 and e[0] in ("ret", "decl", "init", "binit"):
                            if e[0] == "decl" and q == e[2]:
                                continue
                            if q in self.x:
                                visit(q, b, seen)
            t = blk.get("t")
            if t and t.get("c", -1) >= 0:
                visit(t["c"], b, seen)
        self._cross = used
        return used

    def kids(self, i):
        n = self.x[i]
        k = n[0]
        if k in ("fld", "drf", "adr", "throw", "del"):
            c = [n[3]]
        elif k in ("un", "inc", "cast"):
            c = [n[4]]
        elif k == "idx":
            c = [n[3], n[4]]
        elif k in ("bin", "asg"):
            c = [n[4], n[5]]
        elif k == "cnd":
            c = n[3:6]
        elif k == "call":
            c = [n[5]] + n[6] + (n[11:12] if len(n) > 11 else [])
        elif k == "ctor":
            c = n[5]
        elif k in ("ilist", "opq"):
            c = n[3]
        elif k == "new":
            c = n[5:7]
        else:
            c = []
        return [q for q in c if isinstance(q, int) and q >= 0]

    def live(self):
        """live-in sets of droppable local variables per block (address-taken / reference-bound ones never drop)"""
        if self._lassign is not None:
            return self._lassign
        pinned = set()
        for i, n in self.x.items():
            if n[0] == "adr":
                m = n[3]
                while self.x[m][0] in ("fld", "idx") :
                    m = self.x[m][3]
                if self.x[m][0] == "var":
                    pinned.add(self.x[m][3])
        for b, e in self.elems():
            if isinstance(e, list) and e[0] == "decl" and self.v[e[2]].get("ref") and e[3] >= 0:
                st = [e[3]]
                while st:
                    q = st.pop()
                    if self.x[q][0] == "var":
                        pinned.add(self.x[q][3])
                    st.extend(self.kids(q))
        drop = {v for v, d in self.v.items() if d["k"] in ("l", "p") and v not in pinned and not d.get("ref")}
        use, deff = {}, {}
        for b, blk in self.blocks.items():
            u, d = set(), set()
            lhs = set()
            for e in blk["e"]:
                if isinstance(e, int):
                    n = self.x[e]
                    if n[0] == "asg" and n[3] == "=" and self.x[n[4]][0] == "var":
                        lhs.add(n[4])

            def visit(i, seen):
                if i in seen or i < 0:
                    return
                seen.add(i)
                n = self.x[i]
                if n[0] == "var" and n[3] in drop and i not in lhs and n[3] not in d:
                    u.add(n[3])
                for q in self.kids(i):
                    visit(q, seen)
            for e in blk["e"]:
                if isinstance(e, int):
                    n = self.x[e]
                    if n[0] == "asg" and e is not None and n[3] == "=" and self.x[n[4]][0] == "var":
                        visit(n[5], set())
                        if self.x[n[4]][3] in drop and self.x[n[4]][3] not in u:
                            d.add(self.x[n[4]][3])
                    else:
                        visit(e, set())
                elif e[0] == "decl":
                    if e[3] >= 0:
                        visit(e[3], set())
                    if e[2] in drop and e[2] not in u:
                        d.add(e[2])
                elif e[0] in ("ret", "init", "binit"):
                    q = e[2] if e[0] == "ret" else e[3]
                    if q >= 0:
                        visit(q, set())
                elif e[0] == "dtor":
                    if e[2] in drop and e[2] not in d:
                        u.add(e[2])
            t = blk.get("t")
            if t and t.get("c", -1) >= 0:
                visit(t["c"], set())
            if t and t.get("own", -1) is not None and t.get("own", -1) >= 0:
                visit(t["own"], set())
            use[b], deff[b] = u, d
        livein = {b: set() for b in self.blocks}
        ch = True
        order = sorted(self.blocks)
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in self.blocks[b]["s"]:
                    if s is not None:
                        o |= livein[s]
                n = use[b] | (o - deff[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        self._lassign = (drop, livein)
        return self._lassign

    def where(self):
        return "%s:%d" % (self.file, self.line)

    def elems(self):
        """all element expression ids in the function, with block"""
        for b, blk in self.blocks.items():
            for e in blk["e"]:
                yield b, e


class Program:
    def __init__(self):
        self.funcs = {}      # sig -> Func
        self.byname = {}     # qualified name -> [Func]
        self.classes = {}
        self.globals = {}
        self.units = []
        self._sub = None
        self._mods = None
        self._callees = None

    def load(self):
        exe = ensure_extractor()
        cd = conf_dir()
        srcs = sources()
        if len(srcs) < 60:
            raise Broken("only %d source files found under %s/src" % (len(srcs), REPO))
        base = tree_hash().hexdigest()
        cache = os.path.join(BUILD, "cache")
        os.makedirs(cache, exist_ok=True)
        root = os.path.join(REPO, "src") + "/"
        idf = os.path.join(REPO, "src", "idf")
        flags = ["-std=gnu++17", "-I" + cd, "-I" + os.path.join(REPO, "src", "include"), "-I" + idf,
                 "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w", "-DNDEBUG"]

        def one(f):
            key = hashlib.sha256((base + f).encode() + open(f, "rb").read()).hexdigest()[:24]
            cp = os.path.join(cache, key + ".json")
            if os.path.exists(cp):
                try:
                    return f, json.load(open(cp)), ""
                except Exception:
                    pass
            r = subprocess.run([exe, root, f] + flags, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode != 0 or not r.stdout.strip():
                return f, None, r.stderr[-1500:]
            tmp = cp + ".%d" % os.getpid()
            open(tmp, "w").write(r.stdout)
            os.replace(tmp, cp)
            return f, json.loads(r.stdout), ""
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, srcs))
        bad = [(f, e) for f, d, e in res if d is None]
        if bad:
            raise Broken("cannot parse %s: %s" % (bad[0][0], bad[0][1]))
        live = set()
        for f, d, _ in res:
            tu = os.path.relpath(f, root)
            self.units.append(tu)
            for fd in d["funcs"]:
                sig = fd["sig"]
                if not fd.get("linkage", True) and sig in self.funcs and self.funcs[sig].file != fd["file"]:
                    sig = fd["sig"] = sig + "@" + fd["file"]
                if sig in self.funcs:
                    continue
                fn = Func(fd, tu)
                self.funcs[sig] = fn
                self.byname.setdefault(fn.name, []).append(fn)
            for c, cd_ in d["classes"].items():
                self.classes.setdefault(c, cd_)
            for g, gd in d["globals"].items():
                self.globals.setdefault(g, gd)
        self.splice()
        # prune old cache files
        try:
            fl = sorted((os.path.getmtime(os.path.join(cache, x)), x) for x in os.listdir(cache))
            for _, x in fl[:-400]:
                os.unlink(os.path.join(cache, x))
        except OSError:
            pass
        return self

    # ---- helpers the rules do not know
    def splice(self):
        """merge helper functions which are not part of the interface and the structure the rules refer to (meta/functions.txt)
        into the functions that call them, so that a helper which was extracted is read where its caller runs it"""
        try:
            known = set(open(os.path.join(VERIF, "meta", "functions.txt")).read().split("\n"))
        except OSError:
            return

        def target(F, n):
            if n[0] != "call" or n[7]:
                return None
            G = self.funcs.get(n[3])
            if G is None or G.name in known or G is F or G.kind not in ("method", "func") or G.virt or "operator" in G.name or "(anonymous" in G.name and "lambda" in G.name:
                return None
            if G.nel > 3000 or len(n[6]) != len(G.params) or any(p["v"] is None for p in G.params):
                return None
            if any(m[0] == "call" and m[3] == G.sig for m in G.x.values()):
                return None
            return G
        dead = set()
        for rounds in range(6):
            busy = False
            for F in list(self.funcs.values()):
                for i in [i for i, n in F.x.items() if n[0] == "call"]:
                    G = target(F, F.x[i])
                    # the helper's own helpers come first
                    if G is None or any(target(G, m) is not None for m in G.x.values() if m[0] == "call"):
                        continue
                    if F.nel < 8000 and F.merge(i, G):
                        dead.add(G.sig)
                        busy = True
            if not busy:
                break
        for sig in dead:
            if not any(n[0] == "call" and n[3] == sig for f in self.funcs.values() for n in f.x.values()):
                G = self.funcs.pop(sig)
                self.byname[G.name] = [g for g in self.byname[G.name] if g is not G]
                if not self.byname[G.name]:
                    del self.byname[G.name]

    # ---- class hierarchy
    def subclasses(self, c):
        if self._sub is None:
            self._sub = {}
            for k, d in self.classes.items():
                for b in d["bases"]:
                    self._sub.setdefault(b, set()).add(k)
        out = {c}
        work = [c]
        while work:
            q = work.pop()
            for s in self._sub.get(q, ()):
                if s not in out:
                    out.add(s)
                    work.append(s)
        return out

    def bases(self, c):
        out = []
        work = [c]
        while work:
            q = work.pop(0)
            if q in out:
                continue
            out.append(q)
            work.extend(self.classes.get(q, {}).get("bases", []))
        return out

    def fields(self, c, inherited=False):
        res = []
        for k in (self.bases(c) if inherited else [c]):
            for f in self.classes.get(k, {}).get("fields", []):
                res.append((k + "::" + f[0], f[1]))
        return res

    def method(self, cls, short, sigtail=None):
        """definition of method `short` that an object of class cls runs (looks up bases)"""
        for c in self.bases(cls):
            fs = self.byname.get(c + "::" + short, [])
            for f in fs:
                if sigtail is None or f.sig.split("::" + short, 1)[1] == sigtail:
                    return f
        return None

    def dispatch(self, sig, cls):
        """resolve virtual method sig for dynamic class cls"""
        m = re.match(r"(.*)::([~\w=\[\]<>+\-*/!]+)(\(.*)$", sig)
        if not m:
            return self.funcs.get(sig)
        short, tail = m.group(2), m.group(3)
        for c in self.bases(cls):
            f = self.funcs.get(c + "::" + short + tail)
            if f:
                return f
        return self.funcs.get(sig)

    def overriders(self, sig):
        f = self.funcs.get(sig)
        m = re.match(r"(.*)::([~\w=\[\]<>+\-*/!]+)(\(.*)$", sig)
        res = []
        if m:
            cls, short, tail = m.groups()
            for c in self.subclasses(cls):
                g = self.funcs.get(c + "::" + short + tail)
                if g:
                    res.append(g)
        if f and f not in res:
            res.append(f)
        return res

    def callees(self, f):
        """resolved callees (virtual calls: all overriders)"""
        if self._callees is None:
            self._callees = {}
        r = self._callees.get(f.sig)
        if r is None:
            r = set()
            for n in f.x.values():
                if n[0] == "call":
                    if n[7]:
                        for g in self.overriders(n[3]):
                            r.add(g.sig)
                    elif n[3] in self.funcs:
                        r.add(self.resolve(n[3], f).sig)
                elif n[0] == "ctor" and n[3] in self.funcs:
                    r.add(n[3])
                elif n[0] == "del":
                    t = f.x[n[3]][2].rstrip(" *")
                    for c in self.subclasses(t):
                        for g in self.byname.get(c + "::~" + c.split("::")[-1], []):
                            r.add(g.sig)
            self._callees[f.sig] = r
        return r

    def resolve(self, sig, f):
        g = self.funcs.get(sig)
        if g is not None and not g.linkage and g.file != f.file:
            h = self.funcs.get(sig + "@" + f.file)
            if h:
                return h
        return g

    def closure(self, roots):
        seen = set()
        work = [r.sig for r in roots]
        while work:
            s = work.pop()
            if s in seen:
                continue
            seen.add(s)
            work.extend(self.callees(self.funcs[s]))
        return seen

    # ---- mod summaries: qualified fields a function (transitively) may modify
    def direct_mods(self, f):
        res = set()

        def root_fields(i):
            # fields written when the lvalue expression i is written
            n = f.x[i]
            k = n[0]
            if k == "fld":
                res.add(n[4])
                if not n[5]:
                    root_fields(n[3])
            elif k == "idx":
                root_fields(n[3])
            elif k == "drf":
                root_fields(n[3])
            elif k in ("cast",):
                root_fields(n[4])
            elif k == "cnd":
                root_fields(n[4]); root_fields(n[5])
            elif k == "call" and n[5] >= 0:
                root_fields(n[5])
            elif k == "bin":
                root_fields(n[4])
            elif k == "adr":
                root_fields(n[3])
        for i, n in f.x.items():
            k = n[0]
            if k == "asg":
                root_fields(n[4])
            elif k == "inc":
                root_fields(n[4])
            elif k == "call":
                if n[5] >= 0 and not n[10] and n[3] not in self.funcs:
                    if n[4].split("::")[-1] not in PURE_METHODS:
                        root_fields(n[5])
                for a, m in zip(n[6], n[9]):
                    if m in ("r", "p"):
                        an = f.x[a]
                        if m == "r":
                            root_fields(a)
                        elif an[0] == "adr":
                            root_fields(an[3])
                        elif an[0] == "fld" and an[2].endswith("]"):
                            res.add(an[4])
            elif k == "adr":
                an = f.x[n[3]]
                if an[0] == "fld" and not an[2].endswith(")"):
                    res.add(an[4])      # address escapes: assume written
        for blk in f.blocks.values():
            for e in blk["e"]:
                if isinstance(e, list) and e[0] == "decl" and f.v[e[2]].get("ref") and e[3] >= 0:
                    pass
        return res

    def mods(self, sig):
        if self._mods is None:
            direct = {s: self.direct_mods(f) for s, f in self.funcs.items()}
            self._mods = {s: set(d) for s, d in direct.items()}
            changed = True
            cal = {s: self.callees(f) for s, f in self.funcs.items()}
            while changed:
                changed = False
                for s in self.funcs:
                    m = self._mods[s]
                    n0 = len(m)
                    for c in cal[s]:
                        m |= self._mods[c]
                    if len(m) != n0:
                        changed = True
        return self._mods.get(sig, set())


PURE_METHODS = {"begin", "end", "rbegin", "rend", "size", "empty", "length", "c_str", "find", "at", "front", "back",
                "operator[]", "operator*", "operator->", "operator==", "operator!=", "operator<", "str", "substr",
                "good", "fail", "eof", "is_open", "data", "compare", "operator bool", "operator!", "rfind", "count",
                "what", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of", "tellg"}


def load():
    return Program().load()


if __name__ == "__main__":
    import time
    t = time.time()
    P = load()
    print(len(P.units), "units", len(P.funcs), "functions", len(P.classes), "classes", time.time() - t)
    t = time.time()
    P.mods("")
    print("mods", time.time() - t)
    print(sorted(P.mods("IGES_ENTITY_100::format(int &)")))
