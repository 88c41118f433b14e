"""Collects obligations, violations and undecided instances of one property and writes the evidence."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obl = 0
        self.dis = 0
        self.rules = {}
        self.viol = {}
        self.undec = []
        self.notes = []
        self.functions = set()
        self.sites = set()
        self.minimum = []
        self.assume = []

    def rule(self, name, text):
        self.rules.setdefault(name, {"rule": text, "instances": 0, "violations": 0, "undecided": 0})

    def ok(self, rule, n=1):
        self.obl += n
        self.dis += n
        self.rules[rule]["instances"] += n

    def violate(self, rule, key, msg, where, path=None):
        """key: stable identity of the failing construct (no line numbers)"""
        k = rule + "|" + key
        if k in self.viol:
            return
        self.obl += 1
        self.rules[rule]["instances"] += 1
        self.rules[rule]["violations"] += 1
        self.viol[k] = {"key": k, "rule": rule, "what": msg, "where": where, "path": path or []}

    def undecided(self, rule, what):
        self.rules[rule]["undecided"] += 1
        if len(self.undec) < 400:
            self.undec.append(rule + ": " + what)

    def fn(self, f):
        self.functions.add(f if isinstance(f, str) else f.sig)

    def need(self, rule, n):
        self.minimum.append((rule, n))

    def guard(self, rule, fn, *args):
        """runs one part of a check: what it cannot analyse is counted as undecided and does not keep the other parts from deciding"""
        import program
        try:
            return fn(*args)
        except program.Broken:
            raise
        except (KeyError, TypeError, IndexError, AttributeError, ValueError, RecursionError, AssertionError, NotImplementedError) as e:
            import traceback
            t = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(rule, "%s: not analysed (%s: %s at %s:%d)" % (fn.__name__, type(e).__name__, e, os.path.basename(t.filename), t.lineno))

    def note(self, s):
        self.notes.append(s)


def known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))
    except OSError:
        return {"known": [], "fixed": []}


def finish(P, rep):
    kn = {(k["property"], k["key"]): k for k in known().get("known", [])}
    new, old = [], []
    for k, v in sorted(rep.viol.items()):
        e = kn.get((rep.prop, k))
        (old if e else new).append(v)
    # a rule which matches much less than it used to and does not say why has lost its subject
    import engine
    for x in sorted(set(engine.FAULTS)):
        rep.undec.append("engine: " + x)
    short = [(r, n, rep.rules[r]["instances"]) for r, n in rep.minimum if rep.rules[r]["instances"] < (n + 1) // 2 and not rep.rules[r]["undecided"]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", rep.prop + ".findings.json")
    json.dump({"property": rep.prop, "violations": new, "known": old, "undecided": rep.undec}, open(replay, "w"), indent=1)
    expl = "Static rules decided from clang's AST and CFG of %d translation units (%d functions in scope of this property). " % (
        len(P.units), len(rep.functions))
    expl += "; ".join("%s: %s [%d instances, %d undecided]" % (r, d["rule"], d["instances"], d["undecided"]) for r, d in rep.rules.items())
    ev = {"property": rep.prop, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": expl, "units_parsed": len(P.units), "functions_in_program": len(P.funcs),
                       "functions_analysed": len(rep.functions), "function_list": sorted(rep.functions)[:300],
                       "obligations": rep.obl, "discharged": rep.dis, "rules": rep.rules,
                       "undecided": rep.undec[:100], "known_findings": [v["key"] for v in old], "notes": rep.notes},
          "wall_s": round(time.time() - rep.t0, 3),
          "assumptions": ["clang 18 parses the sources with the registered build's configuration (SISL enabled, static library)"] + rep.assume,
          "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w"), indent=1)
    for r, d in rep.rules.items():
        print("rule %-28s instances=%d violations=%d undecided=%d" % (r, d["instances"], d["violations"], d["undecided"]))
    for v in old:
        e = kn[(rep.prop, v["key"])]
        print("KNOWN-FINDING: property=%s %s [%s] at %s" % (rep.prop, e.get("what", v["what"]), v["key"], v["where"]))
    for v in new:
        print("  %s: %s\n    at %s" % (v["key"], v["what"], v["where"]))
        for p in v["path"][-20:]:
            print("      " + p)
    if new:
        print("VIOLATION property=%s replay=%s" % (rep.prop, replay))
        return 1
    if short:
        for r, n, g in short:
            print("ANALYSIS-BROKEN property=%s rule %s matched %d instances, %d confirmed by hand" % (rep.prop, r, g, n))
        return 2
    return 0
