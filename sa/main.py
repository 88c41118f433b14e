import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import program, report

CHECKS = {}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from checks import TABLE
    mod, fn = TABLE[prop]
    import engine
    engine.DEEP = 4 if tier == "thorough" else 1
    try:
        P = program.load()
        rep = report.Report(prop, tier)
        m = importlib.import_module("checks." + mod)
        getattr(m, fn)(P, rep)
        sys.exit(report.finish(P, rep))
    except program.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        sys.exit(3)


if __name__ == "__main__":
    main()
