"""run the cases of one exported module: one.py module.json [case-regex] [-v]"""
import sys, re, time, json, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import interp, dom, mem, models
from interp import *


def run_case(mod, name, opts, limit=120, verbose=False):
    Syms.reset(); Arrays.reset(); interp.GMEMO.clear(); dom._cache.clear()
    I = Interp(mod, opts)
    I.case = name
    t0 = time.time()
    I.deadline = t0 + limit
    err = None
    res = []
    try:
        st = State()
        res = I.run_fn(st, mod.fns[name], [])
        for k, s, v in res:
            if k == "unw":
                I.cur = None
                I.fail(s, "escape", "exception %s escapes the case" % s.exc)
            else:
                I.end_of_case(s)
    except Unsupported as e:
        err = "unsupported: %s at %s" % (e, I.where()[:3])
        if verbose: traceback.print_exc()
    except Budget:
        err = "budget"
    except Fork as e:
        err = "fork"
        if verbose: traceback.print_exc()
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
        err = "internal %s: %s at %s" % (type(e).__name__, e, I.where()[:3])
        if verbose: traceback.print_exc()
    r = {"case": name, "err": err, "ends": len(res), "viol": list(I.viol.values()), "undec": list(I.undec.values()), "obl": I.obl,
         "fns": sorted(I.fnseen), "unmod": I.unmod, "reached": I.reached, "steps": I.steps, "t": time.time() - t0,
         "loops": [list(k) + [v] for k, v in I.loopinfo.items()], "incomplete": sorted(I.incomplete)}
    return r


def show_result(r):
    print("== %s ends=%d steps=%d t=%.2f reach=%s obl=%s%s" % (r["case"], r["ends"], r["steps"], r["t"], r["reached"], r["obl"], " ERR " + r["err"] if r["err"] else ""))
    for tag in ("viol", "undec"):
        for v in r[tag]:
            print("  %s [%s] %s:%s %s -- %s %s" % (tag.upper(), v["kind"], v["file"], v["line"], v["func"], v["msg"], v.get("why", "")))
            if tag == "viol" and "-v" in sys.argv:
                print("      model", v.get("model"), "cond", v.get("cond"))
                for t in v.get("trace", ())[-5:]:
                    print("      ..", t)
    for k in r["incomplete"]:
        print("  INCOMPLETE loop", k)
    for k, v in r["unmod"].items():
        print("  unmodelled", k, v)


if __name__ == "__main__":
    if "-d" in sys.argv:
        import loops
        loops.DEBUG = True
    mod = Module(sys.argv[1])
    rx = re.compile(sys.argv[2] if len(sys.argv) > 2 else "")
    tot = time.time()
    for n in sorted(mod.fns):
        if n.startswith("vp_case_") and not mod.fns[n].decl and rx.search(n):
            r = run_case(mod, n, {"repo": os.environ.get("VP_REPO", "/repo")}, float(os.environ.get("LIMIT", 60)), verbose="-v" in sys.argv)
            show_result(r)
    print("total %.2f" % (time.time() - tot), dom.STAT)
