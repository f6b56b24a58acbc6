#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's current source (see DESIGN.md)."""
import json, os, re, subprocess, sys, time, tempfile, shutil, multiprocessing, multiprocessing.pool, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
os.environ.setdefault("VP_POLY", os.path.join(BUILD, "libpoly.so"))
import props


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def tools():
    if not (os.path.exists(os.path.join(BUILD, "irdump")) and os.path.exists(os.path.join(BUILD, "libpoly.so"))):
        subprocess.run(["sh", os.path.join(HERE, "setup.sh")], check=True, stdout=subprocess.DEVNULL)


def compile_ir(src, out, flags=(), defs=()):
    """source -> promoted LLVM IR -> json"""
    bc0, bc = out + ".0.bc", out + ".bc"
    cmd = ["clang++-18", "-std=gnu++20", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w",
           *["-I" + os.path.join(HERE, "harness", x[1:]) if x.startswith("@") else x for x in flags], "-I" + os.path.join(HERE, "harness"), "-I" + REPO, *["-D" + d for d in defs], "-emit-llvm", "-c", src, "-o", bc0]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        print(p.stderr[-3000:])
        die("the harness %s no longer compiles against %s" % (src, REPO))
    subprocess.run(["opt-18", "-passes=always-inline,function(sroa,simplifycfg,instsimplify)", bc0, "-o", bc], check=True)
    subprocess.run([os.path.join(BUILD, "irdump"), bc, out + ".json"], check=True)
    return out + ".json"


_G = {}


def _worker(job):
    name, limit, opts = job
    import one
    mod = _G["mod"][job[2]["mod"]]
    try:
        return one.run_case(mod, name, dict(opts, repo=REPO), limit)
    except BaseException as e:      # noqa
        return {"case": name, "err": "internal %s: %s" % (type(e).__name__, e), "ends": 0, "viol": [], "undec": [], "obl": {}, "fns": [],
                "unmod": {}, "reached": {}, "steps": 0, "t": 0, "loops": [], "incomplete": []}


def unit(u):
    """(harness, case regex, kinds[, options]) -> (module key, regex, kinds, limit)"""
    o = u[3] if len(u) > 3 else {}
    return (u[0], tuple(o.get("flags", ()))), u[1], tuple(u[2]), o.get("limit"), o.get("msg")


def run_engine(units, tier, tmp, deadline):
    """-> list of (units the case belongs to, module key, case result)"""
    import interp
    mods, jobs = {}, []
    units = [unit(u) for u in units if tier == "thorough" or not (len(u) > 3 and u[3].get("thorough"))]
    keys = sorted({u[0] for u in units})
    with multiprocessing.pool.ThreadPool(8) as tp:
        outs = tp.map(lambda k: compile_ir(os.path.join(HERE, "harness", k[1][0]), os.path.join(tmp, "m%d" % k[0]), k[1][1]), list(enumerate(keys)))
    for s, o in zip(keys, outs):
        mods[s] = interp.Module(o)
    _G["mod"] = mods
    want, lims = {}, {}
    for u in units:
        rx = re.compile(u[1])
        for n in sorted(mods[u[0]].fns):
            if n.startswith("vp_case_") and not mods[u[0]].fns[n].decl and rx.search(n[8:]):
                want.setdefault((u[0], n), []).append(u)
                if u[3]:
                    lims[(u[0], n)] = u[3]
    for (m, n) in want:
        limit = lims.get((m, n), 100)
        jobs.append((n, limit * (3 if tier == "thorough" else 1), {"mod": m}))
    jobs.sort(key=lambda j: cost(j[0]))
    res = []
    pool = multiprocessing.get_context("fork").Pool(8)
    try:
        pend = [(j, pool.apply_async(_worker, (j,))) for j in jobs]
        for j, a in pend:
            left = deadline - time.time()
            try:
                r = a.get(max(0.1, left))
            except multiprocessing.TimeoutError:
                r = {"case": j[0], "err": "time", "ends": 0, "viol": [], "undec": [], "obl": {}, "fns": [], "unmod": {}, "reached": {}, "steps": 0,
                     "t": 0, "loops": [], "incomplete": []}
            res.append((want[(j[2]["mod"], j[0])], j[2]["mod"], r))
    finally:
        pool.terminate()
    return res


def cost(n):
    """long cases first"""
    return 0 if "_find" in n or "lines3_" in n else 1 if "replace" in n else 2


def known_list():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def is_known(kn, prop, v):
    for k in kn:
        if k["property"] == prop and re.search(k.get("case", ""), v["case"].split(" ")[0]) and k.get("kind", v["kind"]) == v["kind"] \
                and k.get("func", "") in v["func"] and k.get("file", "") in v["file"] and k.get("msg", "") in v["msg"]:
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if prop not in props.PROPS:
        die("unknown property " + prop)
    P = props.PROPS[prop]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tools()
    tmp = tempfile.mkdtemp(prefix="vp_" + prop + "_")
    viols, cov = [], {}
    try:
        units = P.get("units", [])
        if units:
            cov["abstract_interpretation"], vs = engine_part(prop, units, tier, tmp, t0)
            viols += vs
        for rule in P.get("rules", []):
            import rules
            c, vs = rules.run(rule, prop, tier, tmp, REPO, HERE)
            cov.setdefault("rules", {})[rule] = c
            viols += vs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kn = known_list()
    fresh, seen = [], set()
    hit = {}
    for v in viols:
        k = is_known(kn, prop, v)
        if k is not None:
            hit[k["id"]] = k
        else:
            key = (v["kind"], v["file"], v["line"], v["func"], v["msg"])
            if key not in seen:
                seen.add(key)
                fresh.append(v)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    replay = os.path.join(HERE, "evidence", prop + ".violation.json")
    if os.path.exists(replay):
        os.remove(replay)
    for v in fresh[:40]:
        print("%s:%s: in %s: [%s] %s (case %s)" % (v["file"], v["line"], v["func"], v["kind"], v["msg"], v["case"]))
    if fresh:
        json.dump(fresh[:100], open(replay, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    cov["explanation"] = P["explanation"]
    cov["violations_known"] = sorted(hit)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": props.ASSUME + P.get("assume", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %s in %.1f s" % (prop, "%d violation(s)" % len(fresh) if fresh else "holds on everything analysed", time.time() - t0))
    sys.exit(1 if fresh else 0)


def engine_part(prop, units, tier, tmp, t0):
    res = run_engine(units, tier, tmp, t0 + (700 if tier == "quick" else 820))
    viols, cases, errs = [], [], []
    obl, fns, loops, undec, unmod = {}, set(), {}, [], {}
    for us, mod, r in res:
        def wanted(v):
            return any((v["kind"] in u[2] or "*" in u[2]) and (not u[4] or v["kind"] not in ("spec", "content") or re.search(u[4], v["msg"])) for u in us)
        name = r["case"][8:] + (" (%s)" % " ".join(mod[1]) if mod[1] else "")
        if r["err"] or not r["reached"]:
            errs.append({"case": name, "why": r["err"] or "no path reaches the end of the case"})
        if r["incomplete"]:
            errs.append({"case": name, "why": "loop analysed for its first iterations only: " + "; ".join(map(str, r["incomplete"]))})
        cases.append(name)
        for k, n in r["obl"].items():
            obl[k] = obl.get(k, 0) + n
        fns |= {f for f in r["fns"]}
        for a, b, c, n in r["loops"]:
            loops[(a, b, c)] = loops.get((a, b, c), 0) + n
        for v in r["viol"]:
            if wanted(v):
                viols.append(dict(v, case=name))
        for v in r["undec"]:
            undec.append({"case": name, "kind": v["kind"], "at": "%s:%s" % (v["file"], v["line"]), "what": v["msg"], "why": v.get("why", "")})
        for k, v in r["unmod"].items():
            unmod[str(k)] = unmod.get(str(k), 0) + v
    if not cases:
        die("no analysis case matches for " + prop)
    full = len(cases) - len({e["case"] for e in errs})
    if full == 0:
        die("none of the %d analysis cases of %s could be analysed to its end: %s" % (len(cases), prop, errs[:3]))
    inrepo = sorted(f for f in fns)
    cov = {"cases": len(cases), "cases_analysed_on_all_paths": full, "not_fully_analysed": errs[:60],
           "obligations_by_kind": obl, "kinds_reported": sorted({k for us, _, _ in res for u in us for k in u[2]}),
           "obligations": sum(obl.values()), "undecided": undec[:60], "undecided_count": len(undec),
           "functions_analysed": len(inrepo), "functions": inrepo[:400],
           "loops": [{"function": a, "at": b, "how": c, "times": n} for (a, b, c), n in sorted(loops.items())][:150],
           "unmodelled_calls": unmod, "case_names": cases}
    return cov, viols


if __name__ == "__main__":
    import multiprocessing.pool
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
