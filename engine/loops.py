"""Loop summaries.

A loop is first interpreted iteration by iteration while its condition is decided by the abstract state.  At the first
iteration whose exit is undecided the loop is summarised by a parametric invariant G(k): every value and every segment
boundary that changes is a linear function of the iteration count k (or an unconstrained "soft" symbol), with linear
side conditions found by a Houdini-style elimination over the comparisons met in the body.  G is accepted only after
one interpretation of the body from G(k) is shown to end inside G(k+1) (inductiveness) and the entry state is shown to
lie in G(0) (or the state after one iteration in G(1)).  When no invariant is found the loop is unrolled a few times
and the case is marked incomplete.
"""
import sys
from dom import *
from mem import *
import mem as _mem
import interp as _in

MAXDECIDED = 70
MAXPEEL = 3
MAXPHASE = 8
DEBUG = False


def islin(x):
    return type(x) is tuple and len(x) == 2 and type(x[0]) is int and type(x[1]) is tuple


class Slot:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Slot) and o.i == self.i

    def __hash__(self):
        return hash(("slot", self.i))

    def __repr__(self):
        return "$%d" % self.i


def canon(st, v):
    """values read from an abstract array are compared by their position in it"""
    if type(v) is tuple and len(v) == 3 and v[0] == "i" and islin(v[2]):
        L = st.store.norm(v[2])
        if L[0] == 0 and len(L[1]) == 1 and L[1][0][1] == 1:
            og = Syms.origin.get(L[1][0][0])
            if og is not None and og[2] * 8 == v[1] and og[0] not in Arrays.known:
                return ("o", og[2], ((lc(og[2]), ("byt", og[0], st.store.norm(og[1]))),))
        return ("i", v[1], L)
    return v


def flat(st, x, lins):
    if islin(x):
        lins.append(st.store.norm(x))
        return Slot(len(lins) - 1)
    if type(x) is tuple:
        if len(x) == 4 and x[0] == "rep":
            return ("rep", x[1], tuple(flat(st, y, lins) for y in x[2]), flat(st, x[3], lins))
        x = canon(st, x)
        return tuple(flat(st, y, lins) for y in x)
    return x


def inst(t, lins):
    if isinstance(t, Slot):
        return lins[t.i]
    if type(t) is tuple:
        return tuple(inst(y, lins) for y in t)
    return t


def changed(a, b):
    """regions whose contents differ between two states"""
    out = []
    for k in set(a.mem) | set(b.mem):
        ra, rb = a.mem.get(k), b.mem.get(k)
        if ra is rb:
            continue
        if ra is None or rb is None:
            return None
        if ra.alive != rb.alive or ra.kind != rb.kind:
            return None
        if ra.segs != rb.segs:
            if len(ra.segs) == len(rb.segs) and all(x == y or _in.normseg(b.store, x) == _in.normseg(b.store, y) for x, y in zip(ra.segs, rb.segs)):
                continue
            out.append(k)
    return out


def align_segs(st, env, ids, rids):
    """cut the segments of the changed regions at the loop's pointer variables (only where no case split is needed)"""
    for i in ids:
        v = env.get(i)
        if v is None or v[0] != "p" or v[1] not in rids:
            continue
        r = st.mem[v[1]]
        o = st.store.norm(v[2])
        for k, g in enumerate(r.segs):
            if g[0] == o or g[1] == o:
                break
            if g[2][0] in ("sca", "scap"):
                continue
            if st.store.entails_ge(lsub(o, g[0])) and st.store.entails_ge(lsub(g[1], o)):
                a, b = split_content(st.store, g, o)
                n = r.clone()
                n.segs = r.segs[:k] + (a, b) + r.segs[k + 1:]
                st.mem[v[1]] = n
                break


class Tmpl:
    """env ids and regions with the linear forms cut out"""

    def __init__(self, st, env, ids, rids):
        self.ids, self.rids = ids, rids
        lins = []
        self.env = tuple(flat(st, env.get(i), lins) for i in ids)
        self.mem = tuple(flat(st, tuple(g for g in st.mem[r].segs), lins) for r in rids)
        self.lins = lins

    def key(self):
        return (self.env, self.mem)


def closed(ids, rids, st):
    return True


def segs_equal(store, A, B):
    i = j = 0
    na, nb = len(A), len(B)
    while True:
        while i < na and store.entails_ge(lsub(A[i][0], A[i][1])):
            i += 1
        while j < nb and store.entails_ge(lsub(B[j][0], B[j][1])):
            j += 1
        if i == na or j == nb:
            # remaining segments must be empty
            return i == na and j == nb
        a, b = A[i], B[j]
        d = store.norm(lsub(a[1], b[1]))
        if store.entails_eq(d):
            if not cont_equal(store, a, b, True):
                return False
            i += 1
            j += 1
            continue
        if store.entails_ge(lneg(d)):
            if not cont_equal(store, a, b, False):
                return False
            i += 1
            continue
        if store.entails_ge(d):
            if not cont_equal(store, a, b, False):
                return False
            j += 1
            continue
        return False


def cont_equal(store, a, b, same):
    ca, cb = _in.ncontent(store, a[2]), _in.ncontent(store, b[2])
    if ca == cb:
        return same or ca[0] not in ("sca", "scap")
    if ca[0] == cb[0]:
        k = ca[0]
        if k in ("byt",):
            return ca[1] == cb[1] and store.entails_eq(lsub(ca[2], cb[2]))
        if k == "obj":
            return ca[1] == cb[1] and ca[2] == cb[2] and store.entails_eq(lsub(ca[3], cb[3]))
        if k == "orep":
            return ca[1] == cb[1] and ca[2][0] == cb[2][0] and ca[2][1] == cb[2][1] and store.entails_eq(lsub(ca[2][2], cb[2][2]))
        if k == "rep":
            if ca[1] != cb[1] or not val_equal(store, ca[2], cb[2]):
                return False
            d = store.norm(lsub(ca[3], cb[3]))
            return d[0] % ca[1] == 0 and all(q % ca[1] == 0 for _, q in d[1])
        if k == "sca" and same:
            return ca[1] == cb[1] and val_equal(store, ca[2], cb[2])
        return False
    ka, kb = scal(ca, a[0]), scal(cb, b[0])
    if ka and kb and ka[0] == kb[0] and val_equal(store, ka[1], kb[1]):
        d = store.norm(lsub(ka[2], kb[2]))
        return d[0] % ka[0] == 0 and all(q % ka[0] == 0 for _, q in d[1])
    if ca[0] in ("obj", "orep") and cb[0] in ("obj", "orep") and ca[1] == cb[1] and same:
        x, y = oident(store, a), oident(store, b)
        return x is not None and x == y
    return False


def val_equal(store, x, y):
    if x is None or y is None:
        return x is y
    if x[0] != y[0]:
        return False
    if x[0] in ("i", "p", "ov"):
        return x[1] == y[1] and store.entails_eq(lsub(x[2], y[2]))
    return _in.nv(store, x) == _in.nv(store, y)


def run_loop(I, f, h, items):
    exits, results = [], []
    body = f.loops[h]
    for st, env in I.merge_envs(f, h, I.phis(f, h, items)):
        one(I, f, h, body, st, env, exits, results)
    return exits, results


def iterate(I, f, h, body, st, env):
    ex, bk, rs = I.run_scope(f, [(h, "set", st.fork(), env)], body, h)
    heads = I.merge_envs(f, h, I.phis(f, h, bk)) if bk else []
    return ex, heads, rs


def small_bound(I, f, h, body, st, env):
    """the loop counts from a constant towards a small constant: the largest number of rounds, else None"""
    phis = {}
    for i in f.blocks[h]:
        if i["op"] == "phi" and i["id"] in env:
            v = env[i["id"]]
            if v[0] == "i" and islin(v[2]) and isc(st.store.norm(v[2])):
                phis[i["id"]] = st.store.norm(v[2])[0]
    for i in f.blocks[h]:
        if i["op"] in ("sext", "zext", "trunc") and i["ops"][0][0] == "l" and i["ops"][0][1] in phis:
            phis[i["id"]] = phis[i["ops"][0][1]]
        if i["op"] == "icmp" and i["oty"][0] == "i":
            for p, q in (i["ops"], i["ops"][::-1]):
                if p[0] == "l" and p[1] in phis and q[0] == "i":
                    n = int(q[2]) - phis[p[1]]
                    if 0 < n <= 12:
                        return n
    return None


def one(I, f, h, body, st, env, exits, results):
    work = [(st, env, 0, 0)]
    decided = 0
    if I.unroll or small_bound(I, f, h, body, st, env) is not None:
        level = [(st, env)]
        for _ in range(I.unroll or 14):
            nxt = []
            for s, e in level:
                ex, hd, rs = iterate(I, f, h, body, s, e)
                exits.extend(ex)
                results.extend(rs)
                nxt += hd
            if not nxt:
                return
            level = I.merge_envs(f, h, nxt)
            if len(level) > (4000 if I.unroll else 40):
                break
        work = [(s, e, 0, 0) for s, e in level]
    while work:
        st, env, peel, phase = work.pop()
        n0 = len(Syms.names)
        cap, I.cmpcap = I.cmpcap, []
        ex, heads, rs = iterate(I, f, h, body, st, env)
        caps, I.cmpcap = I.cmpcap, cap
        if not heads:
            exits.extend(ex)
            results.extend(rs)
            continue
        if not ex and not rs and len(heads) == 1 and decided < MAXDECIDED:
            decided += 1
            work.append((heads[0][0], heads[0][1], peel, phase))
            continue
        if not ex and not rs and len(heads) > 1 and not phase and not peel:
            r = unroll(I, f, h, body, heads)
            if r is not None:
                exits.extend(r[0])
                results.extend(r[1])
                continue
        r = None
        if phase < (MAXPHASE if len(heads) == 1 else 2):
            try:
                r = accelerate(I, f, h, body, st, env, ex, heads, rs, n0)
            except Unsupported as e:
                if DEBUG:
                    print("   accel unsupported", f.name, h, e)
        if r is not None:
            exits.extend(r[0])
            results.extend(r[1])
            if DEBUG and r[2]: print("   leaving", len(r[2]), f.name[:60], h)
            for s, e in r[2]:
                work.append((s, e, peel, phase + 1))
            info(I, f, h, "summarised")
            continue
        exits.extend(ex)
        results.extend(rs)
        for s, e in heads:
            if peel < MAXPEEL:
                work.append((s, e, peel + 1, phase))
            else:
                info(I, f, h, "incomplete")
                I.incomplete.add((f.dem, loop_line(I, f, h)))


def unroll(I, f, h, body, heads):
    """several kinds of iterations, but a definite small number of them: go through them one by one"""
    exits, results = [], []
    level = heads
    cap, I.cmpcap = I.cmpcap, []
    try:
        for depth in range(5):
            nxt, left, stay = [], [], False
            for s, e in level:
                ex, hd, rs = iterate(I, f, h, body, s, e)
                left += ex
                results += rs
                if hd and ex:
                    return None                 # whether it stops here is open
                stay = stay or bool(hd)
                nxt += hd
            exits += left
            if not nxt:
                return exits, results
            if len(nxt) > 32 or left and stay and depth == 0:
                return None
            level = I.merge_envs(f, h, nxt)
    finally:
        I.cmpcap = cap
    return None


def loop_line(I, f, h):
    for i in f.blocks[h]:
        l = i.get("loc")
        if l:
            return "%s:%d" % (I.m.files[l[0]], l[1])
    return "?"


def info(I, f, h, what):
    k = (f.dem[:80], loop_line(I, f, h), what)
    I.loopinfo[k] = I.loopinfo.get(k, 0) + 1


def accelerate(I, f, h, body, st, env, ex, heads, rs, n0):
    """-> (exits, results, leaving header states) or None"""
    r = multi(I, f, h, body, st, env, heads, n0) if len(heads) > 1 else None
    if r is not None:
        return r
    pairs = []
    for hi, (s1, e1) in enumerate(heads):
        others = heads[:hi] + heads[hi + 1:]
        I.quiet += 1
        try:
            ex2, heads2, rs2 = iterate(I, f, h, body, s1, e1)
        finally:
            I.quiet -= 1
        if DEBUG: print("   heads", len(heads), len(heads2), len(ex), len(rs))
        if len(heads) == 1 and len(heads2) > 1:
            r = multi(I, f, h, body, st, env, heads, n0)
            if r is not None:
                return r
        for H2 in heads2:
            pairs.append(((s1, e1), H2, others))
    kept = None
    for k0 in (True, False):        # a pattern that already covers the loop entry is preferred
        for H1, H2, others in pairs:
            for al in (False, True):
                I.inexact_loop = False
                r = single(I, f, h, body, (st, env), H1, H2, ex, rs, n0, al, others, k0)
                if r is not None:
                    if k0 and I.inexact_loop and st.exact and (ex or rs):
                        kept = kept or r        # keep the exits of the first iteration exact if possible
                        break
                    return r
    return kept


def diffs(I, f, h, H1, H2, al):
    """template and per-slot deltas from two consecutive header states"""
    (s1, e1), (s2, e2) = H1, H2
    if s1.exc != s2.exc or s1.caught != s2.caught or s1.ghost != s2.ghost:
        if DEBUG: print("   ghost differs", [(k, s1.ghost.get(k), s2.ghost.get(k)) for k in set(s1.ghost) | set(s2.ghost) if s1.ghost.get(k) != s2.ghost.get(k)])
        return None
    rids = changed(s1, s2)
    if rids is None:
        if DEBUG: print("   regions differ")
        return None
    ids = sorted(i for i in f.live[h] if i in e1)
    rids = sorted(rids)
    if al:
        s1, s2 = s1.fork(), s2.fork()
        phis = [i["id"] for i in f.blocks[h] if i["op"] == "phi"]
        align_segs(s1, e1, phis, rids)
        align_segs(s2, e2, phis, rids)
    t1 = Tmpl(s1, e1, ids, rids)
    t2 = Tmpl(s2, e2, ids, rids)
    if t1.key() != t2.key():
        if DEBUG:
            print("   skeleton differs", f.name[:60], h)
            for r in rids:
                print("     1:", [(show(a), show(b), c) for a, b, c in [(_in.normseg(s1.store, g)) for g in s1.mem[r].segs]])
                print("     2:", [(show(a), show(b), c) for a, b, c in [(_in.normseg(s2.store, g)) for g in s2.mem[r].segs]])
            for a, b in zip(t1.env, t2.env):
                if a != b: print("    env", a, b)
        return None
    ds = []
    for a, b in zip(t1.lins, t2.lins):
        d = s2.store.norm(lsub(b, a))
        ds.append(d[0] if isc(d) else None)
    return t1, ds


def mkG(I, base, t, ds, kmin, l0, tag="k"):
    """the parametric state; l0 = the linear forms at k = kmin"""
    st, env = base
    s = st.fork()
    k = Syms.new(tag)
    s.store.cons[((k, 1),)] = -kmin
    s.store.cons[((k, -1),)] = 1 << 60
    lins = []
    softs = {}
    for i, (L, d) in enumerate(zip(l0, ds)):
        if d is None:
            x = Syms.new("lv%d" % i, True)
            softs[i] = x
            lins.append(ls(x))
        elif d == 0:
            lins.append(L)
        else:
            lins.append(ladd(L, lmul(laddc(ls(k), -kmin), d)))
    e = dict(env)
    for i, v in zip(t.ids, t.env):
        e[i] = inst(v, lins)
    for r, m in zip(t.rids, t.mem):
        n = s.mem[r].clone()
        n.segs = inst(m, lins)
        s.mem[r] = n
    # soft integer slots keep their type range
    for i, x in softs.items():
        w = width_of(t, i)
        if w:
            s.store.cons[((x, 1),)] = 0
            s.store.cons[((x, -1),)] = (1 << w) - 1
    return s, e, k, lins, softs


def width_of(t, i):
    def walk(x):
        if type(x) is tuple:
            if len(x) == 3 and x[0] == "i" and isinstance(x[2], Slot) and x[2].i == i:
                return x[1]
            for y in x:
                r = walk(y)
                if r:
                    return r
        return None
    return walk(t.env) or walk(t.mem)


def subst(L, mp):
    """replace symbols in L by linear forms"""
    r = (L[0], tuple(x for x in L[1] if x[0] not in mp))
    for s, k in L[1]:
        if s in mp:
            r = ladd(r, lmul(mp[s], k))
    return r


def single(I, f, h, body, H0, H1, H2, ex, rs, n0, al, others, k0):
    D = diffs(I, f, h, H1, H2, al)
    if D is None:
        return None
    t, ds = D
    if any(d is None for d in ds) and DEBUG:
        print("   soft slots", f.name[:50], [(i, show(t.lins[i])) for i, d in enumerate(ds) if d is None], t.env)
    if k0:
        # start from the loop entry when the first iteration already fits the pattern
        l0 = [L if d is None else laddc(L, -d) for L, d in zip(t.lins, ds)]
        if fits(H0, H1, t, ds, l0, n0):
            return invariant(I, f, h, body, H0, t, ds, l0, 0, al, H0)
        return None
    r = invariant(I, f, h, body, H1, t, ds, t.lins, 1, al, H1)
    if r is None:
        return None
    return ex + r[0], rs + r[1], others + r[2]


def fits(H0, H1, t, ds, l0, n0):
    st, env = H0
    for L in l0:
        for s, _ in L[1]:
            if s >= n0:
                return False
    if st.exc != H1[0].exc or st.ghost != H1[0].ghost or set(st.mem) != set(H1[0].mem):
        return False
    if any(d is None for d in ds):
        return False
    for i, v in zip(t.ids, t.env):
        if not same_val(st, inst(v, l0), env.get(i)):
            return False
    ch = changed(st, H1[0])
    if ch is None:
        return False
    for r in ch:
        if r not in t.rids:
            return False
    for r, m in zip(t.rids, t.mem):
        if not segs_equal(st.store, inst(m, l0), st.mem[r].segs):
            return False
    return True


def same_val(st, a, b):
    if a is None or b is None:
        return a is b
    if val_equal(st.store, a, b):
        return True
    x, y = [], []
    if flat(st, a, x) == flat(st, b, y):
        return all(st.store.entails_eq(lsub(p, q)) for p, q in zip(x, y))
    return False


def invariant(I, f, h, body, base, t, ds, l0, kmin, al, entry):
    s, e, k, lins, softs = mkG(I, base, t, ds, kmin, l0)
    nG = len(Syms.names)
    hdr = set(range(nG))
    # ---- the segments of the pattern keep their order (not negotiable)
    order = []
    for m in t.mem:
        for a, b, _ in inst(m, lins):
            L = s.store.norm(lsub(b, a))
            if any(y == k for y, _ in L[1]) and not any(y in softs.values() for y, _ in L[1]):
                order.append(L)
                if not s.store.add_ge(L):
                    return None
    # ---- candidate side conditions
    cand = []
    seen = set()

    def addc(L):
        L = s.store.norm(L)
        if not L[1] or L in seen:
            return
        syms = [y for y, _ in L[1]]
        if any(y >= nG for y in syms):
            return
        if not any(y == k or y in softs.values() for y in syms):
            return
        seen.add(L)
        cand.append(L)
    I.quiet += 1
    cap = I.cmpcap
    try:
        I.cmpcap = []
        ex, heads, rs = iterate(I, f, h, body, s, e)
        for d in I.cmpcap:
            addc(d)
            addc(lneg(d))
            addc(laddc(d, 1)); addc(laddc(lneg(d), 1))
            addc(laddc(d, -1)); addc(laddc(lneg(d), -1))
        for hs, he in heads:
            for tt, c in hs.store.cons.items():
                if s.store.cons.get(tt) != c:
                    L = (c, tt)
                    addc(subst(L, {k: laddc(ls(k), -1)}))
                    addc(L)
        # values stay inside their objects
        for v in list(e.values()):
            if v is not None and v[0] == "p" and v[1] in s.mem:
                addc(v[2])
                addc(lsub(s.mem[v[1]].size, v[2]))
        for x in softs.values():
            for c in list(I.cmpcap):
                pass
        # keep the ones true on entry
        est = entry[0]
        emap = {k: lc(kmin)}
        for i, x in softs.items():
            emap[x] = t.lins[i]
        cand = [L for L in cand if est.store.entails_ge(subst(L, emap))]
        for rnd in range(12):
            g = s.fork()
            ok = True
            for L in cand:
                ok = ok and g.store.add_ge(L)
            if not ok:
                if DEBUG: print("   invariants contradict")
                return None
            I.cmpcap = []
            ex, heads, rs = iterate(I, f, h, body, g, e)
            drop = set()
            fit, leave = classify(I, f, h, heads, g, e, t, ds, lins, softs, k, al, order)
            for hs, he, m in fit:
                for ci, L in enumerate(cand):
                    if ci not in drop and not hs.store.entails_ge(subst(L, m)):
                        drop.add(ci)
            if not fit:
                return None
            if not drop:
                break
            cand = [L for i, L in enumerate(cand) if i not in drop]
        else:
            return None
    finally:
        I.quiet -= 1
        I.cmpcap = cap
    # ---- exactness: what the back edge knows beyond G
    lost, inexact = dropped(g, fit, cand, order, k, nG, softs)
    if inexact:
        g.exact = False
        I.inexact_loop = True
        if DEBUG:
            print("   inexact summary", f.name[:60], h, inexact, [show(c) for c in cand])
            for nm, x in [("G", g)] + [("fit", y[0]) for y in fit]:
                print("     ", nm, [show((c, tt)) for tt, c in x.store.cons.items() if not any("addr" in Syms.names[y] for y, _ in tt)])
                for r in t.rids: print("          ", [(show(a), show(b), c[0]) for a, b, c in x.mem[r].segs])
    if lost:
        g.ghost["lost"] = frozenset(g.ghost.get("lost", frozenset()) | lost)
    ex, heads, rs = iterate(I, f, h, body, g, e)
    I.quiet += 1
    try:
        fit, leave = classify(I, f, h, heads, g, e, t, ds, lins, softs, k, al, order)
        for hs, he, m in fit:
            if not all(hs.store.entails_ge(subst(L, m)) for L in cand):
                return None
    finally:
        I.quiet -= 1
    return ex, rs, leave


def classify(I, f, h, heads, g, e, t, ds, lins, softs, k, al, order):
    """back-edge states that end inside G(k+1), and those that leave the pattern (new loop entries)"""
    fit, leave = [], []
    sh = {k: laddc(ls(k), 1)}
    for hs, he in heads:
        cur = hs.fork()
        for L in order:
            L = subst(L, sh)
            if cur.store.entails_ge(L):
                continue
            o = cur.fork()
            if o.store.add_ge(laddc(lneg(L), -1)):
                leave.append((o, he))
            if not cur.store.add_ge(L):
                cur = None
                break
        if cur is None:
            continue
        m = end_map(I, f, h, cur, he, g, e, t, ds, lins, softs, k, al)
        if m is None:
            leave.append((cur, he))
        else:
            fit.append((cur, he, m))
    return fit, leave


def dropped(g, fit, cand, order, k, nG, softs):
    """is every point of G with a larger count really reached by one more iteration?
    -> (arrays whose element values were compared, reason for inexactness or None)"""
    lost = set()
    sv = set(softs.values())
    sh = {k: laddc(ls(k), 1)}
    R = g.store.copy()
    for L in list(cand) + list(order):
        if not any(y in sv for y, _ in L[1]):
            if not R.add_ge(subst(L, sh)):
                return lost, None
    pieces = [R]
    for hs, he, m in fit:
        cs = []
        for y, e in hs.store.sub.items():
            if y not in g.store.sub and y < nG:
                if any(z >= nG or z in sv or Syms.origin.get(z) is not None for z, _ in e[1]) or y in sv or Syms.origin.get(y) is not None:
                    for z in [y] + [z for z, _ in e[1]]:
                        og = Syms.origin.get(z)
                        if og is not None:
                            lost.add(og[0])
                    continue
                d = lsub(ls(y), e)
                cs += [d, lneg(d)]
        for tt, c in hs.store.cons.items():
            if g.store.cons.get(tt) == c:
                continue
            new = [y for y, _ in tt if y >= nG or Syms.origin.get(y) is not None]
            if any(y in sv for y, _ in tt):
                continue
            for y in new:
                og = Syms.origin.get(y)
                if og is not None:
                    lost.add(og[0])
            if not new:
                cs.append((c, tt))
        nxt = []
        for p in pieces:
            acc = p
            for c in cs:
                if acc.entails_ge(c):
                    continue
                q = acc.copy()
                if q.add_ge(laddc(lneg(c), -1)):
                    nxt.append(q)
                acc = acc.copy()
                if not acc.add_ge(c):
                    break
        pieces = nxt[:24]
        if not pieces:
            return lost, None
    return lost, "not every count is reached"


def end_map(I, f, h, hs, he, g, e, t, ds, lins, softs, k, al):
    """check that the back-edge state lies in G(k+1); -> substitution header symbols -> values at the back edge"""
    if hs.exc != g.exc or hs.caught != g.caught:
        return None
    gg = {a: b for a, b in hs.ghost.items()}
    if gg != g.ghost:
        if DEBUG: print("   ghost changes in loop")
        return None
    ch = changed(g, hs)
    if ch is None:
        if DEBUG: print("   region set changes in loop")
        return None
    for r in ch:
        if r not in t.rids:
            if not segs_equal(hs.store, g.mem[r].segs, hs.mem[r].segs):
                if DEBUG: print("   region %d changes unexpectedly" % r)
                return None
    if al:
        hs = hs.fork()
        phis = [i["id"] for i in f.blocks[h] if i["op"] == "phi"]
        align_segs(hs, he, phis, t.rids)
    nxt = []
    for i, d in enumerate(ds):
        nxt.append(None if d is None else laddc(lins[i], d))
    m = {k: laddc(ls(k), 1)}
    tb = Tmpl(hs, he, t.ids, t.rids)
    if tb.key() == t.key():
        ok = True
        for i, (L, N) in enumerate(zip(tb.lins, nxt)):
            if N is None:
                m[softs[i]] = L
            elif not hs.store.entails_eq(lsub(L, N)):
                ok = False
                if DEBUG: print("   slot %d: %s expected %s" % (i, show(L), show(N)), t.env)
                break
        if ok:
            return m
    if softs:
        if DEBUG: print("   soft skeleton mismatch")
        return None
    for i, v in zip(t.ids, t.env):
        if not same_val(hs, inst(v, nxt), he.get(i)):
            if DEBUG: print("   env %d differs: %s / %s" % (i, inst(v, nxt), he.get(i)))
            return None
    for r, mm in zip(t.rids, t.mem):
        if not segs_equal(hs.store, inst(mm, nxt), hs.mem[r].segs):
            if DEBUG:
                print("   region %d not inductive" % r)
                print("     want", [(show(hs.store.norm(a)), show(hs.store.norm(b)), c) for a, b, c in inst(mm, nxt)])
                print("     have", [(show(hs.store.norm(a)), show(hs.store.norm(b)), c) for a, b, c in hs.mem[r].segs])
            return None
    return m


class Giveup(Exception):
    pass


def join_content(gs):
    """one content for a zone described by several samples: lists of (store, content) -> content or None"""
    cs = []
    for st, c in gs:
        c = _in.ncontent(st.store, c)
        if c not in cs:
            cs.append(c)
    if len(cs) == 1:
        return cs[0]
    if all(c[0] in ("obj", "orep") for c in cs) and len(set(c[1] for c in cs)) == 1:
        arrs = [c[2] if c[0] == "obj" else c[2][1] for c in cs]
        return ("obj", cs[0][1], soft_array(("filtered", cs[0][1]), arrs), ZERO)
    if all(c[0] in ("byt", "rep", "sca", "scap") for c in cs):
        return ("byt", soft_array(("filtered",), [c[1] for c in cs if c[0] == "byt"]), ZERO)
    return None


def soft_array(key, sources):
    a = Arrays.new("filtered content")
    Arrays.soft.add(a)
    return a


def zone_accepts(store, want, g):
    """does segment g (non-empty) fit the zone content want?"""
    c = g[2]
    if want[0] == "obj" and want[2] in Arrays.soft:
        return c[0] in ("obj", "orep") and c[1] == want[1]
    if want[0] == "byt" and want[1] in Arrays.soft:
        return c[0] in ("byt", "rep", "sca", "scap")
    return cont_equal(store, (g[0], g[1], want), g, False)


def segs_accept(store, T, H):
    """are the segments H described by the template segments T?"""
    j = 0
    H = [g for g in H if not store.entails_ge(lsub(g[0], g[1]))]
    T = [g for g in T if not store.entails_ge(lsub(g[0], g[1]))]
    for a, b, c in T:
        while True:
            if j == len(H):
                return False
            g = H[j]
            if not zone_accepts(store, c, g):
                return False
            d = lsub(b, g[1])
            if store.entails_eq(d):
                j += 1
                break
            if store.entails_ge(d):
                j += 1
                continue
            if store.entails_ge(lneg(d)):
                if c[0] in ("sca", "scap"):
                    return False
                break
            return False
    return j == len(H)


def multi(I, f, h, body, st, env, heads, n0):
    """loops whose iterations come in several kinds (filters): one counter per kind"""
    try:
        return _multi(I, f, h, body, st, env, heads, n0)
    except Giveup as e:
        if DEBUG:
            print("   multi gives up:", e)
        return None


def lin_of(st, v):
    if v is None:
        return None
    if v[0] == "i" and islin(v[2]):
        return st.store.norm(v[2])
    if v[0] == "p":
        return st.store.norm(v[2])
    return None


def _multi(I, f, h, body, st, env, heads, n0):
    phis = [i["id"] for i in f.blocks[h] if i["op"] == "phi"]
    # ---- sample header states up to three iterations deep
    samples = []
    level = list(heads)
    I.quiet += 1
    try:
        for depth in range(3):
            samples += [(depth + 1, s, e) for s, e in level]
            if depth == 2 or len(samples) > 40:
                break
            nxt = []
            for s, e in level:
                nxt += iterate(I, f, h, body, s, e)[1]
            level = nxt
    finally:
        I.quiet -= 1
    ids = [i for i in phis if i in env]
    base = {}
    for i in ids:
        L = lin_of(st, env[i])
        if L is None:
            raise Giveup("loop variable of another kind")
        base[i] = L
    kinds = {}
    for d, s, e in samples:
        if s.exc != st.exc or s.ghost != st.ghost or s.caught != st.caught:
            raise Giveup("state differs")
        for i in ids:
            if e[i] is None or e[i][0] != env[i][0] or e[i][1] != env[i][1]:
                raise Giveup("loop variable changes its object")
        if d == 1:
            dv = []
            for i in ids:
                x = s.store.norm(lsub(lin_of(s, e[i]), base[i]))
                dv.append(x[0] if isc(x) else None)
            if None in dv:
                raise Giveup("non-constant step")
            kinds.setdefault(tuple(dv), 0)
    deltas = list(kinds)
    if len(deltas) != 2:
        raise Giveup("%d kinds" % len(deltas))
    # ---- changed regions
    rids = set()
    for d, s, e in samples:
        ch = changed(st, s)
        if ch is None:
            raise Giveup("regions appear or vanish")
        rids |= set(ch)
    rids = sorted(rids)
    # ---- parametric state
    g = st.fork()
    ks = []
    for j in range(len(deltas)):
        k = Syms.new("k%d" % j)
        g.store.cons[((k, 1),)] = 0
        g.store.cons[((k, -1),)] = 1 << 60
        ks.append(k)
    ge = dict(env)
    forms = {}
    for x, i in enumerate(ids):
        L = base[i]
        for j, dv in enumerate(deltas):
            L = ladd(L, lmul(ls(ks[j]), dv[x]))
        forms[i] = L
        v = env[i]
        ge[i] = (v[0], v[1], L)
    # live values that are not phis must be the same in all samples
    order = []
    tsegs = {}
    ptrs = {}
    for r in rids:
        ps = [i for i in ids if env[i][0] == "p" and env[i][1] == r]
        if not ps:
            raise Giveup("changed region without a loop pointer")
        # order of the pointers in the samples
        def le(p, q):
            return all(s.store.entails_ge(lsub(lin_of(s, e[q]), lin_of(s, e[p]))) for d, s, e in samples)
        import functools
        for p in ps:
            for q in ps:
                if not (le(p, q) or le(q, p)):
                    raise Giveup("loop pointers are not ordered")
        ps.sort(key=functools.cmp_to_key(lambda p, q: 0 if p == q else (-1 if le(p, q) and not le(q, p) else (1 if le(q, p) and not le(p, q) else 0))))
        first = None
        for gi, gg in enumerate(st.mem[r].segs):
            if all(st.store.entails_ge(lsub(base[p], gg[0])) and st.store.entails_ge(laddc(lsub(gg[1], base[p]), -1)) for p in ps):
                first = gi
                break
        if first is None:
            raise Giveup("loop pointers start outside one segment")
        seg = st.mem[r].segs[first]
        if not st.store.entails_eq(lsub(seg[0], base[ps[0]])):
            raise Giveup("zone does not start at the pointer")
        bounds = [seg[0]] + [forms[p] for p in ps]
        zones = []
        for zi in range(len(ps)):
            col = []
            for d, s, e in samples:
                s = s.fork()
                lo = seg[0] if zi == 0 else lin_of(s, e[ps[zi - 1]])
                hi = lin_of(s, e[ps[zi]])
                if s.store.entails_ge(lsub(lo, hi)):
                    continue
                for gg in s.mem[r].segs:
                    if s.store.entails_ge(lsub(gg[0], gg[1])):
                        continue
                    if s.store.entails_ge(lsub(lo, gg[1])) or s.store.entails_ge(lsub(gg[0], hi)):
                        continue
                    col.append((s, gg[2]))
            if not col:
                zones.append(("raw",))
                continue
            c = join_content(col)
            if c is None:
                raise Giveup("zone content")
            zones.append(c)
        segs = list(st.mem[r].segs[:first])
        for zi, c in enumerate(zones):
            segs.append((bounds[zi], bounds[zi + 1], c))
            order.append(lsub(bounds[zi + 1], bounds[zi]))
        segs.append((bounds[-1], seg[1], seg[2]))
        order.append(lsub(seg[1], bounds[-1]))
        segs += list(st.mem[r].segs[first + 1:])
        n = g.mem[r].clone()
        n.segs = tuple(segs)
        g.mem[r] = n
        tsegs[r] = segs
        ptrs[r] = ps
    for L in order:
        if not g.store.add_ge(L):
            raise Giveup("order contradicts")
    nG = len(Syms.names)

    def shift(j):
        return {ks[j]: laddc(ls(ks[j]), 1)}

    def classify2(hds):
        fit = []
        for hs, he in hds:
            j = None
            for jj in range(len(deltas)):
                mp = shift(jj)
                if all(hs.store.entails_eq(lsub(lin_of(hs, he[i]), subst(forms[i], mp))) for i in ids):
                    j = jj
                    break
            if j is None:
                raise Giveup("iteration of another kind")
            mp = shift(j)
            for L in order:
                if not hs.store.entails_ge(subst(L, mp)):
                    raise Giveup("order is not kept: " + show(subst(L, mp)))
            if hs.exc != g.exc or hs.ghost != g.ghost or hs.caught != g.caught:
                raise Giveup("state differs")
            ch = changed(g, hs)
            if ch is None:
                raise Giveup("regions appear or vanish")
            for r in ch:
                if r not in tsegs:
                    raise Giveup("another region changes")
            for r in tsegs:
                T = [(subst(a, mp), subst(b, mp), c) for a, b, c in tsegs[r]]
                if not segs_accept(hs.store, T, hs.mem[r].segs):
                    if DEBUG:
                        print("     want", [(show(hs.store.norm(a)), show(hs.store.norm(b)), c) for a, b, c in T])
                        print("     have", [(show(hs.store.norm(a)), show(hs.store.norm(b)), c) for a, b, c in hs.mem[r].segs])
                    raise Giveup("zone is not inductive")
            for i in f.live[h]:
                if i in ids or i not in ge:
                    continue
                if not same_val(hs, ge[i], he.get(i)):
                    raise Giveup("other value changes")
            fit.append((hs, he, j))
        return fit
    # ---- side conditions
    cand, seen = [], set()

    def addc(L):
        L = g.store.norm(L)
        if not L[1] or L in seen or any(y >= nG for y, _ in L[1]) or not any(y in ks for y, _ in L[1]):
            return
        seen.add(L)
        cand.append(L)
    I.quiet += 1
    cap = I.cmpcap
    try:
        I.cmpcap = []
        ex, hds, rs = iterate(I, f, h, body, g, ge)
        for d in I.cmpcap:
            for x in (-1, 0, 1):
                addc(laddc(d, x))
                addc(laddc(lneg(d), x))
        for i in ids:
            v = ge[i]
            if v[0] == "p" and v[1] in g.mem:
                addc(v[2])
                addc(lsub(g.mem[v[1]].size, v[2]))
        z = {k: ZERO for k in ks}
        cand = [L for L in cand if st.store.entails_ge(subst(L, z))]
        for rnd in range(10):
            gg = g.fork()
            if not all(gg.store.add_ge(L) for L in cand):
                raise Giveup("contradiction")
            ex, hds, rs = iterate(I, f, h, body, gg, ge)
            fit = classify2(hds)
            drop = set()
            for hs, he, j in fit:
                for ci, L in enumerate(cand):
                    if not hs.store.entails_ge(subst(L, shift(j))):
                        drop.add(ci)
            if not drop:
                break
            cand = [L for ci, L in enumerate(cand) if ci not in drop]
        else:
            raise Giveup("no fixpoint")
    finally:
        I.quiet -= 1
        I.cmpcap = cap
    # ---- exactness
    R = gg.store.copy()
    R.add_ge(laddc(ladd(ls(ks[0]), ls(ks[1])), -1))
    pieces = [R]
    lost = set()
    for r in rids:
        for a, b, c in st.mem[r].segs:
            if c[0] == "obj":
                lost.add(c[2])
            elif c[0] == "byt":
                lost.add(c[1])
    for hs, he, j in fit:
        back = {ks[j]: laddc(ls(ks[j]), -1)}
        cs = [laddc(ls(ks[j]), -1)]
        for tt, c in gg.store.cons.items():
            cs.append(subst((c, tt), back))
        for y, e in hs.store.sub.items():
            if y not in gg.store.sub and y < nG and not any(q >= nG for q, _ in e[1]):
                d = subst(lsub(ls(y), e), back)
                cs += [d, lneg(d)]
        for tt, c in hs.store.cons.items():
            if gg.store.cons.get(tt) == c or any(y >= nG or y in Syms.origin for y, _ in tt):
                for y, _ in tt:
                    og = Syms.origin.get(y)
                    if y >= nG and og is not None:
                        lost.add(og[0])
                continue
            cs.append(subst((c, tt), back))
        nxt = []
        for p in pieces:
            acc = p
            for c in cs:
                if acc.entails_ge(c):
                    continue
                q = acc.copy()
                if q.add_ge(laddc(lneg(c), -1)):
                    nxt.append(q)
                acc = acc.copy()
                if not acc.add_ge(c):
                    break
        pieces = nxt[:24]
    if pieces:
        gg.exact = False
        if DEBUG:
            print("   multi: inexact", [show((c, t)) for t, c in pieces[0].cons.items() if not any("addr" in Syms.names[y] for y, _ in t)])
    gg.ghost["lost"] = frozenset(gg.ghost.get("lost", frozenset()) | lost)
    ex, hds, rs = iterate(I, f, h, body, gg, ge)
    return ex, rs, []
