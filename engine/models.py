"""Models of library functions, of tracked element classes and of the harness intrinsics (vp_*)."""
import re
from dom import *
from mem import *
import mem as _mem
import interp as _in

BIG = 1 << 46
import os
DBG = os.environ.get('VPDBG')
MODELS = {}
PATTERNS = []
CLS = _mem.CLS if hasattr(_mem, "CLS") else {}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


def pattern(rx):
    def d(fn):
        PATTERNS.append((re.compile(rx), fn))
        return fn
    return d


def install(I):
    I.models = MODELS
    cache = {}

    def find(name, f):
        if name in cache:
            return cache[name]
        dem = f.dem if f is not None else name
        r = None
        for rx, fn in PATTERNS:
            m = rx.match(dem)
            if m:
                r = (lambda fn, m, dem: lambda I, st, a, i: fn(I, st, a, i, m))(fn, m, dem)
                break
        if r is None and name.startswith("llvm."):
            base = name.split(".")
            for k in range(len(base), 1, -1):
                r = MODELS.get(".".join(base[:k]))
                if r:
                    break
        cache[name] = r
        return r
    I.find_model = find


def ret(st, v=None):
    return [("ret", st, v)]


def i64(L):
    return ("i", 64, L)


def toL(I, st, v, w=64):
    return I.as_int(st, v, w)


def P(I, st, v):
    return v if v[0] in ("p", "u") else I.to_ptr(st, v)


# ------------------------------------------------------------------ allocation
def alloc(I, st, n, what, kind="heap", align=16, can_fail=True, zero=False):
    """-> [(st, ptr or None)]"""
    out = []
    n = st.store.norm(n)
    lo, hi = st.store.interval(n)
    if hi is None or hi > BIG:
        t = st.fork()
        if t.store.add_ge(laddc(n, -BIG - 1)):
            t.trace = t.trace + ("allocation of %s bytes fails" % show(n),)
            out.append((t, None))
        if not st.store.add_ge(lsub(lc(BIG), n)):
            return out
    if can_fail and st.ghost.get("oom"):
        t = st.fork()
        t.trace = t.trace + ("allocation of %s bytes fails" % show(n),)
        t.ghost["oomhit"] = t.ghost.get("oomhit", 0) + 1
        out.append((t, None))
    r = I.new_region(st, kind, n, what, align=align)
    if zero:
        r2 = st.mem[r.rid].clone()
        r2.segs = ((ZERO, n, ("rep", 1, ("i", 8, ZERO), ZERO)),)
        st.mem[r.rid] = r2
    ch = I.where()
    a = I.anchor(ch)
    st.mem[r.rid].what = "%s allocated at %s:%d" % (what, a[0], a[1])
    out.append((st, ("p", r.rid, ZERO)))
    return out


@model("malloc")
def _malloc(I, st, a, i):
    return [("ret", s, p if p else ("p", 0, ZERO)) for s, p in alloc(I, st, toL(I, st, a[0]), "malloc buffer")]


@model("calloc")
def _calloc(I, st, a, i):
    x, y = toL(I, st, a[0]), toL(I, st, a[1])
    if not isc(y):
        x, y = y, x
    if not isc(y):
        raise Unsupported("calloc")
    return [("ret", s, p if p else ("p", 0, ZERO)) for s, p in alloc(I, st, lmul(x, y[0]), "calloc buffer", zero=True)]


@model("_Znwm", "_Znam")
def _new(I, st, a, i):
    out = []
    for s, p in alloc(I, st, toL(I, st, a[0]), "new object"):
        if p:
            I.flag(s, p[1], "new")
            out.append(("ret", s, p))
        else:
            out.append(throw(I, s, "_ZTISt9bad_alloc"))
    return out


@model("_ZnwmRKSt9nothrow_t")
def _newnt(I, st, a, i):
    out = []
    for s, p in alloc(I, st, toL(I, st, a[0]), "new object"):
        if p:
            I.flag(s, p[1], "new")
        out.append(("ret", s, p if p else ("p", 0, ZERO)))
    return out


def flag(I, st, rid, how):
    st.ghost[("how", rid)] = how


_in.Interp.flag = flag


def release(I, st, p, how):
    """-> state or None"""
    if p[0] == "u":
        I.fail(st, "uninit", "release of an uninitialised pointer")
        return None
    p = P(I, st, p)
    if p[1] == 0:
        L = st.store.norm(p[2])
        if L == ZERO:
            return st
        I.fail(st, "badfree", "release of a non-heap address")
        return None
    r = st.mem.get(p[1])
    I.count("free")
    if r is None or not r.alive:
        I.fail(st, "doublefree", "second release of %s" % (r.what if r else "memory"))
        return None
    if r.kind != "heap":
        I.fail(st, "badfree", "release of memory that was not obtained from the allocator (%s)" % r.what)
        return None
    off = st.store.norm(p[2])
    if not st.store.entails_eq(off):
        t = st.fork()
        ok = False
        for s in I.assume(t, ("ne", off), True):
            I.report(s, "badfree", "release of a pointer into the middle of %s" % r.what)
            ok = True
        if not st.store.add_eq(off):
            return None
    h = st.ghost.get(("how", r.rid), "malloc")
    if h != how:
        I.fail(st, "badfree", "%s memory released with %s" % (h, how))
    I.count("life")
    for g in r.segs:
        if g[2][0] in ("obj", "orep", "mov"):
            t = st.fork()
            L = laddc(lsub(g[1], g[0]), -1)
            if t.store.add_ge(L):
                kind = "moved-from" if g[2][0] == "mov" else "live"
                I.report(t, "life", "memory released while %s elements in it were not destroyed" % kind, [L])
    r2 = r.clone()
    r2.alive = False
    r2.segs = ()
    st.mem[r.rid] = r2
    return st


@model("free")
def _free(I, st, a, i):
    s = release(I, st, a[0], "malloc")
    return ret(s) if s else []


@model("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm")
def _del(I, st, a, i):
    s = release(I, st, a[0], "new")
    return ret(s) if s else []


@model("realloc")
def _realloc(I, st, a, i):
    p = P(I, st, a[0])
    n = toL(I, st, a[1])
    if p[1] == 0:
        return _malloc(I, st, [a[1]], i)
    out = []
    for s, q in alloc(I, st, n, "realloc buffer"):
        if q is None:
            out.append(("ret", s, ("p", 0, ZERO)))
            continue
        r = s.mem.get(p[1])
        if r is None or not r.alive:
            s2 = release(I, s, p, "malloc")
            continue
        # copy min(old size, n)
        c = lsub(n, r.size)
        t, fa = I.decide(s, ("ge", c))
        for s3, ln in [(x, r.size) for x in t] + [(x, n) for x in fa]:
            for s4, pcs in I.read(s3, ("p", p[1], ZERO), ln):
                for s5 in I.write(s4, q, ln, pcs):
                    s6 = release(I, s5, p, "malloc")
                    if s6:
                        out.append(("ret", s6, q))
    return out


# ------------------------------------------------------------------ memory functions
def copy(I, st, d, s, n, overlap_ok, what):
    d = P(I, st, d)
    s = P(I, st, s)
    n = st.store.norm(n)
    out = []
    for s1, pcs in I.read(st, s, n, what + " source"):
        if any(c[0] in ("obj", "orep", "mov") for _, c in pcs) and not I.o.get("objraw"):
            t = s1.fork()
            bad = [ln for ln, c in pcs if c[0] in ("obj", "orep", "mov")]
            if t.store.add_ge(laddc(bad[0], -1)):
                I.count("life")
                I.report(t, "life", "byte copy of non-relocatable elements")
                continue
        if not overlap_ok and d[1] == s[1] and d[1] != 0:
            # ranges must be disjoint (or empty)
            I.count("overlap")
            x = lsub(d[2], s[2])
            if not (s1.store.entails_ge(lsub(x, n)) or s1.store.entails_ge(lsub(lneg(x), n))):
                t = s1.fork()
                if t.store.add_ge(laddc(lsub(n, x), -1)) and t.store.add_ge(laddc(ladd(n, x), -1)) and t.store.add_ge(laddc(n, -1)):
                    for u in I.assume(t, ("ne", x), True):
                        I.report(u, "overlap", "memcpy with overlapping ranges")
        out.extend(I.write(s1, d, n, pcs, what + " destination"))
    return out


@model("llvm.memcpy", "memcpy")
def _memcpy(I, st, a, i):
    return [("ret", s, a[0]) for s in copy(I, st, a[0], a[1], toL(I, st, a[2]), False, "memcpy")]


@model("llvm.memmove", "memmove")
def _memmove(I, st, a, i):
    return [("ret", s, a[0]) for s in copy(I, st, a[0], a[1], toL(I, st, a[2]), True, "memmove")]


@model("llvm.memset", "memset")
def _memset(I, st, a, i):
    d = P(I, st, a[0])
    out = []
    n = toL(I, st, a[2])
    for s, v in _in.concretise(I, st, a[1], 8 if i["callee"][1].startswith("llvm") else 32):
        v = I.mod(s, v, 256)
        pc = ((s.store.norm(n), ("rep", 1, ("i", 8, v), ZERO)),)
        for s2 in I.write(s, d, n, pc, "memset"):
            out.append(("ret", s2, a[0]))
    return out


def range_ok(I, st, p, n, what):
    """bounds check of a read-only scan -> list of states"""
    return [s for s, _ in I.read(st, P(I, st, p), n, what)]


def literal(st, pcs, j):
    """the byte at j of the pieces, if it is written in the source or stored as a constant"""
    at = 0
    for i, (l, q) in enumerate(pcs):
        if not isc(l):
            if i + 1 < len(pcs):
                return None
            l = None
        if l is None or j < at + l[0]:
            if q[0] == "byt":
                kn = Arrays.known.get(q[1])
                if kn is None or not isc(q[2]):
                    return None
                k = q[2][0] + j - at
                return kn[k] if 0 <= k < len(kn) else None
            if q[0] in ("sca", "rep") and q[1] == 1 and q[2][0] == "i" and isc(q[2][2]):
                return q[2][2][0] & 255
            return None
        at += l[0]
    return None


def behind(st, pcs, j):
    """the pieces from byte j on, None if that splits a piece that cannot be split"""
    out = []
    for l, q in pcs:
        if j == 0:
            out.append((l, q))
        elif isc(l) and l[0] <= j:
            j -= l[0]
        elif q[0] == "byt":
            out.append((st.store.norm(laddc(l, -j)), (q[0], q[1], st.store.norm(laddc(q[2], j)))))
            j = 0
        elif q[0] == "rep" and q[1] == 1:
            out.append((st.store.norm(laddc(l, -j)), q))
            j = 0
        else:
            return None
    return tuple(out)


def strip_literal(st, x, y):
    """-> (sign of the first difference of literal bytes or 0, the pieces behind the equal literal bytes, their number)"""
    j = 0
    while j < 64:
        a, b = literal(st, x, j), literal(st, y, j)
        if a is None or b is None:
            break
        if a != b:
            return (-1 if a < b else 1), x, y, j
        j += 1
    if j == 0:
        return 0, x, y, 0
    u, v = behind(st, x, j), behind(st, y, j)
    if u is None or v is None:
        return 0, x, y, 0
    return 0, u, v, j


@model("memcmp", "bcmp")
def _memcmp(I, st, a, i):
    out = []
    n_ = st.store.norm(toL(I, st, a[2]))
    for s, x in I.read(st, P(I, st, a[0]), n_, "memcmp"):
        for s2, y in I.read(s, P(I, s, a[1]), n_, "memcmp"):
            n = s2.store.norm(n_)
            kx = tuple((s2.store.norm(l), _in.ncontent(s2.store, c)) for l, c in x)
            ky = tuple((s2.store.norm(l), _in.ncontent(s2.store, c)) for l, c in y)
            if kx == ky or s2.store.entails_eq(n):
                out.append(("ret", s2, ("i", 32, ZERO)))
                continue
            for c in (x, y):
                for l, cc in c:
                    if cc[0] == "raw":
                        t = s2.fork()
                        if t.store.add_ge(laddc(l, -1)):
                            I.count("uninit")
                            sy = [y for L in (a[0], a[1]) if L[0] == "p" for y, _ in t.store.norm(L[2])[1]] + [y for y, _ in n[1]]
                            I.report(t, "uninit", "comparison reads uninitialised bytes", (), sy)
            # literal bytes at the front decide, or are left out
            d, kx, ky, j = strip_literal(s2, kx, ky)
            if d:
                t = s2.fork()
                if t.store.add_ge(laddc(n, -j - 1)):
                    out.append(("ret", t, ("i", 32, lc((1 << 32) - 1 if d < 0 else 1))))
                if not s2.store.add_ge(laddc(lneg(n), j)):
                    continue
                out.append(("ret", s2, ("i", 32, ZERO)))
                continue
            if j:
                m = s2.store.norm(laddc(n, -j))
                if s2.store.entails_ge(m):
                    x, y, n1 = kx, ky, m
                    if kx == ky or s2.store.entails_eq(m):
                        out.append(("ret", s2, ("i", 32, ZERO)))
                        continue
                else:
                    kx, ky, n1 = x, y, n
                    kx = tuple((s2.store.norm(l), _in.ncontent(s2.store, c)) for l, c in x)
                    ky = tuple((s2.store.norm(l), _in.ncontent(s2.store, c)) for l, c in y)
            else:
                n1 = n
            n0, n = n, n1
            soft = any(is_soft(c) for _, c in x + y)
            nk, kx, ky, d = uncommon(s2, n, spelt(kx), spelt(ky))
            if d is not None:
                out.append(("ret", s2, ("i", 32, lc(d & 0xffffffff))))
                continue
            v = pred(I, s2, "cmp", (nk, kx, ky), 2, soft, find=True)
            sw = False
            if v is None:
                v = pred(I, s2, "cmp", (nk, ky, kx), 2, soft, find=True)
                sw = v is not None
            if v is None and isc(n) and n[0] == 1:
                bx, by = end_byte(I, s2, x, 0), end_byte(I, s2, y, 0)
                if bx is not None and by is not None:
                    d = s2.store.norm(lsub(bx, by))
                    for k, cs in ((0, [d, lneg(d)]), (1, [laddc(d, -1)]), ((1 << 32) - 1, [laddc(lneg(d), -1)])):
                        t = s2.fork()
                        if all(t.store.add_ge(q) for q in cs):
                            out.append(("ret", t, ("i", 32, lc(k))))
                    continue
            if v is None and isc(n) and n[0] <= 32:
                bs = byte_diffs(I, s2, x, y)
                if bs is not None and sum(1 for d in bs if not isc(d)) <= 3:
                    t = s2
                    for d in bs:
                        for k, cs in ((1, laddc(d, -1)), ((1 << 32) - 1, laddc(lneg(d), -1))):
                            u = t.fork()
                            if u.store.add_ge(cs):
                                out.append(("ret", u, ("i", 32, lc(k))))
                        if not t.store.add_eq(d):
                            break
                    else:
                        out.append(("ret", t, ("i", 32, ZERO)))
                    continue
            if v is None:
                v = pred(I, s2, "cmp", (nk, kx, ky), 2, soft)      # 0 equal, 1 less, 2 greater
            for s3, r in tri(I, s2, v):
                if sw:
                    r = {0: 0, 1: 2, 2: 1}[r]
                if r:
                    if not s3.store.add_ge(laddc(nk, -1)):
                        continue
                elif s3.store.entails_ge(laddc(n, -1)):
                    # equal texts have equal first and last characters
                    ok = True
                    for at in (0, -1):
                        bx, by = end_byte(I, s3, x, at), end_byte(I, s3, y, at)
                        ok = ok and (bx is None or by is None or s3.store.add_eq(lsub(bx, by)))
                    if not ok:
                        continue
                out.append(("ret", s3, ("i", 32, lc({0: 0, 1: (1 << 32) - 1, 2: 1}[r]))))
    return out


def byte_diffs(I, st, x, y):
    """differences of the bytes of two texts, where each byte is known or has a name"""
    vals = []
    for pcs in (x, y):
        vs = []
        for l, c in pcs:
            if l[1] or c[0] not in ("byt", "sca", "rep"):
                return None
            for j in range(l[0]):
                if c[0] == "byt":
                    vs.append(I.byte_val(st, c[1], st.store.norm(laddc(c[2], j)), 1))
                elif c[1] == 1 and c[2][0] in ("i", "o"):
                    vs.append(I.as_int(st, c[2], 8))
                elif c[0] == "sca" and c[2][0] == "i" and isc(st.store.norm(c[2][2])):
                    vs.append(lc((st.store.norm(c[2][2])[0] >> (8 * j)) & 255))
                else:
                    return None
        vals.append(vs)
    return [st.store.norm(lsub(p, q)) for p, q in zip(*vals)]


def end_byte(I, st, pcs, at):
    """the first (at = 0) or last (at = -1) byte of the pieces, when it is known to exist"""
    l, c = pcs[at]
    l = st.store.norm(l)
    if not st.store.entails_ge(laddc(l, -1)):
        return None
    if c[0] == "byt":
        return I.byte_val(st, c[1], c[2] if at == 0 else st.store.norm(laddc(ladd(c[2], l), -1)), 1)
    if c[0] in ("sca", "rep") and c[1] == 1 and c[2][0] in ("i", "o"):
        return I.as_int(st, c[2], 8)
    return None


def same_part(st, a, b):
    """structural equality of keys (tuples of linear forms, contents and constants) up to what the store entails"""
    if a == b:
        return True
    if type(a) is not tuple or type(b) is not tuple or len(a) != len(b):
        return False
    if is_lin(a) and is_lin(b):
        return st.store.entails_eq(lsub(a, b))
    return all(same_part(st, x, y) for x, y in zip(a, b))


def is_lin(a):
    return len(a) == 2 and type(a[0]) is int and type(a[1]) is tuple and all(type(t) is tuple and len(t) == 2 and type(t[0]) is int for t in a[1])


def pred(I, st, kind, key, hi, soft=False, find=False):
    """the value (a symbol in [0, hi]) of a pure function of the parts of key"""
    tab = st.memo.get("preds", ())
    for k, ks, v in tab:
        if k == kind and same_part(st, ks, key):
            return st.store.norm(ls(v))
    if find:
        return None
    lost = st.ghost.get("lost")
    if lost and arrays_of(key) & lost and not I.in_repo():
        st.exact = False        # the harness asks what a summarised loop of the code may have found out byte by byte
    g = ("pred", kind, key)
    v = _in.GMEMO.get(g)
    if v is None:
        v = Syms.new(kind, soft)
        _in.GMEMO[g] = v
    st.memo["preds"] = tab + ((kind, key, v),)
    if ((v, 1),) not in st.store.cons and v not in st.store.sub:
        st.store.cons[((v, 1),)] = 0
        st.store.cons[((v, -1),)] = hi
    return st.store.norm(ls(v))


def arrays_of(key):
    if type(key) is not tuple:
        return frozenset()
    if len(key) > 1 and key[0] == "byt":
        return frozenset((key[1],))
    return frozenset().union(*[arrays_of(x) for x in key])


def ckey(st, pcs):
    return spelt(tuple((st.store.norm(l), _in.ncontent(st.store, c)) for l, c in pcs))


def uncommon(st, n, x, y):
    """the texts without their common beginning and end -> (length, x, y, sign of the comparison when it is decided)"""
    x, y = list(x), list(y)
    while x and y:
        if x[0] == y[0]:
            n = st.store.norm(lsub(n, x[0][0]))
            del x[0], y[0]
        elif x[-1] == y[-1]:
            n = st.store.norm(lsub(n, x[-1][0]))
            del x[-1], y[-1]
        elif x[0][1][0] == y[0][1][0] == "lit":
            p, q = x[0][1][1], y[0][1][1]
            m = min(len(p), len(q))
            if p[:m] != q[:m]:
                return n, x, y, -1 if p[:m] < q[:m] else 1
            for z, t in ((x, p), (y, q)):
                z[:1] = [(lc(len(t) - m), ("lit", t[m:]))] if len(t) > m else []
            n = st.store.norm(laddc(n, -m))
        else:
            break
    return n, tuple(x), tuple(y), 0 if not x and not y else None


def spelt(pcs):
    """literal bytes by their values, wherever they are kept"""
    out = []
    for l, c in pcs:
        if isc(l) and 0 < l[0] <= 256:
            bs = [literal(None, ((l, c),), j) for j in range(l[0])]
            if None not in bs:
                if out and out[-1][1][0] == "lit":
                    bs = list(out.pop()[1][1]) + bs
                out.append((lc(len(bs)), ("lit", bytes(bs))))
                continue
        out.append((l, c))
    return tuple(out)


def tri(I, st, v):
    out = []
    for k in (0, 1, 2):
        t = st.fork()
        if t.store.add_eq(laddc(v, -k)):
            out.append((t, k))
    return out


@model("memchr")
def _memchr(I, st, a, i):
    n = st.store.norm(toL(I, st, a[2]))
    p = P(I, st, a[0])
    out = []
    for s, x in I.read(st, p, n, "memchr"):
        c = s.store.norm(I.mod(s, toL(I, s, a[1], 32), 256))
        if any(q[0] == "raw" for _, q in x) and any(y in Syms.soft for y, _ in s.store.norm(p[2])[1] + s.store.norm(n)[1]):
            s.exact = False         # an over-approximated range reaches bytes that were never written
        work = [(s, ZERO, 0)]
        while work:
            s, at, k = work.pop()
            if k == len(x):
                out.append(("ret", s, ("p", 0, ZERO)))
                continue
            l, q = s.store.norm(x[k][0]), _in.ncontent(s.store, x[k][1])
            for t, pos in chr_piece(I, s, l, q, c):
                if pos is None:
                    work.append((t, t.store.norm(ladd(at, l)), k + 1))
                else:
                    out.append(("ret", t, ("p", p[1], t.store.norm(ladd(ladd(p[2], at), pos)))))
    return out


def chr_piece(I, st, l, q, c):
    """where the first byte c is in a piece: [(state, position or None)]"""
    if st.store.entails_eq(l):
        return [(st, None)]
    if isc(c):
        if isc(l) and l[0] <= 64:
            j = 0
            while j < l[0]:
                b = literal(st, ((l, q),), j)
                if b is None:
                    break
                if b == c[0]:
                    return [(st, lc(j))]
                j += 1
            else:
                return [(st, None)]
        if q[0] in ("rep", "sca") and q[1] == 1 and q[2][0] == "i" and isc(st.store.norm(q[2][2])):
            if st.store.norm(q[2][2])[0] & 255 != c[0]:
                return [(st, None)]
            t = st.fork()
            out = [(t, None)] if t.store.add_eq(l) else []
            return out + ([(st, ZERO)] if st.store.add_ge(laddc(l, -1)) else [])
    key = (l, ckey(st, ((l, q),)), c)
    v = pred(I, st, "chr", key, 1 << 62, find=True)        # 0: absent, k + 1: first at k
    if isc(l) and l[0] == 1:
        b = end_byte(I, st, ((l, q),), 0)
        if b is not None:
            d = st.store.norm(lsub(b, c))
            out = []
            for k, cs in ((1, [d, lneg(d)]), (0, [laddc(d, -1)]), (0, [laddc(lneg(d), -1)])):
                t = st.fork()
                if all(t.store.add_ge(e) for e in cs) and (v is None or t.store.add_eq(laddc(v, -k))):
                    out.append((t, ZERO if k else None))
            return out
    if v is None and q[0] == "byt":
        # what is known of the same bytes from a search of a larger part
        for k, ks, w in st.memo.get("preds", ()):
            if k != "chr" or ks[2] != c or len(ks[1]) != 1 or ks[1][0][1][0] != "byt" or ks[1][0][1][1] != q[1]:
                continue
            o, m = ks[1][0][1][2], ks[0]
            if not (st.store.entails_ge(lsub(q[2], o)) and st.store.entails_ge(lsub(ladd(o, m), ladd(q[2], l)))):
                continue
            w = st.store.norm(ls(w))
            if st.store.entails_eq(w):
                return [(st, None)]
            at = lsub(laddc(ladd(o, w), -1), q[2])
            if st.store.entails_ge(laddc(w, -1)):
                if st.store.entails_ge(lsub(at, l)):
                    return [(st, None)]
                if st.store.entails_ge(at) and st.store.entails_ge(laddc(lsub(l, at), -1)):
                    return [(st, st.store.norm(at))]
    if v is None:
        v = pred(I, st, "chr", key, 1 << 62, is_soft(q))
        if q[0] == "byt":
            for o, s in I.bytesyms(q[1], 1):
                if (((s, 1),) in st.store.cons or s in st.store.sub) and st.store.entails_eq(lsub(ls(s), c)):
                    d = st.store.norm(lsub(o, q[2]))
                    if st.store.entails_ge(d) and st.store.entails_ge(laddc(lsub(l, d), -1)):
                        st.store.add_ge(laddc(v, -1))
                        st.store.add_ge(laddc(lsub(d, v), 1))
    out = []
    t = st.fork()
    if t.store.add_eq(v):
        out.append((t, None))
    if st.store.add_ge(laddc(v, -1)) and st.store.add_ge(lsub(l, v)):
        pos = st.store.norm(laddc(v, -1))
        if q[0] != "byt" or st.store.add_eq(lsub(I.byte_val(st, q[1], ladd(q[2], pos), 1), c)):
            out.append((st, pos))
    return out


@model("XXH3_64bits_withSeed", "XXH3_64bits", "XXH32", "XXH64")
def _xxh(I, st, a, i):
    n = st.store.norm(toL(I, st, a[1]))
    out = []
    for s, x in I.read(st, P(I, st, a[0]), n, "hash input"):
        w = i["ty"][1]
        k = (n, ckey(s, x)) + tuple(s.store.norm(toL(I, s, v, 64)) for v in a[2:])
        out.append(("ret", s, ("i", w, pred(I, s, "hash", k, (1 << w) - 1))))
    return out


@model("strlen", "__builtin_strlen")
def _strlen(I, st, a, i):
    p = P(I, st, a[0])
    if p[1] == 0:
        I.fail(st, "null", "strlen of a null pointer")
        return []
    key = ("cstr", p[1])
    off = st.store.norm(p[2])
    r = st.mem.get(p[1])
    if r is None or not r.alive:
        I.fail(st, "uaf", "strlen of released memory")
        return []
    if key in st.ghost:
        n = st.ghost[key]
        return ret(st, i64(lsub(n, off)))
    if r.kind == "input" and all(g[2][0] == "byt" and g[2][1] not in Arrays.known and ("nonul", g[2][1]) not in st.ghost for g in r.segs if not st.store.entails_ge(lsub(off, g[1]))):
        I.fail(st, "oob", "the end of the text is searched by a null character, but the caller's buffer need not contain one")
        return []
    # the text ends at its first null character: one state per segment it may lie in
    out = []
    cur = st
    for g in r.segs:
        if cur is None:
            break
        if cur.store.entails_ge(lsub(off, g[1])):
            continue
        c = g[2]
        lo = cur.store.norm(g[0]) if cur.store.entails_ge(lsub(g[0], off)) else off
        if lo is off and not cur.store.entails_ge(lsub(off, g[0])):
            out = None
            break
        if c[0] == "sca" and c[1] == 1 and c[2][0] == "i" and isc(cur.store.norm(c[2][2])):
            if cur.store.norm(c[2][2])[0] == 0:
                out += ret(cur, i64(lsub(lo, off)))
                cur = None
            continue
        if c[0] == "byt" and ("nonul", c[1]) in st.ghost:
            continue
        if c[0] == "rep" and c[1] == 1 and c[2][0] == "i" and isc(cur.store.norm(c[2][2])):
            if cur.store.norm(c[2][2])[0] == 0:
                out += ret(cur, i64(lsub(lo, off)))
                cur = None
            continue
        if c[0] == "byt" and c[1] in Arrays.known:
            d, at, end = Arrays.known[c[1]], cur.store.norm(ladd(lo, c[2])), cur.store.norm(ladd(g[1], c[2]))
            if isc(at) and isc(end):
                k = d.find(b"\0", at[0], end[0])
                if k >= 0:
                    out += ret(cur, i64(cur.store.norm(laddc(lsub(lo, off), k - at[0]))))
                    cur = None
                continue
        if c[0] == "byt" and c[1] not in Arrays.known and c[1] not in Arrays.soft:
            t = cur.fork()
            k = Syms.new("strlen")
            L = ls(k)
            if t.store.add_ge(lsub(ladd(off, L), lo)) and t.store.add_ge(laddc(lsub(g[1], ladd(off, L)), -1)) \
                    and t.store.add_eq(I.byte_val(t, c[1], ladd(ladd(off, L), c[2]), 1)):
                out += ret(t, i64(L))
            continue
        out = None
        break
    if out is not None and cur is None:
        return out
    # unknown contents: some length before the end of the region
    st.exact = False
    k = Syms.new("strlen", True)
    L = ls(k)
    if st.store.add_ge(L) and st.store.add_ge(laddc(lsub(lsub(r.size, off), L), -1)):
        return ret(st, i64(L))
    return []


# ------------------------------------------------------------------ exceptions / termination
def throw(I, st, ti):
    st.exc = ti
    return ("unw", st, None)


@model("__cxa_allocate_exception")
def _cae(I, st, a, i):
    r = I.new_region(st, "exc", toL(I, st, a[0]), "exception object")
    return ret(st, ("p", r.rid, ZERO))


@model("__cxa_free_exception", "__cxa_end_catch", "__cxa_guard_release", "__cxa_guard_abort")
def _nop(I, st, a, i):
    return ret(st)


@model("__cxa_throw")
def _throw(I, st, a, i):
    n = "?"
    v = a[1]
    for nm, rid in st.globs.items():
        if v[0] == "p" and v[1] == rid:
            n = nm
    return [throw(I, st, n)]


@model("__cxa_begin_catch")
def _bc(I, st, a, i):
    st.caught = st.caught + (st.exc,)
    return ret(st, a[0])


@model("__cxa_end_catch")
def _ec(I, st, a, i):
    st.caught = st.caught[:-1]
    return ret(st)


@model("__cxa_rethrow")
def _rethrow(I, st, a, i):
    return [throw(I, st, st.caught[-1] if st.caught else st.exc)]


@model("__cxa_guard_acquire")
def _ga(I, st, a, i):
    return ret(st, ("i", 32, ONE))


@model("__cxa_atexit", "__cxa_thread_atexit")
def _ax(I, st, a, i):
    return ret(st, ("i", 32, ZERO))


@model("__clang_call_terminate", "_ZSt9terminatev")
def _term(I, st, a, i):
    if I.o.get("allow_terminate"):
        return []
    I.fail(st, "terminate", "std::terminate is reached (%s)" % st.exc)
    return []


@model("abort", "exit", "_exit")
def _abort(I, st, a, i):
    I.fail(st, "abort", "abort is reached")
    return []


@model("__assert_fail")
def _assert(I, st, a, i):
    I.count("assert")
    msg = "assertion"
    p = a[0]
    if p[0] == "p":
        r = st.mem.get(p[1])
        if r:
            for g in r.segs:
                if g[2][0] == "byt" and g[2][1] in Arrays.known:
                    msg = Arrays.known[g[2][1]].rstrip(b"\0").decode("latin1")
    I.report(st, "assert", "assertion fails: " + msg)
    return []


EXC = {
    "std::__throw_bad_alloc": "_ZTISt9bad_alloc", "std::__throw_out_of_range": "_ZTISt12out_of_range",
    "std::__throw_out_of_range_fmt": "_ZTISt12out_of_range", "std::__throw_length_error": "_ZTISt12length_error",
    "std::__throw_logic_error": "_ZTISt11logic_error", "std::__throw_invalid_argument": "_ZTISt16invalid_argument",
    "std::__throw_bad_array_new_length": "_ZTISt20bad_array_new_length", "std::__throw_bad_function_call": "_ZTISt17bad_function_call",
    "std::__throw_bad_cast": "_ZTISt8bad_cast", "std::__throw_runtime_error": "_ZTISt13runtime_error",
}


@pattern(r"(std::__throw_\w+)\(")
def _std_throw(I, st, a, i, m):
    return [throw(I, st, EXC.get(m.group(1), "_ZTI" + m.group(1)))]


@pattern(r"std::(logic_error|out_of_range|length_error|invalid_argument|runtime_error|bad_alloc|exception|overflow_error)::")
def _exc_member(I, st, a, i, m):
    return ret(st, I.fresh(st, i["ty"], "exc") if i["ty"][0] != "v" else None)


# ------------------------------------------------------------------ llvm intrinsics
@model("llvm.assume", "llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg", "llvm.experimental.noalias.scope.decl", "llvm.donothing",
       "llvm.prefetch", "llvm.invariant.start", "llvm.stackrestore")
def _skip(I, st, a, i):
    return ret(st)


@model("llvm.expect")
def _expect(I, st, a, i):
    return ret(st, a[0])


@model("llvm.trap", "llvm.ubsantrap", "llvm.debugtrap")
def _trap(I, st, a, i):
    I.fail(st, "trap", "trap is reached")
    return []


@model("llvm.is.constant")
def _isconst(I, st, a, i):
    return ret(st, ("b", False))


@model("llvm.eh.typeid.for")
def _tid(I, st, a, i):
    v = a[0]
    for nm, rid in st.globs.items():
        if v[0] == "p" and v[1] == rid:
            return ret(st, ("i", 32, lc(I.tid(nm))))
    return ret(st, ("i", 32, lc(999)))


def _minmax(kind):
    def h(I, st, a, i):
        w = i["ty"][1]
        x, y = toL(I, st, a[0], w), toL(I, st, a[1], w)
        sx, sy = (I.sview(st, x, w), I.sview(st, y, w)) if kind[0] == "s" else (x, y)
        t, fa = I.decide(st, ("ge", lsub(sx, sy)))
        hi = kind.endswith("max")
        return [("ret", s, ("i", w, x if hi else y)) for s in t] + [("ret", s, ("i", w, y if hi else x)) for s in fa]
    return h


for _k in ("umax", "umin", "smax", "smin"):
    MODELS["llvm." + _k] = _minmax(_k)


@model("llvm.umul.with.overflow")
def _umulo(I, st, a, i):
    w = i["ty"][2][0][1][1]
    x, y = toL(I, st, a[0], w), toL(I, st, a[1], w)
    if isc(x):
        x, y = y, x
    if not isc(y):
        return ret(st, ("agg", (("i", w, I.sym(st, "mul", w, True)), ("b", I.nd(st, "ovf", True)))))
    p = lmul(x, y[0])
    out = []
    t, fa = I.decide(st, ("ge", lsub(lc((1 << w) - 1), p)))
    for s in t:
        out.append(("ret", s, ("agg", (("i", w, p), ("b", False)))))
    for s in fa:
        out.append(("ret", s, ("agg", (("i", w, I.sym(s, "mulwrap", w, True)), ("b", True)))))
    return out


@model("llvm.uadd.with.overflow")
def _uaddo(I, st, a, i):
    w = i["ty"][2][0][1][1]
    x, y = toL(I, st, a[0], w), toL(I, st, a[1], w)
    p = ladd(x, y)
    out = []
    t, fa = I.decide(st, ("ge", lsub(lc((1 << w) - 1), p)))
    for s in t:
        out.append(("ret", s, ("agg", (("i", w, p), ("b", False)))))
    for s in fa:
        out.append(("ret", s, ("agg", (("i", w, laddc(p, -(1 << w))), ("b", True)))))
    return out


@model("llvm.usub.with.overflow")
def _usubo(I, st, a, i):
    w = i["ty"][2][0][1][1]
    x, y = toL(I, st, a[0], w), toL(I, st, a[1], w)
    p = lsub(x, y)
    out = []
    t, fa = I.decide(st, ("ge", p))
    for s in t:
        out.append(("ret", s, ("agg", (("i", w, p), ("b", False)))))
    for s in fa:
        out.append(("ret", s, ("agg", (("i", w, laddc(p, (1 << w))), ("b", True)))))
    return out


@model("llvm.abs")
def _abs(I, st, a, i):
    w = i["ty"][1]
    s = I.sview(st, toL(I, st, a[0], w), w)
    t, fa = I.decide(st, ("ge", s))
    return [("ret", u, ("i", w, s)) for u in t] + [("ret", u, ("i", w, lneg(s))) for u in fa]


@model("llvm.ctlz", "llvm.cttz", "llvm.ctpop", "llvm.bswap", "llvm.fshl", "llvm.fshr", "llvm.fabs", "llvm.fmuladd", "llvm.floor", "llvm.ceil")
def _bits(I, st, a, i):
    return ret(st, I.fresh(st, i["ty"], "bits"))


@model("llvm.stacksave")
def _ss(I, st, a, i):
    return ret(st, ("p", 0, ZERO))


@model("llvm.objectsize")
def _os(I, st, a, i):
    return ret(st, i64(lc((1 << 64) - 1)))


@model("llvm.threadlocal.address")
def _tls(I, st, a, i):
    return ret(st, a[0])


# ------------------------------------------------------------------ tracked element classes
def live_read(I, st, p, n, cls, what):
    """read n bytes of live objects -> [(st, pieces)]"""
    out = []
    for s, pcs in I.read(st, p, n, what):
        ok = True
        I.count("life")
        for ln, c in pcs:
            if c[0] == "mov":
                I.report(s, "life", "%s uses a moved-from element" % what)
                ok = False
            elif c[0] not in ("obj", "orep"):
                I.report(s, "life", "%s uses storage that holds no live element" % what)
                ok = False
        if ok:
            out.append((s, pcs))
    return out


def construct(I, st, p, pcs, sz, what):
    out = []
    r = I.access(st, p, lc(sz), what)
    if not r:
        return []
    I.count("life")
    for s, old in I.read(st, p, lc(sz), what):
        for ln, c in old:
            if c[0] in ("obj", "orep", "mov"):
                I.report(s, "life", "%s over an element that was not destroyed%s" % (what, " (moved-from)" if c[0] == "mov" else ""))
        out.extend(I.write(s, p, lc(sz), pcs, what))
    return out


def ident(pcs):
    return pcs


@pattern(r"(VpObj|VpCpy|VpMov|VpBig)::\1\((.*)\)$")
def _ctor(I, st, a, i, m):
    cls = m.group(1)
    sz = _mem.CLS[cls]
    arg = m.group(2)
    this = P(I, st, a[0])
    if arg == "":
        key = ("dflt", cls)
        arr = _in.GMEMO.get(key)
        if arr is None:
            arr = Arrays.new("default " + cls)
            _in.GMEMO[key] = arr
        pcs = ((lc(sz), ("orep", cls, ("ov", arr, ZERO))),)
        return [("ret", s, None) for s in construct(I, st, this, pcs, sz, "default construction")]
    src = P(I, st, a[1])
    out = []
    if arg.endswith("const&"):
        for s, pcs in live_read(I, st, src, lc(sz), cls, "copy construction"):
            for s2 in construct(I, s, this, pcs, sz, "copy construction"):
                out.append(("ret", s2, None))
        if st.ghost.get("throwing"):
            t = st.fork()
            t.trace = t.trace + ("an element copy throws",)
            out.append(throw(I, t, "_ZTIi"))
        return out
    if arg.endswith("&&"):
        for s, pcs in live_read(I, st, src, lc(sz), cls, "move construction"):
            for s2 in construct(I, s, this, pcs, sz, "move construction"):
                for s3 in I.write(s2, src, lc(sz), ((lc(sz), ("mov", cls)),), "move"):
                    out.append(("ret", s3, None))
        return out
    # value constructor (int etc.): identity depends on the argument
    v = a[1]
    key = ("vctor", cls, _in.nv(st.store, v))
    arr = _in.GMEMO.get(key)
    if arr is None:
        arr = Arrays.new("%s(%s)" % (cls, arg))
        _in.GMEMO[key] = arr
    pcs = ((lc(sz), ("orep", cls, ("ov", arr, ZERO))),)
    return [("ret", s, None) for s in construct(I, st, this, pcs, sz, "construction")]


@pattern(r"(VpObj|VpCpy|VpMov|VpBig)::~\1\(\)$")
def _dtor(I, st, a, i, m):
    cls = m.group(1)
    sz = _mem.CLS[cls]
    this = P(I, st, a[0])
    out = []
    I.count("life")
    for s, pcs in I.read(st, this, lc(sz), "destructor"):
        ok = True
        for ln, c in pcs:
            if c[0] not in ("obj", "orep", "mov"):
                I.report(s, "life", "destructor runs on storage that holds no live element")
                ok = False
        if ok:
            out.extend(("ret", s2, None) for s2 in I.write(s, this, lc(sz), ((lc(sz), ("raw",)),), "destructor"))
    return out


@pattern(r"(VpObj|VpCpy|VpMov|VpBig)::operator=\((.*)\)$")
def _assign(I, st, a, i, m):
    cls = m.group(1)
    sz = _mem.CLS[cls]
    this = P(I, st, a[0])
    src = P(I, st, a[1])
    mv = m.group(2).endswith("&&")
    out = []
    for s, pcs in live_read(I, st, src, lc(sz), cls, "assignment"):
        for s2, old in I.read(s, this, lc(sz), "assignment"):
            ok = True
            for ln, c in old:
                if c[0] not in ("obj", "orep", "mov"):
                    I.report(s2, "life", "assignment to storage that holds no live element")
                    ok = False
            if not ok:
                continue
            if mv and not (this[1] == src[1] and s2.store.entails_eq(lsub(this[2], src[2]))):
                for s3 in I.write(s2, src, lc(sz), ((lc(sz), ("mov", cls)),), "move"):
                    for s4 in I.write(s3, this, lc(sz), pcs, "assignment"):
                        out.append(("ret", s4, a[0]))
            else:
                for s4 in I.write(s2, this, lc(sz), pcs, "assignment"):
                    out.append(("ret", s4, a[0]))
    return out


@pattern(r"operator(==|!=|<|>|<=|>=)\((VpObj|VpCpy|VpMov|VpBig) const&, \2 const&\)")
def _cmp(I, st, a, i, m):
    cls = m.group(2)
    sz = _mem.CLS[cls]
    out = []
    for s, x in live_read(I, st, P(I, st, a[0]), lc(sz), cls, "comparison"):
        for s2, y in live_read(I, s, P(I, s, a[1]), lc(sz), cls, "comparison"):
            kx, ky = oid(s2, x), oid(s2, y)
            out.append(("ret", s2, ("b", rel3(I, s2, m.group(1), kx, ky))))
    return out


def oid(st, pcs):
    ln, c = pcs[0]
    if c[0] == "obj":
        return (c[2], st.store.norm(c[3]))
    if c[0] == "orep" and c[2][0] == "ov":
        return (c[2][1], st.store.norm(c[2][2]))
    return ("?", repr(c))


def rel3(I, st, op, kx, ky):
    """total order on opaque identities: memo symbol in {0 eq, 1 lt, 2 gt}"""
    if kx == ky:
        return op in ("==", "<=", ">=")
    sw = repr(kx) > repr(ky)
    key = ("ocmp", ky, kx) if sw else ("ocmp", kx, ky)
    same = kx[0] == ky[0]
    if same and kx[0] != "?":
        d = lsub(kx[1], ky[1])
        if st.store.entails_eq(d):
            return op in ("==", "<=", ">=")
        same = not (st.store.entails_ge(laddc(d, -1)) or st.store.entails_ge(laddc(lneg(d), -1)))
    v = I.memo_sym(st, key, "order", 2, None, same or kx[0] in Arrays.soft or ky[0] in Arrays.soft)
    st.store.add_ge(lsub(lc(2), v), check=False)
    lt, gt = (2, 1) if sw else (1, 2)
    c = {"==": ("eq", v), "!=": ("ne", v), "<": ("eq", laddc(v, -lt)), ">": ("eq", laddc(v, -gt)),
         "<=": ("ne", laddc(v, -gt)), ">=": ("ne", laddc(v, -lt))}[op]
    return c


# ------------------------------------------------------------------ harness intrinsics
def cstring(I, st, v):
    if v[0] == "p":
        r = st.mem.get(v[1])
        if r:
            for g in r.segs:
                if g[2][0] == "byt" and g[2][1] in Arrays.known:
                    return Arrays.known[g[2][1]].rstrip(b"\0").decode("latin1")
    return "?"


@model("vp_size")
def _vpsize(I, st, a, i):
    lo, hi = toL(I, st, a[0]), toL(I, st, a[1])
    nm = cstring(I, st, a[2]) if len(a) > 2 else "n"
    s = Syms.new(nm)
    L = ls(s)
    if st.store.add_ge(lsub(L, lo)) and st.store.add_ge(lsub(hi, L)):
        return ret(st, i64(L))
    return []


@model("vp_char")
def _vpchar(I, st, a, i):
    return ret(st, ("i", 8, I.sym(st, "ch", 8)))


@model("vp_i32")
def _vpi32(I, st, a, i):
    return ret(st, ("i", 32, I.sym(st, "i32", 32)))


@model("vp_bool")
def _vpbool(I, st, a, i):
    return ret(st, ("b", I.nd(st, "choice")))


@model("vp_assume")
def _vpassume(I, st, a, i):
    return [("ret", s, None) for s in I.assume(st, I.tocond(st, a[0]), True)]


@model("vp_check")
def _vpcheck(I, st, a, i):
    msg = cstring(I, st, a[1])
    I.count("spec")
    if a[0][0] == "u":
        I.fail(st, "spec", msg + " :: value is uninitialised")
        return []
    c = I.tocond(st, a[0])
    sy = I.condsyms(st, c)
    t, fa = I.decide(st, c)
    for s in fa:
        if DBG: dump(I, s)
        I.report(s, "spec", msg, [], [y for y in sy if y in Syms.soft])
    return [("ret", s, None) for s in t]


def ncondlist(v):
    return []


@model("vp_witness")
def _vpwitness(I, st, a, i):
    """reads of the input array behind base tell its position relative to `at`"""
    p = P(I, st, a[0])
    arr = next(g[2] for g in st.mem[p[1]].segs if g[2][0] == "byt")
    w = st.store.norm(ladd(ladd(toL(I, st, a[1]), p[2]), arr[2]))
    st.ghost["wit"] = st.ghost.get("wit", ()) + ((arr[1], w),)
    return ret(st)


@model("vp_bytes")
def _vpbytes(I, st, a, i):
    n = toL(I, st, a[0])
    nm = cstring(I, st, a[1]) if len(a) > 1 else "in"
    arr = Arrays.new(nm)
    r = I.new_region(st, "input", n, "caller buffer " + nm, align=1)
    r2 = st.mem[r.rid].clone()
    r2.segs = ((ZERO, st.store.norm(n), ("byt", arr, ZERO)),)
    r2.ro = True
    st.mem[r.rid] = r2
    return ret(st, ("p", r.rid, ZERO))


@model("vp_wbytes")
def _vpwbytes(I, st, a, i):
    r = _vpbytes(I, st, a, i)
    p = r[0][2]
    r2 = st.mem[p[1]].clone()
    r2.ro = False
    st.mem[p[1]] = r2
    return r


@model("vp_cstr")
def _vpcstr(I, st, a, i):
    """NUL terminated caller string of length n (no NUL inside)"""
    n = toL(I, st, a[0])
    nm = cstring(I, st, a[1]) if len(a) > 1 else "cstr"
    arr = Arrays.new(nm)
    r = I.new_region(st, "input", laddc(n, 1), "caller string " + nm, align=1)
    r2 = st.mem[r.rid].clone()
    n = st.store.norm(n)
    r2.segs = ((ZERO, n, ("byt", arr, ZERO)), (n, laddc(n, 1), ("sca", 1, ("i", 8, ZERO))))
    r2.ro = True
    st.mem[r.rid] = r2
    st.ghost[("cstr", r.rid)] = n
    st.ghost[("nonul", arr)] = True
    return ret(st, ("p", r.rid, ZERO))


def _objs(cls):
    def h(I, st, a, i):
        n = toL(I, st, a[0])
        sz = _mem.CLS[cls]
        arr = Arrays.new("in" + cls)
        r = I.new_region(st, "input", st.store.norm(lmul(n, sz)), "caller objects", align=16)
        r2 = st.mem[r.rid].clone()
        r2.segs = ((ZERO, st.store.norm(lmul(n, sz)), ("obj", cls, arr, ZERO)),)
        st.mem[r.rid] = r2
        return ret(st, ("p", r.rid, ZERO))
    return h


for _c in ("VpObj", "VpCpy", "VpMov", "VpBig"):
    MODELS["vp_objs_" + _c] = _objs(_c)


@model("vp_snap")
def _vpsnap(I, st, a, i):
    slot = toL(I, st, a[0], 32)[0]
    n = toL(I, st, a[2])
    out = []
    p = P(I, st, a[1])
    for s, pcs in I.read(st, p, n, "snapshot"):
        r = I.new_region(s, "ghost", s.store.norm(n), "snapshot %d" % slot)
        r2 = s.mem[r.rid].clone()
        segs = []
        at = ZERO
        for pc in pcs:
            g = unrel(s.store, at, pc)
            segs.append(g)
            at = g[1]
        r2.segs = tuple(segs)
        s.mem[r.rid] = r2
        s.ghost[("snap", slot)] = r.rid
        out.append(("ret", s, None))
    return out


def same_pieces(I, st, x, y, msg):
    """compare two piece lists covering the same length; reports differences.  x,y: absolute segment lists starting at 0"""
    pass


@model("vp_same")
def _vpsame(I, st, a, i):
    """vp_same(ptr, n, slot, off, msg): [ptr,ptr+n) must equal snapshot[off, off+n)"""
    n = st.store.norm(toL(I, st, a[1]))
    slot = toL(I, st, a[2], 32)[0]
    off = toL(I, st, a[3])
    msg = cstring(I, st, a[4])
    I.count("content")
    rid = st.ghost.get(("snap", slot))
    if rid is None:
        raise Unsupported("vp_same without snapshot")
    out = []
    p = P(I, st, a[0])
    for s, x in I.read(st, p, n, "content check"):
        for s2, y in I.read(s, ("p", rid, off), n, "snapshot"):
            out.extend(cmp_pieces(I, s2, list(x), list(y), msg))
    return [("ret", s, None) for s in out]


@model("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l")
def _ostream_insert(I, st, a, i):
    n = st.store.norm(toL(I, st, a[2]))
    out = []
    for s, pcs in I.read(st, P(I, st, a[1]), n, "text written to a stream"):
        r = I.new_region(s, "ghost", s.store.norm(n), "stream output")
        r2 = s.mem[r.rid].clone()
        segs = []
        at = ZERO
        for pc in pcs:
            g = unrel(s.store, at, pc)
            segs.append(g)
            at = g[1]
        r2.segs = tuple(segs)
        s.mem[r.rid] = r2
        s.ghost["out"] = s.ghost.get("out", ()) + ((r.rid, s.store.norm(n)),)
        out.append(("ret", s, a[0]))
    return out


@model("vp_out_same")
def _voutsame(I, st, a, i):
    """what has been written to streams is exactly snapshot[off, off+n)"""
    msg = cstring(I, st, a[3])
    w = st.ghost.get("out", ())
    I.count("spec")
    if len(w) != 1:
        I.fail(st, "spec", "%s :: %d pieces written" % (msg, len(w)))
        return []
    n = st.store.norm(toL(I, st, a[0]))
    ok, bad = [], []
    for k, cs in ((1, [lsub(n, w[0][1]), lsub(w[0][1], n)]), (0, [laddc(lsub(n, w[0][1]), -1)]), (0, [laddc(lsub(w[0][1], n), -1)])):
        t = st.fork()
        if all(t.store.add_ge(q) for q in cs):
            (ok if k else bad).append(t)
    for t in bad:
        I.report(t, "spec", msg + " :: length differs")
    out = []
    for t in ok:
        out += _vpsame(I, t, [("p", w[0][0], ZERO), a[0], a[1], a[2], a[3]], i)
    return out


@model("vp_same_fill")
def _vpsamefill(I, st, a, i):
    """vp_same_fill(ptr, n, charvalue, msg)"""
    n = st.store.norm(toL(I, st, a[1]))
    msg = cstring(I, st, a[3])
    I.count("content")
    v = ("i", 8, toL(I, st, a[2], 8))
    out = []
    for s, x in I.read(st, P(I, st, a[0]), n, "content check"):
        out.extend(cmp_pieces(I, s, list(x), [(n, ("rep", 1, v, ZERO))], msg))
    return [("ret", s, None) for s in out]


@model("vp_same_obj")
def _vpsameobj(I, st, a, i):
    """vp_same_obj(ptr, bytes, srcptr, elemsize, msg): every element of [ptr,ptr+bytes) has the value of *srcptr"""
    n = st.store.norm(toL(I, st, a[1]))
    sz = toL(I, st, a[3])[0]
    msg = cstring(I, st, a[4])
    I.count("content")
    out = []
    for s, y in I.read(st, P(I, st, a[2]), lc(sz), "content check"):
        c = y[0][1]
        if len(y) != 1:
            raise Unsupported("vp_same_obj source")
        if c[0] == "obj":
            pc = ("orep", c[1], ("ov", c[2], c[3]))
        elif c[0] == "orep":
            pc = c
        elif c[0] == "byt":
            pc = ("rep", sz, ("i", 8 * sz, I.byte_val(s, c[1], c[2], sz)), ZERO)
        elif c[0] == "sca":
            pc = ("rep", sz, c[2], ZERO)
        else:
            raise Unsupported("vp_same_obj source " + c[0])
        for s2, x in I.read(s, P(I, s, a[0]), n, "content check"):
            out.extend(cmp_pieces(I, s2, list(x), [(n, pc)], msg))
    return [("ret", s, None) for s in out]


def cut(st, pc, d):
    """split a relative piece after d bytes"""
    n, c = pc
    g = unrel(st.store, ZERO, pc)
    a, b = split_content(st.store, g, d)
    return rel(st.store, a), rel(st.store, b)


def cmp_pieces(I, st, x, y, msg):
    """-> states in which the contents are equal; differences are reported"""
    work = [(st, x, y)]
    done = []
    while work:
        st, x, y = work.pop()
        # drop empty
        while x and st.store.norm(x[0][0]) == ZERO:
            x = x[1:]
        while y and st.store.norm(y[0][0]) == ZERO:
            y = y[1:]
        if not x or not y:
            done.append(st)
            continue
        (nx, cx), (ny, cy) = x[0], y[0]
        d = st.store.norm(lsub(nx, ny))
        if d == ZERO:
            r = eq_content(I, st, nx, cx, cy, msg)
            if r is not None:
                work.append((r, x[1:], y[1:]))
            continue
        t, fa = I.decide(st, ("ge", d))
        for s in t:       # nx >= ny
            if s.store.entails_eq(d):
                r = eq_content(I, s, ny, cx, cy, msg)
                if r is not None:
                    work.append((r, x[1:], y[1:]))
                continue
            a, b = cut(s, x[0], s.store.norm(ny))
            r = eq_content(I, s, ny, a[1], cy, msg)
            if r is not None:
                work.append((r, [b] + x[1:], y[1:]))
        for s in fa:
            a, b = cut(s, y[0], s.store.norm(nx))
            r = eq_content(I, s, nx, cx, a[1], msg)
            if r is not None:
                work.append((r, x[1:], [b] + y[1:]))
    return done


def piece_sym(I, st, n, c):
    """scalar view of a constant-length piece"""
    if isc(n) and n[0] in (1, 2, 4, 8):
        try:
            return I.pieces_int(st, [(n, c)], n[0])
        except Exception:
            return None
    return None


def eq_content(I, st, n, cx, cy, msg):
    """contents of length n (possibly zero) equal? returns state or None; reports when they can differ"""
    n = st.store.norm(n)
    a, b = within_word(st, n, _in.ncontent(st.store, cx)), within_word(st, n, _in.ncontent(st.store, cy))
    if a == b and a[0] not in ("raw", "mov"):
        return st

    def differ(extra, how):
        t = st.fork()
        ok = t.store.add_ge(laddc(n, -1))
        for L in extra:
            ok = ok and t.store.add_ge(L)
        if ok:
            I.report(t, "content", "%s :: %s" % (msg, how), [laddc(n, -1)] + list(extra))
            return True
        return False
    ka, kb = a[0], b[0]
    if is_soft(a) or is_soft(b):
        I.report(inexact(st), "content", "%s :: contents of a summarised filter" % msg)
        return st
    if "raw" in (ka, kb) or "mov" in (ka, kb):
        if differ([], "holds no defined value"):
            # continue only where the piece is empty
            return st if st.store.add_eq(n) else None
        return st
    if ka == "byt" and kb == "byt" and a[1] == b[1]:
        d = st.store.norm(lsub(a[2], b[2]))
        t = st.fork()
        bad = False
        if t.store.add_ge(laddc(n, -1)):
            for u in I.assume(t, ("ne", d), True):
                I.report(u, "content", "%s :: bytes come from a different position (%s instead of %s)" % (msg, show(a[2]), show(b[2])), [laddc(n, -1)])
                bad = True
        return st
    if ka == "obj" and kb == "obj" and a[2] == b[2]:
        d = st.store.norm(lsub(a[3], b[3]))
        t = st.fork()
        if t.store.add_ge(laddc(n, -1)):
            for u in I.assume(t, ("ne", d), True):
                I.report(u, "content", "%s :: element comes from a different position (%s instead of %s)" % (msg, show(a[3]), show(b[3])), [laddc(n, -1)])
        return st
    # single element obj against orep
    for p, q in ((a, b), (b, a)):
        if p[0] == "obj" and q[0] == "orep" and q[2][0] == "ov" and isc(n) and n[0] == _mem.CLS[p[1]]:
            if p[2] == q[2][1] and st.store.entails_eq(lsub(p[3], q[2][2])):
                return st
    if ka == "orep" and kb == "orep":
        if a[2][1] == b[2][1] and st.store.entails_eq(lsub(a[2][2], b[2][2])):
            return st
    va, vb = piece_sym(I, st, n, cx), piece_sym(I, st, n, cy)
    if va is not None and vb is not None and ka not in ("obj", "orep") and kb not in ("obj", "orep"):
        d = st.store.norm(lsub(va, vb))
        if isc(d) and d[0] == 0:
            return st
        t = st.fork()
        for u in I.assume(t, ("ne", d), True):
            I.report(u, "content", "%s :: value differs (%s instead of %s)" % (msg, show(va), show(vb)))
            break
        return st if st.store.add_eq(d) else None
    # the same byte repeated, described at different widths
    if ka == "rep" and kb == "rep" and a[1] != b[1] and byte_of(a) is not None and byte_of(a) == byte_of(b):
        return st
    # rep against rep with symbolic length
    if ka in ("rep",) and kb in ("rep",) and a[1] == b[1]:
        x, y = a[2], b[2]
        if x[0] == "i" and y[0] == "i":
            d = st.store.norm(lsub(x[2], y[2]))
            if d == ZERO:
                return st
            t = st.fork()
            if t.store.add_ge(laddc(n, -1)):
                for u in I.assume(t, ("ne", d), True):
                    I.report(u, "content", "%s :: value differs (%s instead of %s)" % (msg, show(x[2]), show(y[2])), [laddc(n, -1)])
                    break
            return st
    if differ([], "has other contents (%s instead of %s)" % (desc(a), desc(b))):
        return st
    return st


def within_word(st, n, c):
    """part of one word of a repeated word: bytes of the array the word was read from"""
    if c[0] == "rep" and c[1] > 1 and isc(n) and n[0] < c[1] and isc(c[3]) and c[2][0] == "i":
        L = st.store.norm(c[2][2])
        at = -c[3][0] % c[1]
        if L[0] == 0 and len(L[1]) == 1 and L[1][0][1] == 1 and at + n[0] <= c[1]:
            og = Syms.origin.get(L[1][0][0])
            if og is not None and og[2] == c[1]:
                return ("byt", og[0], st.store.norm(laddc(og[1], at)))
    return c


def is_soft(c):
    a = c[2] if c[0] == "obj" else c[1] if c[0] == "byt" else c[2][1] if c[0] == "orep" and c[2][0] == "ov" else None
    return a in Arrays.soft


def inexact(st):
    t = st.fork()
    t.exact = False
    return t


def byte_of(c):
    """the byte value when all bytes of a repeated constant agree"""
    if c[2][0] != "i" or not isc(c[2][2]):
        return None
    b = (c[2][2][0] % (1 << (8 * c[1]))).to_bytes(c[1], "little")
    return b[0] if len(set(b)) == 1 else None


def desc(c):
    if c[0] == "byt":
        return "%s[+%s]" % (Arrays.names[c[1]], show(c[2]))
    if c[0] == "obj":
        return "%s[+%s]" % (Arrays.names[c[2]], show(c[3]))
    if c[0] == "orep":
        return "copies of " + (Arrays.names[c[2][1]] if c[2][0] == "ov" else str(c[2]))
    if c[0] in ("rep", "sca"):
        return "%s of %s" % (c[0], show(c[2][2]) if c[2][0] in ("i", "p") else c[2][0])
    return c[0]


@model("vp_oom")
def _vpoom(I, st, a, i):
    t, fa = I.decide(st, I.tocond(st, a[0]))
    out = []
    for s in t:
        s.ghost["oom"] = True
        out.append(("ret", s, None))
    for s in fa:
        s.ghost.pop("oom", None)
        out.append(("ret", s, None))
    return out


@model("vp_throwing")
def _vpthrowing(I, st, a, i):
    t, fa = I.decide(st, I.tocond(st, a[0]))
    out = []
    for s in t:
        s.ghost["throwing"] = True
        out.append(("ret", s, None))
    for s in fa:
        s.ghost.pop("throwing", None)
        out.append(("ret", s, None))
    return out


@model("vp_reach")
def _vpreach(I, st, a, i):
    if not I.quiet:
        I.reached[cstring(I, st, a[0])] = I.reached.get(cstring(I, st, a[0]), 0) + 1
    return ret(st)


@model("vp_unroll")
def _vpunroll(I, st, a, i):
    """the loops behind this point end after a few iterations: go through them one by one"""
    I.unroll = toL(I, st, a[0], 64)[0]
    return ret(st)


@model("vp_heap_live")
def _vpheap(I, st, a, i):
    n = sum(1 for r in st.mem.values() if r.kind == "heap" and r.alive)
    return ret(st, i64(lc(n)))


@model("vp_forget_const")
def _vpforget(I, st, a, i):
    """make a caller buffer writable by the library (no-op otherwise)"""
    return ret(st)


@model("vp_dump")
def _vpdump(I, st, a, i):
    if not I.quiet:
        dump(I, st)
    return ret(st)


def dump(I, st):
    print("---- state exact=%s exc=%s" % (st.exact, st.exc))
    for rid, r in sorted(st.mem.items()):
        if r.kind == "global":
            continue
        print("  R%d %s %s size=%s alive=%s" % (rid, r.kind, r.what, show(st.store.norm(r.size)), r.alive))
        for g in r.segs:
            print("     [%s, %s) %s" % (show(st.store.norm(g[0])), show(st.store.norm(g[1])), sc(_in.ncontent(st.store, g[2]))))
    for t, c in st.store.cons.items():
        print("   ", show((c, t)), ">= 0")
    for s, e in st.store.sub.items():
        print("   ", Syms.names[s], ":=", show(e))


def sc(c):
    def f(x):
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
            return show(x)
        if isinstance(x, tuple):
            return "(" + " ".join(f(y) for y in x) + ")"
        return str(x)
    return f(c)


@model("vp_leakok")
def _vpleakok(I, st, a, i):
    st.ghost["leakok"] = True
    return ret(st)


@model("vp_off")
def _vpoff(I, st, a, i):
    p = P(I, st, a[0])
    if p[0] == "u" or p[1] == 0:
        I.fail(st, "null", "the pointer is null or uninitialised")
        return []
    return ret(st, i64(st.store.norm(p[2])))


@model("vp_rsize")
def _vprsize(I, st, a, i):
    p = P(I, st, a[0])
    if p[0] == "u" or p[1] == 0:
        I.fail(st, "null", "the pointer is null or uninitialised")
        return []
    return ret(st, i64(st.mem[p[1]].size))


@model("vp_rid")
def _vprid(I, st, a, i):
    p = P(I, st, a[0])
    return ret(st, i64(lc(p[1] if p[0] == "p" else 0)))


@model("_ZNSt3pmr15memory_resourceD2Ev", "_ZNSt3pmr15memory_resourceD1Ev")
def _mrdtor(I, st, a, i):
    return ret(st)


@model("__dynamic_cast")
def _dyncast(I, st, a, i):
    """decided for objects whose class is the one asked for, or has no relation to it"""
    out = []
    for s, vp in I.load(st, P(I, st, a[0]), 8, ["p"]):
        vp = P(I, s, vp)
        for s2, ti in I.load(s, ("p", vp[1], laddc(vp[2], -8)), 8, ["p"]):
            ti, dst = P(I, s2, ti), P(I, s2, a[2])
            if ti[0] != "p" or dst[0] != "p":
                raise Unsupported("dynamic_cast of an unknown class")
            if ti[1] == dst[1]:
                out.append(("ret", s2, a[0]))
            elif any(g[2][0] == "sca" and g[2][2][0] == "p" and g[2][2][1] == dst[1] for g in s2.mem[ti[1]].segs):
                raise Unsupported("dynamic_cast to a base class")
            else:
                out.append(("ret", s2, ("p", 0, ZERO)))
    return out


@model("_ZNSt3pmr20get_default_resourceEv", "_ZNSt3pmr19new_delete_resourceEv")
def _defres(I, st, a, i):
    rid = st.globs.get("default memory resource")
    if rid is None:
        r = I.new_region(st, "global", lc(8), "default memory resource")
        rid = st.globs["default memory resource"] = r.rid
    return ret(st, ("p", rid, ZERO))


# ------------------------------------------------------------------ clocks and locks
@model("_ZNSt6chrono3_V212steady_clock3nowEv")
def _now(I, st, a, i):
    """a point in time, none earlier than the one before"""
    L = I.sym(st, "now", 62)
    prev = st.ghost.get("now")
    if prev is not None and not st.store.add_ge(lsub(L, prev)):
        return []
    st.ghost["now"] = L
    return ret(st, ("i", 64, L))


@model("pthread_mutex_lock")
def _mlock(I, st, a, i):
    if st.ghost.get("locked"):
        I.report(st, "spec", "a mutex is locked while one is held")
    p = P(I, st, a[0])
    st.ghost["locked"] = (p[1], p[2])
    return ret(st, ("i", 32, ZERO))


@model("pthread_mutex_unlock")
def _munlock(I, st, a, i):
    p = P(I, st, a[0])
    if st.ghost.get("locked") != (p[1], p[2]):
        I.report(st, "spec", "a mutex is unlocked that is not locked")
    st.ghost["locked"] = False
    return ret(st, ("i", 32, ZERO))


@model("vp_locked")
def _vplocked(I, st, a, i):
    """is a mutex of the process held (and every time the same one)?"""
    k = st.ghost.get("locked")
    if not k:
        return ret(st, ("b", False))
    r = st.mem.get(k[0])
    g = next((I.m.globals[n] for n, rid in st.globs.items() if rid == k[0] and n in I.m.globals), {})
    if r is None or r.kind != "global" or g.get("tls"):
        return ret(st, ("b", False))
    return ret(st, ("b", st.ghost.setdefault("mutex", k) == k))


@model("vp_lastnow")
def _vplastnow(I, st, a, i):
    return ret(st, i64(st.ghost.get("now", ZERO)))


@model("vp_shared")
def _vpshared(I, st, a, i):
    """the n bytes at p belong to several threads from now on (n = 0: no longer)"""
    p = P(I, st, a[0])
    n = toL(I, st, a[1])
    if st.store.entails_eq(n):
        st.ghost.pop("shared", None)
    else:
        st.ghost["shared"] = (p[1], p[2], ladd(p[2], n))
    return ret(st)
