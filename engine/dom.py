"""Numeric domain: linear forms over integer symbols and a store of linear inequalities (a polyhedron).

A linear form is (c, ((sym, coef), ...)) with the terms sorted by symbol.  A Store keeps inequalities
`terms + c >= 0` plus a substitution for solved equalities; emptiness and entailment are decided by the exact
Fourier-Motzkin procedure in poly.cpp.
"""
import ctypes, os
from math import gcd

HERE = os.path.dirname(os.path.abspath(__file__))
_lib = None


def _load():
    global _lib
    if _lib is None:
        p = os.environ.get("VP_POLY") or os.path.join(HERE, "..", "build", "libpoly.so")
        _lib = ctypes.CDLL(p)
    return _lib


ZERO = (0, ())
ONE = (1, ())


def lc(c):
    return (c, ())


def ls(s):
    return (0, ((s, 1),))


def ladd(a, b):
    ta, tb = a[1], b[1]
    if not tb:
        return (a[0] + b[0], ta)
    if not ta:
        return (a[0] + b[0], tb)
    r = []
    i = j = 0
    la, lb = len(ta), len(tb)
    while i < la and j < lb:
        x, y = ta[i], tb[j]
        if x[0] < y[0]:
            r.append(x); i += 1
        elif x[0] > y[0]:
            r.append(y); j += 1
        else:
            k = x[1] + y[1]
            if k:
                r.append((x[0], k))
            i += 1; j += 1
    if i < la:
        r.extend(ta[i:])
    if j < lb:
        r.extend(tb[j:])
    return (a[0] + b[0], tuple(r))


def lneg(a):
    return (-a[0], tuple((s, -k) for s, k in a[1]))


def lsub(a, b):
    if not b[1]:
        return (a[0] - b[0], a[1])
    return ladd(a, lneg(b))


def lmul(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def laddc(a, c):
    return (a[0] + c, a[1])


def isc(a):
    return not a[1]


class Syms:
    """Global symbol table."""
    names = []
    soft = set()      # symbols that over-approximate (their value is not a free input)
    origin = {}       # sym -> (array id, offset Lin, width bytes): value read from an abstract array
    base = {}         # sym -> region id (address symbols)

    @classmethod
    def new(cls, name, soft=False):
        cls.names.append(name)
        i = len(cls.names) - 1
        if soft:
            cls.soft.add(i)
        return i

    @classmethod
    def reset(cls):
        cls.names = []
        cls.soft = set()
        cls.origin = {}
        cls.base = {}


def show(L):
    s = []
    for y, k in L[1]:
        n = Syms.names[y]
        s.append(n if k == 1 else ("-" + n if k == -1 else "%d*%s" % (k, n)))
    if L[0] or not s:
        s.append(str(L[0]) if abs(L[0]) < 2**40 else hex(L[0]))
    return " + ".join(s).replace("+ -", "- ")


STAT = {"lp": 0, "fast": 0, "cache": 0, "gaveup": 0, "lptime": 0.0}
_cache = {}
import time as _time


def lp(rows, want=False, maxrows=1500):
    """rows: iterable of Lin (>= 0).  Returns (code, model or None)."""
    key = None
    if not want:
        key = frozenset(rows)
        r = _cache.get(key)
        if r is not None:
            STAT["cache"] += 1
            return r, None
    _t0 = _time.time()
    STAT["lp"] += 1
    vs = {}
    ptr = [0]
    col = []
    cf = []
    cs = []
    M = (1 << 64) - 1
    for c, t in rows:
        for s, k in t:
            v = vs.setdefault(s, len(vs))
            col.append(v)
            cf.append(_s64(k & M)); cf.append(k >> 64)
        ptr.append(len(col))
        cs.append(_s64(c & M)); cs.append(c >> 64)
    n = len(vs)
    m = len(ptr) - 1
    lib = _load()
    I32, I64 = ctypes.c_int32, ctypes.c_int64
    model = (I64 * (2 * n + 2))()
    r = lib.poly_check(n, m, (I32 * len(ptr))(*ptr), (I32 * max(1, len(col)))(*col), (I64 * max(1, len(cf)))(*cf),
                       (I64 * max(1, len(cs)))(*cs), 1 if want else 0, model, maxrows)
    if r == 3:
        STAT["gaveup"] += 1
    STAT["lptime"] += _time.time() - _t0
    if key is not None:
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = r
        return r, None
    if r == 2:
        mod = {}
        for s, v in vs.items():
            lo = model[2 * v] & M
            mod[s] = (model[2 * v + 1] << 64) | lo
        return r, mod
    return r, None


def _s64(x):
    return x - (1 << 64) if x >= (1 << 63) else x


class Store:
    __slots__ = ("cons", "sub", "dead")

    def __init__(self):
        self.cons = {}
        self.sub = {}
        self.dead = False

    def copy(self):
        s = Store()
        s.cons = dict(self.cons)
        s.sub = self.sub
        s.dead = self.dead
        return s

    def norm(self, L):
        sub = self.sub
        if not sub:
            return L
        t = L[1]
        hit = False
        for s, _ in t:
            if s in sub:
                hit = True
                break
        if not hit:
            return L
        r = (L[0], tuple(x for x in t if x[0] not in sub))
        for s, k in t:
            if s in sub:
                r = ladd(r, lmul(sub[s], k))
        return r

    # --- queries -------------------------------------------------------
    def bounds(self, s):
        lo = self.cons.get(((s, 1),))
        hi = self.cons.get(((s, -1),))
        return (None if lo is None else -lo), hi

    def interval(self, L):
        lo = hi = L[0]
        for s, k in L[1]:
            a, b = self.bounds(s)
            if k < 0:
                a, b = b, a
            lo = None if (lo is None or a is None) else lo + k * a
            hi = None if (hi is None or b is None) else hi + k * b
            if lo is None and hi is None:
                break
        return lo, hi

    def slice(self, syms):
        """constraints transitively connected to syms"""
        by = {}
        for t in self.cons:
            for s, _ in t:
                by.setdefault(s, []).append(t)
        seen = set()
        out = []
        done = set()
        st = list(syms)
        while st:
            s = st.pop()
            if s in seen:
                continue
            seen.add(s)
            for t in by.get(s, ()):
                if t not in done:
                    done.add(t)
                    out.append((self.cons[t], t))
                    for y, _ in t:
                        if y not in seen:
                            st.append(y)
        return out

    def feasible_with(self, L):
        """may (store and L>=0) be non-empty?  L normalised"""
        if not L[1]:
            return L[0] >= 0
        c0 = self.cons.get(L[1])
        if c0 is not None and L[0] >= c0:
            return True
        neg = tuple((s, -k) for s, k in L[1])
        c1 = self.cons.get(neg)
        if c1 is not None and c1 + L[0] < 0:
            return False
        lo, hi = self.interval(L)
        if hi is not None and hi < 0:
            return False
        rows = self.slice([s for s, _ in L[1]])
        rows.append(L)
        r, _ = lp(rows)
        return r != 0

    def entails_ge(self, L):
        """L >= 0 in every point?"""
        L = self.norm(L)
        if not L[1]:
            return L[0] >= 0
        c0 = self.cons.get(L[1])
        if c0 is not None and L[0] >= c0:
            return True
        lo, hi = self.interval(L)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        return not self.feasible_with((-L[0] - 1, tuple((s, -k) for s, k in L[1])))

    def entails_eq(self, L):
        L = self.norm(L)
        if not L[1]:
            return L[0] == 0
        return self.entails_ge(L) and self.entails_ge(lneg(L))

    def sign(self, L):
        """'yes' if L>=0 always, 'no' if never, 'maybe'"""
        L = self.norm(L)
        if not L[1]:
            return "yes" if L[0] >= 0 else "no"
        if self.entails_ge(L):
            return "yes"
        if not self.feasible_with(L):
            return "no"
        return "maybe"

    # --- updates -------------------------------------------------------
    def add_ge(self, L, check=True):
        """assume L>=0; False when the store becomes empty"""
        if self.dead:
            return False
        L = self.norm(L)
        if not L[1]:
            if L[0] < 0:
                self.dead = True
                return False
            return True
        g = 0
        for _, k in L[1]:
            g = gcd(g, k)
        if g > 1:
            L = (L[0] // g, tuple((s, k // g) for s, k in L[1]))
        c0 = self.cons.get(L[1])
        if c0 is not None and c0 <= L[0]:
            return True
        if check and not self.feasible_with(L):
            self.dead = True
            return False
        neg = tuple((s, -k) for s, k in L[1])
        c1 = self.cons.get(neg)
        if c1 is not None and c1 == -L[0]:
            return self.add_eq(L, check=False)
        self.cons[L[1]] = L[0]
        return True

    def add_eq(self, L, check=True):
        if self.dead:
            return False
        L = self.norm(L)
        if not L[1]:
            if L[0] != 0:
                self.dead = True
                return False
            return True
        g = 0
        for _, k in L[1]:
            g = gcd(g, k)
        if L[0] % g:
            self.dead = True
            return False
        if g > 1:
            L = (L[0] // g, tuple((s, k // g) for s, k in L[1]))
        if check and (not self.feasible_with(L) or not self.feasible_with(lneg(L))):
            self.dead = True
            return False
        piv = None
        for s, k in L[1]:
            if abs(k) == 1 and s not in Syms.base:
                if piv is None or s > piv[0]:
                    piv = (s, k)
        if piv is None:
            # no unit coefficient: reparametrise  sum k_i s_i + c = 0  (two-variable case), else keep as two inequalities
            if len(L[1]) == 2:
                (s1, k1), (s2, k2) = L[1]
                # k1 s1 + k2 s2 = -c, gcd(k1,k2)=1 -> s1 = x0 + k2 t ; s2 = y0 - k1 t
                x0 = (-L[0] * pow(k1, -1, abs(k2))) % abs(k2)
                y0 = (-L[0] - k1 * x0) // k2
                t = Syms.new("t.%s" % Syms.names[s1], soft=(s1 in Syms.soft or s2 in Syms.soft))
                if s1 not in Syms.base and s2 not in Syms.base:
                    self._subst(s1, (x0, ((t, k2),)))
                    if self.dead: return False
                    self._subst(s2, (y0, ((t, -k1),)))
                    return not self.dead
            self.cons[L[1]] = L[0]
            self.cons[tuple((s, -k) for s, k in L[1])] = -L[0]
            return True
        s, k = piv
        rest = (L[0], tuple(x for x in L[1] if x[0] != s))
        e = lneg(rest) if k == 1 else rest
        self._subst(s, e)
        return not self.dead

    def _subst(self, s, e):
        sub = {}
        for y, f in self.sub.items():
            for z, k in f[1]:
                if z == s:
                    f = ladd((f[0], tuple(x for x in f[1] if x[0] != s)), lmul(e, k))
                    break
            sub[y] = f
        sub[s] = e
        self.sub = sub
        old = self.cons
        new = []
        keep = {}
        for t, c in old.items():
            hit = None
            for z, k in t:
                if z == s:
                    hit = k
                    break
            if hit is None:
                keep[t] = c
            else:
                new.append(ladd((c, tuple(x for x in t if x[0] != s)), lmul(e, hit)))
        self.cons = keep
        for L in new:
            if not self.add_ge(L, check=False):
                return

    def model(self, extra=(), syms=None):
        rows = [(c, t) for t, c in self.cons.items()] if syms is None else self.slice(syms)
        for L in extra:
            rows.append(self.norm(L))
        # symbols that only have bounds are given one right away
        tied = {s for _, t in rows if len(t) > 1 for s, _ in t}
        tied.update(s for L in extra for s, _ in self.norm(L)[1])
        free, rest = {}, []
        for c, t in rows:
            if len(t) == 1 and t[0][0] not in tied:
                s, k = t[0]
                lo, hi = free.get(s, (None, None))
                if k > 0:
                    b = -(c // k)
                    lo = b if lo is None else max(lo, b)
                else:
                    b = c // -k
                    hi = b if hi is None else min(hi, b)
                free[s] = (lo, hi)
            else:
                rest.append((c, t))
        mod = {}
        for s, (lo, hi) in free.items():
            if lo is not None and hi is not None and lo > hi:
                return 0, {}
            mod[s] = lo if lo is not None else min(hi, 0)
        if not rest:
            return 2, mod
        r, m = lp(rest, want=True, maxrows=6000)
        return (r, {**mod, **m}) if r == 2 else (r, m)
