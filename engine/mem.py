"""Memory domain: regions with symbolic sizes, each a list of segments with symbolic boundaries.

Segment content kinds (positions are absolute byte offsets in the region):
  ('raw',)                 bytes never written / object storage without a live object
  ('byt', arr, shift)      byte at offset o equals byte o+shift of the immutable abstract array arr
  ('sca', w, val)          exactly one scalar of w bytes
  ('scap', w, val, lo)     bytes lo.. of a w-byte scalar (seg length gives how many)
  ('rep', w, val, base)    the w-byte scalar val repeated with period w from absolute offset base
  ('obj', cls, arr, shift) live objects of class cls, value identity arr[o+shift]
  ('orep', cls, val)       live objects of class cls, all with the value identity val
  ('mov', cls)             moved-from (still live) objects of class cls
"""
from dom import *


class Region:
    __slots__ = ("rid", "kind", "size", "base", "alive", "segs", "align", "what", "ro", "elem")

    def __init__(self, rid, kind, size, base, segs, align=16, what="", ro=False):
        self.rid = rid; self.kind = kind; self.size = size; self.base = base
        self.alive = True; self.segs = segs; self.align = align; self.what = what; self.ro = ro
        self.elem = None

    def clone(self):
        r = Region(self.rid, self.kind, self.size, self.base, self.segs, self.align, self.what, self.ro)
        r.alive = self.alive
        r.elem = self.elem
        return r


class Arrays:
    """immutable abstract arrays; some have known bytes"""
    known = {}
    names = []
    soft = set()      # contents that are not determined by the inputs exactly (result of a summarised filter)

    @classmethod
    def new(cls, name, data=None):
        cls.names.append(name)
        i = len(cls.names) - 1
        if data is not None:
            cls.known[i] = data
        return i

    @classmethod
    def reset(cls):
        cls.known = {}
        cls.names = []
        cls.soft = set()


class Unsupported(Exception):
    pass


class Fork(Exception):
    pass


def split_content(store, seg, o):
    """split seg=(s,e,content) at o (s<=o<=e known).  returns two segments"""
    s, e, c = seg
    k = c[0]
    if k in ("raw", "byt", "obj", "orep", "mov"):
        return (s, o, c), (o, e, c)
    if k == "rep":
        return (s, o, c), (o, e, c)
    if k == "sca":
        d = store.norm(lsub(o, s))
        if d[1]:
            if c[1] == 1:
                return (s, o, c), (o, e, c)
            raise Unsupported("symbolic split of a scalar")
        if d[0] == 0 or d[0] == c[1]:
            return (s, o, c), (o, e, c)
        return (s, o, ("scap", c[1], c[2], 0)), (o, e, ("scap", c[1], c[2], d[0]))
    if k == "scap":
        d = store.norm(lsub(o, s))
        if d[1]:
            raise Unsupported("symbolic split of a partial scalar")
        return (s, o, ("scap", c[1], c[2], c[3])), (o, e, ("scap", c[1], c[2], c[3] + d[0]))
    raise Unsupported("split " + k)


def split_at(st, segs, o):
    """returns list of (st', segs', idx): segs' has a boundary at o, segs'[idx:] start at o.  May fork st."""
    return _cont(st, segs, 0, st.store.norm(o))


def _cont(st, segs, i, o):
    out = []
    cur = st
    n = len(segs)
    while True:
        if i == n:
            out.append((cur, segs, i))
            return out
        s, e, c = segs[i]
        if cur.store.norm(lsub(o, s)) == ZERO:
            out.append((cur, segs, i)); return out
        g = cur.store.sign(lsub(o, e))
        if g == "yes":
            i += 1; continue
        if g == "maybe" and cur.store.entails_ge(lsub(e, o)):
            g = "no"
        if g == "maybe":
            other = cur.fork()
            if other.store.add_ge(lsub(o, e)):
                out.extend(_cont(other, segs, i + 1, o))
            if not cur.store.add_ge(laddc(lsub(e, o), -1)):
                return out
        if cur.store.entails_ge(lsub(s, o)):
            out.append((cur, segs, i)); return out
        if c[0] in ("sca", "scap") and c[1] > 1 and cur.store.norm(lsub(o, s))[1]:
            # somewhere inside a scalar: one state per byte
            ln = cur.store.norm(lsub(e, s))
            if not isc(ln) or ln[0] > 16:
                raise Unsupported("symbolic split of a scalar")
            for k in range(ln[0] + 1):
                x = cur.fork()
                if not x.store.add_eq(laddc(lsub(o, s), -k)):
                    continue
                if k == 0 or k == ln[0]:
                    out.append((x, segs, i + (k > 0)))
                else:
                    a, b = split_content(x.store, segs[i], o)
                    out.append((x, segs[:i] + (a, b) + segs[i + 1:], i + 1))
            return out
        a, b = split_content(cur.store, segs[i], o)
        out.append((cur, segs[:i] + (a, b) + segs[i + 1:], i + 1))
        return out


def same_content(store, a, b):
    """can segments a and b (adjacent, a before b) be described by one content? returns content or None"""
    ca, cb = a[2], b[2]
    if ca[0] == cb[0] and ca[0] in ("raw",):
        return ca
    if ca[0] == "mov" and cb == ca:
        return ca
    if ca[0] == "byt" and cb[0] == "byt":
        if ca[1] != cb[1]:
            return None
        if store.norm(lsub(ca[2], cb[2])) == ZERO:
            return ca
        # the same source bytes written twice in a row: a repeated scalar
        la, lb = store.norm(lsub(a[1], a[0])), store.norm(lsub(b[1], b[0]))
        if la == lb and la in REPW and store.norm(lsub(ladd(a[0], ca[2]), ladd(b[0], cb[2]))) == ZERO:
            v = bytsym(store, ca[1], store.norm(ladd(a[0], ca[2])), la[0], True)
            if v is not None:
                return ("rep", la[0], v, a[0])
        return None
    if ca[0] == "rep" and cb[0] == "byt":
        lb = store.norm(lsub(b[1], b[0]))
        if lb == (ca[1], ()):
            v = bytsym(store, cb[1], store.norm(ladd(b[0], cb[2])), lb[0])
            if v is not None and v == ca[2]:
                return ca
        return None
    if ca[0] == "byt" and cb[0] == "rep":
        la = store.norm(lsub(a[1], a[0]))
        if la == (cb[1], ()):
            v = bytsym(store, ca[1], store.norm(ladd(a[0], ca[2])), la[0])
            if v is not None and v == cb[2]:
                return ("rep", cb[1], cb[2], a[0])
        return None
    if ca[0] in ("obj", "orep") and cb[0] in ("obj", "orep") and ca[1] == cb[1]:
        if ca[0] == "obj" and cb[0] == "obj" and ca[2] == cb[2] and store.norm(lsub(ca[3], cb[3])) == ZERO:
            return ca
        ia, ib = oident(store, a), oident(store, b)
        if ia is not None and ia == ib:
            return ("orep", ca[1], ia)
        return None
    if ca[0] == "orep" and cb[0] == "orep" and ca[1] == cb[1] and normval(store, ca[2]) == normval(store, cb[2]):
        return ca
    wa = scal(ca, a[0]); wb = scal(cb, b[0])
    if wa and wb and wa[0] == wb[0] and normval(store, wa[1]) == normval(store, wb[1]) and normval(store, wa[1])[0] == "i":
        # bases congruent?
        d = store.norm(lsub(wb[2], wa[2]))
        if all(k % wa[0] == 0 for _, k in d[1]) and d[0] % wa[0] == 0:
            if ca[0] == "sca" and cb[0] == "sca" and wa[0] > 1 and not merge_scalars:
                return None
            return ("rep", wa[0], wa[1], wa[2])
    if ca[0] == "scap" and cb[0] == "scap" and ca[1] == cb[1] and ca[2] == cb[2]:
        d = store.norm(lsub(b[0], a[0]))
        if not d[1] and ca[3] + d[0] == cb[3]:
            l = store.norm(lsub(b[1], a[0]))
            if not l[1] and ca[3] == 0 and l[0] == ca[1]:
                return ("sca", ca[1], ca[2])
            return ca
    return None


merge_scalars = True
CLS = {"VpObj": 24, "VpCpy": 24, "VpMov": 24, "VpBig": 80}


REPW = {(1, ()), (2, ()), (4, ()), (8, ())}


def bytsym(store, arr, off, w, make=False):
    import interp
    s = interp.GMEMO.get(("byt", arr, off, w))
    if s is None:
        if not make or arr in Arrays.known:
            return None
        s = Syms.new("%s[%s]" % (Arrays.names[arr], show(off)))
        interp.GMEMO[("byt", arr, off, w)] = s
        Syms.origin[s] = (arr, off, w)
    if make and ((s, 1),) not in store.cons and s not in store.sub:
        store.cons[((s, 1),)] = 0
        store.cons[((s, -1),)] = (1 << (8 * w)) - 1
    return ("i", 8 * w, store.norm(((0, ((s, 1),)))))


def oident(store, g):
    c = g[2]
    if c[0] == "orep":
        return normval(store, c[2])
    if store.norm(lsub(g[1], g[0])) == (CLS[c[1]], ()):
        return ("ov", c[2], store.norm(ladd(g[0], c[3])))
    return None


def scal(c, s):
    if c[0] == "sca":
        return (c[1], c[2], s)
    if c[0] == "rep":
        return (c[1], c[2], c[3])
    return None


def normval(store, v):
    if v[0] == "i":
        return ("i", v[1], store.norm(v[2]))
    if v[0] == "p":
        return ("p", v[1], store.norm(v[2]))
    if v[0] == "ov":
        return ("ov", v[1], store.norm(v[2]))
    return v


def coalesce(store, segs, heap):
    out = []
    for g in segs:
        if store.norm(lsub(g[1], g[0])) == ZERO:
            continue
        if out and heap:
            c = same_content(store, out[-1], g)
            if c is not None:
                out[-1] = (out[-1][0], g[1], c)
                continue
        elif out and g[2][0] in ("raw", "byt", "scap"):
            c = same_content(store, out[-1], g)
            if c is not None:
                out[-1] = (out[-1][0], g[1], c)
                continue
        out.append(g)
    return tuple(out)


def rel(store, seg):
    """content of seg relative to its own start: used to move it elsewhere"""
    s, e, c = seg
    k = c[0]
    n = store.norm(lsub(e, s))
    if k == "byt":
        return (n, ("byt", c[1], store.norm(ladd(c[2], s))))
    if k == "obj":
        return (n, ("obj", c[1], c[2], store.norm(ladd(c[3], s))))
    if k == "rep":
        d = store.norm(lsub(s, c[3]))
        return (n, ("rep", c[1], c[2], lneg(d)))   # base relative to start
    return (n, c)


def unrel(store, at, piece):
    n, c = piece
    k = c[0]
    e = store.norm(ladd(at, n))
    if k == "byt":
        return (at, e, ("byt", c[1], store.norm(lsub(c[2], at))))
    if k == "obj":
        return (at, e, ("obj", c[1], c[2], store.norm(lsub(c[3], at))))
    if k == "rep":
        return (at, e, ("rep", c[1], c[2], store.norm(ladd(c[3], at))))
    return (at, e, c)
