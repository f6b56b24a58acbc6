"""Forward abstract interpreter over the exported LLVM IR (context-sensitive, disjunctive polyhedra + segmented memory)."""
import json, sys, time, os
import heapq
from dom import *
from mem import *
import mem as _mem

sys.setrecursionlimit(20000)
M64 = 1 << 64


# ------------------------------------------------------------------ module
class Fn:
    pass


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d["files"]
        self.fns = {}
        self.globals = {g["name"]: g for g in d["globals"]}
        for f in d["functions"]:
            o = Fn()
            o.name = f["name"]; o.dem = f["dem"]; o.decl = f["decl"]; o.args = f["args"]; o.ret = f["ret"]
            o.noreturn = f.get("noreturn", False); o.nounwind = f.get("nounwind", False)
            o.file = f.get("file"); o.line = f.get("line")
            o.blocks = f.get("blocks", [])
            o.prep = False
            self.fns[o.name] = o

    def prepare(self, f):
        if f.prep:
            return
        f.prep = True
        narrow_compares(f)
        n = len(f.blocks)
        succ = []
        for b in f.blocks:
            t = b[-1]
            op = t["op"]
            if op == "br":
                s = t["succ"]
            elif op == "switch":
                s = [t["default"]] + [c[1] for c in t["cases"]]
            elif op == "invoke":
                s = [t["normal"], t["unwind"]]
            else:
                s = []
            succ.append(list(dict.fromkeys(s)))
        f.succ = succ
        # rpo
        seen = [False] * n
        order = []
        st = [(0, iter(succ[0]))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        f.rpo = {b: i for i, b in enumerate(order)}
        pred = [[] for _ in range(n)]
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        dom = {order[0]: {order[0]}}
        allb = set(order)
        for b in order[1:]:
            dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in pred[b]]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        f.loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = f.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(pred[x])
        # liveness (block live-in), phis counted at pred edge -> treat as live-in of the block for simplicity
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        body_use = [set() for _ in range(n)]

        def locs(v, acc):
            if v and v[0] == "l":
                acc.add(v[1])
        for b in range(n):
            for i in f.blocks[b]:
                acc = set()
                if i["op"] == "phi":
                    for p, v in i["in"]:
                        locs(v, acc)
                    # phi operands are live out of preds; approximate: live-in here
                    use[b] |= acc - de[b]
                    de[b].add(i["id"])
                    continue
                for key in ("ops", "args"):
                    for v in i.get(key, ()):
                        locs(v, acc)
                for key in ("cond", "base", "callee", "n"):
                    if key in i:
                        locs(i[key], acc)
                for v in i.get("var", ()):
                    locs(v[0], acc)
                use[b] |= acc - de[b]
                body_use[b] |= acc - de[b]
                de[b].add(i["id"])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in succ[b]:
                    o |= live[s]
                l = use[b] | (o - de[b])
                if l != live[b]:
                    live[b] = l
                    ch = True
        # what is live once the phis of the block have been evaluated
        f.live = []
        for b in range(n):
            o = set()
            for s in succ[b]:
                o |= live[s]
            phi = {i["id"] for i in f.blocks[b] if i["op"] == "phi"}
            own = {i["id"] for i in f.blocks[b]} - phi
            f.live.append(body_use[b] | (o - own) | phi)


def narrow_compares(f):
    """compare widened integers in their own width; drop conversions that become unused"""
    df = {}
    for b in f.blocks:
        for i in b:
            if i["op"] in ("sext", "zext") and i.get("oty", ("",))[0] == "i" and i["ty"][0] == "i":
                df[i["id"]] = i
    if not df:
        return
    hit = set()
    for b in f.blocks:
        for i in b:
            if i["op"] != "icmp" or i["oty"][0] != "i":
                continue
            d = [df.get(o[1]) if o[0] == "l" else None for o in i["ops"]]
            if d[0] is None or d[1] is None or d[0]["op"] != d[1]["op"] or d[0]["oty"] != d[1]["oty"] or d[0]["oty"][1] == 1:
                continue
            hit |= {d[0]["id"], d[1]["id"]}
            i["ops"] = [d[0]["ops"][0], d[1]["ops"][0]]
            i["oty"] = d[0]["oty"]
            if d[0]["op"] == "zext" and i["pred"][0] == "s":
                i["pred"] = "u" + i["pred"][1:]
    if not hit:
        return
    used = set()

    def walk(x):
        if type(x) in (list, tuple):
            if len(x) == 2 and x[0] == "l":
                used.add(x[1])
            for y in x:
                walk(y)
        elif type(x) is dict:
            for y in x.values():
                walk(y)
    for b in f.blocks:
        for i in b:
            walk({k: v for k, v in i.items() if k not in ("loc", "ty", "oty")})
    f.blocks = [[i for i in b if i["id"] not in hit or i["id"] in used] for b in f.blocks]


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("store", "mem", "exact", "exc", "trace", "ghost", "globs", "memo", "caught", "ord")

    def __init__(self):
        self.store = Store()
        self.mem = {}
        self.exact = True
        self.exc = None
        self.trace = ()
        self.ghost = {}
        self.globs = {}
        self.memo = {}
        self.caught = ()
        self.ord = frozenset()    # (a, b): region a lies before region b

    def fork(self):
        s = State()
        s.store = self.store.copy()
        s.mem = dict(self.mem)
        s.exact = self.exact
        s.exc = self.exc
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        s.globs = dict(self.globs)
        s.memo = dict(self.memo)
        s.caught = self.caught
        s.ord = self.ord
        return s


class Kill(Exception):
    pass


class Budget(Exception):
    pass


I1 = lambda c: ("b", c)


def cint(w, n):
    return ("i", w, (n % (1 << w), ()))


class Interp:
    def __init__(self, module, opts=None):
        self.m = module
        self.o = opts or {}
        self.viol = {}
        self.undec = {}
        self.unmod = {}
        self.obl = {}
        self.stack = []
        self.quiet = 0
        self.unroll = 0
        self.steps = 0
        self.nstates = 0
        self.fnseen = set()
        self.rid = 0
        self.tinfo = {}
        self.deadline = None
        self.maxstack = 90
        self.models = {}
        self.loopinfo = {}
        self.incomplete = set()
        self.cur = None
        self.capture = None
        self.cmpcap = None
        self.case = ""
        self.reached = {}
        import models
        models.install(self)

    # ---- reporting ---------------------------------------------------
    def where(self):
        """innermost location inside the repository, plus the call chain"""
        chain = []
        if self.cur is not None and self.cur.get("loc"):
            l = self.cur["loc"]
            for j in range(0, len(l), 3):
                chain.append((self.m.files[l[j]], l[j + 1], l[j + 2]))
        for ins in reversed(self.stack):
            l = ins.get("loc") if ins else None
            if l:
                for j in range(0, len(l), 3):
                    chain.append((self.m.files[l[j]], l[j + 1], l[j + 2]))
        return chain

    def anchor(self, chain):
        repo = self.o.get("repo", "/repo")
        for f, l, fn in chain:
            p = os.path.abspath(f) if os.path.isabs(f) else os.path.normpath(os.path.join(repo, f))
            if p.startswith(repo + "/"):
                return (p[len(repo) + 1:], l, fn)
        return chain[0] if chain else ("?", 0, "?")

    def in_repo(self):
        repo = self.o.get("repo", "/repo")
        return any(not f.startswith("harness/") and os.path.normpath(os.path.join(repo, f)).startswith(repo + "/") for f, _, _ in self.where())

    def count(self, kind, n=1):
        if not self.quiet:
            self.obl[kind] = self.obl.get(kind, 0) + n

    def report(self, st, kind, msg, extra=(), syms=()):
        """the obligation's negation `extra` is satisfiable in st"""
        if self.quiet:
            return
        chain = self.where()
        a = self.anchor(chain)
        ss = set(syms)
        for L in extra:
            for s, _ in st.store.norm(L)[1]:
                ss.add(s)
        sl = st.store.slice(ss)
        for _, t in sl:
            for s, _k in t:
                ss.add(s)
        soft = [s for s in ss if s in Syms.soft]
        lost = st.ghost.get("lost")
        if lost:
            soft += [s for s in ss if s in Syms.origin and Syms.origin[s][0] in lost]
            # what the path has asked about such an array no longer constrains what became of it
            for t in list(st.store.cons) + [((s, 1), (0, 1)) for s in st.store.sub]:
                if len(t) > 1:
                    soft += [s for s, _ in t if s in Syms.origin and Syms.origin[s][0] in lost]
        r, mod = self.amodel(st, extra, ss)
        if r == 0:
            return                        # only possible if one array cell held two values
        key = (kind, a[0], a[1], msg.split(" :: ")[0])
        ent = {"kind": kind, "file": a[0], "line": a[1], "func": a[2], "msg": msg,
               "chain": ["%s:%d %s" % (os.path.relpath(x[0], self.o.get("repo", "/repo")) if os.path.isabs(x[0]) else x[0], x[1], x[2]) for x in chain[:12]],
               "case": self.case}
        if st.exact and not soft and r == 2 and "hsoft" not in st.ghost:
            ent["model"] = {Syms.names[k]: v for k, v in sorted(mod.items()) if k in ss or len(mod) < 12}
            ent["cond"] = [show(st.store.norm(L)) for L in extra]
            ent["trace"] = list(st.trace)[-14:]
            if key not in self.viol:
                self.viol[key] = ent
        else:
            ent["why"] = "inexact" if not st.exact else "soft decision" if "hsoft" in st.ghost else ("soft " + ",".join(Syms.names[s] for s in soft[:4]) if soft else "no integer model (%d)" % r)
            if key not in self.undec:
                self.undec[key] = ent

    def amodel(self, st, extra, ss):
        """a model of st and extra in which equal cells of an input array have equal values: (0 none, 2 found, else unknown)"""
        by = {}
        for s in ss | set(y for t in st.store.cons for y, _ in t) | set(st.store.sub):
            og = Syms.origin.get(s)
            if og is not None:
                by.setdefault((og[0], og[2]), []).append(s)
        by = {k: sorted(v) for k, v in by.items() if len(v) > 1}
        work = [list(extra)]
        n = 0
        while work:
            ex = work.pop()
            n += 1
            if n > 24:
                return 3, {}
            r, mod = st.store.model(ex)
            if r == 0:
                continue
            if r != 2 or not by:
                return r, mod

            def ev(L):
                L = st.store.norm(L)
                return L[0] + sum(k * mod.get(y, 0) for y, k in L[1])
            bad = None
            for v in by.values():
                seen = {}
                for s in v:
                    o = ev(Syms.origin[s][1])
                    x = ev(ls(s))
                    if o in seen and seen[o][1] != x:
                        bad = (seen[o][0], s)
                        break
                    seen.setdefault(o, (s, x))
                if bad:
                    break
            if not bad:
                return 2, mod
            p, q = bad
            d = lsub(Syms.origin[p][1], Syms.origin[q][1])
            e = lsub(ls(p), ls(q))
            work.append(ex + [laddc(d, -1)])
            work.append(ex + [laddc(lneg(d), -1)])
            work.append(ex + [d, lneg(d), e, lneg(e)])
        return 0, {}

    def oblige(self, st, L, kind, msg):
        """obligation L>=0. returns False when the state dies"""
        self.count(kind)
        if st.store.entails_ge(L):
            return True
        neg = laddc(lneg(L), -1)
        t = st.fork()
        if t.store.add_ge(neg):
            self.report(t, kind, msg, [neg])
        return st.store.add_ge(L)

    def end_of_case(self, st):
        """everything the library allocated must have been given back"""
        self.cur = None
        self.count("leak")
        if st.ghost.get("leakok"):
            return
        for rid, r in st.mem.items():
            if r.kind == "heap" and r.alive:
                self.report(st, "leak", "never released: " + r.what)

    def fail(self, st, kind, msg):
        self.count(kind)
        self.report(st, kind, msg)

    # ---- conditions ---------------------------------------------------
    def condsyms(self, st, c):
        if c is True or c is False:
            return []
        if c[0] in ("not", "and", "or"):
            return [y for x in c[1:] for y in self.condsyms(st, x)]
        return [y for L in c[1:] if type(L) is tuple and len(L) == 2 and type(L[1]) is tuple for y, _ in st.store.norm(L)[1]]

    def softcond(self, st, c):
        return any(y in Syms.soft for y in self.condsyms(st, c))

    def assume(self, st, c, truth):
        """list of states in which condition c has the given truth (st is consumed)"""
        if c is True or c is False:
            return [st] if c == truth else []
        k = c[0]
        if k == "not":
            return self.assume(st, c[1], not truth)
        if k == "and" or k == "or":
            if (k == "and") == truth:
                r = []
                for s in self.assume(st, c[1], truth):
                    r.extend(self.assume(s, c[2], truth))
                return r
            # disjunction: c1 fails, or c1 holds and c2 fails
            t = st.fork()
            r = self.assume(st, c[1], truth)
            for s in self.assume(t, c[1], not truth):
                r.extend(self.assume(s, c[2], truth))
            return r
        if k == "ge":
            L = c[1] if truth else laddc(lneg(c[1]), -1)
            return [st] if st.store.add_ge(L) else []
        if k == "ne":
            return self.assume(st, ("eq", c[1]), not truth)
        if k == "ord":
            a, b = (c[1], c[2]) if truth else (c[2], c[1])
            if (a, b) in st.ord:
                return [st]
            if (b, a) in st.ord:
                return []
            o = set(st.ord)
            lo = [a] + [x for x, y in o if y == a]
            hi = [b] + [y for x, y in o if x == b]
            o.update((x, y) for x in lo for y in hi)
            st.ord = frozenset(o)
            return [st]
        if k == "eq":
            L = st.store.norm(c[1])
            if truth:
                return [st] if st.store.add_eq(L) else []
            if isc(L):
                return [st] if L[0] != 0 else []
            ge = st.store.sign(L)
            if ge == "yes":
                return [st] if st.store.add_ge(laddc(L, -1)) else []
            if ge == "no":
                return [st]
            le = st.store.sign(lneg(L))
            if le == "yes":
                return [st] if st.store.add_ge(laddc(lneg(L), -1)) else []
            # content symbols: do not fork on a disequality between opaque values
            if le == "no":
                return [st]
            t = st.fork()
            r = []
            if st.store.add_ge(laddc(L, -1)):
                r.append(st)
            if t.store.add_ge(laddc(lneg(L), -1)):
                r.append(t)
            return r
        raise Unsupported("cond " + str(k))

    def decide(self, st, c):
        """-> (states where true, states where false)"""
        if c is True:
            return [st], []
        if c is False:
            return [], [st]
        if c[0] == "ge":
            g = st.store.sign(c[1])
            if g == "yes":
                return [st], []
            if g == "no":
                return [], [st]
        t = st.fork()
        return self.assume(st, c, True), self.assume(t, c, False)

    # ---- values -------------------------------------------------------
    def sym(self, st, name, w, soft=False):
        s = Syms.new(name, soft)
        st.store.cons[((s, 1),)] = 0
        st.store.cons[((s, -1),)] = (1 << w) - 1
        return ls(s)

    def nd(self, st, name, soft=False):
        s = Syms.new(name, soft)
        st.store.cons[((s, 1),)] = 0
        st.store.cons[((s, -1),)] = 1
        return ("ge", (-1, ((s, 1),)))

    def fresh(self, st, ty, name, soft=True):
        k = ty[0]
        if k == "i":
            if ty[1] == 1:
                return I1(self.nd(st, name, soft))
            return ("i", ty[1], self.sym(st, name, ty[1], soft))
        if k == "p":
            r = self.new_region(st, "unknown", self.sym(st, name + ".size", 60, True), name)
            return ("p", r.rid, ZERO)
        if k == "f":
            return ("f", Syms.new(name, True))
        if k == "s":
            return ("agg", tuple(self.fresh(st, t[1], name, soft) for t in ty[2]))
        if k == "v":
            return None
        return ("u",)

    def new_region(self, st, kind, size, what, content=("raw",), align=16, ro=False):
        self.rid += 1
        rid = self.rid
        b = Syms.new("addr(%s#%d)" % (what, rid))
        Syms.base[b] = rid
        t = Syms.new("at.%d" % rid)
        # base = align * t ; keep base itself as the symbol, alignment is recorded in the region
        segs = ((ZERO, size, content),)
        if isc(size) and size[0] == 0:
            segs = ()
        r = Region(rid, kind, size, b, segs, align, what, ro)
        st.mem[rid] = r
        # address range: base >= 4096, base+size < 2^47
        st.store.cons[((b, 1),)] = -4096
        st.store.add_ge(lsub((1 << 47, ()), ladd(ls(b), size)), check=False)
        return r

    def addr(self, st, v):
        """numeric address Lin of a pointer value"""
        if v[1] == 0:
            return v[2]
        r = st.mem.get(v[1])
        if r is None:
            raise Unsupported("address of dropped region")
        return ladd(self.basel(st, r), v[2])

    def basel(self, st, r):
        """base address as align * t"""
        s = r.base
        if s in st.store.sub:
            return st.store.sub[s]
        return ls(s)

    def as_int(self, st, v, w):
        """value as unsigned Lin"""
        k = v[0]
        if k == "i":
            return st.store.norm(v[2])
        if k == "b":
            raise Fork()
        if k == "p":
            return st.store.norm(self.addr(st, v))
        if k == "o":
            return self.pieces_int(st, v[2], v[1])
        if k == "ov":
            key = ("ov", v[1], st.store.norm(v[2]), w)
            return self.memo_sym(st, key, "objval", w, (v[1], v[2], w // 8), v[1] in Arrays.soft)
        if k == "F":
            return self.memo_sym(st, ("F", v[1]), "fn", 47)
        if k == "f":
            return self.memo_sym(st, ("f", v[1]), "flt", w, None, True)
        if k == "u":
            return self.sym(st, "undef", w, True)
        raise Unsupported("int of " + k)

    def memo_sym(self, st, key, name, w, origin=None, soft=False):
        s = GMEMO.get(key)
        if s is None:
            s = Syms.new(name, soft)
            GMEMO[key] = s
            if origin is not None:
                Syms.origin[s] = origin
        if ((s, 1),) not in st.store.cons and s not in st.store.sub:
            st.store.cons[((s, 1),)] = 0
            st.store.cons[((s, -1),)] = (1 << w) - 1
        return st.store.norm(ls(s))

    def pieces_int(self, st, pieces, n):
        """little-endian integer made of pieces"""
        tot = ZERO
        pos = 0
        for ln, c in pieces:
            if ln[1]:
                raise Unsupported("symbolic piece")
            k = c[0]
            l = ln[0]
            if k == "raw":
                v = self.sym(st, "raw", 8 * l, True)
            elif k == "byt":
                v = self.byte_val(st, c[1], c[2], l)
            elif k == "sca":
                v = self.as_int(st, c[2], 8 * c[1]) if c[2][0] != "b" else self.sym(st, "b", 1, True)
            elif k == "scap":
                x = self.as_int(st, c[2], 8 * c[1])
                x = self.bits(st, x, 8 * c[1], 8 * c[3], 8 * l)
                v = x
            elif k == "rep":
                w, val = c[1], c[2]
                if w == 1:
                    b = self.as_int(st, val, 8)
                    v = lmul(b, sum(256 ** i for i in range(l)))
                else:
                    b = self.as_int(st, val, 8 * w)
                    d = st.store.norm(c[3])
                    if l % w == 0 and all(k2 % w == 0 for _, k2 in d[1]) and d[0] % w == 0:
                        v = lmul(b, sum((1 << (8 * w)) ** i for i in range(l // w)))
                    else:
                        v = self.sym(st, "reppart", 8 * l, True)
            else:
                v = self.sym(st, k, 8 * l, True)
            tot = ladd(tot, lmul(v, 1 << (8 * pos)))
            pos += l
        return st.store.norm(tot)

    def byte_val(self, st, arr, off, l):
        off = st.store.norm(off)
        kn = Arrays.known.get(arr)
        if kn is not None and isc(off) and 0 <= off[0] and off[0] + l <= len(kn):
            return lc(int.from_bytes(kn[off[0]:off[0] + l], "little"))
        key = ("byt", arr, off, l)
        k0 = GMEMO.get(key)
        if k0 is None or k0 and ((k0, 1),) not in st.store.cons and k0 not in st.store.sub:
            # the same place may have been named by another expression before
            for o, s in self.bytesyms(arr, l):
                if st.store.norm(o) == off and (((s, 1),) in st.store.cons or s in st.store.sub):
                    return st.store.norm(ls(s))
        v = self.memo_sym(st, key, "%s[%s]" % (Arrays.names[arr], show(off)), 8 * l, (arr, off, l), arr in Arrays.soft)
        if l == 1 and ("nonul", arr) in st.ghost:
            st.store.add_ge(laddc(v, -1))
        return v

    def bytesyms(self, arr, l):
        return [(k[2], s) for k, s in GMEMO.items() if k[0] == "byt" and k[1] == arr and k[3] == l]

    def congruent(self, st, arr):
        """positions have been equated: so are the bytes there, and the predicates of them.  False: contradiction"""
        seen = {}
        for o, s in self.bytesyms(arr, 1):
            if ((s, 1),) not in st.store.cons and s not in st.store.sub:
                continue
            o = st.store.norm(o)
            if o in seen:
                if not st.store.add_eq(lsub(ls(s), ls(seen[o]))):
                    return False
            else:
                seen[o] = s
        tab = st.memo.get("preds", ())
        import models
        for i, (k, key, v) in enumerate(tab):
            for k2, key2, v2 in tab[:i]:
                if k == k2 and v != v2 and models.same_part(st, key, key2) and not st.store.add_eq(lsub(ls(v), ls(v2))):
                    return False
        return True

    def bits(self, st, x, w, lo, n):
        """(x >> lo) mod 2^n for x in [0,2^w)"""
        if lo:
            x = self.udiv(st, x, 1 << lo)
        return self.mod(st, x, 1 << n, w - lo)

    def udiv(self, st, x, c):
        x = st.store.norm(x)
        if c == 1:
            return x
        if all(k % c == 0 for _, k in x[1]):
            return (x[0] // c, tuple((s, k // c) for s, k in x[1]))
        lo, hi = self.range(st, x)
        if lo is not None and hi is not None and lo // c == hi // c:
            return lc(lo // c)
        # separate the divisible part
        div = tuple((s, k // c) for s, k in x[1] if k % c == 0)
        rest = (x[0] % c, tuple((s, k) for s, k in x[1] if k % c != 0))
        lo, hi = self.range(st, rest)
        base = (x[0] // c, div)
        if lo is not None and hi is not None and lo // c == hi // c:
            return laddc(base, lo // c)
        q = self.memo_q(st, rest, c)
        return ladd(base, q)

    def memo_q(self, st, x, c):
        key = ("q", x, c)
        s = GMEMO.get(key)
        if s is None:
            soft = any(y in Syms.soft for y, _ in x[1])
            s = Syms.new("(%s)/%d" % (show(x), c), soft)
            GMEMO[key] = s
        L = ls(s)
        if s not in st.store.sub:
            st.store.add_ge(lsub(x, lmul(L, c)), check=False)
            st.store.add_ge(lsub(laddc(lmul(L, c), c - 1), x), check=False)
            lo, hi = self.range(st, x)
            if lo is not None:
                st.store.add_ge(laddc(L, -(lo // c)), check=False)
            if hi is not None:
                st.store.add_ge(lsub(lc(hi // c), L), check=False)
        return st.store.norm(L)

    def range(self, st, x):
        """interval of x, refined by the polyhedron when the plain interval is unbounded"""
        x = st.store.norm(x)
        return st.store.interval(x)

    def inrange(self, st, x, lo, hi):
        a, b = self.range(st, x)
        if a is not None and b is not None and a >= lo and b <= hi:
            return True
        return st.store.entails_ge(laddc(x, -lo)) and st.store.entails_ge(lsub(lc(hi), x))

    def mod(self, st, x, m, w=None):
        """x mod m (m > 0)"""
        x = st.store.norm(x)
        y = (x[0] % m, tuple((s, k % m if k % m <= m // 2 else k % m - m) for s, k in x[1] if k % m))
        if isc(y):
            return y
        if self.inrange(st, y, 0, m - 1):
            return y
        if self.inrange(st, x, 0, m - 1):
            return x
        # constant multiple by bounds
        for z in (x, y):
            lo, hi = self.range(st, z)
            if lo is not None and hi is not None and lo // m == hi // m:
                return laddc(z, -(lo // m) * m)
        for z in (y, x):
            for q in (-1, 1):
                zz = laddc(z, -q * m)
                if self.inrange(st, zz, 0, m - 1):
                    return zz
        q = self.memo_q(st, y, m)
        return st.store.norm(lsub(y, lmul(q, m)))

    def sview(self, st, x, w):
        """signed reading of the unsigned form x"""
        h = 1 << (w - 1)
        x = st.store.norm(x)
        if isc(x):
            return x if x[0] < h else laddc(x, -2 * h)
        if self.inrange(st, x, 0, h - 1):
            return x
        if st.store.entails_ge(laddc(x, -h)):
            return laddc(x, -2 * h)
        key = ("sgn", x, w)
        s = GMEMO.get(key)
        if s is None:
            s = Syms.new("neg(%s)" % show(x), any(y in Syms.soft for y, _ in x[1]))
            GMEMO[key] = s
        q = ls(s)
        if s not in st.store.sub:
            st.store.add_ge(q, check=False)
            st.store.add_ge(lsub(ONE, q), check=False)
            st.store.add_ge(lsub(x, lmul(q, h)), check=False)
            st.store.add_ge(lsub(laddc(lmul(q, h), h - 1), x), check=False)
        return st.store.norm(lsub(x, lmul(q, 2 * h)))

    def wrap(self, st, x, w):
        """list of (state, form in [0,2^w)) for the mathematical value x known to be within (-2^w, 2^(w+1))"""
        m = 1 << w
        x = st.store.norm(x)
        if isc(x):
            return [(st, lc(x[0] % m))]
        lo, hi = self.range(st, x)
        if lo is not None and hi is not None and lo // m == hi // m:
            return [(st, laddc(x, -(lo // m) * m))]
        out = []
        ge0 = st.store.sign(x)
        if ge0 == "no":
            return [(st, laddc(x, m))]
        if ge0 == "maybe":
            t = st.fork()
            if t.store.add_ge(laddc(lneg(x), -1)):
                out.append((t, laddc(x, m)))
            if not st.store.add_ge(x):
                return out
        le = st.store.sign(lsub(lc(m - 1), x))
        if le == "yes":
            out.append((st, x))
        elif le == "no":
            out.append((st, laddc(x, -m)))
        else:
            t = st.fork()
            if t.store.add_ge(laddc(x, -m)):
                out.append((t, laddc(x, -m)))
            if st.store.add_ge(lsub(lc(m - 1), x)):
                out.append((st, x))
        return out

    # ---- memory -------------------------------------------------------
    def region(self, st, rid):
        return st.mem.get(rid)

    def access(self, st, p, n, what):
        """bounds / liveness obligations for n bytes at pointer p.  Returns region or None when the state dies."""
        if p[0] != "p":
            if p[0] == "o":
                x = self.to_ptr(st, p)
                if x[0] == "p":
                    return self.access(st, x, n, what)
            if p[0] == "u":
                self.fail(st, "uninit", "%s through an uninitialised pointer" % what)
                return None
            raise Unsupported("access through " + p[0])
        n = st.store.norm(n)
        if p[1] == 0:
            # null or integer address: only legal when n == 0
            if isc(n) and n[0] == 0:
                return False
            self.count("null")
            t = st.fork()
            if t.store.add_ge(laddc(n, -1)):
                self.report(t, "null", "%s through a null pointer" % what, [laddc(n, -1)])
            if st.store.add_eq(n):
                return False
            return None
        r = st.mem.get(p[1])
        if r is None or not r.alive:
            if isc(n) and n[0] == 0:
                return False
            t = st.fork()
            self.count("uaf")
            if t.store.add_ge(laddc(n, -1)):
                self.report(t, "uaf", "%s of %s after it was released" % (what, r.what if r else "memory"), [laddc(n, -1)])
            if st.store.add_eq(n):
                return False
            return None
        if r.kind == "unknown":
            raise Unsupported("access to unknown memory")
        off = st.store.norm(p[2])
        if isc(n):
            if n[0] == 0:
                return False
            if not self.oblige(st, off, "oob", "%s below the start of %s" % (what, r.what)):
                return None
            if not self.oblige(st, lsub(lsub(r.size, off), n), "oob", "%s beyond the end of %s" % (what, r.what)):
                return None
        else:
            # n may be zero: an out of range pointer is harmless then; require range when n >= 1
            if not self.oblige(st, off, "oob", "%s below the start of %s" % (what, r.what)):
                return None
            if not self.oblige(st, lsub(lsub(r.size, off), n), "oob", "%s beyond the end of %s" % (what, r.what)):
                return None
        return r

    def setseg(self, st, rid, segs):
        r = st.mem[rid].clone()
        r.segs = coalesce(st.store, segs, r.kind in ("heap", "input"))
        st.mem[rid] = r

    def read(self, st, p, n, what="read"):
        """-> list of (st, pieces)"""
        r = self.access(st, p, n, what)
        if r is None:
            return []
        if r is False:
            return [(st, ())]
        if r.kind == "global" and st.mem.get(r.rid) is None:
            raise Unsupported("global")
        o = st.store.norm(p[2])
        e = st.store.norm(ladd(o, n))
        out = []
        # fast path: constant lookup of an exact segment
        for seg in r.segs:
            if seg[0] == o and seg[1] == e:
                return [(st, (rel(st.store, seg),))]
        for s1, segs, i in split_at(st, r.segs, o):
            for s2, segs2, j in split_at(s1, segs, e):
                todo = [s2]
                while todo:
                    s2 = todo.pop()
                    pcs = []
                    for g in segs2[i:j]:
                        l = s2.store.norm(lsub(g[1], g[0]))
                        if l == ZERO:
                            continue
                        if l[1] and isc(n) and n[0] <= 16:
                            # a few bytes across a boundary at an unknown place: one state per place
                            for k in range(n[0] + 1):
                                x = s2.fork()
                                if x.store.add_eq(laddc(l, -k)):
                                    todo.append(x)
                            break
                        pcs.append(rel(s2.store, g))
                    else:
                        out.append((s2, tuple(pcs)))
        if "wit" in st.ghost:
            out = [x for y in out for x in self.by_witness(*y)]
        return out

    def by_witness(self, st, pcs):
        """the read starts at, before or behind the position the case asks about: one state each"""
        for arr, w in st.ghost["wit"]:
            for ln, c in pcs:
                if c[0] == "byt" and c[1] == arr:
                    d = st.store.norm(lsub(c[2], w))
                    if self.cmpcap is not None and d[1]:
                        self.cmpcap.append(d)
                    if not d[1] or st.store.entails_ge(laddc(d, -1)) or st.store.entails_ge(laddc(lneg(d), -1)):
                        continue
                    out = []
                    x = st.fork()
                    if x.store.add_eq(d) and self.congruent(x, arr):
                        out.append((x, tuple((x.store.norm(l), ncontent(x.store, q)) for l, q in pcs)))
                    x = st.fork()
                    if x.store.add_ge(laddc(d, -1)):
                        out.append((x, pcs))
                    if st.store.add_ge(laddc(lneg(d), -1)):
                        out.append((st, pcs))
                    return out
        return [(st, pcs)]

    def write(self, st, p, n, pieces, what="write"):
        """pieces: list of (len, relative content) covering n bytes -> list of states"""
        r = self.access(st, p, n, what)
        if r is None:
            return []
        if r is False:
            return [st]
        if r.ro:
            self.fail(st, "rowrite", "%s modifies read-only memory %s" % (what, r.what))
            return []
        o = st.store.norm(p[2])
        e = st.store.norm(ladd(o, n))
        out = []
        exact = None
        for idx, seg in enumerate(r.segs):
            if seg[0] == o and seg[1] == e:
                exact = idx
                break
        if exact is not None:
            cand = [(st, r.segs, exact, exact + 1)]
        else:
            cand = []
            for s1, segs, i in split_at(st, r.segs, o):
                for s2, segs2, j in split_at(s1, segs, e):
                    cand.append((s2, segs2, i, j))
        for s2, segs2, i, j in cand:
            if self.guard_overwrite(s2, segs2[i:j], pieces, what):
                new = []
                at = o
                for pc in pieces:
                    g = unrel(s2.store, at, pc)
                    new.append(g)
                    at = g[1]
                self.setseg(s2, r.rid, segs2[:i] + tuple(new) + segs2[j:])
                out.append(s2)
        return out

    def guard_overwrite(self, st, segs, pieces, what):
        """plain byte writes must not hit live objects of tracked classes"""
        if self.o.get("objraw") or what in ("destructor", "move"):
            return True
        for g in segs:
            if g[2][0] in ("obj", "orep", "mov"):
                newobj = [pc for pc in pieces if pc[1][0] in ("obj", "orep", "mov")]
                if newobj:
                    continue
                if st.store.norm(lsub(g[1], g[0])) == ZERO:
                    continue
                t = st.fork()
                if t.store.add_ge(laddc(lsub(g[1], g[0]), -1)):
                    self.count("life")
                    self.report(t, "life", "raw bytes overwrite a live element (%s)" % what)
        return True

    def load(self, st, p, size, ty):
        """-> list of (st, value)"""
        out = []
        if ty[0] in ("s", "a"):
            for s, pcs in self.read(st, p, lc(size)):
                out.append((s, ("o", size, pcs)))
            return out
        for s, pcs in self.read(st, p, lc(size)):
            out.append((s, self.mkval(s, pcs, size, ty)))
        return out

    def mkval(self, st, pcs, size, ty):
        if len(pcs) == 1:
            ln, c = pcs[0]
            if c[0] == "sca" and c[1] == size:
                return self.conv(st, c[2], ty)
            if c[0] == "rep" and c[1] == size:
                d = st.store.norm(c[3])
                if all(k % size == 0 for _, k in d[1]) and d[0] % size == 0:
                    return self.conv(st, c[2], ty)
            if c[0] == "raw":
                return ("u",)
        if any(c[0] == "raw" for _, c in pcs) and all(c[0] == "raw" for _, c in pcs):
            return ("u",)
        v = ("o", size, pcs)
        return self.conv(st, v, ty)

    def conv(self, st, v, ty):
        k = ty[0]
        if k == "i":
            if v[0] == "i":
                if v[1] == ty[1]:
                    return v
                if v[1] > ty[1]:
                    return ("i", ty[1], self.mod(st, v[2], 1 << ty[1], v[1]))
                return ("i", ty[1], v[2])
            if v[0] == "b":
                return v
            if v[0] == "o":
                return v   # stay lazy
            if v[0] in ("p", "F", "ov", "f"):
                return v   # punned, lazily converted
            return v
        return v

    def to_ptr(self, st, v):
        if v[0] in ("p", "F"):
            return v
        if v[0] == "o":
            if len(v[2]) == 1 and v[2][0][1][0] == "sca":
                return self.to_ptr(st, v[2][0][1][2])
            x = self.pieces_int(st, v[2], v[1])
            return self.int_ptr(st, x)
        if v[0] == "i":
            return self.int_ptr(st, v[2])
        if v[0] == "u":
            return v
        raise Unsupported("pointer from " + v[0])

    def int_ptr(self, st, x):
        x = st.store.norm(x)
        if isc(x):
            return ("p", 0, x)
        for s, k in x[1]:
            if k == 1 and s in Syms.base:
                rid = Syms.base[s]
                rest = (x[0], tuple(t for t in x[1] if t[0] != s))
                return ("p", rid, rest)
        raise Unsupported("pointer from integer " + show(x))

    def topieces(self, st, v, size):
        """value -> relative pieces for storing"""
        if v[0] == "o":
            return v[2]
        if v[0] == "u":
            return ((lc(size), ("raw",)),)
        if v[0] == "i":
            L = st.store.norm(v[2])
            if L[0] == 0 and len(L[1]) == 1 and L[1][0][1] == 1:
                og = Syms.origin.get(L[1][0][0])
                if og is not None and og[2] == size:
                    return ((lc(size), ("byt", og[0], og[1])),)
            return ((lc(size), ("sca", size, ("i", v[1], L))),)
        if v[0] == "b":
            raise Fork()
        if v[0] == "agg":
            raise Unsupported("store of aggregate")
        return ((lc(size), ("sca", size, v)),)

    # ---- function execution --------------------------------------------
    def val(self, st, env, v):
        k = v[0]
        if k == "l":
            return env[v[1]]
        if k == "i":
            w = v[1]
            n = int(v[2])
            if w == 1:
                return I1(bool(n))
            return ("i", w, (n, ()))
        if k == "n":
            return ("p", 0, ZERO)
        if k == "g":
            return self.globalref(st, v[1])
        if k == "gep":
            d = v[1]
            b = self.val(st, env, d["base"])
            if d.get("bad"):
                raise Unsupported("constexpr gep")
            off = lc(d["off"])
            return self.padd(st, b, off)
        if k == "u":
            return ("u",)
        if k == "f":
            return ("f", self.memo_f(v))
        if k == "z":
            ty = v[1]
            return self.zero(ty)
        if k == "agg":
            if v[1][0] == "s":
                return ("agg", tuple(self.val(st, env, x) for x in v[2]))
            raise Unsupported("const array value")
        if k == "ce":
            if v[1] == "ptrtoint":
                return ("i", 64, self.as_int(st, self.val(st, env, v[3][0]), 64))
            raise Unsupported("constexpr " + v[1])
        if k == "asm":
            return ("asm", v[1])
        if k == "x":
            return ("u",)
        raise Unsupported("operand " + k)

    def memo_f(self, v):
        key = ("fc", v[1], v[2])
        s = GMEMO.get(key)
        if s is None:
            s = Syms.new("flt%s" % v[2])
            GMEMO[key] = s
        return s

    def zero(self, ty):
        k = ty[0]
        if k == "i":
            return I1(False) if ty[1] == 1 else ("i", ty[1], ZERO)
        if k == "p":
            return ("p", 0, ZERO)
        if k == "s":
            return ("agg", tuple(self.zero(t[1]) for t in ty[2]))
        if k == "f":
            return ("f", self.memo_f(("f", ty[1], "0")))
        raise Unsupported("zero of " + k)

    def padd(self, st, b, off):
        if b[0] == "p":
            return ("p", b[1], st.store.norm(ladd(b[2], off)))
        if b[0] == "u":
            return b
        if b[0] in ("o", "i"):
            return self.padd(st, self.to_ptr(st, b), off)
        if b[0] == "F" and off == ZERO:
            return b
        raise Unsupported("gep on " + b[0])

    def globalref(self, st, name):
        f = self.m.fns.get(name)
        if f is not None:
            return ("F", name)
        rid = st.globs.get(name)
        if rid is None:
            g = self.m.globals.get(name)
            if g is None:
                raise Unsupported("global " + name)
            if "init" not in g and name.startswith("_ZTI"):
                g = dict(g, size=24)
            r = self.new_region(st, "global", lc(g["size"]), "global " + name, align=16)
            rid = r.rid
            st.globs[name] = rid
            if "init" in g:
                segs = []
                self.init_segs(st, g["init"], g["ty"], 0, segs, name)
                r2 = st.mem[rid].clone()
                # fill gaps with zero
                segs.sort(key=lambda x: x[0])
                full = []
                pos = 0
                for o, n, c in segs:
                    if o > pos:
                        full.append((lc(pos), lc(o), ("rep", 1, ("i", 8, ZERO), lc(pos))))
                    full.append((lc(o), lc(o + n), c))
                    pos = o + n
                if pos < g["size"]:
                    full.append((lc(pos), lc(g["size"]), ("rep", 1, ("i", 8, ZERO), lc(pos))))
                r2.segs = tuple(full)
                r2.ro = g["const"]
                st.mem[rid] = r2
            else:
                a = Arrays.new("ext " + name)
                if name.startswith("_ZTI"):
                    n = self.new_region(st, "global", lc(8), "name of " + name, ("byt", a, ZERO))
                    sg = ((ZERO, lc(8), ("byt", a, ZERO)), (lc(8), lc(16), ("sca", 8, ("p", n.rid, ZERO))), (lc(16), lc(24), ("byt", a, ZERO)))
                else:
                    sg = ((ZERO, lc(g["size"]), ("byt", a, ZERO)),) if g["size"] else ()
                r2 = st.mem[rid].clone()
                r2.segs = sg
                st.mem[rid] = r2
        return ("p", rid, ZERO)

    def init_segs(self, st, v, ty, off, segs, name):
        k = v[0]
        if k == "z" or k == "u":
            return
        if k == "agg":
            if ty[0] == "s":
                for (fo, ft), x in zip(ty[2], v[2]):
                    self.init_segs(st, x, ft, off + fo, segs, name)
                return
            el = ty[3]
            if el == ["i", 8]:
                data = bytes(int(x[2]) for x in v[2])
                key = ("cstr", name, off)
                a = GMEMO.get(key)
                if a is None:
                    a = Arrays.new("const " + name, data)
                    GMEMO[key] = a
                segs.append((off, len(data), ("byt", a, lc(-off))))
                return
            esz = self.tsize(el)
            for i, x in enumerate(v[2]):
                self.init_segs(st, x, el, off + i * esz, segs, name)
            return
        n = self.tsize(ty)
        if n == 0:
            return
        val = self.val(st, {}, v)
        if val[0] == "b":
            val = ("i", 8, lc(1 if val[1] else 0))
        segs.append((off, n, ("sca", n, val)))

    def tsize(self, ty):
        k = ty[0]
        if k == "i":
            return (ty[1] + 7) // 8
        if k == "p":
            return 8
        if k == "f":
            return ty[1] // 8
        if k in ("s", "a", "x"):
            return ty[1]
        return 0

    def call(self, st, name, args, ins):
        """-> list of (kind, st, val); kind in ret/unw"""
        mdl = self.models.get(name)
        f = self.m.fns.get(name)
        if mdl is None and (f is None or f.decl):
            mdl = self.find_model(name, f)
        if mdl is not None:
            self.stack.append(self.cur)
            prev = self.cur
            try:
                self.cur = ins
                return mdl(self, st, args, ins)
            finally:
                self.cur = prev
                self.stack.pop()
        if f is None or f.decl:
            return self.unknown_call(st, name, f, args, ins)
        if len(self.stack) > self.maxstack:
            raise Unsupported("call depth")
        self.stack.append(ins)
        try:
            res = self.run_fn(st, f, args)
        finally:
            self.stack.pop()
        if f.nounwind:
            out = []
            for r in res:
                if r[0] == "unw":
                    self.cur = ins
                    self.fail(r[1], "terminate", "exception %s escapes a noexcept function %s" % (r[1].exc, f.dem))
                else:
                    out.append(r)
            return out
        return res

    def unknown_call(self, st, name, f, args, ins):
        dem = f.dem if f else name
        self.unmod[dem] = self.unmod.get(dem, 0) + 1
        if f is not None and f.noreturn:
            return []
        st.exact = False
        return [("ret", st, self.fresh(st, ins["ty"], "ret " + dem[:30]))]

    def run_fn(self, st, f, args):
        self.m.prepare(f)
        self.fnseen.add(f.name)
        env = {}
        for i, a in enumerate(args):
            if i < len(f.args):
                sz = f.args[i].get("byval")
                if sz:
                    r = self.read(st, self.to_ptr(st, a), lc(sz), "argument copy")
                    if len(r) != 1:
                        raise Unsupported("byval fork")
                    st, pcs = r[0]
                    rg = self.new_region(st, "stack", lc(sz), "argument")
                    st.mem[rg.rid].elem = len(self.stack)
                    a = ("p", rg.rid, ZERO)
                    st = self.write(st, a, lc(sz), pcs)[0]
                env[i] = a
        exits, backs, res = self.run_scope(f, [(0, None, st, env)], None, None)
        return self.merge_results(res)

    def merge_results(self, res):
        if len(res) < 2:
            return res
        groups = {}
        order = []
        for kind, s, v in res:
            key = (kind, nv(s.store, v), s.exc)
            try:
                hash(key)
            except TypeError:
                key = id(s)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((kind, s, v))
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.extend(g)
                continue
            sts = self.merge_states([x[1] for x in g])
            v = nv(g[0][1].store, g[0][2])     # the same normal form in every member of the group
            out.extend((g[0][0], s, v) for s in sts)
        return out

    def memkey(self, st):
        return None

    def same_mem(self, a, b):
        if a.exact != b.exact or a.exc != b.exc or a.caught != b.caught:
            return False
        if a.ghost != b.ghost:
            return False
        ma, mb = a.mem, b.mem
        if ma.keys() != mb.keys():
            return False
        for k, ra in ma.items():
            rb = mb[k]
            if ra is rb:
                continue
            if ra.alive != rb.alive or ra.kind != rb.kind:
                return False
            if len(ra.segs) != len(rb.segs):
                return False
            if ra.size != rb.size and a.store.norm(ra.size) != b.store.norm(rb.size):
                return False
            for x, y in zip(ra.segs, rb.segs):
                if x != y:
                    if normseg(a.store, x) != normseg(b.store, y):
                        return False
        return True

    def merge_states(self, sts):
        """exact merges only: implied or complementary constraint sets"""
        sts = list(sts)
        changed = True
        while changed and len(sts) > 1:
            changed = False
            for i in range(len(sts)):
                for j in range(i + 1, len(sts)):
                    a, b = sts[i], sts[j]
                    m = self.try_merge(a, b)
                    if m is not None:
                        pa, pb = a.memo.get("preds", ()), b.memo.get("preds", ())
                        if pa is not pb:
                            m.memo = dict(m.memo)
                            m.memo["preds"] = pa + tuple(x for x in pb if x not in pa)
                        sts[i] = m
                        del sts[j]
                        changed = True
                        break
                if changed:
                    break
        return sts

    def livereg(self, st, pair):
        for r in pair:
            g = st.mem.get(r)
            if g is None or not g.alive:
                return False
        return True

    def try_merge(self, a, b):
        if a.store.sub is not b.store.sub and a.store.sub != b.store.sub:
            return None
        ca, cb = a.store.cons, b.store.cons
        da = [(t, c) for t, c in ca.items() if cb.get(t) != c]
        if len(da) > 3:
            return None
        db = [(t, c) for t, c in cb.items() if ca.get(t) != c]
        if len(db) > 3:
            return None
        oa, ob = a.ord, b.ord
        if oa != ob:
            oa = frozenset(x for x in oa if self.livereg(a, x))
            ob = frozenset(x for x in ob if self.livereg(b, x))
        dord = False
        if oa != ob:
            if da or db:
                if not (oa <= ob and not da or ob <= oa and not db):
                    return None
            xa, xb = oa - ob, ob - oa
            if xa and xb:
                if len(xa) != 1 or len(xb) != 1 or tuple(reversed(next(iter(xa)))) != next(iter(xb)):
                    return None
            dord = True
        if not self.same_mem(a, b):
            return None
        if dord:
            # one side subsumes the other, or the two orders are complementary
            if da or db:
                return a if oa <= ob and not da else b
            a.ord = oa & ob
            return a
        a.ord, b.ord = oa, ob
        if not da:
            return a
        if not db:
            return b
        # drop constraints implied by the rest on either side
        def comp(x, y):
            (t, c), (u, d) = x, y
            return t == tuple((s, -k) for s, k in u) and c + d == -1
        if len(da) == 1 and len(db) == 1 and comp(da[0], db[0]):
            a.store.cons = dict(ca)
            t = da[0][0]
            if t in cb:
                a.store.cons[t] = max(ca[t], cb[t])
            else:
                del a.store.cons[t]
            u = db[0][0]
            if u in ca and u != t:
                pass
            return a
        # same left-hand side, different bound: keep the weaker one (convex, exact when a implies b)
        if len(da) == 1 and len(db) == 1 and da[0][0] == db[0][0]:
            return a if da[0][1] > db[0][1] else b
        return None

    def merge_envs(self, f, b, group):
        """group: list of (st, env) at block b"""
        if len(group) < 2:
            return group
        live = f.live[b]
        buckets = {}
        order = []
        for st, env in group:
            e = {k: v for k, v in env.items() if k in live}
            try:
                key = tuple(sorted((k, nv(st.store, v)) for k, v in e.items()))
                hash(key)
            except TypeError:
                key = id(st)
            if key not in buckets:
                buckets[key] = []
                order.append(key)
            buckets[key].append((st, e))
        out = []
        for k in order:
            g = buckets[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            e = dict(k)                        # normal forms: the members may have solved different equalities
            for s in self.merge_states([x[0] for x in g]):
                out.append((s, e))
        return out

    # -- scope runner
    def run_scope(self, f, starts, scope, header):
        """starts: (block, pred, st, env).  scope: block set of the loop being summarised (None = whole function);
        header: its header (edges to it are back edges).  -> exits [(target, pred, st, env)], backs [(pred, st, env)], results"""
        exits, backs, results = [], [], []
        pend = {}
        heap = []
        first = True

        def push(b, p, st, env):
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (f.rpo[b], b))
            pend[b].append((p, st, env))
        for b, p, st, env in starts:
            push(b, p, st, env)
        entry = header
        while heap:
            _, b = heapq.heappop(heap)
            items = pend.pop(b)
            if b in f.loops and not (b == header and entry is not None):
                ex, rs = self.run_loop(f, b, items)
                results.extend(rs)
                for t, p, st, env in ex:
                    self.route(f, t, p, st, env, scope, header, push, exits, backs)
                continue
            if b == header:
                entry = None
            group = self.phis(f, b, items)
            group = self.merge_envs(f, b, group)
            for st, env in group:
                for x in self.run_block(f, b, st, env):
                    if x[0] == "go":
                        self.route(f, x[1], b, x[2], x[3], scope, header, push, exits, backs)
                    else:
                        results.append(x)
        return exits, backs, results

    def route(self, f, t, p, st, env, scope, header, push, exits, backs):
        if header is not None and t == header:
            backs.append((p, st, env))
        elif scope is not None and t not in scope:
            exits.append((t, p, st, env))
        else:
            push(t, p, st, env)

    def phis(self, f, b, items):
        ins = f.blocks[b]
        if not ins or ins[0]["op"] != "phi":
            return [(st, env) for _, st, env in items]
        out = []
        for p, st, env in items:
            if p == "set":           # loop summary: phis already assigned
                out.append((st, env))
                continue
            new = {}
            for i in ins:
                if i["op"] != "phi":
                    break
                for bb, v in i["in"]:
                    if bb == p:
                        new[i["id"]] = self.val(st, env, v)
                        break
            env = dict(env)
            env.update(new)
            out.append((st, env))
        return out

    def run_block(self, f, b, st, env):
        """generator-free: returns list of ('go', target, st, env) / ('ret', st, v) / ('unw', st, None)"""
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        ins = f.blocks[b]
        out = []
        work = [(st, dict(env), 0)]
        n = len(ins)
        while work:
            st, env, k = work.pop()
            while k < n:
                i = ins[k]
                op = i["op"]
                if op == "phi":
                    k += 1
                    continue
                self.cur = i
                self.steps += 1
                h = OPS.get(op)
                if h is not None:
                    r = h(self, st, env, i)
                    # r: None (env updated in place), or list of (st, val)
                    if r is None:
                        k += 1
                        continue
                    if len(r) == 1:
                        st = r[0][0]
                        env[i["id"]] = r[0][1]
                        k += 1
                        continue
                    for s, v in r[1:]:
                        e = dict(env)
                        e[i["id"]] = v
                        work.append((s, e, k + 1))
                    self.nstates += len(r)
                    if not r:
                        st = None
                        break
                    st = r[0][0]
                    env[i["id"]] = r[0][1]
                    k += 1
                    continue
                if op == "call" or op == "invoke":
                    rs = self.do_call(st, env, i)
                    if op == "invoke":
                        for kind, s, v in rs:
                            if kind == "ret":
                                e = dict(env)
                                e[i["id"]] = v
                                out.append(("go", i["normal"], s, e))
                            else:
                                out.append(("go", i["unwind"], s, dict(env)))
                        st = None
                        break
                    rets = []
                    for kind, s, v in rs:
                        if kind == "ret":
                            rets.append((s, v))
                        else:
                            out.append(("unw", s, None))
                    self.nstates += max(0, len(rets) - 1)
                    if not rets:
                        st = None
                        break
                    for s, v in rets[1:]:
                        e = dict(env)
                        e[i["id"]] = v
                        work.append((s, e, k + 1))
                    st = rets[0][0]
                    env[i["id"]] = rets[0][1]
                    k += 1
                    continue
                if op == "br":
                    if "cond" not in i:
                        out.append(("go", i["succ"][0], st, env))
                    else:
                        c = self.val(st, env, i["cond"])
                        if c[0] == "u":
                            self.fail(st, "uninit", "branch on an uninitialised value")
                            st = None
                            break
                        c = self.tocond(st, c)
                        if not self.quiet and not st.ghost.get("hsoft") and self.softcond(st, c) and not self.in_repo():
                            st.ghost["hsoft"] = True       # the harness's own decision rests on an over-approximated value
                        t, fa = self.decide(st, c)
                        for s in t:
                            out.append(("go", i["succ"][0], s, env))
                        for s in fa:
                            out.append(("go", i["succ"][1], s, env))
                    st = None
                    break
                if op == "switch":
                    v = self.val(st, env, i["cond"])
                    if v[0] == "u":
                        self.fail(st, "uninit", "switch on an uninitialised value")
                        st = None
                        break
                    if v[0] == "b":
                        v2 = []
                        t, fa = self.decide(st, v[1])
                        v2 = [(s, ONE) for s in t] + [(s, ZERO) for s in fa]
                    else:
                        v2 = [(st, self.as_int(st, v, 64))]
                    for s, L in v2:
                        rest = [s]
                        for cv, tgt in i["cases"]:
                            nr = []
                            for s2 in rest:
                                t, fa = self.decide(s2, ("eq", laddc(L, -int(cv[2]))))
                                for s3 in t:
                                    out.append(("go", tgt, s3, env))
                                nr.extend(fa)
                            rest = nr
                        for s2 in rest:
                            out.append(("go", i["default"], s2, env))
                    st = None
                    break
                if op == "ret":
                    v = self.val(st, env, i["ops"][0]) if i["ops"] else None
                    self.drop_frame(st, env, f)
                    out.append(("ret", st, v))
                    st = None
                    break
                if op == "unreachable":
                    prev = ins[k - 1] if k else None
                    if not (prev and prev["op"] in ("call",) and self.is_noreturn(prev)):
                        self.fail(st, "unreachable", "control reaches code declared unreachable")
                    st = None
                    break
                if op == "resume":
                    self.drop_frame(st, env, f)
                    out.append(("unw", st, None))
                    st = None
                    break
                raise Unsupported("instruction " + op)
        return out

    def drop_frame(self, st, env, f):
        d = len(self.stack)
        for rid in [k for k, r in st.mem.items() if r.kind == "stack" and r.elem == d]:
            r = st.mem[rid]
            for g in r.segs:
                if g[2][0] in ("obj", "orep", "mov"):
                    if st.store.norm(lsub(g[1], g[0])) != ZERO:
                        self.fail(st, "life", "a local element object goes out of scope without being destroyed")
            del st.mem[rid]

    def is_noreturn(self, i):
        return True

    def tocond(self, st, v):
        if v[0] == "b":
            return v[1]
        if v[0] == "i":
            return ("ne", self.mod(st, v[2], 2))
        if v[0] == "o":
            x = self.pieces_int(st, v[2], v[1])
            return ("ne", self.mod(st, x, 2))
        if v[0] == "u":
            return self.nd(st, "undef", True)
        raise Unsupported("cond from " + v[0])

    def do_call(self, st, env, i):
        c = i["callee"]
        args = [self.val(st, env, a) for a in i["args"]]
        if c[0] == "g":
            name = c[1]
        else:
            v = self.val(st, env, c)
            if v[0] in ("o",):
                v = self.to_ptr(st, v)
            if v[0] == "F":
                name = v[1]
            elif v[0] == "asm":
                return [("ret", st, self.fresh(st, i["ty"], "asm"))]
            elif v[0] == "p" and v[1] == 0:
                self.fail(st, "null", "call through a null function pointer")
                return []
            elif v[0] == "u":
                self.fail(st, "uninit", "call through an uninitialised function pointer")
                return []
            elif v[0] == "p":
                self.fail(st, "null", "call through a pointer that is not a function")
                return []
            else:
                raise Unsupported("indirect call through " + v[0])
        return self.call(st, name, args, i)

    def find_model(self, name, f):
        return None

    # ---- loops ---------------------------------------------------------
    def run_loop(self, f, h, items):
        import loops
        return loops.run_loop(self, f, h, items)


GMEMO = {}


def nv(store, v):
    if v is None:
        return None
    k = v[0]
    if k in ("i", "p", "ov"):
        return (k, v[1], store.norm(v[2]))
    if k == "o":
        return ("o", v[1], tuple((store.norm(n), ncontent(store, c)) for n, c in v[2]))
    if k == "b":
        return ("b", ncond(store, v[1]))
    if k == "agg":
        return ("agg", tuple(nv(store, x) for x in v[1]))
    return v


def ncond(store, c):
    if c is True or c is False:
        return c
    if c[0] in ("ge", "eq", "ne"):
        return (c[0], store.norm(c[1]))
    if c[0] == "not":
        return ("not", ncond(store, c[1]))
    if c[0] == "ord":
        return c
    return (c[0], ncond(store, c[1]), ncond(store, c[2]))


def ncontent(store, c):
    k = c[0]
    if k == "byt":
        return (k, c[1], store.norm(c[2]))
    if k == "sca":
        return (k, c[1], nv(store, c[2]))
    if k == "scap":
        return (k, c[1], nv(store, c[2]), c[3])
    if k == "rep":
        return (k, c[1], nv(store, c[2]), store.norm(c[3]))
    if k == "obj":
        return (k, c[1], c[2], store.norm(c[3]))
    if k == "orep":
        return (k, c[1], nv(store, c[2]))
    return c


def normseg(store, g):
    return (store.norm(g[0]), store.norm(g[1]), ncontent(store, g[2]))


# ------------------------------------------------------------------ instruction semantics
OPS = {}


def op(name):
    def d(fn):
        OPS[name] = fn
        return fn
    return d


def concretise(I, st, v, w):
    """int forms of v: list of (st, Lin); forks on i1"""
    if v[0] == "b":
        t, fa = I.decide(st, v[1])
        return [(s, ONE) for s in t] + [(s, ZERO) for s in fa]
    return [(st, I.as_int(st, v, w))]


@op("alloca")
def _alloca(I, st, env, i):
    n = I.val(st, env, i["n"])
    r = I.new_region(st, "stack", lc(i["size"] * n[2][0]), "local", align=i["align"])
    st.mem[r.rid].elem = len(I.stack)
    return [(st, ("p", r.rid, ZERO))]


@op("load")
def _load(I, st, env, i):
    p = I.val(st, env, i["ops"][0])
    if p[0] != "p":
        p = I.to_ptr(st, p)
    ty = i["ty"]
    shared_access(I, st, p, i, False)
    if ty == ["i", 1]:
        return [(s, I1(I.tocond(s, v))) if v[0] != "u" else (s, v) for s, v in I.load(st, p, 1, ["i", 8])]
    return I.load(st, p, i["size"], ty)


@op("store")
def _store(I, st, env, i):
    v = I.val(st, env, i["ops"][0])
    p = I.val(st, env, i["ops"][1])
    if p[0] != "p":
        p = I.to_ptr(st, p)
    shared_access(I, st, p, i, True)
    res = I.store_val(st, p, v, i["size"], i["oty"])
    return [(s, None) for s in res]


def shared_access(I, st, p, i, wr):
    """memory the harness shares with other threads: read it atomically, change it by read-modify-write only"""
    sh = st.ghost.get("shared")
    if sh is None or p[1] != sh[0]:
        return
    if (wr or not i.get("atomic")) and st.store.entails_ge(lsub(p[2], sh[1])) and st.store.entails_ge(laddc(lsub(sh[2], p[2]), -1)):
        I.count("spec")
        I.report(st, "spec", "a counter other threads add to is written without read-modify-write" if wr else "a counter other threads change is read without atomic access")


def store_val(I, st, p, v, size, ty):
    if v[0] == "agg":
        sts = [st]
        for (o, t), x in zip(ty[2], v[1]):
            nx = []
            for s in sts:
                nx.extend(store_val(I, s, I.padd(s, p, lc(o)), x, I.tsize(t), t))
            sts = nx
        return sts
    if v[0] == "b":
        t, fa = I.decide(st, v[1])
        out = []
        for s in t:
            out.extend(I.write(s, p, lc(size), ((lc(size), ("sca", size, ("i", 8 * size, ONE))),)))
        for s in fa:
            out.extend(I.write(s, p, lc(size), ((lc(size), ("sca", size, ("i", 8 * size, ZERO))),)))
        return out
    return I.write(st, p, lc(size), I.topieces(st, v, size))


Interp.store_val = lambda self, st, p, v, size, ty: store_val(self, st, p, v, size, ty)


@op("getelementptr")
def _gep(I, st, env, i):
    b = I.val(st, env, i["base"])
    if i.get("bad"):
        raise Unsupported("gep")
    off = lc(i["off"])
    outs = [(st, off)]
    for v, k, w in i["var"]:
        nx = []
        for s, o in outs:
            x = I.val(s, env, v)
            for s2, L in concretise(I, s, x, w):
                L = I.sview(s2, L, w)
                nx.append((s2, ladd(o, lmul(L, k))))
        outs = nx
    return [(s, I.padd(s, b, o)) for s, o in outs]


def arith(fn):
    def h(I, st, env, i):
        w = i["ty"][1]
        a = I.val(st, env, i["ops"][0])
        b = I.val(st, env, i["ops"][1])
        if a[0] == "u" or b[0] == "u":
            return [(st, ("u",))]
        out = []
        for s, x in concretise(I, st, a, w):
            for s2, y in concretise(I, s, b, w):
                for s3, z in fn(I, s2, x, y, w, i):
                    out.append((s3, ("i", w, s3.store.norm(z))))
        return out
    return h


def signedc(L, w):
    if isc(L) and L[0] >= (1 << (w - 1)):
        return lc(L[0] - (1 << w))
    return L


def _add(I, st, x, y, w, i):
    # prefer the signed reading of constants: x + (-1)
    if isc(y):
        y = signedc(y, w)
    elif isc(x):
        x = signedc(x, w)
    return I.wrap(st, ladd(x, y), w)


def _sub(I, st, x, y, w, i):
    d = lsub(x, y)
    if w == 64:
        b = [(s, k) for s, k in st.store.norm(d)[1] if s in Syms.base]
        if len(b) == 2 and b[0][1] * b[1][1] == -1:
            return [r for s in I.order_blocks(st, Syms.base[b[0][0]], Syms.base[b[1][0]]) for r in I.wrap(s, d, w)]
    return I.wrap(st, d, w)


def order_blocks(I, st, a, b):
    """living blocks do not overlap: one state per order of their addresses"""
    ra, rb = st.mem.get(a), st.mem.get(b)
    if ra is None or rb is None or not ra.alive or not rb.alive:
        return [st]
    la, lb = I.basel(st, ra), I.basel(st, rb)
    one = lsub(lb, ladd(la, ra.size))
    two = lsub(la, ladd(lb, rb.size))
    if st.store.entails_ge(one) or st.store.entails_ge(two):
        return [st]
    t = st.fork()
    out = []
    if st.store.add_ge(one):
        out.append(st)
    if t.store.add_ge(two):
        out.append(t)
    return out


Interp.order_blocks = order_blocks


def _mul(I, st, x, y, w, i):
    if isc(x):
        x, y = y, x
    if not isc(y):
        # boolean-like factor
        for a, b in ((x, y), (y, x)):
            if I.inrange(st, a, 0, 1):
                out = []
                t, fa = I.decide(st, ("ge", laddc(a, -1)))
                for s in t:
                    out.append((s, b))
                for s in fa:
                    out.append((s, ZERO))
                return out
        return [(st, I.sym(st, "mul", w, True))]
    k = y[0]
    m = 1 << w
    if k >= m // 2:
        # negative constant: product is -(m-k)*x mod m
        p = lneg(lmul(x, m - k))
        return I.wrapq(st, p, w)
    p = lmul(x, k)
    return I.wrapq(st, p, w)


def wrapq(I, st, p, w):
    m = 1 << w
    p = st.store.norm(p)
    if isc(p):
        return [(st, lc(p[0] % m))]
    if I.inrange(st, p, 0, m - 1):
        return [(st, p)]
    out = []
    t = st.fork()
    if st.store.add_ge(p) and st.store.add_ge(lsub(lc(m - 1), p)):
        out.append((st, p))
    q = Syms.new("wraps")
    # p - m*q in range, q != 0
    r = lsub(p, lmul(ls(q), m))
    for lo in (True, False):
        u = t.fork()
        ok = u.store.add_ge(r, check=False) and u.store.add_ge(lsub(lc(m - 1), r), check=False)
        ok = ok and u.store.add_ge(laddc(ls(q), -1) if lo else laddc(lneg(ls(q)), -1))
        if ok:
            out.append((u, r))
    return out


Interp.wrapq = wrapq


def _udiv(I, st, x, y, w, i):
    if isc(y):
        if y[0] == 0:
            I.fail(st, "div", "division by zero")
            return []
        return [(st, I.udiv(st, x, y[0]))]
    out = []
    I.count("div")
    t = st.fork()
    if t.store.add_eq(y):
        I.report(t, "div", "division by zero", [y])
    if not st.store.add_ge(laddc(y, -1)):
        return []
    q = I.sym(st, "quot", w, True)
    st.store.add_ge(lsub(x, q), check=False)
    return [(st, q)]


def _urem(I, st, x, y, w, i):
    if isc(y):
        if y[0] == 0:
            I.fail(st, "div", "division by zero")
            return []
        x2 = I.align_hint(st, x)
        return [(st, I.mod(st, x2, y[0], w))]
    I.count("div")
    t = st.fork()
    if t.store.add_eq(y):
        I.report(t, "div", "division by zero", [y])
    if not st.store.add_ge(laddc(y, -1)):
        return []
    r = I.sym(st, "rem", w, True)
    st.store.add_ge(laddc(lsub(y, r), -1), check=False)
    st.store.add_ge(lsub(x, r), check=False)
    return [(st, r)]


def align_hint(I, st, x):
    """replace address symbols by align*t so that remainders can be computed"""
    r = (x[0], ())
    for s, k in x[1]:
        if s in Syms.base:
            rid = Syms.base[s]
            reg = st.mem.get(rid)
            al = reg.align if reg else 1
            key = ("al", s)
            t = GMEMO.get(key)
            if t is None:
                t = Syms.new("%s/%d" % (Syms.names[s], al))
                GMEMO[key] = t
            if ((t, al), (s, -1)) not in st.store.cons and al > 1:
                st.store.add_ge(ladd(lmul(ls(t), al), lneg(ls(s))), check=False)
                st.store.add_ge(ladd(lmul(ls(t), -al), ls(s)), check=False)
            r = ladd(r, lmul(ls(t), al * k) if al > 1 else (0, ((s, k),)))
        else:
            r = ladd(r, (0, ((s, k),)))
    return r


Interp.align_hint = align_hint


def _sdiv(I, st, x, y, w, i):
    if not isc(y):
        return [(st, I.sym(st, "sdiv", w, True))]
    c = signedc(y, w)[0]
    if c == 0:
        I.fail(st, "div", "division by zero")
        return []
    s = I.sview(st, x, w)
    out = []
    if c < 0:
        return [(st, I.sym(st, "sdiv", w, True))]
    if i.get("exact") and all(k % c == 0 for _, k in s[1]):
        q = (s[0] // c, tuple((a, k // c) for a, k in s[1]))
        if s[0] % c:
            I.fail(st, "div", "inexact pointer difference")
        return I.wrap(st, q, w)
    t, fa = I.decide(st, ("ge", s))
    for u in t:
        q = I.udiv(u, s, c)
        out.append((u, q))
    for u in fa:
        q = I.udiv(u, lneg(s), c)
        out.extend(I.wrap(u, lneg(q), w))
    return out


def _srem(I, st, x, y, w, i):
    if isc(y) and y[0] and y[0] < (1 << (w - 1)):
        t, fa = I.decide(st, ("ge", I.sview(st, x, w)))
        out = [(u, I.mod(u, x, y[0], w)) for u in t]
        out += [(u, I.sym(u, "srem", w, True)) for u in fa]
        return out
    return [(st, I.sym(st, "srem", w, True))]


def _shl(I, st, x, y, w, i):
    if isc(y):
        return I.wrapq(st, lmul(x, 1 << y[0]), w) if not all_trunc(I, st, x, y[0], w) else [(st, I.mod(st, lmul(x, 1 << y[0]), 1 << w, w))]
    return [(st, I.sym(st, "shl", w, True))]


def all_trunc(I, st, x, k, w):
    return True


def _lshr(I, st, x, y, w, i):
    if isc(y):
        return [(st, I.udiv(st, x, 1 << y[0]))]
    return [(st, I.sym(st, "lshr", w, True))]


def _ashr(I, st, x, y, w, i):
    if isc(y):
        s = I.sview(st, x, w)
        t, fa = I.decide(st, ("ge", s))
        out = [(u, I.udiv(u, s, 1 << y[0])) for u in t]
        for u in fa:
            q = I.udiv(u, laddc(lneg(s), (1 << y[0]) - 1), 1 << y[0])
            out.extend(I.wrap(u, lneg(q), w))
        return out
    return [(st, I.sym(st, "ashr", w, True))]


def andc(I, st, x, c, w):
    """x & c for constant c"""
    if c == 0:
        return ZERO
    full = (1 << w) - 1
    if c == full:
        return x
    lo = (c & -c).bit_length() - 1
    hi = c.bit_length()
    if c == (1 << hi) - (1 << lo):
        y = I.mod(st, I.align_hint(st, x), 1 << hi, w) if hi < w else I.align_hint(st, x)
        if lo == 0:
            return y
        return st.store.norm(lsub(y, I.mod(st, y, 1 << lo, hi)))
    # several runs
    tot = ZERO
    k = c
    pos = 0
    while k:
        l = (k & -k).bit_length() - 1
        run = 0
        while (k >> (l + run)) & 1:
            run += 1
        part = ((1 << run) - 1) << l
        tot = ladd(tot, andc(I, st, x, part, w))
        k &= ~part
    return st.store.norm(tot)


def _and(I, st, x, y, w, i):
    if isc(x):
        x, y = y, x
    if isc(y):
        if isc(x):
            return [(st, lc(x[0] & y[0]))]
        return [(st, andc(I, st, x, y[0], w))]
    r = I.sym(st, "and", w, True)
    st.store.add_ge(lsub(x, r), check=False)
    st.store.add_ge(lsub(y, r), check=False)
    return [(st, r)]


def _or(I, st, x, y, w, i):
    if isc(x):
        x, y = y, x
    if isc(y):
        if isc(x):
            return [(st, lc(x[0] | y[0]))]
        a = andc(I, st, x, y[0], w)
        return [(st, st.store.norm(laddc(lsub(x, a), y[0])))]
    r = I.sym(st, "or", w, True)
    st.store.add_ge(lsub(r, x), check=False)
    st.store.add_ge(lsub(r, y), check=False)
    return [(st, r)]


def _xor(I, st, x, y, w, i):
    if isc(x):
        x, y = y, x
    if isc(y):
        if isc(x):
            return [(st, lc(x[0] ^ y[0]))]
        if y[0] == (1 << w) - 1:
            return [(st, lsub(y, x))]
        a = andc(I, st, x, y[0], w)
        return [(st, st.store.norm(laddc(lsub(x, lmul(a, 2)), y[0])))]
    return [(st, I.sym(st, "xor", w, True))]


for _n, _f in (("add", _add), ("sub", _sub), ("mul", _mul), ("udiv", _udiv), ("urem", _urem), ("sdiv", _sdiv),
               ("srem", _srem), ("shl", _shl), ("lshr", _lshr), ("ashr", _ashr)):
    OPS[_n] = arith(_f)


def bitop(name, fn):
    ah = arith(fn)

    def h(I, st, env, i):
        if i["ty"] == ["i", 1]:
            a = I.val(st, env, i["ops"][0])
            b = I.val(st, env, i["ops"][1])
            if a[0] == "u" or b[0] == "u":
                return [(st, ("u",))]
            a = I.tocond(st, a)
            b = I.tocond(st, b)
            return [(st, I1(cbool(name, a, b)))]
        return ah(I, st, env, i)
    OPS[name] = h


def cbool(k, a, b):
    for x, y in ((a, b), (b, a)):
        if x is True:
            return y if k == "and" else (True if k == "or" else cnot(y))
        if x is False:
            return False if k == "and" else y
    if k == "xor":
        return ("or", ("and", a, cnot(b)), ("and", cnot(a), b))
    return (k, a, b)


def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == "not":
        return c[1]
    return ("not", c)


bitop("and", _and)
bitop("or", _or)
bitop("xor", _xor)


@op("icmp")
def _icmp(I, st, env, i):
    a = I.val(st, env, i["ops"][0])
    b = I.val(st, env, i["ops"][1])
    p = i["pred"]
    if a[0] == "u" or b[0] == "u":
        return [(st, ("u",))]
    oty = i["oty"]
    if oty[0] == "p":
        return [(st, I1(I.ptrcmp(st, a, b, p)))]
    w = oty[1]
    if w == 1:
        ca, cb = I.tocond(st, a), I.tocond(st, b)
        x = cbool("xor", ca, cb)
        if p == "ne":
            return [(st, I1(x))]
        if p == "eq":
            return [(st, I1(cnot(x)))]
        if p == "ult":
            return [(st, I1(cbool("and", cnot(ca), cb)))]
        if p == "ugt":
            return [(st, I1(cbool("and", ca, cnot(cb))))]
        raise Unsupported("icmp i1 " + p)
    out = []
    for s, x in concretise(I, st, a, w):
        for s2, y in concretise(I, s, b, w):
            out.append((s2, I1(I.intcmp(s2, x, y, w, p))))
    return out


def addr_split(st, x):
    """x = address of some point inside (or one past) a region -> the region id"""
    b = None
    for s, k in x[1]:
        if s in Syms.base:
            if b is not None or k != 1:
                return None
            b = s
    if b is None:
        return None
    rid = Syms.base[b]
    r = st.mem.get(rid)
    if r is None:
        return None
    off = lsub(x, ls(b))
    if st.store.entails_ge(off) and st.store.entails_ge(lsub(r.size, off)):
        return rid
    return None


def intcmp(I, st, x, y, w, p):
    if w == 64 and x[1] and y[1] and p[0] != "s":
        x, y = st.store.norm(x), st.store.norm(y)
        a = addr_split(st, x)
        b = addr_split(st, y) if a is not None else None
        if b is not None and a != b:
            if p in ("eq", "ne"):
                return p == "ne"
            lt = ("ord", a, b) if a < b else ("not", ("ord", b, a))
            return lt if p[1:] in ("lt", "le") else cnot(lt)
    if p in ("eq", "ne"):
        d = st.store.norm(lsub(x, y))
        if isc(d):
            r = d[0] == 0
            return r if p == "eq" else not r
        I.note_cmp(d)
        return (p, d)
    if p[0] == "s":
        x = I.sview(st, x, w)
        y = I.sview(st, y, w)
    d = st.store.norm(lsub(x, y))
    I.note_cmp(d)
    q = p[1:]
    if q == "ge":
        L = d
    elif q == "gt":
        L = laddc(d, -1)
    elif q == "le":
        L = lneg(d)
    else:
        L = laddc(lneg(d), -1)
    if isc(L):
        return L[0] >= 0
    return ("ge", L)


Interp.intcmp = intcmp


def note_cmp(I, d):
    if I.cmpcap is not None:
        I.cmpcap.append(d)


Interp.note_cmp = note_cmp


def ptrcmp(I, st, a, b, p):
    if a[0] == "o":
        a = I.to_ptr(st, a)
    if b[0] == "o":
        b = I.to_ptr(st, b)
    if a[0] == "F" or b[0] == "F":
        eq = a == b
        if p == "eq":
            return eq
        if p == "ne":
            return not eq
        raise Unsupported("fn cmp")
    if a[0] == "i":
        a = I.int_ptr(st, a[2])
    if b[0] == "i":
        b = I.int_ptr(st, b[2])
    if a[0] != "p" or b[0] != "p":
        raise Unsupported("ptrcmp %s %s" % (a[0], b[0]))
    if a[1] == b[1]:
        w = 64
        d = st.store.norm(lsub(a[2], b[2]))
        I.note_cmp(d)
        q = p if p in ("eq", "ne") else p[1:]
        if q in ("eq", "ne"):
            if isc(d):
                return (d[0] == 0) == (q == "eq")
            return (q, d)
        L = {"ge": d, "gt": laddc(d, -1), "le": lneg(d), "lt": laddc(lneg(d), -1)}[q]
        return (L[0] >= 0) if isc(L) else ("ge", L)
    if a[1] == 0 or b[1] == 0:
        # null against an object: different, and smaller
        if p == "eq":
            return False
        if p == "ne":
            return True
        q = p[1:]
        if a[1] == 0:
            return q in ("lt", "le")
        return q in ("gt", "ge")
    if p == "eq":
        return False
    if p == "ne":
        return True
    # relational between different objects: they do not overlap (nor touch), so only their order matters
    lt = ("ord", a[1], b[1]) if a[1] < b[1] else ("not", ("ord", b[1], a[1]))
    return lt if p[1:] in ("lt", "le") else cnot(lt)


Interp.ptrcmp = ptrcmp


@op("zext")
def _zext(I, st, env, i):
    v = I.val(st, env, i["ops"][0])
    w = i["ty"][1]
    if v[0] == "u":
        return [(st, v)]
    return [(s, ("i", w, L)) for s, L in concretise(I, st, v, i["oty"][1])]


@op("sext")
def _sext(I, st, env, i):
    v = I.val(st, env, i["ops"][0])
    w, ow = i["ty"][1], i["oty"][1]
    if v[0] == "u":
        return [(st, v)]
    if ow == 1:
        t, fa = I.decide(st, I.tocond(st, v))
        return [(s, ("i", w, lc((1 << w) - 1))) for s in t] + [(s, ("i", w, ZERO)) for s in fa]
    L = I.as_int(st, v, ow)
    s = I.sview(st, L, ow)
    if I.inrange(st, s, 0, (1 << ow) - 1):
        return [(st, ("i", w, s))]
    # s = L - q*2^ow  ->  unsigned w-bit: L + q*(2^w - 2^ow)
    d = lsub(L, s)       # q * 2^ow
    k = (1 << w) - (1 << ow)
    ext = (d[0] // (1 << ow) * k, tuple((a, b // (1 << ow) * k) for a, b in d[1]))
    return [(st, ("i", w, st.store.norm(ladd(L, ext))))]


@op("trunc")
def _trunc(I, st, env, i):
    v = I.val(st, env, i["ops"][0])
    w, ow = i["ty"][1], i["oty"][1]
    if v[0] == "u":
        return [(st, v)]
    out = []
    if w == 1:
        if v[0] == "b":
            return [(st, v)]
        return [(st, I1(("ne", I.mod(st, I.as_int(st, v, ow), 2, ow))))]
    for s, L in concretise(I, st, v, ow):
        out.append((s, ("i", w, I.mod(s, L, 1 << w, ow))))
    return out


@op("ptrtoint")
def _p2i(I, st, env, i):
    v = I.val(st, env, i["ops"][0])
    if v[0] == "u":
        return [(st, v)]
    if v[0] == "o":
        return [(st, v)]
    return [(st, ("i", i["ty"][1], I.as_int(st, v, 64)))]


@op("inttoptr")
def _i2p(I, st, env, i):
    v = I.val(st, env, i["ops"][0])
    return [(st, I.to_ptr(st, v))]


@op("bitcast")
def _bc(I, st, env, i):
    return [(st, I.val(st, env, i["ops"][0]))]


@op("freeze")
def _freeze(I, st, env, i):
    v = I.val(st, env, i["ops"][0])
    if v[0] == "u":
        v = I.fresh(st, i["ty"], "freeze")
    return [(st, v)]


@op("select")
def _select(I, st, env, i):
    c = I.val(st, env, i["ops"][0])
    a = I.val(st, env, i["ops"][1])
    b = I.val(st, env, i["ops"][2])
    if c[0] == "u":
        I.fail(st, "uninit", "selection on an uninitialised value")
        return []
    cc = I.tocond(st, c)
    if i["ty"] == ["i", 1] and a[0] in ("b", "i") and b[0] in ("b", "i"):
        ca, cb = I.tocond(st, a), I.tocond(st, b)
        return [(st, I1(cbool("or", cbool("and", cc, ca), cbool("and", cnot(cc), cb))))]
    if a == b:
        return [(st, a)]
    t, fa = I.decide(st, cc)
    return [(s, a) for s in t] + [(s, b) for s in fa]


@op("extractvalue")
def _ev(I, st, env, i):
    v = I.val(st, env, i["ops"][0])
    for k in i["idx"]:
        if v[0] == "u":
            return [(st, v)]
        if v[0] == "o":
            raise Unsupported("extractvalue of loaded aggregate")
        v = v[1][k]
    return [(st, v)]


@op("insertvalue")
def _iv(I, st, env, i):
    v = I.val(st, env, i["ops"][0])
    x = I.val(st, env, i["ops"][1])

    def ins(v, idx, ty):
        if v[0] == "u":
            v = ("agg", tuple(("u",) for _ in (ty[2] if ty[0] == "s" else range(ty[2]))))
        l = list(v[1])
        if len(idx) == 1:
            l[idx[0]] = x
        else:
            l[idx[0]] = ins(l[idx[0]], idx[1:], ty[2][idx[0]][1])
        return ("agg", tuple(l))
    return [(st, ins(v, i["idx"], i["ty"]))]


@op("landingpad")
def _lp(I, st, env, i):
    exc = st.exc
    sel = 0
    for kind, cl in i["clauses"]:
        if kind != "catch":
            continue
        if cl[0] == "n":
            sel = 1000
            break
        if cl[0] == "g" and I.exc_match(exc, cl[1]):
            sel = I.tid(cl[1])
            break
    r = I.new_region(st, "exc", lc(16), "exception")
    r2 = st.mem[r.rid].clone()
    r2.segs = ((ZERO, lc(16), ("byt", Arrays.new("exc"), ZERO)),)
    st.mem[r.rid] = r2
    st.ghost["excrid"] = r.rid
    return [(st, ("agg", (("p", r.rid, ZERO), ("i", 32, lc(sel)))))]


BASES = {
    "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
    "_ZTISt12length_error": ["_ZTISt11logic_error"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
    "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
    "_ZTISt8bad_cast": ["_ZTISt9exception"],
    "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"],
}


def exc_match(I, exc, cl):
    w = [exc]
    while w:
        x = w.pop()
        if x == cl:
            return True
        w.extend(BASES.get(x, ()))
    return False


Interp.exc_match = exc_match


def tid(I, name):
    return I.tinfo.setdefault(name, len(I.tinfo) + 1)


Interp.tid = tid


@op("atomicrmw")
def _rmw(I, st, env, i):
    p = I.val(st, env, i["ops"][0])
    v = I.val(st, env, i["ops"][1])
    p = I.to_ptr(st, p)
    w = i["ty"][1]
    out = []
    for s, old in I.load(st, p, i["size"], i["ty"]):
        if old[0] == "u":
            I.fail(s, "uninit", "atomic update of uninitialised memory")
            continue
        x = I.as_int(s, old, w)
        y = I.as_int(s, v, w)
        k = i["rmw"]
        if k == "add":
            rs = _add(I, s, x, y, w, i)
        elif k == "sub":
            rs = _sub(I, s, x, y, w, i)
        elif k == "xchg":
            rs = [(s, y)]
        else:
            rs = [(s, I.sym(s, "rmw", w, True))]
        for s2, z in rs:
            for s3 in I.store_val(s2, p, ("i", w, z), i["size"], i["ty"]):
                out.append((s3, ("i", w, x)))
    return out


@op("fence")
def _fence(I, st, env, i):
    return [(st, None)]


@op("cmpxchg")
def _cx(I, st, env, i):
    raise Unsupported("cmpxchg")


def _fl(I, st, env, i):
    return [(st, I.fresh(st, i["ty"], "float"))]


for _n in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "fcmp"):
    OPS[_n] = _fl
