"""Contracts of the Elias-Fano vector. The vector stands for an ascending sequence V(0..n) of numbers relative to its
smallest element, V(k) = U(k) * 2^w + L(k); C(h) is the number of elements with upper part below h. The rank/select
vector and the bit vector inside stand for their contracts on U, L and C, and a query is decided against R, the number
of elements not above (below) it."""
from lin import *
from eng import Giveup, cnot, cand, cor, prim, Outcome
from contracts import Run, Rules, Result
from models import none, some
from rules_bitvec import BitVecRules, setup, ge, lt, eq, BV
from rules_rsvec import setup_rs, RS
from rules_iter import IterRules, TRAIT, REQUIRED, METHODS

EF = "elias_fano::EliasFanoVec"
W = (1 << 64) - 1
SIZE = 1 << 58
QUERIES = ["len", "is_empty", "get", "select", "get_unchecked", "delta", "predecessor", "predecessor_unchecked", "successor", "successor_unchecked", "rank"]


def width(n, bound):
    """the number of lower bits the construction chooses"""
    log = lambda x: (x - 1).bit_length()
    return max(log(max(bound, 2)), log(n + 2)) - log(max(n, 2))


class Shape:
    """one particular sequence and query: undecided obligations are looked at again with constants, which can only
    confirm violations"""

    def __init__(self, uz, vals):
        self.uz, self.vals = uz, vals
        self.w = width(len(vals), vals[-1])
        self.q = None

    def queries(self, name):
        n, top = len(self.vals), self.uz + self.vals[-1]
        if not name.startswith(("pred", "succ", "rank")):
            return [0] if name in ("len", "is_empty") else sorted(q for q in {0, 1, 2, n // 2, n - 2, n - 1, n, n + 1, W} if q >= 0 and (name != "get_unchecked" or q < n))
        qs = {0, W}
        for v in self.vals:
            qs |= {self.uz + v - 1, self.uz + v, self.uz + v + 1}
        return sorted(q for q in qs if 0 <= q <= W and not (name == "predecessor_unchecked" and q < self.uz) and not (name == "successor_unchecked" and q > top))

    def __str__(self):
        return "sequence %s, argument %s" % ([self.uz + v for v in self.vals], self.q)


def shapes():
    blk = [1, 3, 4, 4, 4, 4, 7, 8, 9, 11, 11, 11, 12, 14]
    out = [(0, [0]), (9, [0]), (0, [0, 5]), (7, [0, 0, 0, 0, 0, 0, 0, 0, 0]), (0, list(range(12))), (3, [0, 64, 128, 192, 400, 1000]),
           (5, [0] + [128 + x for x in blk] + [240, 250]), (0, blk and [0] + [x - 1 for x in blk] + [600]), (1, [0, 30] + [512 + x for x in blk]),
           (2, [0, 1, 2, 3, 3, 3, 3, 3, 3, 5, 90]), (0, [0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1]), (1 << 63, [0, 1 << 61, (1 << 62) + 5, (1 << 63) - 1]), (0, [0, (1 << 63) + 7, W]),
           (11, [0, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 3000]), (0, [0, 1000, 1002, 1004, 1006, 1008, 3000]), (0, [0, 8, 1000, 1002, 1004, 1006, 1008, 1010, 1012, 1014, 1016, 4000])]
    # one block of values with the same upper part, of every size around the limits of the search, and its neighbours
    for size in range(1, 12):
        for lows in ([2 * i + 1 for i in range(size)], [9] * size, [4] * (size // 2) + [20] * (size - size // 2), [0] * (size - 1) + [31], [0] + [31] * (size - 1)):
            for before, after in (([0, 30, 31], [1, 2]), ([0], []), ([0, 0, 31, 31], [0, 0, 0])):
                n = len(before) + size + len(after) + 1
                last = (1 << (5 + (n - 1).bit_length())) - 1
                for h in (1, 3):
                    out.append((6, before + [h * 32 + x for x in lows] + [(h + 1) * 32 + x for x in after] + [last]))
    return [Shape(*x) for x in out]


class Given:
    """the terms of class Seq for one particular sequence"""
    H = None

    def __init__(self, shape):
        self.vals, self.w = shape.vals, shape.w
        self.n, self.ll, self.uz, self.umax, self.pw = K(len(self.vals)), K(self.w), K(shape.uz), K(shape.uz + self.vals[-1]), K(1 << self.w)

    def at(self, k):
        k = k.const()
        if k is None or not 0 <= k < len(self.vals):
            raise Giveup("element index")
        return self.vals[k]

    def U(self, k):
        return K(self.at(k) >> self.w)

    def L(self, k):
        return K(self.at(k) & ((1 << self.w) - 1))

    def V(self, k):
        return K(self.at(k))

    def C(self, h):
        if h.const() is None:
            raise Giveup("upper part")
        return K(sum(1 for v in self.vals if v >> self.w < h.const()))

    def hi(self, x):
        return K(x.const() >> self.w)

    def lo(self, x):
        return K(x.const() & ((1 << self.w) - 1))

    def mult(self, a, x):
        a, x = a.const(), x.const()
        return None if a is None or x is None else K(0) if a == 0 and x == 0 else K(a // x) if x and a % x == 0 else None

    def target(self, q, strict):
        self.q, self.strict = q, strict
        self.H = self.hi(q) if q.const() >= 0 else None
        self.R = K(sum(1 for v in self.vals if v < q.const() or v == q.const() and not strict))
        return self.R

    def basics(self):
        return []


class Seq:
    """the sequence and what is known about it"""

    def __init__(self, E, n, ll, uz, umax):
        self.E, self.n, self.ll, self.uz, self.umax = E, n, ll, uz, umax
        self.pw = E.pow2(ll)
        self.H = None
        self.busy = False
        E.CONG = dict(E.CONG, efU=(1,), efL=(1,), efC=(1,))
        for nm, f in (("efU", self.U), ("efL", self.L), ("efC", self.C)):
            E.ghosts[nm] = lambda E, key, sub, cmap, f=f: f(E.subst_atoms(key[1], sub, cmap))
        E.axioms = list(E.axioms) + [self.axioms]
        E.model_checks = list(E.model_checks) + [self.model]
        for nm in ("shl", "shr", "band", "bor"):
            setattr(E, nm, lambda st, a, b, bits, nm=nm, old=getattr(E, nm): self.word_op(nm, old, st, a, b, bits))

    # ------------------------------------------------------------------ terms
    def U(self, k):
        return self.E.uf("efU", (k,), 0, SIZE)

    def L(self, k):
        return self.E.uf("efL", (k,), 0, W, lambda x: [lt(x, self.pw)])

    def C(self, h):
        if h.const() == 0:
            return K(0)
        return self.E.uf("efC", (h,), 0, SIZE, lambda x: [ge(self.n, x)])

    def V(self, k):
        return self.E.mul(self.U(k), self.pw).add(self.L(k))

    def hi(self, x):
        """x >> w"""
        self.split(x)
        return Lin(0, ((AT.find(("efhi", x)), 1),))

    def lo(self, x):
        self.split(x)
        return Lin(0, ((AT.find(("eflo", x)), 1),))

    def split(self, x):
        if AT.find(("efhi", x)) is not None:
            return
        h = self.E.uf("efhi", (x,), 0, W)
        l = self.E.uf("eflo", (x,), 0, W)
        fs = [f for f in map(prim, [eq(self.E.mul(h, self.pw).add(l), x), lt(l, self.pw)]) if f is not True]
        AT.facts[h.t[0][0]] = fs
        AT.facts[l.t[0][0]] = fs

    def target(self, q, strict):
        """R: the number of elements <= q (< q if strict)"""
        self.q, self.strict = q, strict
        self.H = self.hi(q)
        self.R = self.E.uf("efR", (q, strict), 0, SIZE, lambda x: [ge(self.n, x)])
        return self.R

    def basics(self):
        n = self.n
        return [ge(n, K(1)), ge(K(SIZE), n), ge(K(63), self.ll), ge(self.ll, K(0)), eq(self.V(K(0)), K(0)), eq(self.U(K(0)), K(0)), eq(self.umax, self.uz.add(self.V(n.addc(-1)))), ge(K(W), self.umax),
                ge(K(SIZE), self.U(n.addc(-1)).add(n)), ge(K(SIZE), self.E.mul(n, self.ll))]

    def mult(self, a, x):
        """a / x for a multiple a of the atom x, or None"""
        xa = x.t[0][0]
        r = K(a.c) if a.c == 0 else None
        if r is None:
            return None
        for t, k in a.t:
            if t == xa:
                r = r.addc(k)
                continue
            key = AT.key[t]
            if key[0] != "mono" or xa not in key[1]:
                return None
            fs = list(key[1])
            fs.remove(xa)
            m = K(1)
            for f in fs:
                m = self.E.mul(m, Lin(0, ((f, 1),)))
            r = r.add(m.scale(k))
        return r

    def word_op(self, nm, old, st, a, b, bits):
        E = self.E
        if bits == 64:
            if nm in ("shl", "shr") and b == self.ll:
                if nm == "shr":
                    return self.hi(a)
                m = E.mul(a, self.pw)
                if a.const() != 1 and E.entails(st, ge(K(W), m)):
                    return m
            if nm == "band":
                for x, y in ((a, b), (b, a)):
                    if y.addc(1) == self.pw:
                        return self.lo(x)
            if nm == "bor":
                for x, y in ((a, b), (b, a)):
                    if x.t and self.mult(x, self.pw) is not None and E.entails(st, lt(y, self.pw)):
                        return x.add(y)
        return old(st, a, b, bits)

    # ------------------------------------------------------------------ facts
    def axioms(self, E, st, atoms, query):
        if self.busy:
            return []
        keys = [AT.key[a] for a in sorted(atoms)]
        ks = list(dict.fromkeys(k[1] for k in keys if k[0] in ("efU", "efL")))
        hs = list(dict.fromkeys(k[1] for k in keys if k[0] == "efC"))
        ks = list(dict.fromkeys(ks + [AT.key[a][1] for h in hs for a, _ in h.t if AT.key[a][0] == "efU"]))
        mono = {}
        pwa, lla = self.pw.t[0][0] if self.pw.t else None, self.ll.t[0][0] if self.ll.t else None
        for a in atoms:
            k = AT.key[a]
            if k[0] == "mono":
                for x in (pwa, lla):
                    if x is not None and x in k[1] and len(k[1]) == 2:
                        f = list(k[1])
                        f.remove(x)
                        mono.setdefault(x, []).append((Lin(0, ((f[0], 1),)), Lin(0, ((a, 1),))))
        if not ks and not hs and not mono:
            return []
        if self.H is not None and ks:
            hs = list(dict.fromkeys(hs + [self.H, self.H.addc(1)]))
        if pwa is not None and (mono.get(pwa) or any(k[0] == "efL" for k in keys)):
            l = mono.setdefault(pwa, [])
            for u in [self.U(k) for k in ks] + ([self.H] if self.H is not None else []):
                e = (u, E.mul(u, self.pw))
                if e not in l:
                    l.append(e)
        self.busy = True
        try:
            return self.saturate(E, st, query, ks, hs, mono, pwa)
        finally:
            self.busy = False

    def saturate(self, E, st, query, ks, hs, mono, pwa):
        n = self.n
        terms = ks + hs + [self.U(k) for k in ks] + [self.C(h) for h in hs] + [n] + ([self.R, self.H] if self.H is not None else [])
        cone = {("ge", x.addc(1 << 100)) for x in terms if x.t}
        base, _ = E.closure(st, [f for f in query if f[0] != "ne"] + sorted(cone, key=str), False)
        if base is None:
            return [("ge", K(-1))]
        base = [f for f in base if f not in cone]
        value = {a for x in (self.uz, self.umax) for a, _ in x.t}
        kinds = ("mono", "pow2", "efL", "eflo")

        def isval(l):
            return any(a in value or AT.key[a][0] in kinds for a, _ in l.t)

        small = [f for f in base if not isval(f[1])]
        have = set(base)
        out = []
        memo = {}

        def yes(f):
            f = prim(f)
            if isinstance(f, bool):
                return f
            if f in have:
                return True
            r = memo.get(f)
            if r is None or r is not True and r != len(out):
                l = base if isval(f[1]) else small
                r = all(infeasible(l + [g]) for g in negate(f)) or len(out)
                memo[f] = r
            return r is True

        def add(*fs):
            for f in map(prim, fs):
                if f is False:
                    f = ("ge", K(-1))
                if f is not True and f not in have:
                    have.add(f)
                    out.append(f)
                    base.append(f)
                    if not isval(f[1]):
                        small.append(f)

        for _ in range(5):
            before = len(out)
            for i, k1 in enumerate(ks):
                for k2 in ks[:i]:
                    if yes(ge(k1, k2)):
                        add(ge(self.U(k1), self.U(k2)), ge(self.V(k1), self.V(k2)))
                    if yes(ge(k2, k1)):
                        add(ge(self.U(k2), self.U(k1)), ge(self.V(k2), self.V(k1)))
            for i, h1 in enumerate(hs):
                add(ge(self.C(h1), K(0)), ge(n, self.C(h1)))
                for h2 in hs[:i]:
                    if yes(ge(h1, h2)):
                        add(ge(self.C(h1), self.C(h2)))
                    elif yes(ge(h2, h1)):
                        add(ge(self.C(h2), self.C(h1)))
            for k in ks:
                for h in hs:
                    if yes(ge(k, self.C(h))) or yes(ge(self.U(k), h)):
                        add(ge(k, self.C(h)), ge(self.U(k), h))
                    elif yes(lt(k, self.C(h))) or yes(lt(self.U(k), h)):
                        add(lt(k, self.C(h)), lt(self.U(k), h))
            for k in ks:
                if yes(lt(k, n)):
                    add(ge(self.umax, self.V(k).add(self.uz)), ge(K(SIZE), self.U(k).add(n)))
            if self.H is not None:
                R, q = self.R, self.q
                for k in ks:
                    below = lt(self.V(k), q) if self.strict else ge(q, self.V(k))
                    big = ge(self.V(k), q) if self.strict else lt(q, self.V(k))
                    if yes(lt(k, R)) or yes(below):
                        add(lt(k, R), below)
                    elif yes(ge(k, R)) or yes(big):
                        add(ge(k, R), big)
                for h in hs:
                    if yes(ge(self.H, h)):
                        add(ge(R, self.C(h)))
                    elif yes(lt(self.H, h)):
                        add(ge(self.C(h), R))
            for x, l in mono.items():
                step = Lin(0, ((x, 1),))
                for i, (a, ma) in enumerate(l):
                    for b, mb in l[:i]:
                        for a1, m1, b1, m2 in ((a, ma, b, mb), (b, mb, a, ma)):
                            if yes(lt(b1, a1)):
                                add(ge(m1, m2.add(step)))
                            elif yes(ge(a1, b1)):
                                add(ge(m1, m2))
                    if yes(ge(a, K(1))):
                        add(ge(ma, step))
            if self.ll.t:
                for f in query:
                    part = Lin(0, f[1].t)
                    e = self.mult(part, self.ll)
                    if e is None or len(part.t) < 2:
                        continue
                    for e, part in ((e, part), (e.neg(), part.neg())):
                        if yes(ge(e, K(0))):
                            add(ge(part, K(0)))
                        if yes(ge(n, e)):
                            add(ge(E.mul(n, self.ll), part))
            if len(out) == before:
                break
        return out

    def model(self, m, seen):
        """the valuation is that of some ascending sequence"""
        n, pw = m.lin(self.n), 1 << m.lin(self.ll)
        if n == 0:
            return True
        if m.lin(self.ll) != width(n, m.lin(self.umax) - m.lin(self.uz)):
            return False
        lo, hi = {0: 0}, {0: 0}

        def at(i, l, h):
            lo[i] = max(lo.get(i, 0), l)
            hi[i] = min(hi.get(i, W), h)

        at(n - 1, m.lin(self.umax) - m.lin(self.uz), m.lin(self.umax) - m.lin(self.uz))
        U, L = {}, {}
        for a in seen:
            k = AT.key[a]
            if k[0] == "efU":
                i = m.lin(k[1])
                if U.setdefault(i, m.atom(a)) != m.atom(a):
                    return False
            elif k[0] == "efL":
                i = m.lin(k[1])
                if L.setdefault(i, m.atom(a)) != m.atom(a):
                    return False
            elif k[0] == "efC":
                h, c = m.lin(k[1]), m.atom(a)
                if c > n or h < 0 and c:
                    return False
                if c >= 1:
                    at(c - 1, 0, h * pw - 1)
                if c < n:
                    at(c, h * pw, W)
            elif k[0] == "efR":
                q, c = m.lin(k[1]), m.atom(a)
                if c > n:
                    return False
                if c >= 1:
                    at(c - 1, 0, q - 1 if k[2] else q)
                if c < n:
                    at(c, q if k[2] else q + 1, W)
            elif k[0] in ("efhi", "eflo"):
                x = m.lin(k[1])
                if m.atom(a) != (x // pw if k[0] == "efhi" else x % pw):
                    return False
        for i, u in U.items():
            if not 0 <= i < n:
                continue
            l = L.get(i)
            at(i, u * pw + (l or 0), u * pw + (pw - 1 if l is None else l))
        for i, l in L.items():
            if 0 <= i < n and i not in U:
                # some upper part must fit
                b = -(-(lo.get(i, 0) - l) // pw)
                at(i, b * pw + l, W)
        top = 0
        for i in sorted(lo):
            if i >= n:
                return False
            top = max(top, lo[i])
            if top > hi[i]:
                return False
        return True


class EfRules(BitVecRules):
    prefix = EF + "::"
    keys = {}

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)
        self.s = setup_rs(ctx.p)

    @staticmethod
    def names():
        return QUERIES

    shape = None

    def run(self, name, fn=None):
        Rules.run(self, name, lambda key: self.query(key, name), lambda key: self.confirm(key, name))

    def confirm(self, key, name):
        for s in shapes():
            for q in s.queries(name):
                s.q = q
                self.shape = s
                try:
                    self.query1(key, name, "full")
                except Giveup:
                    pass
                finally:
                    self.shape = None

    # ------------------------------------------------------------------ the inner vectors by contract
    def install(self, E, seq, outer=False):
        p = self.ctx.p
        names = {}
        for f in ("select0", "select1", "get_unchecked", "get", "is_bit_set_unchecked", "is_bit_set", "len"):
            k = p.find(RS + "::" + f)
            if k:
                names[k] = "u:" + f
        for f in ("get_bits_unchecked", "get_bits", "unpack_element_unchecked", "unpack_element"):
            k = p.find(BV + "::" + f)
            if k:
                names[k] = "l:" + f
        if outer:
            for f in ("predecessor_unchecked", "successor_unchecked"):
                k = p.find(EF + "::" + f)
                if k:
                    names[k] = "s:" + f
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            k = names.get(callee.get("inst")) or names.get(callee.get("rpath", callee["path"]))
            if k is None:
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            side, f = k.split(":")
            bad = lambda s, why: Outcome("panic", s, None, (why, E.site(body, line)))
            N = seq.U(seq.n.addc(-1)).add(seq.n).addc(2)
            if f == "len":
                return [Outcome("ret", st, ("int", N))]
            x = args[1][1]
            if side == "s":
                uz = seq.uz
                if x.sub(uz) != seq.q or seq.strict == f.startswith("pred"):
                    raise Giveup("search for another value")
                if f.startswith("pred"):
                    return [bad(s, "search below the smallest element") for s in E.assume(st, lt(x, uz))] + \
                           [Outcome("ret", s, ("int", uz.add(seq.V(seq.R.addc(-1))))) for s in E.assume(st, ge(x, uz))]
                return [bad(s, "search above the largest element") for s in E.assume(st, lt(seq.umax, x))] + \
                       [Outcome("ret", s, ("int", uz)) for s in E.assume(st, lt(x, uz))] + \
                       [Outcome("ret", s2, ("int", uz.add(seq.V(seq.R)))) for s in E.assume(st, ge(x, uz)) for s2 in E.assume(s, ge(seq.umax, x))]
            if side == "u":
                if f == "select1":
                    return [Outcome("ret", s, ("int", seq.U(x).add(x).addc(1))) for s in E.assume(st, lt(x, seq.n))] + [Outcome("ret", s, ("int", N)) for s in E.assume(st, ge(x, seq.n))]
                if f == "select0":
                    top = seq.U(seq.n.addc(-1)).addc(1)
                    return [Outcome("ret", s, ("int", seq.C(x).add(x))) for s in E.assume(st, ge(top, x))] + [Outcome("ret", s, ("int", N)) for s in E.assume(st, lt(top, x))]
                out = []
                for s in E.assume(st, ge(x, N)):
                    out.append(bad(s, "bit read behind the end") if f.endswith("unchecked") else Outcome("ret", s, none(dty)))
                for s in E.assume(st, lt(x, N)):
                    for s1, bit in self.upper_bit(E, seq, s, x):
                        v = ("bool", bool(bit)) if "is_bit" in f else ("int", K(bit))
                        out.append(Outcome("ret", s1, v if f.endswith("unchecked") else some(dty, v)))
                return out
            if args[2][1] != seq.ll:
                raise Giveup("read of another width")
            if f.startswith("get"):
                k = seq.mult(x, seq.ll)
                if k is None:
                    raise Giveup("read at " + show(x))
            else:
                k = x
            out = [Outcome("ret", s, ("int", seq.L(k)) if f.endswith("unchecked") else some(dty, ("int", seq.L(k)))) for s in E.assume(st, lt(k, seq.n))]
            for s in E.assume(st, ge(k, seq.n)):
                out.append(bad(s, "lower bits read behind the end") if f.endswith("unchecked") else Outcome("ret", s, none(dty)))
            return out

        E.on_call = on_call

    def upper_bit(self, E, seq, st, p):
        """[(state, bit)]: between the zeros number h and h + 1 lie the elements with upper part h"""
        if isinstance(seq, Given):
            if p.const() is None:
                raise Giveup("position")
            return [(st, int(any((v >> seq.w) + k + 1 == p.const() for k, v in enumerate(seq.vals))))]
        hs = [seq.H] if seq.H is not None else []
        for f in st.cons:
            for a, _ in f[1].t:
                if AT.key[a][0] in ("efU", "efhi") and Lin(0, ((a, 1),)) not in hs:
                    hs.append(Lin(0, ((a, 1),)))
                if AT.key[a][0] == "efC" and AT.key[a][1] not in hs:
                    hs.append(AT.key[a][1])
        for a, _ in p.t:
            if AT.key[a][0] == "efU":
                hs.insert(0, Lin(0, ((a, 1),)))
        for h in hs:
            e = p.sub(h).addc(-1)
            c0, c1 = seq.C(h), seq.C(h.addc(1))
            if E.entails(st, ge(c1, e)) and E.entails(st, ge(e, c0.addc(-1))):
                out = [(s, 0) for s in E.assume(st, eq(e, c1))]
                out += [(s, 0) for s in E.assume(st, eq(e, c0.addc(-1)))]
                out += [(s2, 1) for s in E.assume(st, ge(e, c0)) for s2 in E.assume(s, lt(e, c1))]
                return out
        # unknown (loops are first entered with unknown cursors)
        b = atom(("call", "upper bit", p), 0, 1)
        return [(s, 1) for s in E.assume(st, eq(b, K(1)))] + [(s, 0) for s in E.assume(st, eq(b, K(0)))]

    def cands(self, seq):
        def cands(E, entry, H, mapping):
            out = []
            if seq.H is None:
                return out
            h, R, lq = seq.H, seq.R, seq.lo(seq.q)
            c0, c1 = seq.C(h), seq.C(h.addc(1))
            xs = [E.get_leaf(H, l)[1] for l, (c, v) in mapping.items() if v[0] == "int" and c[0] == "int"]
            for x in xs:
                out += [ge(K(3), x), ge(K(4), x), ge(x, K(-3)), ge(x, K(-4)), ge(c1, x), ge(c1.addc(-1), x), ge(x, c0), ge(R, x), ge(R.addc(-1), x), ge(x, R), ge(x.addc(1), R), ge(c1, c0.add(x)), ge(c1.addc(-1), c0.add(x)), ge(c1.add(x).addc(-1), c0), ge(c1.add(x), c0),
                        lt(x, lq), ge(lq, x), lt(lq, x), ge(x, lq), ge(R, c0.add(x)), ge(c1.add(x), R), ge(c1.add(x).addc(-1), R)]
                for y in xs:
                    if y is not x:
                        out.append(ge(x, y.addc(1)))
                        for d in (0, 1, -1):
                            out += [eq(x, seq.L(y.addc(d))), eq(x, seq.L(c0.add(y).addc(d))), eq(x, seq.L(c1.add(y).addc(d)))]
                out += [eq(seq.L(x), lq)]
            return out
        return cands

    # ------------------------------------------------------------------ the queries
    def fields(self, E, v):
        fs = {x["n"]: i for i, x in enumerate(E.T[v[1]]["variants"][0]["f"])}
        if set(fs) != {"upper_vec", "lower_vec", "universe_zero", "universe_max", "lower_len", "len"}:
            raise Giveup("fields of the Elias-Fano vector")
        return {n: v[3][i] for n, i in fs.items()}

    def query(self, key, name):
        for case in ("empty", "full"):
            self.query1(key, name, case)

    def set(self, r, name, x):
        a = r.args[0]
        v = r.pointee(0)
        i = [f["n"] for f in r.E.T[v[1]]["variants"][0]["f"]].index(name)
        r.E.write(r.st0, a[1], tuple(a[2]) + (("f", i),), ("int", x))

    def query1(self, key, name, case):
        if case == "empty" and name.endswith("unchecked"):
            return
        E = self.engine()
        E.struct_inv = {}
        box = {}
        search = name.startswith(("pred", "succ", "rank"))

        def pre(r):
            v = r.pointee(0)
            f = self.fields(E, v)
            n = f["len"][1]
            if case == "empty":
                return [eq(f[x][1], K(0)) for x in ("len", "universe_zero", "universe_max", "lower_len")]
            if self.shape:
                seq = box["seq"] = Given(self.shape)
                for x, y in (("len", seq.n), ("lower_len", seq.ll), ("universe_zero", seq.uz), ("universe_max", seq.umax)):
                    self.set(r, x, y)
                if len(r.args) > 1:
                    r.args[1] = ("int", K(self.shape.q))
                r.note = str(self.shape)
            else:
                seq = box["seq"] = Seq(E, n, f["lower_len"][1], f["universe_zero"][1], f["universe_max"][1])
            self.install(E, seq, name in ("predecessor", "successor"))
            out = seq.basics()
            if name == "get_unchecked":
                out.append(lt(r.int(1), n))
            if name == "predecessor_unchecked":
                out.append(ge(r.int(1), seq.uz))
            if name == "successor_unchecked":
                out.append(ge(seq.umax, r.int(1)))
            if search:
                q = r.int(1).sub(seq.uz)
                R = seq.target(q, not name.startswith("pred"))
            if search and not self.shape:
                c = seq.C(seq.H) if name.startswith("succ") else seq.C(seq.H.addc(1))
                out.append(cor(eq(c, R), cnot(eq(c, R))) if False else ("or", ge(c.addc(-1), R), ge(R, c)))
                E.loop_cands = [self.cands(seq)]
                E.guard_cands = False
            return out

        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        if case == "empty":
            for o in r.rets():
                v = o.val
                if name in ("len", "rank"):
                    r.prove("an empty vector", o.st, eq(v[1], K(0)))
                elif name == "is_empty":
                    self.boolean(r, o.st, "empty", v, True)
                else:
                    self.opt(r, o.st, v, False)
            return
        seq = box["seq"]
        n, uz = seq.n, seq.uz
        for o in r.rets():
            v = o.val
            if name == "len":
                r.prove("the length", o.st, eq(v[1], n))
            elif name == "is_empty":
                self.boolean(r, o.st, "not empty", v, False)
            elif name == "get_unchecked":
                r.prove("the element at the index", o.st, eq(v[1], uz.add(seq.V(r.int(1)))))
            elif name in ("get", "select", "delta"):
                i = r.int(1)
                for s in E.assume(o.st, ge(i, n)):
                    self.opt(r, s, v, False)
                for s in E.assume(o.st, lt(i, n)):
                    if not self.opt(r, s, v, True):
                        continue
                    x = v[3][0][1]
                    if name != "delta":
                        r.prove("the element at the index", s, eq(x, uz.add(seq.V(i))))
                        continue
                    for s1 in E.assume(s, eq(i, K(0))):
                        r.prove("the first element", s1, eq(x, uz.add(seq.V(i))))
                    for s1 in E.assume(s, ge(i, K(1))):
                        r.prove("the difference to the preceding element", s1, eq(x, seq.V(i).sub(seq.V(i.addc(-1)))))
            else:
                R, q = seq.R, r.int(1)
                if name == "rank":
                    for s in E.assume(o.st, lt(q, uz)):
                        r.prove("nothing lies below the smallest element", s, eq(v[1], K(0)))
                    for s in E.assume(o.st, ge(q, uz)):
                        r.prove("number of smaller elements", s, eq(v[1], R))
                    continue
                pred = name.startswith("pred")
                no = lt(q, uz) if pred else lt(seq.umax, q)
                yes = ge(q, uz) if pred else ge(seq.umax, q)
                checked = not name.endswith("unchecked")
                if checked:
                    for s in E.assume(o.st, no):
                        self.opt(r, s, v, False)
                for s in E.assume(o.st, yes):
                    if checked and not self.opt(r, s, v, True):
                        continue
                    x = (v[3][0] if checked else v)[1]
                    if pred:
                        r.prove("the largest element not above the query", s, eq(x, uz.add(seq.V(R.addc(-1)))))
                    else:
                        for s1 in E.assume(s, lt(q, uz)):
                            r.prove("the smallest element", s1, eq(x, uz))
                        for s1 in E.assume(s, ge(q, uz)):
                            r.prove("the smallest element not below the query", s1, eq(x, uz.add(seq.V(R))))

    def boolean(self, r, st, what, v, want):
        c = r.E.tobool(v)
        for s in r.E.assume(st, c if not want else cnot(c)):
            if not r.E.dead(s):
                return r.fail(what, s)
        r.res(what, "proved")

    def opt(self, r, st, v, want):
        what = "an element is returned" if want else "nothing is returned"
        if v[0] != "agg":
            raise Giveup("shape of the result")
        if (v[2] == 1) == want:
            r.res(what, "proved")
            return True
        if not r.E.dead(st):
            r.fail(what, st)
        return False


SEL = "bit_vec::fast_rs_vec::iter::"
ITER_TYPES = ["elias_fano::EliasFanoIter", "elias_fano::EliasFanoRefIter<'_>"]
ITER_TRAIT = dict(TRAIT, min="std::iter::Iterator", max="std::iter::Iterator")


class EfIterRules(EfRules, IterRules):
    """an iterator is the range [i, j) of elements not yet yielded; its select iterator stands for its contract, the same
    range of ranks; names are <iterator type>|<method>"""

    @staticmethod
    def names():
        return ["%s|%s" % (t, m) for t in ITER_TYPES for m in ITER_TRAIT]

    def key(self, name):
        t, m = name.split("|")
        return "<%s as %s>::%s" % (t, ITER_TRAIT[m], m)

    def run(self, name, fn=None):
        t, m = name.split("|")
        if self.ctx.p.find(self.key(name)) is None and m not in REQUIRED:
            self.ctx.results.append(Result(self.key(name), "default method of the standard library", "proved"))
            return
        Rules.run(self, name, lambda key: self.method(key, m), lambda key: self.confirm(key, m))

    def confirm(self, key, m):
        for s in shapes()[:16]:
            n = len(s.vals)
            for i, j in sorted({(a, b) for a in (0, 1, 2, n // 2, n - 1, n) for b in (0, 1, 2, n // 2, n - 1, n) if 0 <= a <= b <= n}):
                for q in sorted({0, 1, 2, j - i - 1, j - i, j - i + 1, W} - {-1}) if m.startswith("nth") else [0]:
                    self.shape, s.q = s, "%s of the range [%d, %d)" % (q, i, j)
                    self.range = (i, j, q)
                    try:
                        self.method(key, m)
                    except Giveup:
                        pass
                    finally:
                        self.shape = None

    def engine(self):
        return BitVecRules.engine(self)

    def layout(self, ty):
        f = {x["n"]: (i, x["t"]) for i, x in enumerate(self.ctx.p.types[ty]["variants"][0]["f"])}
        if set(f) != {"upper_iter", "vec", "index", "back_index", "lower_len", "universe_zero"}:
            raise Giveup("fields of the iterator")
        inner = f["upper_iter"][1]
        g = {x["n"]: (i, x["t"]) for i, x in enumerate(self.ctx.p.types[inner]["variants"][0]["f"])}
        if "next_rank" not in g or "next_rank_back" not in g:
            raise Giveup("fields of the select iterator")
        return f, g, inner

    @staticmethod
    def upto(b):
        if b[0] != "agg":
            raise Giveup("shape of the back cursor")
        return K(0) if b[2] == 0 else b[3][0][1].addc(1)

    def inner_view(self, v, g):
        if v[0] == "sym":
            v = self.E.sym_struct(v[1], v[2])
        return v[3][g["next_rank"][0]][1], self.upto(v[3][g["next_rank_back"][0]])

    def view(self, v, lay):
        f, g, _ = lay
        return v[3][f["index"][0]][1], self.upto(v[3][f["back_index"][0]])

    def inner_set(self, v, g, i=None, b=None):
        fs = list(v[3])
        if i is not None:
            fs[g["next_rank"][0]] = ("int", i)
        if b is not None:
            fs[g["next_rank_back"][0]] = b
        return v[:3] + (tuple(fs),)

    def with_j(self, E, st, oty, j):
        """[(state, back cursor)] for the range that ends before j"""
        return [(s, none(oty)) for s in E.assume(st, eq(j, K(0)))] + [(s, some(oty, ("int", j.addc(-1)))) for s in E.assume(st, ge(j, K(1)))]

    def install_iter(self, E, seq, g):
        p = self.ctx.p
        names = {}
        for t in ("SelectIter<'_, false>", "SelectIntoIter<false>"):
            for m in METHODS:
                k = p.find("<%s%s as %s>::%s" % (SEL, t, TRAIT[m], m))
                if k:
                    names[k] = m
        for m in ("iter1", "into_iter1"):
            k = p.find(RS + "::" + m)
            if k:
                names[k] = "new"
        orig = E.on_call
        bty = g["next_rank_back"][1]

        def on_call(E, st, callee, args, dty, depth, body, line):
            m = names.get(callee.get("inst")) or names.get(callee.get("rpath", callee["path"]))
            if m is None:
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            if m == "new":
                v = E.sym_struct(E.freshterm("selit"), dty)
                return [Outcome("ret", s, self.inner_set(v, g, K(0), b)) for s, b in self.with_j(E, st, bty, seq.n)]
            a = args[0]
            v = E.read(st, a[1], a[2]) if a[0] == "ref" else a
            i, j = self.inner_view(v, g)
            rem = j.sub(i)
            if m in ("len", "count"):
                return [Outcome("ret", st, ("int", rem))]
            if m == "size_hint":
                oty = E.T[dty]["args"][1] if "args" in E.T[dty] else None
                raise Giveup("size hint of the inner iterator")
            k = args[1][1] if m.startswith("nth") else K(0)
            back = m.endswith("back") or m == "last"
            out = []
            for s in E.assume(st, lt(k, rem)):
                x = j.addc(-1).sub(k) if back else i.add(k)
                val = some(dty, ("int", seq.U(x).add(x).addc(1)))
                if m == "last":
                    out.append(Outcome("ret", s, val))
                elif back:
                    for s1, b in self.with_j(E, s, bty, x):
                        s1 = s1.copy()
                        E.write(s1, a[1], a[2], self.inner_set(v, g, None, b))
                        out.append(Outcome("ret", s1, val))
                else:
                    s = s.copy()
                    E.write(s, a[1], a[2], self.inner_set(v, g, x.addc(1)))
                    out.append(Outcome("ret", s, val))
            for s in E.assume(st, ge(k, rem)):
                if m == "last":
                    out.append(Outcome("ret", s, none(dty)))
                elif back:
                    for s1, b in self.with_j(E, s, bty, i):
                        s1 = s1.copy()
                        E.write(s1, a[1], a[2], self.inner_set(v, g, None, b))
                        out.append(Outcome("ret", s1, none(dty)))
                else:
                    s = s.copy()
                    E.write(s, a[1], a[2], self.inner_set(v, g, j))
                    out.append(Outcome("ret", s, none(dty)))
            return out

        E.on_call = on_call

    def method(self, key, m):
        body = self.ctx.body(key)
        a1 = self.ctx.p.types[body.locals[1]]
        byref = a1["k"] == "ref"
        ty = a1["to"] if byref else body.locals[1]
        lay = self.layout(ty)
        f, g, inner = lay
        for case in ("some", "none"):
            E = self.E = self.engine()
            E.struct_inv = {}
            base = E.sym_struct(("self",), ty)
            b = atom(("back",), 0, W)
            fs = list(base[3])
            if self.shape:
                ri, rj, rq = self.range
                if (rj == 0) != (case == "none"):
                    continue
                b = K(rj - 1)
                for x, y in (("index", ri), ("lower_len", self.shape.w), ("universe_zero", self.shape.uz)):
                    fs[f[x][0]] = ("int", K(y))
            bi = lambda oty: none(oty) if case == "none" else some(oty, ("int", b))
            fs[f["back_index"][0]] = bi(f["back_index"][1])
            iv = fs[f["upper_iter"][0]]
            if iv[0] == "sym":
                iv = E.sym_struct(iv[1], iv[2])
            idx = fs[f["index"][0]][1]
            fs[f["upper_iter"][0]] = self.inner_set(iv, g, idx, bi(g["next_rank_back"][1]))
            val = base[:3] + (tuple(fs),)
            i, j = self.view(val, lay)
            n, umax = atom(("efn",), 0, SIZE), atom(("efmax",), 0, W)
            seq = self.seq = Given(self.shape) if self.shape else Seq(E, n, fs[f["lower_len"][0]][1], fs[f["universe_zero"][0]][1], umax)
            n = seq.n
            self.install(E, seq)
            self.install_iter(E, seq, g)
            root = ("O", ("arg", 0))
            E.root_ty[root] = ty

            def pre(r):
                if byref:
                    r.st0.mem[root] = val
                if self.shape:
                    r.note = str(self.shape)
                    if len(r.args) > 1:
                        r.args[1] = ("int", K(self.range[2]))
                return seq.basics() + [ge(j, i), ge(n, j)]

            r = Run(self.ctx, key, E=E, pre=pre, args={0: ("ref", root, ()) if byref else val})
            r.no_panic()
            rem = j.sub(i)
            for o in r.rets():
                self.inner_post = (lambda o=o: self.inner_view(E.read(o.st, root, ())[3][f["upper_iter"][0]], g)) if byref else None
                self.decide(r, o, "last" if m == "max" else m, i, j, rem, lambda: self.view(E.read(o.st, root, ()), lay))

    def decide(self, r, o, m, i, j, rem, post):
        if m == "min":
            E, v = r.E, o.val
            for s in E.assume(o.st, lt(K(0), rem)):
                if self.opt(r, s, v, True):
                    self.is_item(r, s, "smallest remaining element", v[3][0], i)
            for s in E.assume(o.st, ge(K(0), rem)):
                self.opt(r, s, v, False)
            return
        IterRules.decide(self, r, o, m, i, j, rem, post)

    def is_item(self, r, st, what, v, pos):
        r.prove(what, st, eq(v[1], self.seq.uz.add(self.seq.V(pos))))

    def range_is(self, r, st, what, got, i, j):
        IterRules.range_is(self, r, st, what, got, i, j)
        if self.inner_post:
            gi, gj = self.inner_post()
            for s in r.E.assume(st, lt(i, j)):
                r.prove(what + " (upper parts)", s, eq(gi, i))
                r.prove(what + " (upper parts)", s, eq(gj, j))


    def exhausted(self, r, st, got):
        if self.inner_post is None:
            return IterRules.exhausted(self, r, st, got)
        i, j = self.inner_post()
        if r.E.entails(st, eq(got[0], got[1])) and r.E.entails(st, eq(i, j)):
            return r.res("an exhausted iterator stays exhausted", "proved")
        # the cursors alone do not tell: its own methods do
        IterRules.exhausted(self, r, st, (K(0), K(1)))


class EfIterCtorRules(EfIterRules):
    """a new iterator covers the whole vector"""

    @staticmethod
    def names():
        return [EF + "::iter"] + ["<%s%s as std::iter::IntoIterator>::into_iter" % (x, EF) for x in ("", "&", "&mut ")]

    def key(self, name):
        return name

    def run(self, name, fn=None):
        Rules.run(self, name, lambda key: self.ctor(key))

    def ctor(self, key):
        for case in ("empty", "full"):
            E = self.E = self.engine()
            E.struct_inv = {}
            body = self.ctx.body(key)
            lay = self.layout(body.locals[0])
            f, g, inner = lay
            box = {}

            def pre(r):
                v = r.pointee(0) if r.args[0][0] == "ref" else r.args[0]
                if v[0] == "sym":
                    v = E.sym_struct(v[1], v[2])
                h = box["f"] = self.fields(E, v)
                seq = box["seq"] = Seq(E, h["len"][1], h["lower_len"][1], h["universe_zero"][1], h["universe_max"][1])
                self.install_iter(E, seq, g)
                if case == "empty":
                    return [eq(h[x][1], K(0)) for x in ("len", "universe_zero", "universe_max", "lower_len")]
                return seq.basics()

            r = Run(self.ctx, key, E=E, pre=pre)
            r.no_panic()
            h, seq = box["f"], box["seq"]
            for o in r.rets():
                v = o.val
                i, j = self.view(v, lay)
                what = "a new iterator covers the whole vector"
                for gi, gj in ((i, j), self.inner_view(v[3][f["upper_iter"][0]], g)):
                    r.prove(what, o.st, eq(gi, K(0)))
                    r.prove(what, o.st, eq(gj, seq.n))
                if case == "full":
                    r.prove(what, o.st, eq(v[3][f["lower_len"][0]][1], seq.ll))
                    r.prove(what, o.st, eq(v[3][f["universe_zero"][0]][1], seq.uz))
