"""Range minimum queries. The table of a binary RMQ stands for its contract: the entry of row s and column c is the distance
from s of a smallest element in [s, s + 2^c). The query is proved from it for an arbitrary third position t; the construction
is proved to fill the table, column by column, with entries that keep it."""
from lin import *
from eng import Giveup, Outcome, prim, negate, K
from contracts import Run, Rules, Result
from rules_bitvec import BitVecRules, setup, ge, lt, eq
from rules_bp import some, none
from models import call_clo

BIN, FAST = "rmq::binary_rmq::BinaryRmq", "rmq::fast_rmq::FastRmq"
TAB = ("init", ("rmqtab",))
CELL = ("G", "filled")
SET = 200  # a bit that is set, while one bit of a pattern is followed


class Table:
    kinds = ("tab", "pow2", "ilog2", "mono")

    def __init__(self, E, data):
        """data: the vector of values"""
        self.E, self.data = E, data
        self.n = n = data[2]
        self.np2 = E.uf("nextpow2", (n,), 1, 1 << 63, lambda l: [("ge", l.sub(n)), ("ge", n.scale(2).sub(l).addc(1))])
        self.z = E.uf("tz", (self.np2, 64), 0, 64)
        self.row = self.z.addc(1)
        self.t = atom(("skolem", "t"), 0, 1 << 32)
        self.busy = False
        E.axioms = list(E.axioms) + [self.axioms]
        E.CONG = dict(E.CONG, tab=(1, 2))
        E.ghosts["tab"] = lambda E, key, sub, cmap: self.v(E.subst_atoms(key[1], sub, cmap), E.subst_atoms(key[2], sub, cmap))

    def basics(self):
        E = self.E
        return [eq(E.pow2(self.z), self.np2), ge(K((1 << 32) - 1), self.n), ge(self.np2, K(1)), ge(K(1 << 32), self.np2), ge(K(32), self.z)]

    def v(self, s, c):
        return self.E.uf("tab", (s, c), 0, (1 << 32) - 1)

    def D(self, st, x):
        return self.E.elem(st, self.data, x)[1]

    def over(self, l, m):
        """l = m * A + rest: A"""
        out = K(0)
        if len(m.t) != 1 or m.c:
            return None
        a = m.t[0][0]
        for x, k in l.t:
            key = AT.key[x]
            if x == a:
                out = out.addc(k)
            elif key[0] == "mono" and a in key[1]:
                fs = list(key[1])
                fs.remove(a)
                q = K(1)
                for f in fs:
                    q = self.E.mul(q, Lin(0, ((f, 1),)))
                out = out.add(q, k)
        return out

    def entry(self, st, idx):
        """row and column of an index"""
        E = self.E
        s = self.over(idx, self.z)
        if s is None:
            raise Giveup("rows of constant length")
        c = idx.sub(s).sub(E.mul(s, self.z))
        for s, c in ((s, c), (s.addc(-1), c.add(self.row))):
            if E.entails(st, ge(c, K(0))) and E.entails(st, ge(self.z, c)) and E.entails(st, ge(s, K(0))) and E.entails(st, lt(s, self.n)):
                return s, c
        return None

    # ------------------------------------------------------------------ axioms
    def axioms(self, E, st, atoms, query):
        if self.busy:
            return []
        deep = set(atoms)
        for a in atoms:
            if AT.key[a][0] == "elt":
                deep |= mentioned(AT.key[a])
        keys = [(a, AT.key[a]) for a in sorted(deep) if AT.key[a][0] in self.kinds]
        if not keys:
            return []
        self.busy = True
        try:
            zs = [x for x in (self.z, self.n) if x.t]
            terms = [self.t, self.n] + zs + [self.np2]
            for a, k in keys:
                terms.append(Lin(0, ((a, 1),)))
                if k[0] == "tab":
                    terms += [k[1], k[2]]
                elif k[0] in ("pow2", "ilog2"):
                    terms.append(k[1])
            qs = [f for f in query if f[0] != "ne"]
            parts = []
            for f in qs:
                for m in zs:
                    A = self.over(f[1], m)
                    if A is not None and A.t:
                        parts.append((A, m))
                        terms.append(A)
            cone = set(map(prim, [("ge", x.addc(1 << 100)) for x in terms if x.t]))
            base, _ = E.closure(st, qs + sorted(cone, key=str), False)
            if base is None:
                return [("ge", K(-1))]
            base = [f for f in base if f not in cone]
            out, have = [], set(base)

            def yes(f):
                f = prim(f)
                if isinstance(f, bool):
                    return f
                return f in have or all(infeasible(base + [g]) for g in negate(f))

            def add(*fs):
                for f in map(prim, fs):
                    if f is False:
                        f = ("ge", K(-1))
                    if f is not True and f not in have:
                        have.add(f)
                        out.append(f)
                        base.append(f)

            for a, k in keys:
                if k[0] == "ilog2" and yes(ge(k[1], K(1))):
                    l = Lin(0, ((a, 1),))
                    p = E.pow2(l)
                    add(ge(k[1], p), lt(k[1], p.scale(2)))
            ps = [(k[1], Lin(0, ((a, 1),))) for a, k in keys if k[0] == "pow2"]
            ps += [(Lin(0, ((a, 1),)), E.pow2(Lin(0, ((a, 1),)))) for a, k in keys if k[0] == "ilog2"]
            if yes(ge(self.n, K(1))):
                add(ge(self.n.scale(2).addc(-1), self.np2))
            if yes(ge(self.n, K(2))):
                add(ge(self.n.scale(2).addc(-2), self.np2))
            if self.z.t:
                ps.append((self.z, E.pow2(self.z)))
                add(eq(E.pow2(self.z), self.np2))
            for x, p in ps:
                for y, q in ps:
                    if x is y or x == y:
                        continue
                    d = x.sub(y)
                    if not d.t:
                        continue
                    if yes(ge(d, K(1))):
                        add(ge(p, q.scale(2)))
                    elif yes(ge(d, K(0))):
                        add(ge(p, q))
                    elif yes(lt(q, p)):
                        add(ge(d, K(1)))
            if self.n.t:
                ms = [(self.over(Lin(0, ((a, 1),)), self.n), Lin(0, ((a, 1),))) for a, k in keys if k[0] == "mono"]
                ms = [(x, m) for x, m in ms if x.t]
                for x, m in ms:
                    for y, q in ms:
                        if m is not q and yes(ge(x, y)):
                            add(ge(m, q))
            for A, m in parts:
                if yes(ge(A, K(0))):
                    add(ge(E.mul(A, m), K(0)))
                    if yes(ge(A, K(1))):
                        add(ge(E.mul(A.addc(-1), m), K(0)))
                if yes(ge(K(0), A)):
                    add(ge(K(0), E.mul(A, m)))
                    if yes(ge(K(-1), A)):
                        add(ge(K(0), E.mul(A.addc(1), m)))
                for b in (1 << 33, 1 << 6):
                    if yes(ge(K(b), A)):
                        add(ge(E.mul(K(b).sub(A), m), K(0)))
            for a, k in keys:
                v = Lin(0, ((a, 1),))
                if k[0] == "tab":
                    s, c = k[1], k[2]
                    p = E.pow2(c)
                    if yes(ge(s, K(0))) and yes(lt(s, self.n)) and yes(ge(c, K(0))) and yes(ge(self.z, c)):
                        add(lt(s.add(v), self.n))
                    else:
                        continue
                    if yes(ge(self.n, s.add(p))):
                        add(lt(v, p))
                        if yes(ge(self.t, s)) and yes(lt(self.t, s.add(p))):
                            add(ge(self.D(st, self.t), self.D(st, s.add(v))))
            return out
        finally:
            self.busy = False


class Blocks:
    """blocks of a fast RMQ: the last zero among the first x bits of a block's prefix (suffix) minima marks a smallest element
    of the block's first (last) x elements"""
    B = 128
    kinds = ("rk", "lz", "bm", "am")

    def __init__(self, E, data, minidx):
        self.E, self.data, self.minidx = E, data, minidx
        self.n = data[2]
        self.t = atom(("skolem", "t"), 0, 1 << 40)
        self.nb = E.uf("nblocks", (self.n,), 0, 1 << 34, lambda l: [("ge", l.scale(self.B).sub(self.n)), ("ge", self.n.sub(l.scale(self.B)).addc(self.B - 1))])
        self.busy = False
        E.axioms = list(E.axioms) + [self.axioms]
        E.CONG = dict(E.CONG, rk=(2, 3), lz=(2, 3), bm=(1, 2), am=(1, 2))

    def D(self, st, x):
        return self.E.elem(st, self.data, x)[1]

    def axioms(self, E, st, atoms, query):
        if self.busy:
            return []
        deep = set(atoms)
        for a in atoms:
            if AT.key[a][0] == "elt":
                deep |= mentioned(AT.key[a])
        keys = [(a, AT.key[a]) for a in sorted(deep) if AT.key[a][0] in self.kinds]
        if not keys:
            return []
        self.busy = True
        try:
            B = self.B
            terms = [self.t, self.n]
            for a, k in keys:
                terms += [x for x in k[1:] if isinstance(x, Lin)] + [Lin(0, ((a, 1),))]
            qs = [f for f in query if f[0] != "ne"]
            cone = set(map(prim, [("ge", x.addc(1 << 100)) for x in terms if x.t]))
            base, _ = E.closure(st, qs + sorted(cone, key=str), False)
            if base is None:
                return [("ge", K(-1))]
            base = [f for f in base if f not in cone]
            out, have = [], set(base)

            def yes(f):
                f = prim(f)
                if isinstance(f, bool):
                    return f
                return f in have or all(infeasible(base + [g]) for g in negate(f))

            def add(*fs):
                for f in map(prim, fs):
                    if f is False:
                        f = ("ge", K(-1))
                    if f is not True and f not in have:
                        have.add(f)
                        out.append(f)
                        base.append(f)

            for a, k in keys:
                v = Lin(0, ((a, 1),))
                if k[0] == "rk":
                    x = k[3]
                    add(ge(x, v))
                    if yes(ge(x, K(1))):
                        add(ge(v, K(1)))
                elif k[0] == "lz":
                    which, b, x = k[1:]
                    add(ge(v, K(0)), lt(v, x))
                    if which == "pre":
                        lo = b.scale(B)
                        hi = lo.add(x)
                        pos = lo.add(v)
                        fits = ge(self.n, hi)
                    else:
                        hi = b.scale(B).addc(B)
                        lo = hi.sub(x)
                        pos = hi.addc(-1).sub(v)
                        fits = ge(self.n, hi)
                    if yes(fits) and yes(ge(self.t, lo)) and yes(lt(self.t, hi)):
                        add(ge(self.D(st, self.t), self.D(st, pos)))
                elif k[0] == "bm":
                    add(ge(v, k[1]), ge(k[2], v))
                    m = E.elem(st, self.minidx, v)[1]
                    add(ge(K(B - 1), m), lt(v.scale(B).add(m), self.n))
                    if yes(ge(self.t, k[1].scale(B))) and yes(lt(self.t, k[2].scale(B).addc(B))):
                        add(ge(self.D(st, self.t), self.D(st, v.scale(B).add(m))))
                elif k[0] == "am":
                    add(ge(v, k[1]), ge(k[2], v))
                    if yes(ge(self.t, k[1])) and yes(ge(k[2], self.t)):
                        add(ge(self.D(st, self.t), self.D(st, v)))
            rks = [(k, Lin(0, ((a, 1),))) for a, k in keys if k[0] == "rk"]
            lzs = {k[1:]: Lin(0, ((a, 1),)) for a, k in keys if k[0] == "lz"}
            for k, u in rks:
                for h, v in rks:
                    if k is h or k[1] != h[1] or not (k[2] == h[2] or yes(eq(k[2], h[2]))):
                        continue
                    if yes(ge(k[3], h[3])):
                        add(ge(u, v))
                    if yes(lt(v, u)):
                        z = lzs.get(k[1:])
                        if z is not None:
                            add(ge(z, h[3]))
            return out
        finally:
            self.busy = False


def argmin(E, st, args, dty, depth, body, line, pick):
    """position of a smallest element of a slice, by the iterator chain enumerate / min_by_key"""
    it, clo = args
    if it[0] != "iter" or it[1] != "enumerate" or it[2][1] != ("int", 0) and it[2][1] != ("int", K(0)):
        return None
    sl = it[2][0]
    if sl[0] != "iter" or sl[1] != "slice" or sl[2][0][0] != "slice" or clo[0] != "closure":
        return None
    _, root, proj, off, n = sl[2][0]
    oty = E.T[dty]["args"][0]

    def item(s, k):
        return ("agg", oty, 0, (("int", k), ("ref", root, tuple(proj) + (("i", off.add(k)),))))

    # the key is the element
    q = atom(E.freshterm("any"), 0, None)
    for s in E.assume(st, lt(q, n)):
        s = s.copy()
        s.mem[("G", "item")] = item(s, q)
        want = E.read(s, root, tuple(proj) + (("i", off.add(q)),))
        for s2, c, val in call_clo(E, s, clo, [("ref", ("G", "item"), ())], depth, body, line):
            if c is None or val[0] != "int" or not E.entails(s2, eq(val[1], want[1])):
                raise Giveup("smallest by another key")
    if not E.entails(st, ge(n, K(1))):
        return None
    k = pick(E, st, root, proj, off, n)
    return [Outcome("ret", st, some(dty, item(st, k)))]


def sequences(fast):
    """constant sequences, with ranges to ask for"""
    def lcg(n, seed, mod):
        out = []
        for _ in range(n):
            seed = (seed * 6364136223846793005 + 1442695040888963407) % (1 << 64)
            out.append((seed >> 33) % mod)
        return out

    if not fast:
        out = [lcg(n, n * 77 + m, m) for n in (1, 2, 3, 4, 5, 8, 9) for m in (3, 1000)] + [list(range(7)), list(range(7, 0, -1)), [5] * 6]
        for d in out:
            yield d, [(i, j) for i in range(len(d)) for j in range(i, len(d))]
        d = lcg(21, 5, 50)
        yield d, [(i, j) for i in range(21) for j in range(i, 21, 3)]
        for d in (list(range(140)), list(range(140, 0, -1))):
            yield d, [(i, j) for i in range(0, 9) for j in range(i, 140, 1 if i < 3 else 7)]
    else:
        n = 300
        v = list(range(60, 0, -1)) + list(range(1, 69))
        for d in (lcg(n, 3, 1000), list(range(n)), list(range(n, 0, -1)), [7] * 128 + v + [3] * 44, lcg(129, 9, 4), [9] * 128 + [8] * 100 + [1] + [8] * 27 + [9] * 44, (v + lcg(128, 4, 9) + v)[:n]):
            ps = [x for x in (0, 1, 5, 63, 64, 65, 126, 127, 128, 129, 191, 192, 254, 255, 256, 257, 298, 299) if x < len(d)]
            yield d, [(i, j) for i in ps for j in ps if i <= j]


class EndToEnd(BitVecRules):
    """a constant sequence, stored and asked by constant propagation through the code as it is now; used only if a proof fails"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    def go(self, fast):
        p = self.ctx.p
        ty = FAST if fast else BIN
        make, ask = p.find(ty + "::from_vec"), p.find(ty + "::range_min")
        if make is None or ask is None:
            raise Giveup("no constructor")
        for d, todo in sequences(fast):
            E = self.engine()
            E.struct_inv = {}
            E.peel = 2000
            E.visit_limit = 10 ** 8
            orig = E.on_call

            def on_call(E, st, callee, args, dty, depth, body, line):
                path = callee.get("rpath", callee["path"])
                if path == "std::iter::Iterator::min_by_key":

                    def pick(E, st, root, proj, off, n):
                        a, m = off.const(), n.const()
                        vals = [E.read(st, root, tuple(proj) + (("i", K(a + k)),))[1].const() for k in range(m)]
                        return K(vals.index(min(vals)))

                    return argmin(E, st, args, dty, depth, body, line, pick)
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None

            E.on_call = on_call

            def pre(r):
                a = r.args[0]
                r.args[0] = ("vec", a[1], K(len(d)), ("lit", tuple(("int", K(x)) for x in d)))
                return []

            r = Run(self.ctx, make, E=E, pre=pre)
            r.note = "sequence %s" % (d if len(d) < 30 else d[:20] + ["..."])
            r.no_panic()
            rets = r.rets()
            if len(rets) != 1:
                raise Giveup("construction does not follow one path")
            val = rets[0].val
            for i, j in todo:
                def pre2(r):
                    a = r.args[0]
                    E.write(r.st0, a[1], a[2], val)
                    r.args[1], r.args[2] = ("int", K(i)), ("int", K(j))
                    return []

                r = Run(self.ctx, ask, E=E, pre=pre2)
                r.note = "range %d to %d of %s" % (i, j, d if len(d) < 30 else d[:20] + ["..."])
                r.no_panic()
                for o in r.rets():
                    x = o.val[1].const() if o.val[0] == "int" else None
                    if x is None:
                        raise Giveup("position is not constant")
                    if not i <= x <= j:
                        r.fail("the position lies in the range", o.st)
                    elif d[x] != min(d[i:j + 1]):
                        r.fail("no element of the range is smaller", o.st)
            if any(r.status == "refuted" for r in self.ctx.results[-400:]):
                return


class RmqRules(BitVecRules):
    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    @staticmethod
    def names():
        return ["binary|from_vec", "fast|from_vec", "binary|range_min", "fast|range_min", "binary|range_min_with_range", "fast|range_min_with_range"]

    def key(self, name):
        t, f = name.split("|")
        return (BIN if t == "binary" else FAST) + "::" + f

    def run(self, name, fn=None):
        t, f = name.split("|")
        if f != "range_min_with_range":
            return self.guarded(name, getattr(self, t + "_" + f), t == "fast")
        Rules.run(self, name, lambda key: getattr(self, t + "_" + f, None)(key) if hasattr(self, t + "_" + f) else getattr(self, "any_" + f)(key, t))

    def guarded(self, name, proof, fast):
        """the proof goes through the private table, whose layout the code is free to change: whatever it does not prove counts
        only if an answer to a public query on a constant sequence is wrong"""
        ctx = self.ctx
        if ctx.name == "all-features":
            return  # the same code as in the other configuration
        key = ctx.p.find(self.key(name))
        if key is None:
            return
        n0 = len(ctx.results)
        self.once(proof, key)
        mine = ctx.results[n0:]
        for r in mine:
            if r.status == "refuted":
                r.status = "weak"
        if mine and all(r.status == "proved" for r in mine):
            return
        n1 = len(ctx.results)
        st = dict(ctx.stats)
        end = EndToEnd(ctx)
        self.once(lambda key: end.go(fast), key, 200)
        ctx.stats.update(st)
        self.conf = ctx.results[n1:]
        conf = [r for r in ctx.results[n1:] if r.status == "refuted"]
        del ctx.results[n1:]
        if conf:
            ctx.results[n0:] = [r for r in mine if r.status == "proved"] + conf

    # ------------------------------------------------------------------ the range forms
    def any_range_min_with_range(self, key, t):
        """whatever kind of range: the query is asked for exactly the positions of the range that exist"""
        p = self.ctx.p
        inner = p.find(self.key(t + "|range_min"))
        E = self.engine()
        E.struct_inv = {}
        orig = E.on_call
        box = {}

        def bound(E, st, dty, which):
            """any of the three kinds of bounds"""
            x = atom(("bound", which), 0, (1 << 64) - 1)
            root = ("G", "bound" + which)
            out = []
            vs = E.T[dty]["variants"]
            for d, v in enumerate(vs):
                s = st.copy()
                s.mem[root] = ("int", x)
                s.mem[("G", "kind" + which)] = ("int", K({"Included": 0, "Excluded": 1, "Unbounded": 2}[v["n"]]))
                out.append(Outcome("ret", s, ("agg", dty, d, (("ref", root, ()),) if v["f"] else ())))
            return out

        def on_call(E, st, callee, args, dty, depth, body, line):
            path = callee["path"]
            f = path.split("::")[-1]
            if "RangeBounds" in path and f in ("start_bound", "end_bound"):
                return bound(E, st, dty, f[:3].strip("_"))
            if callee.get("inst") == inner and inner is not None or callee.get("rpath") == inner and inner is not None:
                i, j = args[1][1], args[2][1]
                s = st.copy()
                s.mem[("G", "asked")] = ("agg", None, 0, (("int", i), ("int", j)))
                return [Outcome("ret", s, ("int", atom(("call", "argmin", i, j), 0, (1 << 64) - 1)))]
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        E.on_call = on_call

        def pre(r):
            v = r.pointee(0)
            data = r.field(v, "data")
            box["n"] = data[2]
            return [ge(data[2], K(1)), ge(K(1 << 40), data[2])]

        r = Run(self.ctx, key, E=E, pre=pre)
        n = box["n"]
        r.no_panic()
        for o in r.rets():
            m = o.st.mem
            if ("G", "asked") not in m:
                raise Giveup("answered without the query for two positions")
            i, j = (x[1] for x in m[("G", "asked")][3])
            ks, ke = m.get(("G", "kindsta")), m.get(("G", "kindend"))
            lo = K(0) if ks is None or ks[1].c == 2 else m[("G", "boundsta")][1].addc(ks[1].c)
            hi = n.addc(-1) if ke is None or ke[1].c == 2 else m[("G", "boundend")][1].addc(-ke[1].c)
            r.prove("the query stays inside", o.st, ge(j, i))
            r.prove("the query stays inside", o.st, lt(j, n))
            # the range holds a position
            for s in E.assume(o.st, ge(hi, lo)):
                for s in E.assume(s, lt(lo, n)):
                    if E.dead(s):
                        continue
                    r.prove("the query begins where the range begins", s, eq(i, lo))
                    for s1 in E.assume(s, lt(hi, n)):
                        r.prove("the query ends where the range ends", s1, eq(j, hi))
                    for s1 in E.assume(s, ge(hi, n)):
                        r.prove("the query ends where the sequence ends", s1, eq(j, n.addc(-1)))
            r.prove("the answer is the query's", o.st, eq(o.val[1], atom(("call", "argmin", i, j), 0, (1 << 64) - 1)))

    # ------------------------------------------------------------------ the table
    def binary_range_min(self, key):
        E = self.engine()
        E.struct_inv = {}
        box = {}

        def pre(r):
            v = r.pointee(0)
            a = r.args[0]
            data, res = r.field(v, "data"), r.field(v, "results")
            tab = box["tab"] = Table(E, data)
            k = self.ctx.p.adt_field(v[1], "results")
            E.write(r.st0, a[1], tuple(a[2]) + (("f", k),), ("vec", res[1], E.mul(tab.n, tab.row), TAB))

            def read(E, st, idx):
                e = tab.entry(st, idx)
                if e is None:
                    return ("int", atom(("call", "unclear", E.freshterm("u")), 0, (1 << 32) - 1))
                return ("int", tab.v(*e))

            E.elt_rules[TAB] = read
            i, j = r.int(1), r.int(2)
            return tab.basics() + [ge(j, i), lt(j, tab.n), ge(tab.t, i), ge(j, tab.t)]

        r = Run(self.ctx, key, E=E, pre=pre)
        tab = box["tab"]
        r.no_panic()
        i, j = r.int(1), r.int(2)
        for o in r.rets():
            x = o.val[1]
            for s in self.cases(E, tab, o.st):
                r.prove("the position lies in the range", s, ge(x, i))
                r.prove("the position lies in the range", s, ge(j, x))
                r.prove("no element of the range is smaller", s, ge(tab.D(s, tab.t), tab.D(s, x)))

    def fast_range_min(self, key):
        E = self.engine()
        E.struct_inv = {}
        p = self.ctx.p
        box = {}
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            path = callee.get("rpath", callee["path"])
            f = path.split("::")[-1]
            if f in ("rank0", "select0") and "SmallBitVector" in path:
                a = args[0]
                if a[0] != "ref" or a[1] != box["self"] or len(a[2]) != 3 or a[2][0] != ("f", box["blocks"]) or a[2][1][0] != "i":
                    raise Giveup("bits of something else")
                which = {box["pre"]: "pre", box["suf"]: "suf"}.get(a[2][2][1])
                b = a[2][1][1]
                x = args[1][1]
                if f == "rank0":
                    return [Outcome("ret", st, ("int", E.uf("rk", (which, b, x), 0, 128)))]
                l = x.addc(1)
                if len(l.t) != 1 or l.c or l.t[0][1] != 1 or AT.key[l.t[0][0]][0] != "rk":
                    raise Giveup("a zero that is not the last of some")
                k = AT.key[l.t[0][0]]
                if k[1] != which or not E.entails(st, eq(k[2], b)) or not E.entails(st, ge(k[3], K(1))):
                    raise Giveup("a zero of another block")
                return [Outcome("ret", st, ("int", E.uf("lz", (which, k[2], k[3]), 0, 127)))]
            if path == BIN + "::range_min":
                i, j = args[1][1], args[2][1]
                if not E.entails(st, ge(j, i)) or not E.entails(st, lt(j, box["bl"].nb)):
                    raise Giveup("query for blocks outside")
                return [Outcome("ret", st, ("int", E.uf("bm", (i, j), 0, 1 << 34)))]
            if path == "std::iter::Iterator::min_by_key":

                def pick(E, st, root, proj, off, n):
                    if root != box["self"] or tuple(proj) != (("f", box["data"]),):
                        raise Giveup("smallest of something else")
                    return E.uf("am", (off, off.add(n).addc(-1)), 0, 1 << 40).sub(off)

                return argmin(E, st, args, dty, depth, body, line, pick)
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        E.on_call = on_call

        def pre(r):
            v = r.pointee(0)
            a = r.args[0]
            data, mi, bl = (r.field(v, x) for x in ("data", "block_min_indices", "blocks"))
            if tuple(a[2]):
                raise Giveup("shape")
            box["self"] = a[1]
            box["blocks"] = p.adt_field(v[1], "blocks")
            box["data"] = p.adt_field(v[1], "data")
            bt = E.T[v[1]]
            blk = bl[1]
            box["pre"], box["suf"] = p.adt_field(blk, "prefix_minima"), p.adt_field(blk, "suffix_minima")
            m = box["bl"] = Blocks(E, data, mi)
            i, j = r.int(1), r.int(2)
            return [eq(bl[2], m.nb), eq(mi[2], m.nb), ge(K((1 << 40) - 1), m.n), ge(j, i), lt(j, m.n), ge(m.t, i), ge(j, m.t)]

        r = Run(self.ctx, key, E=E, pre=pre)
        m = box["bl"]
        r.no_panic()
        i, j = r.int(1), r.int(2)
        for o in r.rets():
            x = o.val[1]
            for s in self.bcases(E, m, o.st):
                r.prove("the position lies in the range", s, ge(x, i))
                r.prove("the position lies in the range", s, ge(j, x))
                r.prove("no element of the range is smaller", s, ge(m.D(s, m.t), m.D(s, x)))

    def fast_from_vec(self, key):
        """one block: a bit of the prefix (suffix) minima is set exactly if the element is not smaller than all elements before
        (behind) it; a bit pattern is followed at an arbitrary position q only, as the number 0 or 1"""
        p = self.ctx.p
        ks = [k for k in p.bodies if k.startswith(key + "::{closure") and k.count("{closure") == 1]
        if len(ks) != 1:
            raise Giveup("blocks are not built by one closure")
        for which in ("pre", "suf"):
            for isset in (True, False):
                self.block(ks[0], which, isset)

    def block(self, key, which, isset):
        E = self.engine()
        E.struct_inv = {}
        box = {"cells": set()}
        orig = E.on_call
        q = atom(("skolem", "q"), 1, 127)

        def on_call(E, st, callee, args, dty, depth, body, line):
            path = callee.get("rpath", callee["path"])
            f = path.split("::")[-1]
            if f == "set_bit" and "SmallBitVector" in path and args[0][0] == "ref":
                a, i = args[0], args[1][1]
                out = []
                for c in (eq(i, q), ("ne", i.sub(q))):
                    for s in E.assume(st, prim(c)):
                        s = s.copy()
                        if c[0] == "eq":
                            E.write(s, a[1], tuple(a[2]) + (("f", 0),), ("int", K(SET)))
                        out.append(Outcome("ret", s, ("agg", dty, 0, ())))
                return out
            if f == "next" and "RangeInclusive" in path and args[0][0] == "ref":
                # exhausted is written as start = end + 1
                v = E.read(st, args[0][1], args[0][2])
                if v[0] == "agg" and len(v[3]) == 3 and v[3][2] == ("bool", False):
                    x, y = v[3][0][1], v[3][1][1]
                    out = [Outcome("ret", s, none(dty)) for s in E.assume(st, lt(y, x))]
                    for s in E.assume(st, ge(y, x)):
                        s = s.copy()
                        E.write(s, args[0][1], args[0][2], ("agg", v[1], 0, (("int", x.addc(1)),) + v[3][1:]))
                        out.append(Outcome("ret", s, some(dty, ("int", x))))
                    return out
            if f == "push" and path.startswith("std::vec::Vec") and args[0][0] == "ref":
                s = st.copy()
                old = s.mem.get(("G", "pushed"), ("agg", None, 0, ()))
                s.mem[("G", "pushed")] = ("agg", None, 0, old[3] + (args[1],))
                return [Outcome("ret", s, ("agg", dty, 0, ()))]
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        E.on_call = on_call
        busy = []

        def D(st, x):
            return E.elem(st, box["data"], box["off"].add(x))[1]

        def S(st, x):
            return D(st, box["n"].addc(-1).sub(x))

        def pm(x):
            return E.uf("pm", (x,), 0, (1 << 64) - 1)

        def sm(x):
            return E.uf("sm", (x,), 0, (1 << 64) - 1)

        def axioms(E, st, atoms, query):
            if busy or "n" not in box:
                return []
            cells = [Lin(0, ((a, 1),)) for a in sorted(atoms) if a in box["cells"]]
            keys = [AT.key[a] for a in sorted(atoms) if AT.key[a][0] in ("pm", "sm")]
            mine = q.t[0][0] in atoms and len(atoms) < 60
            if not keys and not cells and not mine:
                return []
            busy.append(1)
            try:
                out = []
                elts, gs = {}, {}
                at0, g0 = (D, pm) if which == "pre" else (S, sm)
                if mine:
                    # what is known about q itself, and which elements it may coincide with
                    out.append(ge(at0(st, q), g0(q)) if isset else lt(at0(st, q), g0(q)))
                    keys = keys + [k for k in [AT.key[g0(q).t[0][0]]] if k not in keys]
                    for f in st.cons:
                        for a, _ in f[1].t:
                            k = AT.key[a]
                            if k[0] == "elt" and k[1] == box["data"][3]:
                                elts[a] = k[2]
                            elif k[0] == ("pm" if which == "pre" else "sm"):
                                gs[a] = k[1]
                                if k not in keys:
                                    keys = keys + [k]
                terms = [q, box["n"]] + cells + list(elts.values())
                for k in keys:
                    terms += [k[1], (pm if k[0] == "pm" else sm)(k[1])]
                    if len(k[1].t):
                        terms += [pm(k[1].addc(-1)) if k[0] == "pm" else sm(k[1].addc(-1))]
                        terms += [(D if k[0] == "pm" else S)(st, k[1].addc(-1))]
                cone = set(map(prim, [("ge", x.addc(1 << 100)) for x in terms if x.t]))
                base, _ = E.closure(st, [f for f in query if f[0] != "ne"] + sorted(cone, key=str), False)
                if base is None:
                    return [("ge", K(-1))]
                base = [f for f in base if f not in cone]

                def yes(f):
                    f = prim(f)
                    return f if isinstance(f, bool) else all(infeasible(base + [g]) for g in negate(f))

                for c in cells:
                    if yes(ge(K(SET - 1), c)):
                        out.append(eq(c, K(0)))
                        base.append(prim(out[-1]))
                    elif yes(ge(c, K(1))):
                        out.append(eq(c, K(SET)))
                        base.append(prim(out[-1]))
                here = box["off"].add(q if which == "pre" else box["n"].addc(-1).sub(q))
                for a, x in elts.items():
                    if x != here and yes(eq(x, here)):
                        out.append(eq(Lin(0, ((a, 1),)), at0(st, q)))
                for a, x in gs.items():
                    if x != q and yes(eq(x, q)):
                        out.append(eq(Lin(0, ((a, 1),)), g0(q)))
                xs = {k[0]: [h[1] for h in keys if h[0] == k[0]] for k in keys}
                for kind, at, g in (("pm", D, pm), ("sm", S, sm)):
                    for x in xs.get(kind, ()):
                        if yes(eq(x, K(1))):
                            out.append(eq(g(x), at(st, K(0))))
                            continue
                        y = x.addc(-1)
                        if not yes(ge(y, K(1))) or not yes(lt(y, box["n"])):
                            continue
                        a, b = g(y) if y != K(1) else at(st, K(0)), at(st, y)
                        out += [ge(a, g(x)), ge(b, g(x))]
                        if y.t and y not in xs[kind]:
                            continue
                        if yes(lt(b, a)):
                            out.append(eq(g(x), b))
                        elif yes(ge(b, a)):
                            out.append(eq(g(x), a))
                return [f for f in map(prim, out) if f is not True]
            finally:
                busy.pop()

        E.axioms = list(E.axioms) + [axioms]
        E.CONG = dict(E.CONG, pm=(1,), sm=(1,))
        E.ghosts["pm"] = lambda E, k, sub, cmap: pm(E.subst_atoms(k[1], sub, cmap))
        E.ghosts["sm"] = lambda E, k, sub, cmap: sm(E.subst_atoms(k[1], sub, cmap))

        def moved(E, k, sub, cmap):
            if "data" not in box or k[1] != box["data"][3]:
                return atom(k, None, None)
            return atom((k[0], k[1], E.subst_atoms(k[2], sub, cmap)), 0, (1 << 64) - 1)

        E.ghosts["elt"] = moved

        def cands(E, entry, H, mapping):
            ls = [(l, c[1], E.get_leaf(H, l)[1]) for l, (c, v) in mapping.items() if v[0] == "int" and c[0] == "int"]
            pos = [(c, x) for l, c, x in ls if not c.t]
            vals = [x for l, c, x in ls if c.t and all(AT.key[a][0] == "elt" for a, _ in c.t)]
            n = box["n"]
            at = [x for c, x in pos] + [x.add(y) for k, (c, x) in enumerate(pos) for c2, y in pos[:k] if (c.c, c2.c) in ((0, 1), (1, 0))]
            out = []
            for k, (l, c, x) in enumerate(ls):
                for l2, c2, y in ls[:k]:
                    out += [eq(x.add(y), n), eq(x, y)]
            for x in at:
                out += [ge(n, x), ge(x, K(1)), ge(n.addc(1), x)]
                for d in (0, -1):
                    for v in vals:
                        out.append(eq(v, pm(x.addc(d))))
                        out.append(eq(v, sm(x.addc(d))))
                    for c, y in pos:
                        if c == K(0):
                            out.append(ge(y.add(q).sub(x), K(d)))
            for l, c, y in ls:
                if c == K(0) and l[1][-1:] == (("f", 0),) and E.get_leaf(entry, l) == ("int", K(0)) and len(y.t) == 1 and not y.c:
                    box["cells"].add(y.t[0][0])
                    box.setdefault("leaves", []).append(l)
            for c, y in pos:
                out += [eq(y, K(0)), lt(y, n)]
                for v in vals:
                    out.append(eq(v, D(H, y)))
            return out

        def pre(r):
            a = r.args[1]
            if a[0] != "slice":
                raise Giveup("block")
            box["data"] = E.read(r.st0, a[1], a[2])
            box["off"], box["n"] = a[3], a[4]
            n = box["n"]
            out = [ge(n, K(2)), ge(K(128), n), lt(q, n)]
            at, g = (D, pm) if which == "pre" else (S, sm)
            out.append(ge(at(r.st0, q), g(q)) if isset else lt(at(r.st0, q), g(q)))
            return out

        def on_loop(E, entry, H, backs, others, loc):
            """a pattern changes by the setting of bits only"""
            for l in box.get("leaves", ()):
                for s in backs:
                    try:
                        v, h = E.get_leaf(s, l), E.get_leaf(H, l)
                    except Giveup:
                        continue
                    if v != h and v not in (("int", K(0)), ("int", K(SET))):
                        raise Giveup("bits are set in another way")

        E.loop_cands = [cands]
        E.on_loop = on_loop
        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        n = box["n"]
        for o in r.rets():
            got = o.st.mem.get(("G", "pushed"))
            if got is None or len(got[3]) != 3:
                raise Giveup("what a block adds")
            low = [v for v in got[3] if v[0] == "int"]
            blk = [v for v in got[3] if v[0] == "agg"]
            if len(blk) != 1 or len(low) != 2:
                raise Giveup("what a block adds")
            bit = blk[0][3][p_index(self, blk[0], which)]
            bit = bit[3][0][1] if bit[0] == "agg" else None
            if bit is None:
                raise Giveup("bit pattern")
            if isset:
                r.prove("the bit of an element that is no new minimum is set", o.st, ge(bit, K(1)))
            else:
                r.prove("the bit of a new minimum is not set", o.st, ge(K(0), bit))
            if which == "pre":
                r.prove("the minimum of the block", o.st, eq(low[0][1], pm(n)))
                r.prove("the position of the block's minimum", o.st, eq(D(o.st, low[1][1]), low[0][1]))

    def bcases(self, E, m, st):
        """t inside or outside of each block that was looked at"""
        cuts = []
        for a in range(len(AT.key)):
            k = AT.key[a]
            if k[0] == "lz" and any(a in mentioned(f[1]) for f in st.cons):
                c = k[2].scale(m.B).addc(m.B if k[1] == "suf" else 0)
                if c not in cuts:
                    cuts.append(c)
        out = [st]
        for c in cuts[:4]:
            out = [y for x in out for y in E.assume(x, lt(m.t, c)) + E.assume(x, ge(m.t, c))]
            out = [x for x in out if not E.dead(x)]
        return out

    def cases(self, E, tab, st):
        """t inside or outside of each window that was looked at"""
        seen = []
        for a in range(len(AT.key)):
            k = AT.key[a]
            if k[0] == "tab" and (k[1], k[2]) not in seen and any(a in mentioned(f[1]) for f in st.cons):
                seen.append((k[1], k[2]))
        out = [st]
        for s, c in seen[:4]:
            p = E.pow2(c)
            nxt = []
            for x in out:
                nxt += E.assume(x, lt(tab.t, s))
                for y in E.assume(x, ge(tab.t, s)):
                    nxt += E.assume(y, lt(tab.t, s.add(p))) + E.assume(y, ge(tab.t, s.add(p)))
            out = [x for x in nxt if not E.dead(x)]
        return out

    def binary_from_vec(self, key):
        E = self.engine()
        E.struct_inv = {}
        box = {}
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            tab = box.get("tab")
            f = callee["path"].split("::")[-1]
            if tab is not None and f == "from_elem" and args[0] == ("int", K(0)) and args[1][0] == "int" and E.entails(st, eq(args[1][1], E.mul(tab.n, tab.row))):
                t = E.T[dty]
                s = st.copy()
                s.mem[CELL] = ("int", tab.n)
                return [Outcome("ret", s, ("vec", t["args"][0], args[1][1], TAB))]
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        E.on_call = on_call

        def read(E, st, idx):
            tab = box["tab"]
            e = tab.entry(st, idx)
            if e is None or CELL not in st.mem:
                return ("int", atom(("call", "unclear", E.freshterm("u")), 0, (1 << 32) - 1))
            s, c = e
            if c != K(0) and not E.entails(st, lt(E.mul(c, tab.n).add(s), st.mem[CELL][1])):
                return ("int", atom(("call", "unclear", E.freshterm("u")), 0, (1 << 32) - 1))
            return ("int", tab.v(s, c))

        def store(E, st, idx, val):
            """entries are taken to keep the contract while invariants are sought; the last, decisive pass must prove it"""
            e = box["tab"].entry(st, idx) if CELL in st.mem and val[0] == "int" else None
            if e is None or e[1] != K(0) and not E.entails(st, eq(e[1], K(0))):
                fill = st.mem.get(CELL)
                if fill is None:
                    box["bad"] = True
                    return TAB
                st.mem[CELL] = ("int", fill[1].addc(1))
            else:
                fill = None
            box["stores"] = box.get("stores", 0) + (not E.loop_quiet)
            if not E.loop_quiet and not keeps(E, st, idx, val, e, fill):
                box["bad"] = True
            return TAB

        def fail(*why):
            box.setdefault("why", []).append(why)
            return False

        def keeps(E, st, idx, val, e, fill):
            tab = box["tab"]
            if e is None:
                return fail("entry", idx)
            s, c = e
            v = val[1]
            if fill is None:
                return E.entails(st, eq(v, K(0))) or fail("first", v)
            fill = fill[1]
            if not E.entails(st, eq(fill, E.mul(c, tab.n).add(s))):
                return fail("order", fill, s, c)
            p = E.pow2(c)
            if not E.entails(st, lt(s.add(v), tab.n)) or not E.entails(st, ge(v, K(0))):
                return fail("range", v, s, c)
            for x in E.assume(st, ge(tab.n, s.add(p))):
                if not E.entails(x, lt(v, p)):
                    return fail("window", v, s, c)
                for y in E.assume(x, ge(tab.t, s)):
                    for y in E.assume(y, lt(tab.t, s.add(p))):
                        for q in self.cases(E, tab, y):
                            if not E.entails(q, ge(tab.D(q, tab.t), tab.D(q, s.add(v)))):
                                return fail("minimum", v, s, c, q.cons)
            return True

        E.elt_rules[TAB] = read
        E.store_rules[TAB] = store

        def cands(E, entry, H, mapping):
            tab = box["tab"]
            if CELL not in H.mem:
                return []
            g = H.mem[CELL][1]
            out = []
            for l, (c, v) in mapping.items():
                if v[0] == "int" and c[0] == "int":
                    x = E.get_leaf(H, l)[1]
                    if x is not g:
                        out.append(eq(g, E.mul(x.addc(1), tab.n)))
            return out

        E.loop_cands = [cands]

        def pre(r):
            data = r.args[0]
            tab = box["tab"] = Table(E, data)
            return tab.basics() + [lt(tab.t, tab.n)]

        r = Run(self.ctx, key, E=E, pre=pre)
        tab = box["tab"]
        self.why = box.get("why")
        r.no_panic()
        for o in r.rets():
            v = o.val
            data, res = r.field(v, "data"), r.field(v, "results")
            ok = res[0] == "vec" and res[3] == TAB and CELL in o.st.mem and not box.get("bad") and box.get("stores")
            if not ok:
                r.res("every entry is the position of a smallest element in its window", "unknown", "a store keeps its contract out of reach")
                continue
            r.res("every entry is the position of a smallest element in its window", "proved")
            r.prove("all entries are filled", o.st, ge(o.st.mem[CELL][1], E.mul(tab.n, tab.row)))
            r.prove("rows have the expected length", o.st, eq(res[2], E.mul(tab.n, tab.row)))
            if data[0] == "vec" and data[3] == tab.data[3]:
                r.prove("the data is kept", o.st, eq(data[2], tab.n))
            else:
                r.res("the data is kept", "unknown")


def p_index(self, v, which):
    return self.ctx.p.adt_field(v[1], "prefix_minima" if which == "pre" else "suffix_minima")


def mentioned(l):
    out = set()

    def walk(x):
        if isinstance(x, Lin):
            for a, _ in x.t:
                if a not in out:
                    out.add(a)
                    walk(AT.key[a])
        elif isinstance(x, tuple):
            for y in x:
                walk(y)

    walk(l)
    return out
