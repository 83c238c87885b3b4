"""Contracts of the wavelet matrix. A matrix with B levels stands for a sequence of m elements of B bits. N(p, i) is the
number of elements before index i whose leading bits are p; level l lists the elements grouped by their first l bits, in
bit-reversed order of the groups and in sequence order within a group, so that element i with leading bits p lies at
start(p) + N(p, i). The rank/select vectors of the levels answer by these counts, and every query is decided against the
counts of whole symbols. The number of levels is fixed for an analysis (1, 2, ...), all else is symbolic."""
from lin import *
from eng import Giveup, cnot, prim, Outcome
from contracts import Run, Rules, Result
from models import none, some
from rules_bitvec import BitVecRules, setup, ge, lt, eq, BV
from rules_rsvec import setup_rs, RS

WM = "wavelet::WaveletMatrix"
W = (1 << 64) - 1
SIZE = 1 << 58


class Matrix:
    """the symbolic sequence"""
    given = False

    def __init__(self, E, B, m):
        self.E, self.B, self.m = E, B, m
        self.busy = False
        self.reg = {}
        self.order = [[()]]
        for _ in range(B):
            o = self.order[-1]
            self.order.append([q + (0,) for q in o] + [q + (1,) for q in o])
        E.CONG = dict(E.CONG, wN=(1,))
        E.ghosts["wN"] = lambda E, key, sub, cmap: self.N(self.dec(key[2]), E.subst_atoms(key[1], sub, cmap))
        E.axioms = list(E.axioms) + [self.axioms]
        E.model_checks = list(E.model_checks) + [lambda m, seen: False]

    @staticmethod
    def enc(p):
        c = 1
        for b in p:
            c = 2 * c + b
        return c

    @staticmethod
    def dec(c):
        return tuple(int(x) for x in bin(c)[3:])

    def N(self, p, i):
        if not p:
            return i
        if i.const() == 0:
            return K(0)
        if p[-1] == 1:
            return self.N(p[:-1], i).sub(self.N(p[:-1] + (0,), i))
        return self.E.uf("wN", (i, self.enc(p)), 0, SIZE, lambda x: [f for f in [prim(ge(self.N(p[:-1], i), x))] if f is not True])

    def start(self, p):
        x = K(0)
        for q in self.order[len(p)]:
            if q == p:
                return x
            x = x.add(self.N(q, self.m))

    def Z(self, l):
        x = K(0)
        for q in self.order[l]:
            x = x.add(self.N(q + (0,), self.m))
        return x

    def pos(self, p, i):
        x = self.start(p).add(self.N(p, i))
        self.reg.setdefault((len(p), x), (p, i))
        return x

    def basics(self):
        return [ge(self.m, K(0)), ge(K(SIZE), self.m)]

    # ------------------------------------------------------------------ facts
    def axioms(self, E, st, atoms, query):
        if self.busy:
            return []
        keys = [AT.key[a] for a in sorted(atoms) if AT.key[a][0] == "wN"]
        if not keys:
            return []
        self.busy = True
        try:
            idx = list(dict.fromkeys([k[1] for k in keys] + [self.m]))
            qs = set()
            for k in keys:
                p = self.dec(k[2])
                while p:
                    qs |= {p, p[:-1] + (1 - p[-1],)}
                    p = p[:-1]
            qs = sorted(qs)
            cone = [("ge", x.addc(1 << 100)) for x in idx if x.t] + [("ge", self.N(q, i).addc(1 << 100)) for q in qs for i in idx if self.N(q, i).t]
            cone = set(map(prim, cone))
            base, _ = E.closure(st, [f for f in query if f[0] != "ne"] + sorted(cone, key=str), False)
            if base is None:
                return [("ge", K(-1))]
            base = [f for f in base if f not in cone]
            out = []
            have = set(base)

            def yes(f):
                f = prim(f)
                if isinstance(f, bool):
                    return f
                return f in have or all(infeasible(base + [g]) for g in negate(f))

            def add(*fs):
                for f in map(prim, fs):
                    if f is False:
                        f = ("ge", K(-1))
                    if f is not True and f not in have:
                        have.add(f)
                        out.append(f)
                        base.append(f)

            done = set()
            for q in qs:
                for i in idx:
                    add(ge(self.N(q, i), K(0)))
            for _ in range(4):
                n0 = len(out)
                for i in idx:
                    for j in idx:
                        if i is j or (i, j) in done:
                            continue
                        if yes(ge(j, i)) or any(yes(lt(self.N(q, i), self.N(q, j))) for q in qs):
                            done.add((i, j))
                            done.add((j, i))
                            add(ge(j, i))
                            for q in qs:
                                add(ge(self.N(q, j), self.N(q, i)))
                if len(out) == n0:
                    break
            return out
        finally:
            self.busy = False

    # ------------------------------------------------------------------ the levels
    def block(self, st, l, x, element=False):
        """[(state, p, i)]: position x of level l as start(p) + N(p, i); as the place of element i if asked for"""
        E = self.E
        got = ((), x) if l == 0 else self.reg.get((l, x))
        if got:
            p, i = got
            if not element or l == 0 or E.entails(st, eq(self.N(p, i.addc(1)), self.N(p, i).addc(1))):
                return [(st, p, i)]
        out = []
        last = self.order[l][-1]
        for q in self.order[l]:
            lo = self.start(q)
            hi = lo.add(self.N(q, self.m))
            u = atom(("call", "index", q, x, l, element), 0, SIZE)
            fs = [ge(x, lo), ge(hi, x) if q == last and not element else lt(x, hi), eq(self.N(q, u), x.sub(lo)), ge(self.m, u.addc(1) if element else u)]
            if element:
                fs.append(eq(self.N(q, u.addc(1)), self.N(q, u).addc(1)))
            sts = [st]
            for f in fs:
                sts = [t for s in sts for t in E.assume(s, f)]
            out += [(s, q, u) for s in sts if not E.dead(s)]
        return out

    def rank(self, st, l, x, bit):
        """[(state, number of bits of the kind before x)]"""
        E = self.E
        out = []
        tot = self.Z(l) if bit == 0 else self.m.sub(self.Z(l))
        for s in E.assume(st, lt(self.m, x)):
            if not E.dead(s):
                out.append((s, tot))
        for s in E.assume(st, ge(self.m, x)):
            for s1, p, i in self.block(s, l, x):
                y = self.pos(p + (bit,), i)
                self.pos(p + (1 - bit,), i)
                out.append((s1, y if bit == 0 else y.sub(self.Z(l))))
        return out

    def select(self, st, l, k, bit):
        E = self.E
        tot = self.Z(l) if bit == 0 else self.m.sub(self.Z(l))
        out = [(s, self.m) for s in E.assume(st, ge(k, tot)) if not E.dead(s)]
        y = k if bit == 0 else k.add(self.Z(l))
        for s in E.assume(st, lt(k, tot)):
            for s1, p, i in self.block(s, l + 1, y, True):
                if p[-1] == bit:
                    out.append((s1, self.pos(p[:-1], i)))
                elif not E.dead(s1):
                    raise Giveup("bit of the wrong kind")
        return out

    def bit(self, st, l, x):
        """[(state, bit)]"""
        E = self.E
        out = []
        for s, p, i in self.block(st, l, x, True):
            n0, n1 = self.N(p + (0,), i), self.N(p + (0,), i.addc(1))
            for b, f in ((0, eq(n1, n0.addc(1))), (1, eq(n1, n0))):
                out += [(t, b) for t in E.assume(s, f) if not E.dead(t)]
        return out


class GivenMatrix(Matrix):
    """one particular sequence"""
    given = True

    def __init__(self, E, B, seq):
        self.E, self.B, self.seq, self.m = E, B, seq, K(len(seq))
        self.levels = []
        cur = list(seq)
        for l in range(B):
            bits = [x >> (B - 1 - l) & 1 for x in cur]
            self.levels.append(bits)
            cur = [x for x, b in zip(cur, bits) if b == 0] + [x for x, b in zip(cur, bits) if b == 1]

    def N(self, p, i):
        c = i.const()
        if c is None:
            raise Giveup("index")
        h = len(p)
        return K(sum(1 for x in self.seq[:max(c, 0)] if x >> (self.B - h) == self.enc(p) - (1 << h)))

    def Z(self, l):
        return K(self.levels[l].count(0))

    def basics(self):
        return []

    def c(self, x):
        if x.const() is None:
            raise Giveup("position")
        return x.const()

    def rank(self, st, l, x, bit):
        return [(st, K(self.levels[l][:self.c(x)].count(bit)))]

    def select(self, st, l, k, bit):
        at = [i for i, b in enumerate(self.levels[l]) if b == bit]
        return [(st, K(at[self.c(k)]) if self.c(k) < len(at) else self.m)]

    def bit(self, st, l, x):
        return [(st, self.levels[l][self.c(x)])]


def plain(base):
    q = base.replace("_u64", "")
    return "get_value" if q == "get" else q


def bits_of(v, B):
    return tuple(v >> (B - 1 - l) & 1 for l in range(B))


# query -> arguments (r: range, i: number, s: symbol)
QUERIES = {"get_value": "i", "get_u64": "i", "rank_range": "rs", "rank_range_u64": "rs", "rank_offset": "iis", "rank_offset_u64": "iis", "rank": "is", "rank_u64": "is",
           "select_offset": "iis", "select_offset_u64": "iis", "select": "is", "select_u64": "is", "quantile": "ri", "quantile_u64": "ri", "get_sorted": "i", "get_sorted_u64": "i",
           "range_min": "r", "range_min_u64": "r", "range_max": "r", "range_max_u64": "r", "range_median": "r", "range_median_u64": "r"}
CHECKED_ONLY = {"predecessor": "rs", "predecessor_u64": "rs", "successor": "rs", "successor_u64": "rs"}


def table():
    t = {}
    for f, a in QUERIES.items():
        t[f] = (f, a, True)
        t[f + "_unchecked"] = (f, a, False)
    for f, a in CHECKED_ONLY.items():
        t[f] = (f, a, True)
    return t


TABLE = table()
SHAPES = [(1, [0]), (1, [1, 0, 1, 1, 0]), (2, [3, 0, 1, 2, 1, 1]), (2, [2, 2]), (3, [1, 4, 4, 1, 2, 7]), (3, [6, 5, 0, 5, 3, 6, 0]), (3, [2, 6, 2, 6]), (4, [9, 3, 12, 3]), (1, []), (3, []), (2, [0, 3, 0, 3]), (3, [7, 7, 0])]


class WaveletRules(BitVecRules):
    prefix = WM + "::"
    keys = {}

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)
        self.s = setup_rs(ctx.p)

    @staticmethod
    def names():
        return ["len", "is_empty", "bits_per_element"] + list(TABLE)

    def run(self, name, fn=None):
        Rules.run(self, name, lambda key: self.query(key, name), lambda key: self.confirm(key, name))

    shape = None
    LEVELS = ()

    # ------------------------------------------------------------------ values
    def rs_level(self, E, mat, l, ty):
        v = E.sym_struct(("wlevel", l), ty)
        fs = list(v[3])
        names = {x["n"]: i for i, x in enumerate(E.T[ty]["variants"][0]["f"])}
        for n, x in (("len", mat.m), ("rank0", mat.Z(l)), ("rank1", mat.m.sub(mat.Z(l)))):
            if n in names:
                fs[names[n]] = ("int", x)
        return v[:3] + (tuple(fs),)

    def level_of(self, v):
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "wlevel":
                    return x[1]
                todo += list(x)
        raise Giveup("unknown rank/select vector")

    def bv(self, ty, bits):
        fs = [None, None]
        fs[self.b.di] = ("wbits", tuple(bits))
        fs[self.b.li] = ("int", K(len(bits)))
        return ("agg", ty, 0, tuple(fs))

    def bits(self, v):
        if v[0] == "agg" and v[3][self.b.di][0] == "wbits":
            return v[3][self.b.di][1]
        raise Giveup("bit vector of another origin")

    def install(self, E, mat):
        p = self.ctx.p
        names = {}
        for f in ("rank0", "rank1", "select0", "select1", "get", "get_unchecked", "is_bit_set", "is_bit_set_unchecked", "len", "is_empty"):
            k = p.find(RS + "::" + f)
            if k:
                names[k] = "l:" + f
        for f in ("from_zeros", "from_ones", "new", "with_capacity", "get", "get_unchecked", "is_bit_set", "is_bit_set_unchecked", "set", "set_unchecked", "len", "is_empty", "append_bit", "append", "flip_bit", "flip_bit_unchecked"):
            for k in [p.find(BV + "::" + f)] + [k for k in p.bodies if k.startswith(BV + "::" + f + "::<")]:
                if k:
                    names[k] = "b:" + f
        k = p.find("<%s as std::clone::Clone>::clone" % BV)
        if k:
            names[k] = "b:clone"
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            k = names.get(callee.get("inst")) or names.get(callee.get("rpath", callee["path"]))
            if k is None:
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            side, f = k.split(":")
            bad = lambda s, why: Outcome("panic", s, None, (why, E.site(body, line)))
            if side == "l":
                a = args[0]
                l = self.level_of(E.read(st, a[1], a[2]) if a[0] == "ref" else a)
                if f == "len":
                    return [Outcome("ret", st, ("int", mat.m))]
                if f == "is_empty":
                    return [Outcome("ret", st, ("bool", eq(mat.m, K(0))))]
                x = args[1][1]
                if f.startswith("rank"):
                    return [Outcome("ret", s, ("int", v)) for s, v in mat.rank(st, l, x, int(f[4]))]
                if f.startswith("select"):
                    return [Outcome("ret", s, ("int", v)) for s, v in mat.select(st, l, x, int(f[6]))]
                un = f.endswith("unchecked")
                out = [bad(s, "bit read behind the end") if un else Outcome("ret", s, none(dty)) for s in E.assume(st, ge(x, mat.m))]
                for s in E.assume(st, lt(x, mat.m)):
                    for s1, b in mat.bit(s, l, x):
                        v = ("bool", bool(b)) if "is_bit" in f else ("int", K(b))
                        out.append(Outcome("ret", s1, v if un else some(dty, v)))
                return out
            if f in ("new", "with_capacity"):
                return [Outcome("ret", st, self.bv(dty, ()))]
            if f in ("from_zeros", "from_ones"):
                n = args[0][1].const()
                if n is None or n > 200:
                    raise Giveup("length of a bit vector")
                return [Outcome("ret", st, self.bv(dty, (int(f == "from_ones"),) * n))]
            a = args[0]
            v = E.read(st, a[1], a[2]) if a[0] == "ref" else a
            bits = self.bits(v)
            if f == "clone":
                return [Outcome("ret", st, v)]
            if f == "len":
                return [Outcome("ret", st, ("int", K(len(bits))))]
            if f == "is_empty":
                return [Outcome("ret", st, ("bool", not bits))]
            x = args[1]
            c = x[1].const() if x[0] == "int" else int(x[1]) if x[0] == "bool" and isinstance(x[1], bool) else None
            if c is None:
                raise Giveup("position in a bit vector")
            if f in ("append_bit", "append"):
                s = st.copy()
                E.write(s, a[1], a[2], self.bv(v[1], bits + (c & 1,)))
                return [Outcome("ret", s, ("agg", dty, 0, ()))]
            un = f.endswith("unchecked")
            if not 0 <= c < len(bits):
                return [bad(st, "bit vector index")] if un or f.startswith("flip") else None or [Outcome("ret", st, none(dty))] if f != "set" else None
            if f.startswith(("get", "is_bit")):
                w = ("bool", bool(bits[c])) if "is_bit" in f else ("int", K(bits[c]))
                return [Outcome("ret", st, w if un else some(dty, w))]
            if f.startswith("flip"):
                nb = 1 - bits[c]
            else:
                nb = args[2][1].const()
                if nb is None:
                    raise Giveup("bit value")
                nb &= 1
            s = st.copy()
            E.write(s, a[1], a[2], self.bv(v[1], bits[:c] + (nb,) + bits[c + 1:]))
            if f == "set":
                t = E.T[dty]
                if t["k"] != "adt":
                    raise Giveup("result of set")
                return [Outcome("ret", s, ("agg", dty, 0, (("agg", t["args"][0], 0, ()),)))]
            return [Outcome("ret", s, ("agg", dty, 0, ()))]

        E.on_call = on_call

    # ------------------------------------------------------------------ one query
    def levels(self, base):
        deep = self.ctx.tier == "thorough"
        n = (3 if deep else 2) if "select" in base else 4 if deep and "cessor" not in base else 3
        return self.LEVELS or range(1, n + 1)

    def query(self, key, name):
        if name not in TABLE:
            for B in (0, 1, 2):
                self.one(key, name, B, None)
            return
        base, sig, checked = TABLE[name]
        if checked:
            self.one(key, name, 0, 0)
            if "u64" in name:
                self.wide(key, name)
                self.full(key, name, base, sig)
            elif "s" in sig:
                self.wrong(key, name)
        for B in self.levels(base):
            for s in range(1 << B) if "s" in sig else (0,):
                self.one(key, name, B, s)

    def confirm(self, key, name):
        base, sig, checked = TABLE.get(name, (name, "", True))
        for B, seq in SHAPES:
            n = len(seq)
            pts = sorted({0, 1, 2, n // 2, n - 2, n - 1, n, n + 1, W} - {-1, -2})
            cuts = [x for x in pts if x <= n + 1]
            for s in range(1 << B) if "s" in sig else (0,):
                vals = [[]]
                for a in sig:
                    if a == "i":
                        vals = [v + [x] for v in vals for x in pts]
                    elif a == "r":
                        vals = [v + [(x, y)] for v in vals for x in cuts for y in cuts]
                    else:
                        vals = [v + [s] for v in vals]
                odd = [B + 1, B - 1] if "s" in sig and checked and "u64" not in name and s == 0 and B else []
                for v in vals:
                    for bad in [None] + odd:
                        self.shape = (B, seq, v)
                        try:
                            self.one(key, name, B, s, bad)
                        except Giveup:
                            pass
                        finally:
                            self.shape = None

    def one(self, key, name, B, sym, bad=None):
        E = self.engine()
        E.struct_inv = {}
        E.peel = 2 * B + 4
        E.peel_width = 4096
        base, sig, checked = TABLE.get(name, (name, "", True))
        box = {}
        body = self.ctx.body(key)

        def pre(r):
            a = r.args[0]
            v = E.read(r.st0, a[1], a[2])
            fs = [x["n"] for x in E.T[v[1]]["variants"][0]["f"]]
            if fs != ["data"]:
                raise Giveup("fields of the wavelet matrix")
            d = v[3][0]
            if d[0] != "vec":
                raise Giveup("levels")
            if self.shape:
                mat = GivenMatrix(E, B, self.shape[1])
                r.note = "sequence %s of %d bits, arguments %s" % (self.shape[1], B, self.shape[2])
            else:
                mat = Matrix(E, B, atom(("wlen",), 0, SIZE) if B else K(0))
            box["mat"] = mat
            self.install(E, mat)
            lv = tuple(self.rs_level(E, mat, l, d[1]) for l in range(B))
            r.st0.mem[a[1]] = E.read(r.st0, a[1], ())
            E.write(r.st0, a[1], tuple(a[2]) + (("f", 0),), ("vec", d[1], K(B), ("lit", lv)))
            vals = []
            for n, kind in enumerate(sig):
                arg = r.args[n + 1]
                if kind == "s":
                    if arg[0] == "ref":
                        ty = E.T[body.locals[n + 2]]["to"]
                        E.write(r.st0, arg[1], arg[2], self.bv(ty, bits_of(sym, B)[::-1] if bad is None else (0,) * bad))
                    else:
                        r.args[n + 1] = ("int", K(sym))
                    vals.append(sym)
                elif kind == "r":
                    if self.shape:
                        x, y = self.shape[2][n]
                        r.args[n + 1] = arg[:3] + ((("int", K(x)), ("int", K(y))),)
                    g = r.args[n + 1][3]
                    vals.append((g[0][1], g[1][1]))
                else:
                    if self.shape:
                        r.args[n + 1] = ("int", K(self.shape[2][n]))
                    vals.append(r.args[n + 1][1])
            box["vals"] = vals
            return mat.basics() + (self.valid(base, sig, mat, vals, sym) if not checked else [])

        r = Run(self.ctx, key, E=E, pre=pre)
        if E.peel_cut:
            raise Giveup("a loop was not followed to its end")
        r.no_panic()
        mat = box["mat"]
        for o in r.rets():
            self.decide(r, o, name, base, sig, checked, mat, box["vals"], sym, bad)

    def valid(self, base, sig, mat, vals, sym):
        """facts under which a query has an answer"""
        m = mat.m
        base = plain(base)
        if base in ("get_value", "get_sorted"):
            return [lt(vals[0], m)]
        if base in ("rank_range", "rank_offset"):
            b, e = vals[0] if base == "rank_range" else vals[:2]
            return [ge(e, b), ge(m, e)]
        if base == "rank":
            return [ge(m, vals[0])]
        if base == "select_offset":
            return [lt(vals[0], m)]
        if base == "select":
            return []
        b, e = vals[0]
        out = [lt(b, e), ge(m, e)]
        if base == "quantile":
            out.append(lt(vals[1], e.sub(b)))
        return out

    def decide(self, r, o, name, base, sig, checked, mat, vals, sym, bad):
        E, v, m, B = r.E, o.val, mat.m, mat.B
        if name == "len":
            return r.prove("number of elements", o.st, eq(v[1], m))
        if name == "bits_per_element":
            return r.prove("bits per element", o.st, eq(v[1], K(B)))
        if name == "is_empty":
            for want, f in ((True, eq(m, K(0))), (False, ge(m, K(1)))):
                for s in E.assume(o.st, f):
                    c = E.tobool(v)
                    for s1 in E.assume(s, cnot(c) if want else c):
                        if not E.dead(s1):
                            return r.fail("empty exactly without elements", s1)
            return r.res("empty exactly without elements", "proved")
        q = plain(base)
        st = o.st
        if checked:
            if B == 0 or bad is not None:
                # without bits, or with a symbol of another width, nothing is found
                if bad is None and q in ("rank", "select", "rank_range", "rank_offset", "select_offset"):
                    r.res("a matrix without bits", "proved")
                else:
                    self.opt(r, st, v, False)
                return
            ok = self.valid(base, sig, mat, vals, sym)
            good = [st]
            for f in ok:
                nxt = []
                for s in good:
                    nxt += E.assume(s, f)
                    for s1 in E.assume(s, cnot(f)):
                        self.refused(r, s1, q, v, m, vals)
                good = nxt
        else:
            good = [st]
        for s in good:
            if not E.dead(s):
                self.answer(r, s, q, checked, v, mat, vals, sym)

    def refused(self, r, st, q, v, m, vals):
        """no answer for arguments outside the sequence (an empty range at its very end may count as inside)"""
        E = r.E
        if E.dead(st):
            return
        self.opt(r, st, v, False)

    def answer(self, r, st, q, checked, v, mat, vals, sym):
        E, m, B = r.E, mat.m, mat.B
        S = bits_of(sym or 0, B)
        if q in ("rank_range", "rank_offset", "rank"):
            b, e = vals[0] if q == "rank_range" else vals[:2] if q == "rank_offset" else (K(0), vals[0])
            if checked and q != "rank" and v[0] == "agg" and v[2] == 0:
                # the documentation leaves open whether the empty range at the end lies inside
                return r.prove("an answer inside the sequence", st, ge(b, m))
            x = self.value(r, st, v, checked)
            if x is not None:
                r.prove("number of occurrences in the range", st, eq(x[1], mat.N(S, e).sub(mat.N(S, b))))
            return
        if q in ("select_offset", "select"):
            off, k = vals[:2] if q == "select_offset" else (K(0), vals[0])
            many = mat.N(S, m).sub(mat.N(S, off))
            for s in E.assume(st, ge(k, many)):
                if checked:
                    self.opt(r, s, v, False)
                else:
                    r.prove("the length if there is no such occurrence", s, eq(v[1], m))
            for s in E.assume(st, lt(k, many)):
                x = self.value(r, s, v, checked)
                if x is None:
                    continue
                x = x[1]
                if mat.given and not 0 <= mat.c(x) < mat.c(m):
                    r.fail("the occurrence lies in the sequence", s)
                    continue
                r.prove("the occurrence lies in the sequence", s, ge(x, off))
                r.prove("the occurrence lies in the sequence", s, lt(x, m))
                r.prove("as many occurrences before it", s, eq(mat.N(S, x), mat.N(S, off).add(k)))
                r.prove("it is an occurrence", s, eq(mat.N(S, x.addc(1)), mat.N(S, x).addc(1)))
            return
        if q in ("predecessor", "successor"):
            b, e = vals[0]
            cnt = lambda w: mat.N(bits_of(w, B), e).sub(mat.N(bits_of(w, B), b))
            side = range(sym, -1, -1) if q == "predecessor" else range(sym, 1 << B)
            if v[0] != "agg":
                raise Giveup("shape of the result")
            if v[2] == 0:
                for w in side:
                    r.prove("nothing is returned only if nothing is there", st, eq(cnt(w), K(0)))
                return
            x = self.symbol(v[3][0], B)
            if x not in side:
                return r.fail("the element lies on the right side", st)
            r.prove("the element occurs in the range", st, ge(cnt(x), K(1)))
            for w in side:
                if w == x:
                    break
                r.prove("no closer element in the range", st, eq(cnt(w), K(0)))
            return
        x = self.value(r, st, v, checked)
        if x is None:
            return
        x = self.symbol(x, B)
        if q == "get_value":
            i = vals[0]
            S = bits_of(x, B)
            return r.prove("the element at the index", st, eq(mat.N(S, i.addc(1)), mat.N(S, i).addc(1)))
        if q == "get_sorted":
            b, e, k = K(0), m, vals[0]
        else:
            b, e = vals[0]
            if q == "quantile":
                k = vals[1]
            elif q == "range_min":
                k = K(0)
            elif q == "range_max":
                k = e.sub(b).addc(-1)
            else:
                k = E.divc(e.sub(b).addc(-1), 2, st)
        below = K(0)
        for w in range(x):
            below = below.add(mat.N(bits_of(w, B), e)).sub(mat.N(bits_of(w, B), b))
        upto = below.add(mat.N(bits_of(x, B), e)).sub(mat.N(bits_of(x, B), b))
        r.prove("not too many smaller elements", st, ge(k, below))
        r.prove("enough elements not above", st, lt(k, upto))

    def value(self, r, st, v, checked):
        if not checked:
            return v
        return v[3][0] if self.opt(r, st, v, True) else None

    def symbol(self, v, B):
        if v[0] == "int":
            c = v[1].const()
            if c is None:
                raise Giveup("value of the result")
            return c
        bits = self.bits(v)
        if len(bits) != B:
            raise Giveup("length of the result")
        return sum(b << i for i, b in enumerate(bits))

    def opt(self, r, st, v, want):
        what = "an answer is returned" if want else "nothing is returned"
        if v[0] != "agg":
            raise Giveup("shape of the result")
        if (v[2] == 1) == want:
            r.res(what, "proved")
            return True
        if not r.E.dead(st):
            r.fail(what, st)
        return False

    def wrong(self, key, name):
        """a symbol of another width"""
        for n in (1, 3):
            self.one(key, name, 2, 0, bad=n)

    def wide(self, key, name):
        """more bits than fit into a word"""
        E = self.engine()
        E.struct_inv = {}
        box = {}
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            k = callee.get("inst") or callee.get("rpath", callee["path"])
            if k.startswith(WM + "::") and "unchecked" in k:
                return [Outcome("panic", st, None, ("query on elements wider than a word", E.site(body, line)))]
            if k == box.get("len"):
                return [Outcome("ret", st, ("int", box["m"]))]
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        box["len"] = self.ctx.p.find(RS + "::len")
        box["m"] = atom(("wlen",), 0, SIZE)

        def pre(r):
            v = E.read(r.st0, r.args[0][1], r.args[0][2])
            E.on_call = on_call
            return [ge(v[3][0][2], K(65))]

        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        for o in r.rets():
            self.opt(r, o.st, o.val, False)

    def full(self, key, name, base, sig):
        """elements of exactly one word are not refused (the values come from the unchecked queries, decided on their own)"""
        E = self.engine()
        E.struct_inv = {}
        box = {"len": self.ctx.p.find(RS + "::len"), "m": atom(("wlen",), 1, SIZE)}
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            k = callee.get("inst") or callee.get("rpath", callee["path"])
            if k.startswith(WM + "::") and "unchecked" in k:
                if k[len(WM) + 2:].split("::<")[0] not in TABLE:
                    raise Giveup("another query")
                return [Outcome("ret", st, E.sym(("wide answer", line), dty))]
            if k == box["len"]:
                return [Outcome("ret", st, ("int", box["m"]))]
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        class Plain:
            m = box["m"]

        def pre(r):
            v = E.read(r.st0, r.args[0][1], r.args[0][2])
            E.on_call = on_call
            vals = []
            for n, kind in enumerate(sig):
                arg = r.args[n + 1]
                vals.append((arg[3][0][1], arg[3][1][1]) if kind == "r" else arg[1])
            return [ge(v[3][0][2], K(64)), ge(K(64), v[3][0][2])] + self.valid(base, sig, Plain, vals, 0)

        q = plain(base)
        if q in ("predecessor", "successor", "select", "select_offset"):
            return
        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        for o in r.rets():
            if q.startswith("rank") and o.val[0] == "agg" and o.val[2] == 0:
                g = r.args[1]
                b = g[3][0][1] if q == "rank_range" else K(0) if q == "rank" else g[1]
                r.prove("an answer is returned", o.st, ge(b, box["m"]))
            else:
                self.opt(r, o.st, o.val, True)
