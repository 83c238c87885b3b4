"""Contracts of the plain bit vector: lengths, guards and the value of every bit."""
from lin import *
import eng
from eng import Giveup, cnot, cand, cor, prim, State, Outcome
from bits import Same
from contracts import Run, Ctx, Rules, Result

BV = "bit_vec::BitVec"


def ge(a, b):
    return prim(("ge", a.sub(b)))


def lt(a, b):
    return prim(("ge", b.sub(a).addc(-1)))


def eq(a, b):
    return prim(("eq", a.sub(b)))


class BVs:
    """field access for BitVec values (field positions come from the type, not from the source text)"""

    def __init__(self, prog):
        self.p = prog
        self.ty = prog.tid(BV)
        t = prog.types[self.ty]
        fs = t["variants"][0]["f"]
        self.di = self.li = None
        for i, f in enumerate(fs):
            k = prog.types[f["t"]]
            if k["k"] == "adt" and k["path"] in ("std::vec::Vec", "std::boxed::Box"):
                self.di = i
            elif k["k"] == "uint":
                self.li = i
        if self.di is None or self.li is None or len(fs) != 2:
            raise KeyError("BitVec is no longer a (words, length) pair")

    def parts(self, v):
        """(content, number of words, length in bits)"""
        return v[3][self.di][3], v[3][self.di][2], v[3][self.li][1]

    def inv(self, E, v):
        _, n, l = self.parts(v)
        s = n.scale(64).sub(l)
        return [("ge", s), ("ge", s.neg().addc(63))]

    def is_bv(self, v):
        return v[0] == "agg" and v[1] == self.ty and len(v[3]) == 2 and v[3][self.di][0] == "vec"

    # loop support: every BitVec a loop changes keeps the word-count invariant
    def changed(self, E, H, mapping):
        seen = []
        for (root, proj) in mapping:
            for n in range(len(proj) + 1):
                try:
                    v = E._get(H, E.root_value(H, root), proj[:n])
                except Exception:
                    break
                if isinstance(v, tuple) and v and v[0] == "agg" and self.is_bv(v):
                    if (root, proj[:n]) not in seen:
                        seen.append((root, proj[:n]))
                    break
        return seen

    def loop_cands(self, E, entry, H, mapping):
        out = []
        for root, proj in self.changed(E, H, mapping):
            v = E._get(H, E.root_value(H, root), proj)
            out += self.inv(E, v)
        return out

    def int_slots(self, E, H, mapping):
        """integer locations a loop changes (its cursors)"""
        out = []
        for root, proj in mapping:
            try:
                v = E._get(H, E.root_value(H, root), proj)
            except Exception:
                continue
            if isinstance(v, tuple) and v and v[0] == "int":
                out.append((root, proj))
        return out

    def content_cands(self, F, tail=True, cursor=True):
        def f(E, entry, H, mapping):
            out = []
            for root, proj in mapping:
                # plain word vectors under construction
                if not proj or proj[-1][0] != "cnt":
                    continue
                try:
                    v = E._get(H, E.root_value(H, root), proj[:-1])
                except Exception:
                    continue
                if v[0] != "vec" or v[1] is None or E.T[v[1]]["s"] != "u64":
                    continue

                def plain(st, root=root, proj=proj):
                    v = E._get(st, E.root_value(st, root), proj[:-1])
                    return v[3], K(0), v[2].scale(64)

                out.append((plain, F))
            for root, proj in self.changed(E, H, mapping):

                def get(st, root=root, proj=proj):
                    return self.parts(E._get(st, E.root_value(st, root), proj))

                def whole(st, get=get):
                    c, n, l = get(st)
                    return c, K(0), l

                def beyond(st, get=get):
                    c, n, l = get(st)
                    return c, l, n.scale(64)

                out.append((whole, F))
                out.append((beyond, lambda st, q: [(st, False)]))
                old = get(entry)[0]
                for r2, p2 in self.int_slots(E, H, mapping):
                    if r2 == root and p2[: len(proj)] == proj:
                        continue

                    def cur(st, r2=r2, p2=p2):
                        return E._get(st, E.root_value(st, r2), p2)[1].scale(64)

                    def done(st, get=get, cur=cur):
                        return get(st)[0], K(0), cur(st)

                    def todo(st, get=get, cur=cur):
                        c, n, l = get(st)
                        return c, cur(st), n.scale(64)

                    out.append((done, F))
                    out.append((todo, Same(E.bdom, old)))
            return out

        return f


def setup(prog):
    """install the struct invariants of the bit vector for one program"""
    b = BVs(prog)
    eng.Engine.struct_inv = dict(eng.Engine.struct_inv)
    eng.Engine.struct_inv[BV] = b.inv
    return b


class BitVecRules(Rules):
    prefix = BV + '::'

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    def engine(self, F=None, **kw):
        E = self.ctx.engine(**kw)
        E.loop_cands = [self.b.loop_cands]
        if F is not None:
            E.content_cands = [self.b.content_cands(F)]
        return E

    # ------------------------------------------------------------ contracts used at call sites
    def summaries(self):
        """append_bits by its contract (the contract itself is decided by f_append_bits)"""

        def append_bits(E, st, callee, args, dty, depth, body, line):
            r = args[0]
            v = E.read(st, r[1], r[2])
            if not self.b.is_bv(v) or not E.discover and not all(E.entails(st, f) for f in self.b.inv(E, v)):
                raise Giveup("append_bits on a vector whose word count is not known to match")
            c, n, l = self.b.parts(v)
            w, k = args[1][1], args[2][1]
            res = []
            for s in E.assume(st, ge(k, K(65))):
                res.append(Outcome("panic", s, None, ("panic", E.site(body, line))))
            for s0 in E.assume(st, ge(K(64), k)):
                for s in E.assume(s0, ge(K((1 << 64) - 1), l.add(k))):
                    s = s.copy()
                    fs = list(v[3])
                    fs[self.b.di] = ("vec", v[3][self.b.di][1], E.divc(l.add(k).addc(63), 64, s), ("appb", c, l, w, k))
                    fs[self.b.li] = ("int", l.add(k))
                    E.write(s, r[1], r[2], ("agg", v[1], 0, tuple(fs)))
                    res.append(Outcome("ret", s, eng.UNIT))
            return res

        return {BV + "::append_bits": append_bits}

    # ------------------------------------------------------------ generic obligations
    def inv_holds(self, r, what, st, v):
        for f in self.b.inv(r.E, v):
            r.prove(what, st, f)

    def bits_are(self, r, what, st, content, ln, F):
        """for every q < ln: bit q of content == F(q)"""
        q = atom(("ghost", "q"), 0, None)
        n = 0
        for s in r.E.assume(st, lt(q, ln)):
            for s1, a in r.B.gb(s, content, q):
                for s2, b in F(s1, q):
                    d = r.B.equal(s2, a, b)
                    n += 1
                    if d is not None:
                        r.fail(what, d)
                        return False
        r.res(what, "proved", "%d bit cases" % n)
        return True

    def word_is(self, r, what, st, x, F, W=64):
        """for every j < 64: bit j of x == F(j)"""
        j = atom(("ghost", "j"), 0, W - 1)
        n = 0
        for s, a in r.B.bitat(st, x, j, W):
            for s2, b in F(s, j):
                d = r.B.equal(s2, a, b)
                n += 1
                if d is not None:
                    r.fail(what, d)
                    return False
        r.res(what, "proved", "%d bit cases" % n)
        return True

    def option(self, r, ok, chk, what=""):
        """the function returns Some exactly under ok, and chk(st, payload) holds for it"""
        for o in r.rets():
            for s, v in self.enum(r, o.st, o.val):
                if v[2] == 0:
                    r.prove("None exactly when documented" + what, s, cnot(ok))
                else:
                    r.prove("Some exactly when documented" + what, s, ok)
                    if chk:
                        chk(s, v[3][0])

    def enum(self, r, st, v):
        if v[0] == "sym":
            return r.E.expand_enum(st, v)
        return [(st, v)]

    def selfparts(self, r, i=0, st=None):
        v = r.args[i]
        if v[0] == "ref":
            v = r.E.read(st or r.st0, v[1], v[2])
        return self.b.parts(v)

    def segbits(self, r, content, pos, n):
        """word whose bit j is bit pos+j for j < n and 0 above"""

        def F(st, j):
            res = []
            for s in r.E.assume(st, lt(j, n)):
                res += r.B.gb(s, content, pos.add(j))
            for s in r.E.assume(st, ge(j, n)):
                res.append((s, False))
            return res

        return F

    def lenpost(self, r, o, v, ln, what="length"):
        _, _, l = self.b.parts(v)
        r.prove(what, o.st, eq(l, ln))
        self.inv_holds(r, "word count matches the length", o.st, v)

    # --- constructors
    def ctor(self, key, lenf, bitf, pre=None, unless=None, args=None, summaries=False):
        E = self.engine(stop=self.summaries() if summaries else ())
        r0 = {}

        def F(st, q):
            return bitf(r0["r"], st, q)

        E.content_cands = [self.b.content_cands(F)]
        r = Run.__new__(Run)
        r0["r"] = r
        r.__init__(self.ctx, key, E=E, pre=pre, args=args)
        r.no_panic(unless=unless(r) if unless else None)
        for o in r.rets():
            v = o.val
            self.lenpost(r, o, v, lenf(r))
            c, n, l = self.b.parts(v)
            self.bits_are(r, "every bit", o.st, c, l, F)
        return r

    def f_new(self, key):
        self.ctor(key, lambda r: K(0), lambda r, s, q: [])

    def f_with_capacity(self, key):
        self.ctor(key, lambda r: K(0), lambda r, s, q: [])

    def f_from_zeros(self, key):
        self.ctor(key, lambda r: r.int(0), lambda r, s, q: [(s, False)])

    def f_from_ones(self, key):
        self.ctor(key, lambda r: r.int(0), lambda r, s, q: [(s, True)])

    def slice_lsb(self, r, s, q):
        sl = r.args[0]
        v = r.E.read(s, sl[1], sl[2])
        e = r.E.elem(s, v, sl[3].add(q))
        if e[0] == "bool":
            return [(s, e[1])]
        bt = r.E.band(s, e[1], K(1), 64)
        return [(s, prim(("eq", bt.addc(-1))))]

    def f_from_bits(self, key):
        self.ctor(key, lambda r: r.args[0][4], self.slice_lsb)

    f_from_bits_u16 = f_from_bits
    f_from_bits_u32 = f_from_bits
    f_from_bits_u64 = f_from_bits
    f_from_bools = f_from_bits

    def limb_bits(self, r, s, q):
        sl = r.args[0]
        if sl[0] == "vec":
            return r.B.gb(s, sl[3], q)
        v = r.E.read(s, sl[1], sl[2])
        return r.B.gb(s, v[3], q.add(sl[3].scale(64)))

    # --- constructors from iterators: the iterator is an arbitrary finite sequence of items
    def seq(self, E, ty, i=0):
        t = self.ctx.p.tid(ty)
        n = E.lenatom(("seq", i), t)
        return ("iter", "vec", (("vec", t, n, ("init", ("seq", i))), ("int", K(0)), ("int", n)))

    def seq_lsb(self, r, s, q):
        e = r.E.elem(s, r.args[0][2][0], q)
        if e[0] == "bool":
            return [(s, e[1])]
        return [(s, prim(("eq", r.E.band(s, e[1], K(1), 64).addc(-1))))]

    def f_from_bits_iter(self, key):
        self.ctor(key, lambda r: r.args[0][2][0][2], self.seq_lsb, args=lambda E: {0: self.seq(E, "u64")})

    def f_from_bool_iter(self, key):
        self.ctor(key, lambda r: r.args[0][2][0][2], self.seq_lsb, args=lambda E: {0: self.seq(E, "bool")})

    def f_from_limbs_iter(self, key):
        self.ctor(key, lambda r: r.args[0][2][0][2].scale(64), lambda r, s, q: r.B.gb(s, r.args[0][2][0][3], q), args=lambda E: {0: self.seq(E, "u64")})

    # --- packing: decided for one element width at a time
    def pack(self, key, W, it):
        widths = getattr(self, "pack_widths", None) or [0, 1, 2, 3, 5, 7, 8, 13, 16, 31, 32, 33, 48, 63, 64, 65, 70, 128]
        if self.ctx.tier == "thorough":
            widths = range(0, 140)
        for b in widths:
            def args(E, b=b):
                d = {1: ("int", K(b))}
                if it:
                    d[0] = self.seq(E, "u%d" % W)
                return d

            def bitf(r, s, q, b=b):
                if b == 0:
                    return []
                i = r.E.divc(q, b, s)
                j = q.sub(i.scale(b))
                if it:
                    e = r.E.elem(s, r.args[0][2][0], i)
                else:
                    sl = r.args[0]
                    e = r.E.elem(s, r.E.read(s, sl[1], sl[2]), sl[3].add(i))
                res = []
                for s1 in r.E.assume(s, lt(j, K(W))):
                    res += r.B.bitat(s1, e[1], j, 64)
                for s1 in r.E.assume(s, ge(j, K(W))):
                    res.append((s1, False))
                return res

            self.ctor(key, lambda r, b=b: (r.args[0][2][0][2] if it else r.args[0][4]).scale(b), bitf, args=args, summaries=True)

    def f_pack_sequence_u64(self, key):
        self.pack(key, 64, False)

    def f_pack_sequence_u32(self, key):
        self.pack(key, 32, False)

    def f_pack_sequence_u16(self, key):
        self.pack(key, 16, False)

    def f_pack_sequence_u8(self, key):
        self.pack(key, 8, False)

    def f_pack_from_iter_u64(self, key):
        self.pack(key, 64, True)

    def f_pack_from_iter_u32(self, key):
        self.pack(key, 32, True)

    def f_pack_from_iter_u16(self, key):
        self.pack(key, 16, True)

    def f_pack_from_iter_u8(self, key):
        self.pack(key, 8, True)

    def f_from_limbs(self, key):
        self.ctor(key, lambda r: r.args[0][4].scale(64), self.limb_bits)

    def f_from_vec(self, key):
        self.ctor(key, lambda r: r.args[0][2].scale(64), self.limb_bits)

    # --- reads
    def f_len(self, key):
        r = Run(self.ctx, key, E=self.engine())
        r.no_panic()
        _, _, l = self.selfparts(r)
        for o in r.rets():
            r.prove("value", o.st, eq(o.val[1], l))

    def f_is_empty(self, key):
        r = Run(self.ctx, key, E=self.engine())
        r.no_panic()
        _, _, l = self.selfparts(r)
        for o in r.rets():
            for s in r.E.assume(o.st, o.val[1]):
                r.prove("true only when empty", s, eq(l, K(0)))
            for s in r.E.assume(o.st, cnot(o.val[1])):
                r.prove("false only when non-empty", s, ge(l, K(1)))

    def f_get(self, key, ok=None):
        r = Run(self.ctx, key, E=self.engine())
        r.no_panic()
        c, n, l = self.selfparts(r)
        pos = r.int(1)
        self.option(r, lt(pos, l), lambda s, v: self.bitval(r, s, v, c, pos))

    f_is_bit_set = f_get

    def bitval(self, r, s, v, c, pos):
        for s1, b in r.B.gb(s, c, pos):
            if v[0] == "bool":
                d = r.B.equal(s1, v[1], b)
                r.res("value", "proved") if d is None else r.fail("value", d)
            else:
                for s2 in r.E.assume(s1, b):
                    r.prove("value is 1 where the bit is set", s2, eq(v[1], K(1)))
                for s2 in r.E.assume(s1, cnot(b)):
                    r.prove("value is 0 where the bit is clear", s2, eq(v[1], K(0)))

    def f_get_unchecked(self, key):
        r = Run(self.ctx, key, E=self.engine(), pre=lambda r: [lt(r.int(1), self.selfparts(r)[2])])
        r.no_panic("never panics in range")
        c, n, l = self.selfparts(r)
        for o in r.rets():
            self.bitval(r, o.st, o.val, c, r.int(1))

    f_is_bit_set_unchecked = f_get_unchecked

    def f_get_bits(self, key):
        r = Run(self.ctx, key, E=self.engine())
        r.no_panic()
        c, n, l = self.selfparts(r)
        pos, k = r.int(1), r.int(2)
        ok = cand(cand(ge(k, K(1)), ge(K(64), k)), ge(l, pos.add(k)))
        self.option(r, ok, lambda s, v: self.word_is(r, "every bit of the result", s, v[1], self.segbits(r, c, pos, k)))

    def f_get_bits_unchecked(self, key):
        def pre(r):
            l = self.selfparts(r)[2]
            return [ge(r.int(2), K(1)), ge(K(64), r.int(2)), ge(l, r.int(1).add(r.int(2)))]

        r = Run(self.ctx, key, E=self.engine(), pre=pre)
        r.no_panic("never panics in range")
        c, n, l = self.selfparts(r)
        for o in r.rets():
            self.word_is(r, "every bit of the result", o.st, o.val[1], self.segbits(r, c, r.int(1), r.int(2)))

    def f_unpack_element(self, key):
        r = Run(self.ctx, key, E=self.engine())
        r.no_panic()
        c, n, l = self.selfparts(r)
        idx, k = r.int(1), r.int(2)
        pos = r.E.mul(idx, k)
        ok = cand(cand(ge(k, K(1)), ge(K(64), k)), ge(l, pos.add(k)))
        self.option(r, ok, lambda s, v: self.word_is(r, "every bit of the result", s, v[1], self.segbits(r, c, pos, k)))

    def f_unpack_element_unchecked(self, key):
        def pre(r):
            l = self.selfparts(r)[2]
            return [ge(r.int(2), K(1)), ge(K(64), r.int(2)), ge(l, r.E.mul(r.int(1), r.int(2)).add(r.int(2)))]

        r = Run(self.ctx, key, E=self.engine(), pre=pre)
        r.no_panic("never panics in range")
        c, n, l = self.selfparts(r)
        for o in r.rets():
            self.word_is(r, "every bit of the result", o.st, o.val[1], self.segbits(r, c, r.E.mul(r.int(1), r.int(2)), r.int(2)))

    # --- mutation
    def mutator(self, key, newlen, bitf, pre=None, unless=None, ret=None, summaries=False):
        E = self.engine(stop=self.summaries() if summaries else ())
        box = {}

        def F(st, q):
            return bitf(box["r"], st, q)

        E.content_cands = [self.b.content_cands(F)]
        r = Run.__new__(Run)
        box["r"] = r
        r.__init__(self.ctx, key, E=E, pre=pre)
        r.no_panic(unless=unless(r) if unless else None)
        for o in r.rets():
            for s, v in self.enum(r, o.st, o.val) if ret else [(o.st, o.val)]:
                if ret and not ret(r, s, v):
                    continue
                me = r.E.read(s, r.args[0][1], r.args[0][2])
                o2 = Outcome("ret", s, me)
                self.lenpost(r, o2, me, newlen(r))
                c, n, l = self.b.parts(me)
                self.bits_are(r, "every bit afterwards", s, c, l, F)
        return r

    def appended(self, word, k):
        """bits: old ones below the old length, then the low k bits of word"""

        def F(r, st, q):
            c, n, l = self.selfparts(r)
            res = []
            for s in r.E.assume(st, lt(q, l)):
                res += r.B.gb(s, c, q)
            for s in r.E.assume(st, ge(q, l)):
                w = word(r)
                if isinstance(w, Lin):
                    for s2 in r.E.assume(s, lt(q.sub(l), K(64))):
                        res += r.B.bitat(s2, w, q.sub(l))
                else:
                    res.append((s, w))
            return res

        return F

    def f_append(self, key):
        self.mutator(key, lambda r: self.selfparts(r)[2].addc(1), self.appended(lambda r: r.args[1][1], 1))

    def f_append_bit(self, key):
        self.mutator(
            key,
            lambda r: self.selfparts(r)[2].addc(1),
            self.appended(lambda r: prim(("eq", r.E.band(r.st0, r.int(1), K(1), 64).addc(-1))), 1),
        )

    f_append_bit_u32 = f_append_bit
    f_append_bit_u16 = f_append_bit
    f_append_bit_u8 = f_append_bit

    def f_append_word(self, key):
        self.mutator(key, lambda r: self.selfparts(r)[2].addc(64), self.appended(lambda r: r.int(1), 64))

    def f_append_bits(self, key):
        self.mutator(
            key,
            lambda r: self.selfparts(r)[2].add(r.int(2)),
            self.appended(lambda r: r.int(1), 64),
            unless=lambda r: ge(r.int(2), K(65)),
        )

    def f_drop_last(self, key):
        E = self.engine()
        r = Run(self.ctx, key, E=E)
        r.no_panic()
        c, n, l = self.selfparts(r)
        for o in r.rets():
            for s in E.assume(o.st, ge(l, r.int(1))):
                me = E.read(s, r.args[0][1], r.args[0][2])
                self.lenpost(r, Outcome("ret", s, me), me, l.sub(r.int(1)))
                c2, n2, l2 = self.b.parts(me)
                self.bits_are(r, "remaining bits unchanged", s, c2, l2, lambda st, q: r.B.gb(st, c, q))
            for s in E.assume(o.st, lt(l, r.int(1))):
                me = E.read(s, r.args[0][1], r.args[0][2])
                self.lenpost(r, Outcome("ret", s, me), me, K(0))

    def f_flip_bit(self, key, pre=None):
        def F(r, st, q):
            c, n, l = self.selfparts(r)
            res = []
            for s, b in r.B.gb(st, c, q):
                for s2 in r.E.assume(s, eq(q, r.int(1))):
                    res.append((s2, cnot(b)))
                for s2 in r.E.assume(s, cnot(eq(q, r.int(1)))):
                    res.append((s2, b))
            return res

        self.mutator(key, lambda r: self.selfparts(r)[2], F, unless=lambda r: ge(r.int(1), self.selfparts(r)[2]))

    f_flip_bit_unchecked = f_flip_bit

    def setspec(self, r, st, q):
        c, n, l = self.selfparts(r)
        res = []
        val = prim(("eq", r.E.band(r.st0, r.int(2), K(1), 64).addc(-1)))
        for s in r.E.assume(st, eq(q, r.int(1))):
            res.append((s, val))
        for s in r.E.assume(st, cnot(eq(q, r.int(1)))):
            res += r.B.gb(s, c, q)
        return res

    def f_set(self, key):
        def ret(r, s, v):
            l = self.selfparts(r)[2]
            if v[2] == 0:
                r.prove("Ok exactly when in range", s, lt(r.int(1), l))
                return True
            r.prove("Err exactly when out of range", s, ge(r.int(1), l))
            self.unchanged(r, s)
            return False

        self.mutator(key, lambda r: self.selfparts(r)[2], self.setspec, ret=ret)

    def f_set_unchecked(self, key):
        self.mutator(key, lambda r: self.selfparts(r)[2], self.setspec, unless=lambda r: ge(r.int(1), self.selfparts(r)[2]))

    def unchanged(self, r, s, i=0):
        c, n, l = self.selfparts(r)
        c2, n2, l2 = self.selfparts(r, st=s)
        r.prove("rejected call leaves the length alone", s, eq(l, l2))
        if c == c2 and n == n2:
            r.res("rejected call leaves the bits alone", "proved")
        else:
            self.bits_are(r, "rejected call leaves the bits alone", s, c2, l2, lambda st, q: r.B.gb(st, c, q))

    def f_extend_bitvec(self, key):
        def F(r, st, q):
            c, n, l = self.selfparts(r)
            c2, n2, l2 = self.selfparts(r, 1)
            res = []
            for s in r.E.assume(st, lt(q, l)):
                res += r.B.gb(s, c, q)
            for s in r.E.assume(st, ge(q, l)):
                res += r.B.gb(s, c2, q.sub(l))
            return res

        self.mutator(key, lambda r: self.selfparts(r)[2].add(self.selfparts(r, 1)[2]), F, summaries=True)

    # --- masks
    def maskop(self, op):
        def F(r, st, q):
            c, n, l = self.selfparts(r)
            c2, n2, l2 = self.selfparts(r, 1)
            res = []
            for s, a in r.B.gb(st, c, q):
                for s1, b in r.B.gb(s, c2, q):
                    res += self.boolop(r, s1, op, a, b)
            return res

        return F

    def boolop(self, r, st, op, a, b):
        """truth value of a op b, by cases on a"""
        res = []
        for s in r.E.assume(st, a):
            res.append((s, {"or": True, "and": b, "xor": cnot(b)}[op]))
        for s in r.E.assume(st, cnot(a)):
            res.append((s, {"or": b, "and": False, "xor": b}[op]))
        return res

    def apply_mask(self, key, op):
        def ret(r, s, v):
            l, l2 = self.selfparts(r)[2], self.selfparts(r, 1)[2]
            if v[2] == 0:
                r.prove("Ok exactly for masks of the same length", s, eq(l, l2))
                return True
            r.prove("Err exactly for masks of another length", s, cnot(eq(l, l2)))
            self.unchanged(r, s)
            return False

        self.mutator(key, lambda r: self.selfparts(r)[2], self.maskop(op), ret=ret)

    def f_apply_mask_or(self, key):
        self.apply_mask(key, "or")

    def f_apply_mask_and(self, key):
        self.apply_mask(key, "and")

    def f_apply_mask_xor(self, key):
        self.apply_mask(key, "xor")

    # --- splitting
    def split_parts(self, r, s, pair, at, c, l):
        a, b = pair[3]
        self.lenpost(r, Outcome("ret", s, a), a, at, "length of the first half")
        self.lenpost(r, Outcome("ret", s, b), b, l.sub(at), "length of the second half")
        ca, _, la = self.b.parts(a)
        cb, _, lb = self.b.parts(b)
        self.bits_are(r, "bits of the first half", s, ca, la, lambda st, q: r.B.gb(st, c, q))
        self.bits_are(r, "bits of the second half", s, cb, lb, lambda st, q: r.B.gb(st, c, q.add(at)))

    def split_run(self, key, pre=None):
        E = self.engine()
        box = {}

        def F(st, q):
            r = box["r"]
            c, n, l = self.selfparts(r)
            return r.B.gb(st, c, q.add(r.int(1)))

        E.content_cands = [self.b.content_cands(F)]
        r = Run.__new__(Run)
        box["r"] = r
        r.__init__(self.ctx, key, E=E, pre=pre)
        return r

    def f_split_at(self, key):
        r = self.split_run(key)
        r.no_panic()
        c, n, l = self.selfparts(r)
        at = r.int(1)
        for o in r.rets():
            for s, v in self.enum(r, o.st, o.val):
                if v[2] == 0:
                    r.prove("Ok exactly when in range", s, ge(l, at))
                    self.split_parts(r, s, v[3][0], at, c, l)
                else:
                    r.prove("Err exactly when out of range", s, lt(l, at))
                    c2, n2, l2 = self.b.parts(v[3][0])
                    r.prove("rejected split returns the vector", s, eq(l, l2))
                    self.bits_are(r, "rejected split returns the vector", s, c2, l2, lambda st, q: r.B.gb(st, c, q))

    def f_split_at_unchecked(self, key):
        r = self.split_run(key, pre=lambda r: [ge(self.selfparts(r)[2], r.int(1))])
        r.no_panic("never panics in range")
        c, n, l = self.selfparts(r)
        for o in r.rets():
            self.split_parts(r, o.st, o.val, r.int(1), c, l)

    # --- counting
    def f_count_ones(self, key, zeros=False):
        r = Run(self.ctx, key, E=self.engine())
        r.no_panic()
        c, n, l = self.selfparts(r)
        for o in r.rets():
            want = r.B.P(o.st, c, l)
            r.prove("number of %s bits below the length" % ("zero" if zeros else "one"), o.st, eq(o.val[1], l.sub(want) if zeros else want))

    def f_count_zeros(self, key):
        self.f_count_ones(key, True)

    def f_apply_mask_custom(self, key):
        def F(r, st, q):
            c, c2 = self.selfparts(r)[0], self.selfparts(r, 1)[0]
            return r.B.gb(st, ("zipmap", r.E.snap(r.st0, r.args[2]), c, c2), q)

        def ret(r, s, v):
            l, l2 = self.selfparts(r)[2], self.selfparts(r, 1)[2]
            if v[2] == 0:
                r.prove("Ok exactly for masks of the same length", s, eq(l, l2))
                return True
            r.prove("Err exactly for masks of another length", s, cnot(eq(l, l2)))
            self.unchanged(r, s)
            return False

        self.mutator(key, lambda r: self.selfparts(r)[2], F, ret=ret)

    def f_append_bits_unchecked(self, key):
        """documented: junk beyond the end may be ORed in, so the appended bits are only promised when there is none"""
        E = self.engine()
        r = Run(self.ctx, key, E=E, pre=lambda r: [ge(K(64), r.int(2))])
        r.no_panic("never panics for at most 64 bits")
        c, n, l = self.selfparts(r)
        w, k = r.int(1), r.int(2)
        for o in r.rets():
            me = E.read(o.st, r.args[0][1], r.args[0][2])
            self.lenpost(r, o, me, l.add(k))
            c2, n2, l2 = self.b.parts(me)
            self.bits_are(r, "existing bits unchanged", o.st, c2, l, lambda st, q: r.B.gb(st, c, q))
            s = o.st.copy()
            s.cf = tuple(s.cf) + ((c, l, n.scale(64), lambda st, q: [(st, False)]),)
            F = self.appended(lambda r: w, 64)
            self.bits_are(r, "appended bits when there is no junk beyond the end", s, c2, l2, lambda st, q: F(r, st, q))

    # --- conversions
    keys = {
        "from_slice_trait": "<bit_vec::BitVec as std::convert::From<&[u64]>>::from",
        "from_vec_trait": "<bit_vec::BitVec as std::convert::From<std::vec::Vec<u64>>>::from",
        "from_iter_trait": "<bit_vec::BitVec as std::iter::FromIterator<u64>>::from_iter",
        "extend_owned": "<bit_vec::BitVec as std::iter::Extend<bit_vec::BitVec>>::extend",
        "extend_ref": "<bit_vec::BitVec as std::iter::Extend<&bit_vec::BitVec>>::extend",
        "eq_trait": "<bit_vec::BitVec as std::cmp::PartialEq>::eq",
        "hash_trait": "<bit_vec::BitVec as std::hash::Hash>::hash",
    }

    f_from_slice_trait = f_from_limbs
    f_from_vec_trait = f_from_vec
    f_from_iter_trait = f_from_limbs_iter

    def extend_contract(self):
        """extend_bitvec by its contract (decided by f_extend_bitvec)"""

        def ext(E, st, callee, args, dty, depth, body, line):
            r, o = args[0], args[1]
            v, w = E.read(st, r[1], r[2]), E.read(st, o[1], o[2])
            if not self.b.is_bv(v) or not self.b.is_bv(w):
                raise Giveup("extend_bitvec arguments")
            c, n, l = self.b.parts(v)
            c2, n2, l2 = self.b.parts(w)
            res = []
            for s in E.assume(st, ge(K((1 << 60)), l.add(l2))):
                s = s.copy()
                fs = list(v[3])
                fs[self.b.di] = ("vec", v[3][self.b.di][1], E.divc(l.add(l2).addc(63), 64, s), ("appbv", c, l, c2, l2))
                fs[self.b.li] = ("int", l.add(l2))
                E.write(s, r[1], r[2], ("agg", v[1], 0, tuple(fs)))
                res.append(Outcome("ret", s, eng.UNIT))
            return res

        return {BV + "::extend_bitvec": ext}

    def extend_all(self, key, byref):
        """decided for every number of appended vectors up to three, each of arbitrary length and content"""
        for n in range(4):
            def args(E):
                bvt = self.b.ty
                items = []
                for i in range(n):
                    if byref:
                        root = ("O", ("item", i))
                        E.root_ty[root] = bvt
                        items.append(("ref", root, ()))
                    else:
                        items.append(E.sym(("item", i), bvt))
                return {1: ("iter", "vec", (("vec", bvt, K(n), ("lit", tuple(items))), ("int", K(0)), ("int", K(n))))}

            E = self.engine(stop=self.extend_contract())
            r = Run(self.ctx, key, E=E, args=args)
            r.no_panic()
            c, _, l = self.selfparts(r)
            for o in r.rets():
                parts = [(c, l)]
                for it in r.args[1][2][0][3][1]:
                    v = E.read(r.st0, it[1], it[2]) if byref else it
                    c2, _, l2 = self.b.parts(v)
                    parts.append((c2, l2))
                me = E.read(o.st, r.args[0][1], r.args[0][2])
                tot = K(0)
                for _, x in parts:
                    tot = tot.add(x)
                self.lenpost(r, o, me, tot)

                def F(st, q):
                    res, lo = [], K(0)
                    for c2, l2 in parts:
                        for s in E.assume(st, ge(q, lo)):
                            for s2 in E.assume(s, lt(q, lo.add(l2))):
                                res += r.B.gb(s2, c2, q.sub(lo))
                        lo = lo.add(l2)
                    return res

                c3, _, l3 = self.b.parts(me)
                self.bits_are(r, "every bit afterwards (%d vectors)" % n, o.st, c3, l3, F)

    def f_extend_owned(self, key):
        self.extend_all(key, False)

    def f_extend_ref(self, key):
        self.extend_all(key, True)

    def f_iter_limbs(self, key):
        r = Run(self.ctx, key, E=self.engine())
        r.no_panic()
        c, n, l = self.selfparts(r)
        self.yields_words(r, c, n)

    def yields_words(self, r, c, n):
        """the returned iterator yields word i of content c for i = 0, 1, .. n-1"""
        import models

        for o in r.rets():
            E = r.E
            # the k-th item, for an arbitrary k: skip k items, then take one
            k = atom(("ghost", "k"), 0, None)
            for s in E.assume(o.st, lt(k, n)):
                for x in models.iter_skip(E, s, o.val, k, 0, None, None) or []:
                    if isinstance(x, Outcome):
                        r.res("iterating does not panic", "unknown")
                        continue
                    s1, it = x[0], x[1]
                    for y in models.iter_next(E, s1, it, 0, None, None):
                        if isinstance(y, Outcome):
                            r.res("iterating does not panic", "unknown")
                            continue
                        s2, _, item = y
                        if item is None:
                            r.fail("yields every word", s2)
                        else:
                            v = item if item[0] == "int" else E.read(s2, item[1], item[2])
                            r.prove("k-th item is the k-th word", s2, eq(v[1], E.elem(s2, ("vec", self.ctx.p.tid("u64"), n, c), k)[1]))
            m = models.iter_len(E, o.st, o.val)
            if m is not None:
                r.prove("number of words", o.st, eq(m, n))

    # --- equality and hashing
    def f_eq_trait(self, key):
        E = self.engine()
        box = {}

        def agree(E, entry, H, mapping):
            r = box["r"]
            c1, c2 = self.selfparts(r)[0], self.selfparts(r, 1)[0]
            out = []
            for root, proj in self.b.int_slots(E, H, mapping):
                def done(st, root=root, proj=proj):
                    return c1, K(0), E._get(st, E.root_value(st, root), proj)[1].scale(64)

                out.append((done, lambda st, q: r.B.gb(st, c2, q)))
            return out

        E.content_cands = [agree]
        r = Run.__new__(Run)
        box["r"] = r
        r.__init__(self.ctx, key, E=E)
        r.no_panic()
        c1, n1, l1 = self.selfparts(r)
        c2, n2, l2 = self.selfparts(r, 1)
        for o in r.rets():
            for s in E.assume(o.st, o.val[1]):
                r.prove("equal vectors have the same length", s, eq(l1, l2))
                self.bits_are(r, "equal vectors have the same bits", s, c1, l1, lambda st, q: r.B.gb(st, c2, q))
            for s in E.assume(o.st, cnot(o.val[1])):
                self.differ(r, s, c1, l1, c2, l2)

    def differ(self, r, s, c1, l1, c2, l2):
        """the path must be impossible when both have the same length and bits"""
        what = "vectors with the same bits are equal"
        E = r.E
        for s1 in E.assume(s, eq(l1, l2)):
            s2 = s1.copy()
            s2.cf = ((c1, K(0), l1, lambda st, q: r.B.gb(st, c2, q)),) + tuple(s2.cf)
            ok = False
            for l in s2.nes:
                pos = tuple((a, k) for a, k in l.t if k > 0)
                neg = tuple((a, -k) for a, k in l.t if k < 0)
                x, y = Lin(max(l.c, 0), pos), Lin(max(-l.c, 0), neg)
                try:
                    if r.B.words_differ(s2, x, y) is None:
                        ok = True
                        break
                except Giveup:
                    pass
            if ok:
                r.res(what, "proved")
                continue

            def hyp(m, ws):
                n = m.lin(l1)
                for (c, i), w in ws.items():
                    v = ws.get((c2, i)) if c == c1 else None
                    if v is not None:
                        k = max(0, min(64, n - 64 * i))
                        if (w ^ v) & ((1 << k) - 1):
                            return False
                return not any(b in (c1, c2) for b, _ in m.bvals)

            r.fail(what, s1, hyp=hyp)

    def f_hash_trait(self, key):
        """everything fed to the hasher is determined by the length and the bits below it"""
        E = self.engine()
        box = {}
        sites = []

        def on_call(E, st, callee, args, dty, depth, body, line):
            if callee["path"].startswith("std::hash::Hasher::write") and not E.loop_quiet:
                sites.append((st, args[1], E.site(body, line)))
            return None

        E.on_call = on_call
        r = Run(self.ctx, key, E=E)
        r.no_panic()
        c, n, l = self.selfparts(r)
        q = atom(("ghost", "pos"), 0, None)
        r.res("the hasher is fed", "proved" if sites else "unknown", "%d writes" % len(sites))
        for st, v, site in sites:
            what = "hashed words hold no bits beyond the length"
            if v[0] == "int":
                bad = None
                for s, p in r.B.segs(st, v[1], 64):
                    for lo, hi, src in p:
                        bad = bad or self.junk(r, s, src, hi.sub(lo), c, l)
                if bad is None:
                    r.res(what, "proved", site=site)
                else:
                    r.fail(what, bad, site=site)
            else:
                r.res(what, "unknown", "hasher fed with %s" % (v[0],), site)
        for o in r.rets():
            for k, x in o.st.cons + [("ne", y) for y in o.st.nes]:
                if any(AT.key[a][0] in ("gb", "elt") for a, _ in x.t):
                    r.res("the sequence of hashed words is determined by the length", "unknown", "depends on the content")

    def junk(self, r, st, src, n, c, l):
        """a state in which a segment of n bits holds a bit at or beyond position l"""
        if src[0] in ("z", "o"):
            return None
        if src[0] == "c" and src[1] == c:
            for s in r.E.assume(st, ge(src[2].add(n), l.addc(1))):
                return s
            return None
        if src[0] == "w":
            return None if not any(AT.key[a][0] in ("elt", "gb") for a in self.deep(src[1])) else st
        for x in src[1:]:
            if isinstance(x, tuple):
                b = self.junk(r, st, x, n, c, l)
                if b is not None:
                    return b
        return None

    def deep(self, x):
        from contracts import atoms_deep

        seen = set()
        atoms_deep(x, seen)
        return seen


class MaskRules(BitVecRules):
    """lazily masked views: every query answers for the word-wise combination of vector and mask"""

    prefix = "bit_vec::mask::MaskedBitVec::"
    keys = {}

    def mrun(self, key, pre=None):
        def p(r):
            v, m = self.both(r)
            return [eq(self.b.parts(v)[2], self.b.parts(m)[2])] + (pre(r) if pre else [])

        return Run(self.ctx, key, E=self.engine(), pre=p)

    def both(self, r):
        me = r.pointee(0)
        refs = [x for x in me[3] if x[0] == "ref"]
        return [r.E.read(r.st0, x[1], x[2]) for x in refs[:2]]

    def selfparts(self, r, i=0, st=None):
        v, m = self.both(r)
        c, n, l = self.b.parts(v)
        me = r.pointee(0)
        F = [x for x in me[3] if x[0] != "ref"][0]
        return ("zipmap", r.E.snap(r.st0, F), c, self.b.parts(m)[0]), n, l

    def f_get(self, key):
        r = self.mrun(key)
        r.no_panic()
        c, n, l = self.selfparts(r)
        pos = r.int(1)
        self.option(r, lt(pos, l), lambda s, v: self.bitval(r, s, v, c, pos))

    f_is_bit_set = f_get

    def f_get_unchecked(self, key):
        r = self.mrun(key, lambda r: [lt(r.int(1), self.selfparts(r)[2])])
        r.no_panic("never panics in range")
        c, n, l = self.selfparts(r)
        for o in r.rets():
            self.bitval(r, o.st, o.val, c, r.int(1))

    f_is_bit_set_unchecked = f_get_unchecked

    def f_get_bits(self, key):
        r = self.mrun(key)
        r.no_panic()
        c, n, l = self.selfparts(r)
        pos, k = r.int(1), r.int(2)
        ok = cand(cand(ge(k, K(1)), ge(K(64), k)), ge(l, pos.add(k)))
        self.option(r, ok, lambda s, v: self.word_is(r, "every bit of the result", s, v[1], self.segbits(r, c, pos, k)))

    def f_get_bits_unchecked(self, key):
        def pre(r):
            l = self.selfparts(r)[2]
            return [ge(r.int(2), K(1)), ge(K(64), r.int(2)), ge(l, r.int(1).add(r.int(2)))]

        r = self.mrun(key, pre)
        r.no_panic("never panics in range")
        c, n, l = self.selfparts(r)
        for o in r.rets():
            self.word_is(r, "every bit of the result", o.st, o.val[1], self.segbits(r, c, r.int(1), r.int(2)))

    def f_count_ones(self, key, zeros=False):
        r = self.mrun(key)
        r.no_panic()
        c, n, l = self.selfparts(r)
        for o in r.rets():
            want = r.B.P(o.st, c, l)
            r.prove("number of %s bits below the length" % ("zero" if zeros else "one"), o.st, eq(o.val[1], l.sub(want) if zeros else want))

    def f_count_zeros(self, key):
        self.f_count_ones(key, True)

    def f_to_bit_vec(self, key):
        E = self.engine()
        box = {}

        def F(st, q):
            r = box["r"]
            return r.B.gb(st, self.selfparts(r)[0], q)

        E.content_cands = [self.b.content_cands(F)]
        r = Run.__new__(Run)
        box["r"] = r

        def pre(r):
            v, m = self.both(r)
            return [eq(self.b.parts(v)[2], self.b.parts(m)[2])]

        r.__init__(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        c, n, l = self.selfparts(r)
        for o in r.rets():
            self.lenpost(r, o, o.val, l)
            c2, n2, l2 = self.b.parts(o.val)
            self.bits_are(r, "every bit of the copy", o.st, c2, l2, F)

    def ctor_mask(self, key, op):
        """Ok exactly for equal lengths; the view refers to the two given vectors and combines words by op"""
        r = Run(self.ctx, key, E=self.engine())
        r.no_panic()
        E = r.E
        v, m = r.pointee(0), r.pointee(1)
        l, l2 = self.b.parts(v)[2], self.b.parts(m)[2]
        for o in r.rets():
            for s, x in self.enum(r, o.st, o.val):
                if x[2] == 1:
                    r.prove("Err exactly for masks of another length", s, cnot(eq(l, l2)))
                    continue
                r.prove("Ok exactly for masks of the same length", s, eq(l, l2))
                view = x[3][0]
                refs = [f for f in view[3] if f[0] == "ref"][:2]
                fn = [f for f in view[3] if f[0] != "ref"][0]
                ok = [E.read(s, f[1], f[2]) for f in refs] == [v, m]
                r.res("the view refers to the vector and the mask", "proved" if ok else "refuted" if sorted(map(repr, refs)) == sorted(repr(a) for a in r.args[:2]) else "unknown")
                if op is None:
                    r.res("the view uses the given function", "proved" if fn == r.args[2] else "unknown")
                    continue
                a, b = atom(("ghost", "a"), 0, (1 << 64) - 1), atom(("ghost", "b"), 0, (1 << 64) - 1)
                for o2 in E.call_value(s, fn, [("int", a), ("int", b)], self.ctx.p.tid("u64"), 0):
                    if o2.kind == "panic":
                        r.fail("the mask operation does not panic", o2.st)
                        continue

                    def F(st, j):
                        res = []
                        for s1, p in r.B.bitat(st, a, j):
                            for s2, q in r.B.bitat(s1, b, j):
                                res += self.boolop(r, s2, op, p, q)
                        return res

                    self.word_is(r, "the view combines words by %s" % op, o2.st, o2.val[1], F)


class MaskCtorRules(MaskRules):
    prefix = BV + "::"

    def f_mask_or(self, key):
        self.ctor_mask(key, "or")

    def f_mask_and(self, key):
        self.ctor_mask(key, "and")

    def f_mask_xor(self, key):
        self.ctor_mask(key, "xor")

    def f_mask_custom(self, key):
        self.ctor_mask(key, None)
