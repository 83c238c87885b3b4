"""Contracts of the select iterators: the range [i, j) of ranks not yet yielded, plus what the cached super block and
block positions promise about it."""
from lin import *
from eng import Giveup, cnot, cand, cor, prim, Outcome
from contracts import Run, Rules, Result
from models import none, some
from rules_bitvec import BitVecRules, setup, ge, lt, eq, BV
from rules_rsvec import setup_rs, RS, sel_cands
from rules_search import SearchRules
from rules_iter import TRAIT, REQUIRED, METHODS, IterRules

MOD = "bit_vec::fast_rs_vec::iter::"


class SelIterRules(IterRules):
    depth = 0

    """names are <iterator type>|<method>"""

    @staticmethod
    def names(types=None):
        return ["%s%s|%s" % (MOD, t, m) for t in ("SelectIter<'_, true>", "SelectIter<'_, false>", "SelectIntoIter<true>", "SelectIntoIter<false>") for m in METHODS]

    def layout(self, ty):
        t = self.ctx.p.types[ty]
        f = {x["n"]: (i, x["t"]) for i, x in enumerate(t["variants"][0]["f"])}
        names = ("vec", "next_rank", "next_rank_back", "last_super_block", "last_super_block_back", "last_block", "last_block_back")
        for n in names:
            if n not in f:
                raise Giveup("iterator without field " + n)
        if len(f) != len(names):
            raise Giveup("iterator with further fields")
        return {n: f[n][0] for n in names}, f["next_rank_back"][1]

    def view(self, v, lay):
        f = lay[0]
        b = v[3][f["next_rank_back"]]
        if b[0] != "agg":
            raise Giveup("shape of the back cursor")
        return v[3][f["next_rank"]][1], (K(0) if b[2] == 0 else b[3][0][1].addc(1))

    def cache_facts(self, E, kind, zero, vec, lay, v, i, j):
        """what the cached positions promise"""
        f = lay[0]
        c, n, l = self.s.parts(vec)
        pad = ("pad1" if zero else "pad0", c, l)
        ns, nb = vec[3][self.s.super_blocks][2], vec[3][self.s.blocks][2]
        g = lambda x: v[3][f[x]][1]
        out = []
        for sb, b in ((g("last_super_block"), g("last_block")), (g("last_super_block_back"), g("last_block_back"))):
            out += [lt(sb, ns), lt(b, nb), ge(b, sb.scale(16)), ge(sb.scale(16).addc(15), b)]
        fwd = [ge(i, kind(g("last_block").scale(512), c))]
        back = [lt(j.addc(-1), kind(g("last_block_back").scale(512).addc(512), pad))]
        return out, fwd, back

    def method(self, key, tname, m):
        zero = "true" in tname
        body = self.ctx.body(key)
        a1 = self.ctx.p.types[body.locals[1]]
        ty = a1["to"] if a1["k"] == "ref" else body.locals[1]
        lay = self.layout(ty)
        F = lay[0]
        search = SearchRules(self.ctx)
        search.prepare(zero)
        for case in ("some", "none", "empty"):
            E = BitVecRules.engine(self)
            box = {}
            kind = sel_cands(E, zero, lambda: box["t"])
            E.merge_min = 1 << 30
            search.install(E)
            base = E.sym_struct(("self",), ty)
            byref = a1["k"] == "ref"
            fs = list(base[3])
            b = atom(("back",), 0, (1 << 64) - 1)
            fs[F["next_rank_back"]] = some(lay[1], ("int", b)) if case == "some" else none(lay[1])
            for sb, bl, k in (("last_super_block", "last_block", "k"), ("last_super_block_back", "last_block_back", "kb")):
                fs[F[bl]] = ("int", fs[F[sb]][1].scale(16).add(atom(("slot", k), 0, 15)))
            if case == "empty":
                fs[F["next_rank"]] = ("int", K(0))
            val = base[:3] + (tuple(fs),)
            i, j = self.view(val, lay)
            root = ("O", ("arg", 0))
            E.root_ty[root] = ty
            pre_vec = {}

            def pre(r):
                if byref:
                    r.st0.mem[root] = val
                vv = val[3][F["vec"]]
                vec = E.read(r.st0, vv[1], vv[2]) if vv[0] == "ref" else vv
                pre_vec["v"] = vec
                c, n, l = self.s.parts(vec)
                arg = r.int(1) if m.startswith("nth") else K(0)
                box["t"] = (c, l, j.addc(-1).sub(arg) if m.endswith("back") or m == "last" else i.add(arg))
                tot = vec[3][self.s.rank0 if zero else self.s.rank1][1]
                if case == "empty":
                    return [("eq", l), ("eq", n)]
                shape, fwd, back = self.cache_facts(E, kind, zero, vec, lay, val, i, j)
                out = [ge(l, K(1)), ge(j, i), ge(tot, j)] + shape + fwd
                return out + (back if case == "some" else [])

            r = Run(self.ctx, key, E=E, pre=pre, args={0: ("ref", root, ()) if byref else val})
            r.no_panic()
            vec = pre_vec["v"]
            c, n, l = self.s.parts(vec)
            rem = j.sub(i)
            for o in r.rets():
                v = o.val
                if m in ("next", "next_back", "nth", "nth_back", "last"):
                    arg = r.int(1) if m.startswith("nth") else K(0)
                    back = m.endswith("back")
                    want = j.addc(-1).sub(arg) if back or m == "last" else i.add(arg)
                    post = E.read(o.st, root, ()) if byref else None
                    for s in E.assume(o.st, lt(arg, rem)):
                        if not self.opt(r, s, v, True):
                            continue
                        q = v[3][0][1]
                        r.prove("the bit lies inside the vector", s, lt(q, l))
                        r.prove("yields the bit of the next rank", s, eq(kind(q, c), want))
                        r.prove("the bit found is of the kind", s, eq(kind(q.addc(1), c), want.addc(1)))
                        if post is not None:
                            self.range_is(r, s, "leaves exactly the following elements", self.view(post, lay), i if back else want.addc(1), want if back else j)
                            self.keeps(r, E, s, kind, zero, vec, lay, post)
                    for s in E.assume(o.st, ge(arg, rem)):
                        if not self.opt(r, s, v, False):
                            continue
                        if post is not None:
                            self.exhausted(r, s, self.view(post, lay))
                            if case != "empty":
                                self.keeps(r, E, s, kind, zero, vec, lay, post)
                elif m in ("len", "count"):
                    r.prove("number of remaining elements", o.st, eq(v[1], rem))
                elif m == "size_hint":
                    r.prove("lower bound is exact", o.st, eq(v[3][0][1], rem))
                    if self.opt(r, o.st, v[3][1], True):
                        r.prove("upper bound is exact", o.st, eq(v[3][1][3][0][1], rem))

    def keeps(self, r, E, st, kind, zero, vec, lay, post):
        """the promises of the caches hold again; only used as assumptions of the next call, so never a verdict of their own"""
        i, j = self.view(post, lay)
        shape, fwd, back = self.cache_facts(E, kind, zero, vec, lay, post, i, j)
        tot = vec[3][self.s.rank0 if zero else self.s.rank1][1]
        fs = shape + fwd + [ge(tot, j), ge(j, i)]
        b = post[3][lay[0]["next_rank_back"]]
        if b[2] == 1:
            fs += back
        for f in fs:
            f = prim(f)
            if f is not True and (f is False or not E.entails(st, f)) and not E.dead(st):
                r.res("cached positions stay usable", "unknown", "%s" % (f[0] + " " + show(f[1]) if f else "never"))
                self.second(r, E, st, kind, vec, lay, i, j)
                return
        r.res("cached positions stay usable", "proved")

    def second(self, r, E, st, kind, vec, lay, i, j, ref=None, t=None):
        """whether a broken promise matters is told by the next step from either end"""
        if self.depth:
            return
        self.depth = 1
        c, n, l = self.s.parts(vec)
        t = t or r.key.split(" as ")[0][1:]
        try:
            for m in ("next", "next_back"):
                b = self.ctx.body("<%s as %s>::%s" % (t, TRAIT[m], m))
                want = i if m == "next" else j.addc(-1)
                for o in E.call_body(st, b, [ref or r.args[0]], 0):
                    if o.kind != "ret":
                        if not E.dead(o.st):
                            r.fail("the following %s does not panic" % m, o.st)
                        continue
                    for s in E.assume(o.st, lt(i, j)):
                        if self.opt(r, s, o.val, True):
                            q = o.val[3][0][1]
                            r.prove("the following %s yields the bit of its rank" % m, s, eq(kind(q, c), want))
                    for s in E.assume(o.st, ge(i, j)):
                        self.opt(r, s, o.val, False)
        finally:
            self.depth = 0


class SelIterCtorRules(SelIterRules):
    """a new iterator covers all bits of its kind, and its caches keep their promises"""

    @staticmethod
    def names(types=None):
        return ["iter0", "iter1", "into_iter0", "into_iter1"]

    def key(self, name):
        return RS + "::" + name

    def run(self, name, fn=None):
        Rules.run(self, name, lambda key: self.ctor(key, name.endswith("0")))

    def ctor(self, key, zero):
        search = SearchRules(self.ctx)
        search.prepare(zero)
        E = BitVecRules.engine(self)
        r = Run(self.ctx, key, E=E)
        r.no_panic()
        box = {}
        kind = sel_cands(E, zero, lambda: box["t"])
        E.merge_min = 1 << 30
        search.install(E)
        for o in r.rets():
            v = o.val
            lay = self.layout(v[1])
            vv = v[3][lay[0]["vec"]]
            vec = E.read(o.st, vv[1], vv[2]) if vv[0] == "ref" else vv
            c, n, l = self.s.parts(vec)
            tot = vec[3][self.s.rank0 if zero else self.s.rank1][1]
            i, j = self.view(v, lay)
            for s in E.assume(o.st, ge(tot, K(1))):
                r.prove("a new iterator starts at the first bit of the kind", s, eq(i, K(0)))
                r.prove("a new iterator ends at the last bit of the kind", s, eq(j, tot))
            for s in E.assume(o.st, eq(tot, K(0))):
                r.prove("no bit of the kind: nothing to iterate", s, eq(i, K(0)))
                r.prove("no bit of the kind: nothing to iterate", s, eq(j, K(0)))
            shape, fwd, back = self.cache_facts(E, kind, zero, vec, lay, v, i, j)
            for s in E.assume(o.st, ge(l, K(1))):
                b = v[3][lay[0]["next_rank_back"]]
                for f in shape + fwd + (back if b[2] == 1 else []):
                    f = prim(f)
                    if f is True or (f and E.entails(s, f)):
                        r.res("cached positions are usable", "proved")
                    elif not E.dead(s):
                        r.res("cached positions are usable", "unknown")
                        s = s.copy()
                        root = ("O", ("new",))
                        E.root_ty[root] = v[1]
                        s.mem[root] = v
                        self.second(r, E, s, kind, vec, lay, i, j, ("ref", root, ()), self.ctx.p.types[v[1]]["s"])
                        break
