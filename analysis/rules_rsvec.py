"""Contracts of the rank/select vector: the block directories hold prefix counts of the stored bit string, and every
query answers by them."""
from lin import *
import eng
from eng import Giveup, cnot, cand, cor, prim, State, Outcome
from contracts import Run, Ctx, Rules, Result
from rules_bitvec import BitVecRules, BVs, setup, ge, lt, eq, BV

RS = "bit_vec::fast_rs_vec::RsVec"


class RSs:
    """layout of RsVec"""

    def __init__(self, prog):
        self.p = prog
        self.ty = prog.tid(RS)
        for n in ("data", "len", "blocks", "super_blocks", "select_blocks", "rank0", "rank1"):
            i = prog.adt_field(self.ty, n)
            if i is None:
                raise KeyError("RsVec has no field " + n)
            setattr(self, n, i)

    def parts(self, v):
        """(content, words, length)"""
        return v[3][self.data][3], v[3][self.data][2], v[3][self.len][1]

    def zeros(self, E, st, c, p):
        return p.sub(E.bdom.P(st, c, p))

    def sizes(self, v):
        _, n, l = self.parts(v)
        nb, ns = v[3][self.blocks][2], v[3][self.super_blocks][2]
        s = n.scale(64).sub(l)
        b = nb.scale(8).sub(n)
        u = ns.scale(128).sub(n)
        return [("ge", s), ("ge", s.neg().addc(63)), ("ge", b), ("ge", b.neg().addc(7)), ("ge", u), ("ge", u.neg().addc(127))]

    def totals(self, E, v):
        c, n, l = self.parts(v)
        return [("eq", v[3][self.rank0][1].sub(self.zeros(E, None, c, l))), ("eq", v[3][self.rank1][1].sub(E.bdom.P(None, c, l)))]

    def quot(self, E, st, b):
        """b / 16, by its known name if the state brackets b between 16 e and 16 e + 15"""
        if st is not None and b.const() is None:
            for k, l in st.cons:
                # b + d - 16 e >= 0
                r = l.sub(b)
                if k == "ge" and all(x % 16 == 0 for _, x in r.t) and r.c % 16 == 0:
                    e = Lin(-r.c // 16, tuple((a, -x // 16) for a, x in r.t))
                    if E.entails(st, ge(e.scale(16).addc(15), b)):
                        return e
        return E.divc(b, 16, st)

    def blockz(self, E, st, c, b):
        if st is not None:
            return self.zeros(E, st, c, b.scale(512)).sub(self.zeros(E, st, c, self.quot(E, st, b).scale(8192)))
        return self.zeros(E, st, c, b.scale(512)).sub(self.zeros(E, st, c, E.divc(b, 16, st).scale(8192)))

    def superz(self, E, st, c, s):
        return self.zeros(E, st, c, s.scale(8192))

    def inv(self, E, v):
        """type invariant of a value built by the constructor (the constructor is checked to establish it)"""
        c, n, l = self.parts(v)
        bt = E.T[v[3][self.blocks][1]]["variants"] and v[3][self.blocks][1]
        st_ = v[3][self.super_blocks][1]
        bc, sc = v[3][self.blocks][3], v[3][self.super_blocks][3]
        E.elt_rules[bc] = lambda E, st, i: ("agg", bt, 0, (("int", self.blockz(E, st, c, i)),))
        E.elt_rules[sc] = lambda E, st, i: ("agg", st_, 0, (("int", self.superz(E, st, c, i)),))
        lc, lt_ = v[3][self.select_blocks][3], v[3][self.select_blocks][1]
        par = (v[3][self.rank0][1], v[3][self.rank1][1], v[3][self.super_blocks][2], c, l)
        E.elt_rules[lc] = lambda E, st, i: ("agg", lt_, 0, tuple(("int", self.sel_entry(E, st, w, i, par)) for w in (0, 1)))
        # entry j exists up to the entry behind the one of the last bit of its kind
        n = v[3][self.select_blocks][2]
        return self.sizes(v) + self.totals(E, v) + [("ge", n.sub(E.divc(v[3][t][1].addc(-1), 8192)).addc(-2)) for t in (self.rank0, self.rank1)]

    def sel_kind(self, E, w, par, p):
        """bits of the kind before position p, the string continued by ones"""
        ones = E.bdom.P(None, ("pad1", par[3], par[4]), p)
        return ones if w else p.sub(ones)

    def sel_entry(self, E, st, w, i, par):
        """entry i of the select directory; what is known about it depends on where i lies"""
        last = E.divc(par[w].addc(-1), 8192)
        cls = 0
        if E.entails(st, ge(last, i)) and E.entails(st, ge(i, K(0))):
            cls = 1
        elif E.entails(st, ge(last.addc(1), i)) and E.entails(st, ge(i, K(1))):
            cls = 3 if E.entails(st, ge(E.divc(par[w], 8192), i)) else 2

        def facts(x):
            f = lambda p: self.sel_kind(E, w, par, p)
            out = []
            if cls:
                out.append(lt(x, par[2]))
            if cls == 1:
                out += [ge(i.scale(8192), f(x.scale(8192)))]
            if cls > 1:
                out.append(ge(x, E.uf("selfin", (w, i.addc(-1), par, 1), 0, (1 << 56) - 1, lambda y: [lt(y, par[2]), ge(i.addc(-1).scale(8192), f(y.scale(8192)))])))
            if cls == 3:
                out.append(ge(f(x.scale(8192).addc(8192)), i.scale(8192)))
            return [g for g in map(prim, out) if g is not True]

        return E.uf("selfin", (w, i, par, cls), 0, (1 << 56) - 1, facts)


def setup_rs(prog):
    r = RSs(prog)
    eng.Engine.struct_inv = dict(eng.Engine.struct_inv)
    eng.Engine.struct_inv[RS] = r.inv
    return r


def sel_cands(E, zero, target):
    """invariant candidates of the searches for a bit of a given rank; target() -> (content, length, rank)"""

    def kind(p, c):
        n = E.bdom.P(None, c, p)
        return p.sub(n) if zero else n

    def cands(E, entry, H, mapping):
        c, l, R = target()
        out = []
        for lf, (cv, v) in mapping.items():
            if v[0] == "int" and cv[0] == "int":
                x = E.get_leaf(H, lf)[1]
                for k in (8192, 512, 64):
                    out.append(ge(R, kind(x.scale(k), c)))
                    out.append(lt(R, kind(x.scale(k), c)))
        return out

    def mcands(E, H, leaves):
        c, l, R = target()
        out = []
        pad = ("pad1" if zero else "pad0", c, l)
        xs = set(leaves.values())
        ok = lambda y: y.t and all(-16 <= k <= 16 and AT.key[a][0] not in ("P", "arg") for a, k in y.t)
        mem = {v[1] for v in H.mem.values() if v[0] == "int" and ok(v[1])} | set(E.merge_extra)
        for y in sorted(mem - xs, key=show):
            for x in leaves.values():
                out.append([ge(y.scale(16).addc(d), x) for d in (0, 8, 12, 14, 15)])
                out.append(ge(x, y.scale(16)))
        for x in sorted(mem | xs, key=show):
            out.append([lt(R, kind(x.scale(512).addc(512 * d), pad)) for d in (1, 2, 4, 8, 16)] + [lt(R, kind(x.scale(8192).addc(8192), pad))])
        for x in leaves.values():
            out.append([ge(R, kind(x.scale(k), c)) for k in (8192, 512)])
            out.append([ge(l, x.scale(k).addc(1)) for k in (8192, 512, 1)])
            out += [eq(kind(x, c), R), eq(kind(x.addc(1), c), R.addc(1))]
            for y in leaves.values():
                if y is not x:
                    out.append([eq(x.add(kind(y.scale(k), c)), R) for k in (8192, 512, 64)] + [eq(x.add(kind(E.divc(y, 16).scale(8192), c)), R)])
        return out

    E.merge_extra = []
    E.merge_cands = mcands
    E.merge_min = 2
    E.loop_cands = [cands]
    return kind


class RsRules(BitVecRules):
    prefix = RS + "::"
    keys = {}

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)
        self.s = setup_rs(ctx.p)

    def selfparts(self, r, i=0, st=None):
        v = r.args[i]
        if v[0] == "ref":
            v = r.E.read(st or r.st0, v[1], v[2])
        return self.s.parts(v)

    # ---- rank
    def f_rank1(self, key, zero=False):
        r = Run(self.ctx, key, E=self.engine())
        r.no_panic()
        c, n, l = self.selfparts(r)
        pos = r.int(1)
        for o in r.rets():
            for p, cond in ((pos, lt(pos, l)), (l, ge(pos, l))):
                for s in r.E.assume(o.st, cond):
                    want = self.s.zeros(r.E, s, c, p) if zero else r.B.P(s, c, p)
                    r.prove("number of %s before the position" % ("zeros" if zero else "ones"), s, eq(o.val[1], want))

    def f_rank0(self, key):
        self.f_rank1(key, True)

    # ---- select
    def f_select0(self, key):
        self.f_select1(key, True)

    def f_select1(self, key, zero=False):
        from rules_search import SearchRules

        search = SearchRules(self.ctx)
        search.prepare(zero)
        E = self.engine()
        box = {}

        def target():
            c, n, l = self.selfparts(box["r"])
            return c, l, box["r"].int(1)

        kind = sel_cands(E, zero, target)
        search.install(E)
        r = Run.__new__(Run)
        box["r"] = r
        r.__init__(self.ctx, key, E=E)
        r.no_panic()
        c, n, l = self.selfparts(r)
        v = r.pointee(0)
        tot = v[3][self.s.rank0 if zero else self.s.rank1][1]
        rank = r.int(1)
        for o in r.rets():
            for s in E.assume(o.st, ge(rank, tot)):
                r.prove("no such bit: the length", s, eq(o.val[1], l))
            for s in E.assume(o.st, lt(rank, tot)):
                q = o.val[1]
                r.prove("the bit lies inside the vector", s, lt(q, l))
                r.prove("exactly the given number of bits of its kind lie before it", s, eq(kind(q, c), rank))
                r.prove("the bit found is of the kind", s, eq(kind(q.addc(1), c), rank.addc(1)))

    # ---- construction
    def f_from_bit_vec(self, key):
        E = self.engine()
        box = {}
        S = self.s
        T = self.ctx.p.types
        fields = T[S.ty]["variants"][0]["f"]
        ety = {n: T[fields[getattr(S, n)]["t"]]["args"][0] for n in ("blocks", "super_blocks", "select_blocks")}

        def Zc():
            c, n, l = self.b.parts(box["r"].args[0])
            return ("pad1", c, l)

        def Z(p):
            return p.sub(E.bdom.P(None, Zc(), p))

        def ones(p):
            return E.bdom.P(None, Zc(), p)

        box["Z"], box["ones"] = Z, ones

        def vecs(E, H, mapping):
            """vectors under construction, by element type: {name: (root, proj)}"""
            out = {}
            for root, proj in mapping:
                if proj and proj[-1][0] in ("cnt", "len"):
                    try:
                        v = E._get(H, E.root_value(H, root), proj[:-1])
                    except Exception:
                        continue
                    for n, t in ety.items():
                        if v[0] == "vec" and v[1] == t:
                            out[n] = (root, proj[:-1])
            return out

        def cursors(E, mapping):
            """loop counters, one for each distinct value"""
            out = {}
            for l, s in E.last_strides.items():
                if s == 1:
                    out.setdefault(mapping[l][1], l)
            return list(out.values())

        def cands(E, entry, H, mapping):
            vs = vecs(E, H, mapping)
            if "r" not in box or not vs:
                return []
            out = []
            get = lambda l: E.get_leaf(H, l)[1]
            lens = {n: E._get(H, E.root_value(H, r), p)[2] for n, (r, p) in vs.items()}
            vals = [l for l, (c, v) in mapping.items() if v[0] == "int" and c[0] == "int" and l not in E.last_strides and not (l[1] and l[1][-1][0] == "len")]
            for cu in cursors(E, mapping):
                i = get(cu)
                z, o = Z(i.scale(64)), ones(i.scale(64))
                for n, k in (("blocks", 8), ("super_blocks", 128)):
                    if n in lens:
                        d = lens[n].scale(k).sub(i)
                        out += [("ge", d), ("ge", d.neg().addc(k - 1))]
                for x in range(len(vals)):
                    for y in range(x):
                        out.append(("eq", get(vals[x]).add(get(vals[y])).sub(z)))
                for x in vals:
                    out.append(("eq", get(x).sub(E.divc(z, 8192))))
                    out.append(("eq", get(x).sub(E.divc(o, 8192))))
                if "select_blocks" in lens:
                    out.append(("ge", lens["select_blocks"].sub(E.divc(z, 8192)).addc(-1)))
                    out.append(("ge", lens["select_blocks"].sub(E.divc(o, 8192)).addc(-1)))
            if "super_blocks" in lens:
                p = lens["super_blocks"].scale(8192).addc(-8192)
                for x in vals:
                    out.append(("eq", get(x).sub(Z(p))))
            return out

        class Exact:
            def __init__(self, ety, f):
                self.ety, self.f = ety, f

            def read(self, E, st, i, content, par):
                return ("agg", self.ety, 0, (("int", self.f(i)),))

            def check(self, E, st, i, val, par):
                return E.entails_hard(st, eq(val[3][0][1], self.f(i)))

        class Sel:
            """directory entry j points at the super block in which the (8192 j)-th bit of its kind lies"""

            def __init__(self, ety):
                self.ety = ety

            def facts(self, E, st, x, j, which, ns, cls):
                if not cls:
                    return [("eq", x)]
                f = Z if which == 0 else ones
                out = [ge(j.scale(8192), f(x.scale(8192))), ge(f(x.scale(8192).addc(8192)), j.scale(8192)), ge(x, K(0)), ge(ns.addc(1), x)]
                if E.entails(st, ge(ns, K(0)), False):
                    out.append(ge(ns, x))
                elif E.entails(st, lt(ns, K(0)), False):
                    out.append(("eq", x))
                return out

            def read(self, E, st, i, content, par):
                return ("agg", self.ety, 0, tuple(("int", atom(("selidx", w, content, i, par), 0, (1 << 64) - 1)) for w in (0, 1)))

            busy = False

            def axioms(self, E, st, atoms, query):
                if self.busy:
                    return []
                self.busy = True
                try:
                    return self.axioms1(E, st, atoms, query)
                finally:
                    self.busy = False

            def axioms1(self, E, st, atoms, query):
                out = []
                for a in sorted(atoms):
                    k = AT.key[a]
                    if k[0] != "selidx":
                        continue
                    _, w, _c, i, par = k
                    s = st.copy()
                    s.cons += [f for f in query if f[0] != "ne" and f not in s.cons]
                    x = Lin(0, ((a, 1),))
                    for c, cls in ((ge(par[w], i), True), (lt(par[w], i), False)):
                        if E.entails(s, c):
                            out += [f for f in map(prim, self.facts(E, s, x, i, w, par[2], cls)) if f is not True]
                            break
                return out

            def check(self, E, st, i, val, par):
                for w in (0, 1):
                    for c, cls in ((ge(par[w], i), True), (lt(par[w], i), False)):
                        for s in E.assume(st, c):
                            for s2 in E.assume(s, ge(par[2], K(0))) + E.assume(s, lt(par[2], K(0))):
                                for f in self.facts(E, s2, val[3][w][1], i, w, par[2], cls):
                                    if not E.entails_hard(s2, f):
                                        if E.drop_hook:
                                            E.drop_hook(("ge", K(0)), s2, prim(f), 0)
                                        return False
                return True

        sel = Sel(ety["select_blocks"])
        E.axioms = list(E.axioms) + [sel.axioms]

        def eblocks(i):
            return S.blockz(E, None, Zc(), i)

        def esupers(i):
            return S.superz(E, None, Zc(), i)

        def ecands(E, entry, H, mapping):
            vs = vecs(E, H, mapping)
            out = []
            for n, f in (("blocks", eblocks), ("super_blocks", esupers)):
                if n in vs:
                    root, proj = vs[n]

                    def get(st, root=root, proj=proj):
                        v = E._get(st, E.root_value(st, root), proj)
                        return v[3], K(0), v[2], None

                    out.append((get, Exact(ety[n], f)))
            if "select_blocks" in vs and "super_blocks" in vs:
                root, proj = vs["select_blocks"]
                r2, p2 = vs["super_blocks"]
                for cu in cursors(E, mapping):
                    def get(st, cu=cu):
                        v = E._get(st, E.root_value(st, root), proj)
                        i = E.get_leaf(st, cu)[1]
                        ns = E._get(st, E.root_value(st, r2), p2)[2]
                        return v[3], K(0), v[2], (E.divc(Z(i.scale(64)), 8192), E.divc(ones(i.scale(64)), 8192), ns.addc(-1))

                    out.append((get, sel))
            return out

        E.guard_cands = False
        E.loop_cands = [cands]
        E.element_cands = [ecands]
        r = Run.__new__(Run)
        box["r"] = r
        r.__init__(self.ctx, key, E=E)
        r.no_panic()
        c, n, l = self.b.parts(r.args[0])
        for o in r.rets():
            v = o.val
            c2, n2, l2 = S.parts(v)
            r.prove("length kept", o.st, eq(l2, l))
            self.bits_are(r, "bits kept", o.st, c2, l2, lambda st, q: r.B.gb(st, c, q))
            for f in S.sizes(v):
                r.prove("directory sizes", o.st, f)
            r.prove("total zeros", o.st, eq(v[3][S.rank0][1], S.zeros(E, o.st, c, l)))
            r.prove("total ones", o.st, eq(v[3][S.rank1][1], r.B.P(o.st, c, l)))
            i = atom(("ghost", "i"), 0, None)
            for name, f in (("blocks", S.blockz), ("super_blocks", S.superz)):
                vec = v[3][getattr(S, name)]
                for s in E.assume(o.st, lt(i, vec[2])):
                    for s2, val in E.elem_cases(s, vec, i):
                        r.prove("%s hold the zeros before them" % name, s2, eq(val[3][0][1], f(E, s2, c, i)))
            vec = v[3][S.select_blocks]
            ns = v[3][S.super_blocks][2]
            for w, tot in ((0, S.rank0), (1, S.rank1)):
                f = (lambda p: S.zeros(E, None, ("pad1", c, l), p)) if w == 0 else (lambda p: E.bdom.P(None, ("pad1", c, l), p))
                last = E.divc(v[3][tot][1].addc(-1), 8192)
                full = E.divc(v[3][tot][1], 8192)
                kind = "zeros" if w == 0 else "ones"
                for s in E.assume(o.st, ge(v[3][tot][1], K(1))):
                    r.prove("select directory for %s has an end entry" % kind, s, ge(vec[2], last.addc(2)))
                    for s1 in E.assume(s, ge(last, i)):
                        for s2, val in E.elem_cases(s1, vec, i):
                            x = val[3][w][1]
                            r.prove("select directory for %s starts left of the target" % kind, s2, ge(i.scale(8192), f(x.scale(8192))))
                            r.prove("select directory for %s names an existing super block" % kind, s2, lt(x, ns))
                            for s3, val2 in E.elem_cases(s2, vec, i.addc(1)):
                                y = val2[3][w][1]
                                for s4 in E.assume(s3, lt(full, i.addc(1))) + E.assume(s3, ge(full, i.addc(1))):
                                    r.prove("select directory for %s ascends" % kind, s4, ge(y, x))
                                r.prove("select directory for %s names an existing super block" % kind, s3, lt(y, ns))
                                for s4 in E.assume(s3, ge(full, i.addc(1))):
                                    r.prove("select directory for %s covers its targets" % kind, s4, ge(f(y.scale(8192).addc(8192)), i.scale(8192).addc(8192)))
