"""The excess searches of the balanced parentheses tree. bN(i, L) is the first position p > i behind which the excess is L
(or the length), bG(i, L) the last position j < i before which it is L (or -1). The scan of a block, the search in the
min-max tree and the table lookups are decided one by one against these; a caller uses the contract of a helper only
where the helper has been proved to keep it in this run, else the helper's body is followed."""
from lin import *
from eng import Giveup, cnot, prim, Outcome
from contracts import Run, Rules, Result, atoms_deep
from models import none, some
from rules_bitvec import BitVecRules, setup, ge, lt, eq
from rules_rsvec import RS
from rules_bp import Parens, BP, SIZE, BpRules

B = 512
MMT = "trees::mmt::MinMaxTree::"


class SearchParens(Parens):
    kinds = ("bR", "bN", "bG")

    def __init__(self, E, n):
        Parens.__init__(self, E, n, False)
        E.CONG = dict(E.CONG, bN=(1, 2), bG=(1, 2))
        for g in ("bN", "bG"):
            E.ghosts[g] = lambda E, key, sub, cmap, g=g: self.find(g, E.subst_atoms(key[1], sub, cmap), E.subst_atoms(key[2], sub, cmap))
        self.level = self.pos = None

    def find(self, g, i, L):
        return self.E.uf(g, (i, L), -1 if g == "bG" else 0, SIZE, lambda x: [])

    def no(self, st, yes, l):
        """the term is known not to be zero"""
        l = prim(eq(l, K(0)))
        if l is True or l is False:
            return not l
        l = l[1]
        if yes(ge(l, K(1))) or yes(ge(K(-1), l)):
            return True
        return any(yes(eq(m, l)) or yes(eq(m, l.scale(-1))) for m in st.nes)

    def more(self, st, idx, keys, yes, add):
        for k in keys:
            if k[0] not in ("bN", "bG"):
                continue
            i, L = k[1], k[2]
            f = self.find(k[0], i, L)
            if not yes(lt(i, self.n)):
                continue
            if k[0] == "bN":
                add(ge(self.n, f), ge(f, i.addc(1)))
                for x in idx:
                    if yes(ge(x, i.addc(2))) and yes(ge(self.n, x)):
                        if yes(eq(self.X(x), L)):
                            add(lt(f, x))
                        elif yes(ge(f, x.addc(-1))) and self.no(st, yes, self.X(x).sub(L)):
                            add(ge(f, x))
            else:
                add(ge(f, K(-1)), lt(f, i))
                for x in idx:
                    if yes(ge(x, K(0))) and yes(lt(x, i)):
                        if yes(eq(self.X(x), L)):
                            add(ge(f, x))
                        elif yes(ge(x, f)) and self.no(st, yes, self.X(x).sub(L)):
                            add(lt(f, x))


# ---------------------------------------------------------------------- confirmation on constants
def walks():
    """parentheses sequences over several blocks, and searches in them that end in this, the next or a far block"""
    def up(n):
        return "(" * n

    def down(n):
        return ")" * n

    zig = "()" * 256
    return [
        up(30) + "()" * 20 + down(20) + up(5) + down(15),
        up(400) + "()" * 60 + down(390) + "(" + down(11),
        up(700) + down(700),
        up(520) + "()" * 10 + down(300) + up(40) + down(260),
        up(1030) + zig + down(500) + up(1) + down(531),
        up(300) + down(300) + up(20) + down(33) + "()" * 190,
        "(" + ("(()())" * 85 + "()") * 5 + ")",
        up(100) + zig * 4 + down(95) + up(7) + zig + down(12),
    ]


def runs(text):
    """the sequence, repeated pieces written as such"""
    out = []
    i = 0
    while i < len(text):
        w, c = max(((w, next((c for c in range(1, len(text)) if text[i + c * w:i + c * w + w] != text[i:i + w]), 1)) for w in (1, 2)),
                   key=lambda x: (x[1] > 2) * x[0] * x[1])
        if c < 4:
            w, c = 1, 1
        out.append(text[i:i + w] + ("{%d}" % c if c > 1 else ""))
        i += w * c
    return "".join(out)


def truth(text, i, d, fwd):
    e = 0
    if i >= len(text):
        return None
    for j in range(i + 1, len(text)) if fwd else range(i - 1, -1, -1):
        e += (1 if text[j] == "(" else -1) * (1 if fwd else -1)
        if e == d:
            return j
    return None


class EndToEnd(BitVecRules):
    """the tree is built from a constant sequence and searched at constant positions, by constant propagation through the
    code as it is now, whatever its inner representation; asked only if a proof fails"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    def hooks(self, E, text):
        p = self.ctx.p
        orig = E.on_call
        n = len(text)

        def on_call(E, st, callee, args, dty, depth, body, line):
            path = callee.get("rpath", callee["path"])
            inst = callee.get("inst") or path
            f = path.split("::")[-1]
            who = "bit_vec::BitVec" if inst.startswith("bit_vec::BitVec::") else RS if inst.startswith(RS + "::") else None
            if who is None:
                if "From<bit_vec::BitVec>" in inst and f == "from" and RS in inst or inst.startswith("<bit_vec::BitVec as std::convert::Into<" + RS):
                    return [Outcome("ret", st, ("sym", ("given",), dty))]
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            if f == "from_bit_vec":
                return [Outcome("ret", st, ("sym", ("given",), dty))]
            if f == "len":
                return [Outcome("ret", st, ("int", K(n)))]
            if f == "is_empty":
                return [Outcome("ret", st, ("bool", n == 0))]
            x = args[1][1].const() if len(args) > 1 and args[1][0] == "int" else None
            if x is None:
                raise Giveup("position")
            un = f.endswith("unchecked")
            if f.startswith("get_bits"):
                w = args[2][1].const()
                if x + w > n:
                    return [Outcome("panic", st, None, ("bits read behind the end", E.site(body, line)))] if un else [Outcome("ret", st, none(dty))]
                v = ("int", K(sum(1 << k for k in range(w) if text[x + k] == "(")))
            elif f.startswith(("get", "is_bit")):
                if x >= n:
                    return [Outcome("panic", st, None, ("bit read behind the end", E.site(body, line)))] if un else [Outcome("ret", st, none(dty))]
                b = text[x] == "("
                v = ("bool", b) if f.startswith("is_bit") else ("int", K(int(b)))
            else:
                raise Giveup("call of " + f)
            return [Outcome("ret", st, v if un else some(dty, v))]

        E.on_call = on_call

    def go(self, names, cases=None):
        p = self.ctx.p
        make = p.find(BP + "::from_bit_vector")
        if make is None:
            raise Giveup("no constructor")
        for text in cases or walks():
            E = self.engine()
            E.struct_inv = {}
            E.peel = len(text) + 10
            E.visit_limit = 10 ** 8
            self.hooks(E, text)
            r = Run(self.ctx, make, E=E)
            r.note = "parentheses " + runs(text)
            r.no_panic()
            rets = r.rets()
            if len(rets) != 1:
                raise Giveup("construction does not follow one path")
            tree = rets[0].val
            n = len(text)
            if cases:
                todo = cases[text]
            else:
                todo = []
                marks = sorted({x for k in range(0, n + 1, B) for x in (k - 1, k, k + 1, k + 9, k + 200)} | {n - 2, n - 1, n})
            for name in names:
                key = p.find(BP + "::" + name)
                if key is None:
                    continue
                fwd = name == "fwd_search"
                if not cases:
                    todo = []
                    X = [0]
                    for c in text:
                        X.append(X[-1] + (1 if c == "(" else -1))
                    ends = {f(X[k + 1:k + B + 1]) for k in range(0, n, B) for f in (min, max)} | {0, 1}
                    for i in marks:
                        if 0 <= i <= n:
                            at = X[min(i + 1, n)] if fwd else X[i]
                            todo += [(i, d) for d in sorted({-1, 1, 0, -2, 5, -40, 130} | {e - at for e in ends})]
                for i, d in todo:
                    self.search(E, key, tree, text, i, d, fwd)
            if any(r.status == "refuted" for r in self.ctx.results[-200:]):
                return

    def search(self, E, key, tree, text, i, d, fwd):
        def pre(r):
            a = r.args[0]
            E.write(r.st0, a[1], a[2], tree)
            r.args[1], r.args[2] = ("int", K(i)), ("int", K(d))
            return []

        r = Run(self.ctx, key, E=E, pre=pre)
        r.note = "position %d, excess %d in %s" % (i, d, runs(text))
        r.no_panic()
        want = truth(text, i, d, fwd)
        for o in r.rets():
            v = o.val
            if v[0] != "agg":
                raise Giveup("shape of the result")
            if (v[2] == 1) != (want is not None):
                r.fail("something is returned exactly if there is such a position", o.st)
            elif v[2] == 1:
                r.prove("the closest position with the excess is returned", o.st, eq(v[3][0][1], K(want)))


def guarded(self, name, proof, public, cases=None):
    """the proof goes through private functions, whose contracts the code is free to change: whatever it does not prove
    counts only if a search through the public functions goes wrong"""
    ctx = self.ctx
    if ctx.name == "all-features":
        return  # the code is the same as in the other configuration, except for the lookup in a block of 16 bits
    key = ctx.p.find(self.key(name))
    if key is None:
        return
    n0 = len(ctx.results)
    self.once(proof, key)
    mine = ctx.results[n0:]
    for r in mine:
        if r.status == "refuted":
            r.status = "weak"
    if all(r.status == "proved" for r in mine):
        return
    n1 = len(ctx.results)
    st = dict(ctx.stats)
    end = EndToEnd(ctx)
    self.once(lambda key: end.go(public, cases), key, 240)
    ctx.stats.update(st)
    conf = [r for r in ctx.results[n1:] if r.status == "refuted"]
    del ctx.results[n1:]
    if conf:
        ctx.results[n0:] = [r for r in mine if r.status == "proved"] + conf


class BpSearchRules(BpRules):
    keys = {}

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    @staticmethod
    def names():
        return ["fwd_search", "bwd_search"]

    def run(self, name, fn=None):
        guarded(self, name, lambda key: self.scan(key, name), [name])

    # ------------------------------------------------------------------ the scan of blocks
    def cands(self, par, fwd):
        def cands(E, entry, H, mapping):
            out = []
            L, f = par.level, par.pos
            xs = [E.get_leaf(H, l)[1] for l, (c, v) in mapping.items() if v[0] == "int" and c[0] == "int"]
            ys = list(xs)

            def walk(v):
                if isinstance(v, tuple):
                    if len(v) == 3 and v[0] == "iter" and v[1] == "stride":
                        a, n, c = v[2]
                        ys.append(a[1].add(n[1].scale(c[1].c)))
                    for x in v:
                        walk(x)

            for v in H.mem.values():
                walk(v)
            ys = list(dict.fromkeys(ys))
            for y in ys:
                out += [ge(f, y) if fwd else lt(f, y), ge(par.n, y)]
                for x in xs:
                    if x is not y:
                        out.append(eq(x, L.sub(par.X(y))))
            return out
        return cands

    def lookups(self):
        """private helpers whose contract may stand for them"""
        p = self.ctx.p
        names = {}
        for f in ("process_block_fwd", "process_block_bwd"):
            for m in ("lookup_query", "lookup"):
                k = p.find("trees::bp::%s::%s" % (m, f))
                if k:
                    names[k] = f
        for f in ("fwd_search", "bwd_search"):
            k = p.find(MMT + f)
            if k:
                names[k] = "mmt_" + f
        for f in ("get", "get_unchecked", "is_bit_set", "is_bit_set_unchecked", "get_bits", "get_bits_unchecked", "len", "is_empty"):
            k = p.find(RS + "::" + f)
            if k:
                names[k] = f
        return names

    def follow(self, E, par, fwd):
        names = self.lookups()
        orig = E.on_call
        L, pos = par.level, par.pos
        junk = lambda: ("int", atom(("call", "unclear", E.freshterm("u")), -(1 << 63), (1 << 63) - 1))

        def known(st, facts):
            return all(E.entails(st, f) if not isinstance(f, bool) else f for f in map(prim, facts))

        def on_call(E, st, callee, args, dty, depth, body, line):
            f = names.get(callee.get("inst")) or names.get(callee.get("rpath", callee["path"]))
            if f is None:
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            ret = lambda xs: [Outcome("ret", s, v) for s, v in xs]
            if f == "len":
                return ret([(st, ("int", par.n))])
            if f == "is_empty":
                return ret([(st, ("bool", eq(par.n, K(0))))])
            bad = lambda s: Outcome("panic", s, None, ("bits read behind the end", E.site(body, line)))
            if f.startswith(("get_bits",)):
                i, w = args[1][1], args[2][1]
                out = [bad(s) for s in E.assume(st, lt(par.n, i.add(w)))]
                for s in E.assume(st, ge(par.n, i.add(w))):
                    if w.const() not in (8, 16):
                        raise Giveup("width of the lookup")
                    v = ("int", atom(("pblk", i, w.c), 0, (1 << w.c) - 1))
                    out.append(Outcome("ret", s, v if f.endswith("unchecked") else some(dty, v)))
                if not f.endswith("unchecked"):
                    raise Giveup("checked read")
                return out
            if f.startswith(("get", "is_bit")):
                out = []
                for s, b in par.get(st, args[1][1]):
                    if b is None:
                        out.append(bad(s) if f.endswith("unchecked") else Outcome("ret", s, none(dty)))
                        continue
                    v = ("bool", bool(b)) if "is_bit" in f else ("int", K(b))
                    out.append(Outcome("ret", s, v if f.endswith("unchecked") else some(dty, v)))
                return out
            if f.startswith("process"):
                b = args[0][1]
                if len(b.t) != 1 or b.c != 0 or AT.key[b.t[0][0]][0] != "pblk" or args[1][0] != "ref" or f.endswith("fwd") != fwd:
                    return None
                _, i, w = AT.key[b.t[0][0]]
                a = args[1]
                rel = E.read(st, a[1], a[2])[1]
                ok = lambda v: ("agg", dty, 0, (("int", v),))
                err = ("agg", dty, 1, (("agg", None, 0, ()),))
                out = []

                def unclear(st, ok, err, a):
                    # may be asked while the loop invariant is still being found
                    s = st.copy()
                    E.write(s, a[1], a[2], junk())
                    return [Outcome("ret", st, ok(junk()[1])), Outcome("ret", s, err)]

                if fwd:
                    if not known(st, [eq(rel, L.sub(par.X(i))), ge(pos, i)]):
                        return unclear(st, ok, err, a)
                    out += [Outcome("ret", s, ok(pos.sub(i))) for s in E.assume(st, lt(pos, i.addc(w)))]
                    rest = E.assume(st, ge(pos, i.addc(w)))
                    rel2 = L.sub(par.X(i.addc(w)))
                else:
                    if not known(st, [eq(rel, L.sub(par.X(i.addc(w)))), lt(pos, i.addc(w)), ("ne", rel)]):
                        return unclear(st, ok, err, a)
                    out += [Outcome("ret", s, ok(pos.sub(i))) for s in E.assume(st, ge(pos, i))]
                    rest = E.assume(st, lt(pos, i))
                    rel2 = L.sub(par.X(i))
                for s in rest:
                    s = s.copy()
                    E.write(s, a[1], a[2], ("int", rel2))
                    out.append(Outcome("ret", s, err))
                return out
            # the min-max tree
            begin, rel = args[1][1], args[2][1]
            if f.startswith("mmt_fwd") != fwd:
                return None
            pair = lambda b, r: some(dty, ("agg", None, 0, (("int", b), ("int", r))))
            out = []
            if fwd:
                e = begin.addc(1).scale(B)
                out += [Outcome("ret", s, none(dty)) for s in E.assume(st, ge(e, par.n))]
                for s in E.assume(st, lt(e, par.n)):
                    if not known(s, [eq(rel, L.sub(par.X(e))), ge(pos, e), ("ne", rel)]):
                        out += [Outcome("ret", s, none(dty)), Outcome("ret", s, pair(junk()[1], junk()[1]))]
                        continue
                    out += [Outcome("ret", t, none(dty)) for t in E.assume(s, ge(pos, par.n))]
                    for t in E.assume(s, lt(pos, par.n)):
                        q = E.divc(pos, B, t)
                        out.append(Outcome("ret", t, pair(q, L.sub(par.X(q.scale(B))))))
            else:
                a = begin.scale(B)
                if not known(st, [eq(rel, L.sub(par.X(a))), lt(pos, a), lt(a, par.n), ("ne", rel)]):
                    return [Outcome("ret", st, none(dty)), Outcome("ret", st, pair(junk()[1], junk()[1]))]
                out += [Outcome("ret", t, none(dty)) for t in E.assume(st, ge(K(-1), pos))]
                for t in E.assume(st, ge(pos, K(0))):
                    q = E.divc(pos, B, t)
                    out.append(Outcome("ret", t, pair(q, L.sub(par.X(q.addc(1).scale(B))))))
            return out

        E.on_call = on_call

    def scan(self, key, name):
        fwd = name == "fwd_search"
        E = self.engine()
        E.struct_inv = {}
        box = {}

        def pre(r):
            par = box["par"] = SearchParens(E, atom(("blen",), 0, SIZE))
            i, d = r.int(1), r.int(2)
            par.level = (par.X(i.addc(1)) if fwd else par.X(i)).add(d)
            par.pos = par.find("bN" if fwd else "bG", i, par.level)
            E.loop_cands = [self.cands(par, fwd)]
            self.follow(E, par, fwd)
            return par.basics() + [ge(K(1 << 62), d), ge(d, K(-(1 << 62))), lt(i, K(1 << 60))]

        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        par = box["par"]
        f, n = par.pos, par.n
        i = r.int(1)
        for o in r.rets():
            v = o.val
            if v[0] != "agg":
                raise Giveup("shape of the result")
            for s in E.assume(o.st, ge(i, n)):
                if v[2] == 1:
                    r.fail("nothing is found from a position outside", s)
                else:
                    r.res("nothing is found from a position outside", "proved")
            for s in E.assume(o.st, lt(i, n)):
                if v[2] == 1:
                    r.prove("the closest position with the excess is returned", s, eq(v[3][0][1], f))
                    r.prove("a position inside is returned", s, lt(f, n) if fwd else ge(f, K(0)))
                else:
                    r.prove("nothing is returned only if there is no such position", s, ge(f, n) if fwd else ge(K(-1), f))


# ---------------------------------------------------------------------- the min-max tree
class TreeParens(SearchParens):
    """Nodes of the complete binary tree over the blocks: node v covers the positions na(v)..ne(v), its children are 2v+1
    and 2v+2, its leaves start at node FL; nm and nM are the least and the greatest excess behind a position of the node,
    relative to its start."""
    kinds = SearchParens.kinds + ("na", "ne", "nm", "nM")

    def __init__(self, E, single):
        self.single = single
        self.leaves = K(1) if single else atom(("bleaves",), 2, 1 << 50)
        self.power = K(2) if single else atom(("bpower",), 2, 1 << 51)
        SearchParens.__init__(self, E, atom(("blen",), 1, SIZE))
        self.FL = self.power.addc(-1)
        self.len = self.FL.add(self.leaves)
        E.CONG = dict(E.CONG, na=(1,), ne=(1,), nm=(1,), nM=(1,))
        for g in ("na", "ne", "nm", "nM"):
            E.ghosts[g] = lambda E, key, sub, cmap, g=g: self.node(g, E.subst_atoms(key[1], sub, cmap))

    def node(self, g, v):
        return self.E.uf(g, (v,), 0 if g in ("na", "ne") else -SIZE, SIZE, lambda x: [])

    def basics(self):
        out = [ge(self.n, K(1)), ge(K(SIZE), self.n), ge(self.n, self.leaves.addc(-1).scale(B).addc(1)), ge(self.leaves.scale(B), self.n)]
        if not self.single:
            out += [ge(self.power, self.leaves), lt(self.power, self.leaves.scale(2))]
        return out

    def read(self, E, st, v, ty):
        fs = [f["n"] for f in E.T[ty]["variants"][0]["f"]]
        if sorted(fs) != ["max", "min", "total"]:
            raise Giveup("fields of a node")
        val = {"total": self.X(self.node("ne", v)).sub(self.X(self.node("na", v))), "min": self.node("nm", v), "max": self.node("nM", v)}
        return ("agg", ty, 0, tuple(("int", val[n]) for n in fs))

    def terms(self, keys, idx):
        vs = list(dict.fromkeys(k[1] for k in keys if k[0] in ("na", "ne", "nm", "nM")))
        for v in vs:
            for x in (self.node("na", v), self.node("ne", v)):
                if x not in idx:
                    idx.append(x)
        out = vs + [self.n, self.leaves, self.power]
        for k in keys:
            if k[0] in ("nm", "nM"):
                out.append(self.node(k[0], k[1]))
            if k[0] in ("bN", "bG"):
                out += [k[1], k[2], self.find(*k[:3])]
                idx += [x for x in [k[1].addc(1) if k[0] == "bN" else k[1]] if x not in idx]
        for k in self.pows():
            out += [k[1], self.E.uf("nextpow2", (k[1],), 1, 1 << 63, lambda l: [])]
        return out

    def early(self, st, idx, keys, yes, add):
        E = self.E
        A, Z = (lambda v: self.node("na", v)), (lambda v: self.node("ne", v))
        # powers of two
        for k in self.pows():
            x = k[1]
            p = E.uf("nextpow2", (x,), 1, 1 << 63, lambda l: [])
            if yes(ge(self.power, x)) and yes(lt(self.power, x.scale(2))):
                add(eq(p, self.power))
        vs = list(dict.fromkeys(k[1] for k in keys if k[0] in ("na", "ne", "nm", "nM")))
        if vs and K(0) not in vs:
            vs.append(K(0))
        odd = lambda v: yes(eq(v, E.divc(v, 2).scale(2).addc(1))) or yes(eq(v.addc(-1), E.divc(v.addc(-1), 2).scale(2)))
        add(eq(A(K(0)), K(0)), eq(Z(K(0)), self.n)) if vs else None
        rel = []
        for v in list(vs):
            for w in list(vs):
                if v is w:
                    continue
                d = w.sub(v)
                if d.t and yes(eq(d, K(0))):
                    add(eq(A(v), A(w)), eq(Z(v), Z(w)))
                    continue
                d = w.sub(v.scale(2))
                side = 1 if yes(eq(d, K(1))) else 2 if yes(eq(d, K(2))) else 0
                if not side and (yes(ge(d, K(1))) and yes(ge(K(2), d))):
                    # one of the children
                    add(ge(A(w), A(v)), ge(Z(v), Z(w)))
                if side == 2 and yes(lt(w, self.len)):
                    if w.addc(-1) not in vs:
                        vs.append(w.addc(-1))
                    rel.append((v, w, 2))
                    if (v, w.addc(-1), 1) not in rel:
                        rel.append((v, w.addc(-1), 1))
                if side == 1 and yes(lt(w, self.len)):
                    rel.append((v, w, 1))
                if yes(eq(w, v.addc(1))) and odd(v):
                    rel.append((v, w, 0))
        for v in vs:
            add(ge(A(v), K(0)), ge(Z(v), A(v)), ge(self.n, Z(v)))
            if yes(ge(v, self.FL)) and yes(lt(v, self.len)):
                add(eq(A(v), v.sub(self.FL).scale(B)), lt(A(v), Z(v)), ge(A(v).addc(B), Z(v)))
                if yes(lt(v.addc(1), self.len)):
                    add(eq(Z(v), A(v).addc(B)))
                elif yes(lt(Z(v), self.n)):
                    add(eq(Z(v), A(v).addc(B)))
                elif yes(ge(v.addc(1), self.len)):
                    add(eq(Z(v), self.n))
        for v, w, side in rel:
            if side == 1:
                add(eq(A(w), A(v)), ge(Z(v), Z(w)))
                if yes(ge(w.addc(1), self.len)):
                    add(eq(Z(w), Z(v)))
            elif side == 2:
                add(eq(Z(w), Z(v)), ge(A(w), A(v)), eq(A(w), Z(w.addc(-1))))
                if yes(lt(A(w), Z(w))):
                    add(lt(A(w.addc(-1)), Z(w.addc(-1))))
            else:
                add(eq(A(w), Z(v)))
                if yes(lt(A(w), Z(w))):
                    add(lt(A(v), Z(v)))
        for v in vs:
            if yes(lt(v, self.FL)) and yes(lt(A(v), Z(v))):
                add(lt(v.scale(2).addc(1), self.len))
                if yes(lt(Z(v), self.n)):
                    # what lies left of a block is complete
                    w = v.scale(2).addc(2)
                    add(lt(w, self.len), eq(Z(w), Z(v)), lt(A(w), Z(w)), eq(A(w), Z(w.addc(-1))), eq(A(w.addc(-1)), A(v)), lt(A(v), A(w)))
    def more(self, st, idx, keys, yes, add):
        for _ in range(2):
            self.nearest(st, idx, keys, yes, add)

    def nearest(self, st, idx, keys, yes, add):
        A, Z = (lambda v: self.node("na", v)), (lambda v: self.node("ne", v))
        SearchParens.more(self, st, idx, keys, yes, add)
        inner = list(dict.fromkeys(k[1] for k in keys if k[0] in ("nm", "nM")))
        for k in keys:
            if k[0] not in ("bN", "bG"):
                continue
            i, L = k[1], k[2]
            f = self.find(k[0], i, L)
            for v in inner:
                if not yes(lt(v, self.len)):
                    continue
                m, M = self.node("nm", v), self.node("nM", v)
                t = L.sub(self.X(A(v)))
                full = yes(lt(A(v), Z(v)))
                inside = yes(ge(t, m)) and yes(ge(M, t))
                outside = yes(lt(t, m)) or yes(lt(M, t))
                if k[0] == "bN" and yes(ge(A(v), i.addc(1))) and yes(ge(f, A(v))):
                    if inside and (full or self.no(st, yes, t)):
                        add(lt(f, Z(v)), lt(A(v), Z(v)))
                    if outside:
                        add(ge(f, Z(v)))
                if k[0] == "bG" and yes(ge(i, Z(v))) and yes(lt(f, Z(v))):
                    if full and yes(eq(t, K(0))) or inside and full and self.no(st, yes, L.sub(self.X(Z(v)))):
                        add(ge(f, A(v)))
                    if outside and self.no(st, yes, t):
                        add(lt(f, A(v)))

    def scope(self, st, atoms):
        """everything the state mentions"""
        out = set(atoms)
        for f in list(st.cons) + [("ne", l) for l in st.nes]:
            atoms_deep(f[1], out)
        for a in list(out):
            k = AT.key[a]
            for x in k:
                if isinstance(x, Lin):
                    atoms_deep(x, out)
        self.seen = out
        return out

    def pows(self):
        return [AT.key[a] for a in sorted(self.seen) if AT.key[a][0] == "nextpow2"]


NODES = {"do_fwd_upwards_search": ("fwd", "up"), "do_fwd_downwards_search": ("fwd", "down"), "do_bwd_upwards_search": ("bwd", "up"), "do_bwd_downwards_search": ("bwd", "down"),
         "fwd_search": ("fwd", "top"), "bwd_search": ("bwd", "top")}


class MmtRules(BitVecRules):
    keys = {}
    prefix = MMT

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    @staticmethod
    def names():
        return list(NODES)

    def run(self, name, fn=None):
        guarded(self, name, lambda key: (self.one(key, name, True), self.one(key, name, False)), [NODES[name][0] + "_search"])

    def start(self, par, name, v):
        """where the search begins, seen from node v"""
        d, how = NODES[name]
        if d == "fwd":
            return par.node("ne" if how != "down" else "na", v)
        return par.node("na" if how != "down" else "ne", v)

    def facts(self, par, name, v, rel, L, pos):
        """what the function is told"""
        d, how = NODES[name]
        A, Z = par.node("na", v), par.node("ne", v)
        at = self.start(par, name, v)
        out = [lt(v, par.len), ge(v, K(1 if how == "up" else 0)), lt(A, Z), eq(L, par.X(at).add(rel)), ("ne", rel)]
        if d == "fwd":
            out += [ge(pos, at)] + ([lt(pos, Z)] if how == "down" else [])
        else:
            out += [lt(pos, at)] + ([ge(pos, A), lt(Z, par.n)] if how == "down" else [])
        return out

    def result(self, E, par, name, st, dty, L, pos):
        d, how = NODES[name]
        wrap = lambda q: ("nz", q.add(par.FL)) if how != "top" else ("int", q)
        out = []
        hit = lt(pos, par.n) if d == "fwd" else ge(pos, K(0))
        for s in E.assume(st, hit):
            q = E.divc(pos, B, s)
            out.append((s, some(dty, ("agg", None, 0, (wrap(q), ("int", L.sub(par.X(q.scale(B) if d == "fwd" else q.addc(1).scale(B)))))))))
        out += [(s, none(dty)) for s in E.assume(st, cnot(prim(hit)))]
        return out

    def split(self, E, par, st, g):
        """the fact by cases: nodes that cover something, nodes that cover nothing"""
        if g is False or g[0] != "ne":
            return False
        for a in sorted(par.scope(st, ())):
            k = AT.key[a]
            if k[0] == "nm":
                d = par.node("ne", k[1]).sub(par.node("na", k[1]))
                cases = E.assume(st, ge(d, K(1))) + E.assume(st, eq(d, K(0)))
                if all(E.dead(s) or E.entails(s, g) for s in cases):
                    return True
        return False

    def one(self, key, name, single):
        d, how = NODES[name]
        p = self.ctx.p
        E = self.engine()
        E.struct_inv = {}
        box = {}
        rec = {p.find(MMT + f): f for f in NODES if p.find(MMT + f)}
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            f = rec.get(callee.get("inst")) or rec.get(callee.get("rpath", callee["path"]))
            if f is None or NODES[f][0] != d or NODES[f][1] == "top":
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            par = box["par"]
            v, rel = args[1][1], args[2][1]
            for g in map(prim, self.facts(par, f, v, rel, par.level, par.pos)):
                if g is not True and (g is False or not E.entails(st, g)) and not self.split(E, par, st, g):
                    raise Giveup("%s is called where its contract does not tell the result (%s)" % (f, str(g)[:200]))
            return [Outcome("ret", s, x) for s, x in self.result(E, par, f, st, dty, par.level, par.pos)]

        E.on_call = on_call

        def pre(r):
            par = box["par"] = TreeParens(E, single)
            tree = r.pointee(0)
            nodes = tree[3][0]
            ety = nodes[1]
            c = ("init", ("mmt",))
            E.elt_rules[c] = lambda E, st, i: par.read(E, st, i, ety)
            a = r.args[0]
            E.write(r.st0, a[1], tuple(a[2]) + (("f", 0),), ("vec", ety, par.len, c))
            x, rel = r.args[1][1], r.int(2)
            v = x.add(par.FL) if how == "top" else x
            at = self.start(par, name, v)
            par.level = L = par.X(at).add(rel)
            par.pos = pos = par.find("bN" if d == "fwd" else "bG", at.addc(-1) if d == "fwd" else at, L)
            out = par.basics() + [ge(K(1 << 62), rel), ge(rel, K(-(1 << 62)))]
            if how == "top":
                out.append(lt(x, par.leaves))
            return out + self.facts(par, name, v, rel, L, pos)

        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        par = box["par"]
        for o in r.rets():
            v = o.val
            if v[0] != "agg":
                raise Giveup("shape of the result")
            for s, w in self.result(E, par, name, o.st, None, par.level, par.pos):
                if E.dead(s):
                    continue
                if w[2] != v[2]:
                    r.fail("the search succeeds if there is such a block", s)
                elif w[2] == 1:
                    got, want = v[3][0][3], w[3][0][3]
                    r.prove("the closest block with the excess", s, eq(got[0][1], want[0][1]))
                    r.prove("the excess relative to the block", s, eq(got[1][1], want[1][1]))
                else:
                    r.res("nothing is found where there is nothing", "proved")


# ---------------------------------------------------------------------- the lookup in one block
class LookupRules(BitVecRules):
    """every block of eight parentheses and every relative excess: each excess that can occur in a block by itself, and all
    others in one symbolic case; the tables are the constants the compiler computed for them"""

    keys = {}
    prefix = "trees::bp::lookup_query::"

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    @staticmethod
    def names():
        return ["process_block_fwd", "process_block_bwd"]

    def run(self, name, fn=None):
        fwd = name.endswith("fwd")
        self.bad = []
        cases = {}

        class Lazy(dict):
            def __bool__(me):
                self.collect(me, fwd)
                return len(me) > 0

        guarded(self, name, lambda key: self.blocks(key, name, fwd), ["fwd_search" if fwd else "bwd_search"], Lazy())

    def collect(self, cases, fwd):
        for v, rel in self.bad:
            text = "()" * 4 + "".join("(" if v >> k & 1 else ")" for k in range(8)) + "()" * 4
            cases[text] = [(i, d) for i in ((7, 6) if fwd else (17, 24)) for d in range(-9, 10)]

    def blocks(self, key, name, fwd):
        for v in range(256):
            seq = [1 if v >> k & 1 else -1 for k in range(8)]
            total = sum(seq)
            for rel in list(range(-9, 10)) + ["more", "less"]:
                if not fwd and rel == 0:
                    continue
                self.one(key, fwd, v, seq, total, rel)

    def one(self, key, fwd, v, seq, total, rel):
        E = self.engine()
        box = {}

        def pre(r):
            r.args[0] = ("int", K(v))
            a = r.args[1]
            if isinstance(rel, int):
                box["rel"] = K(rel)
                E.write(r.st0, a[1], a[2], ("int", K(rel)))
                return []
            x = box["rel"] = r.pointee(1)[1]
            return [ge(x, K(10)), ge(K(1 << 62), x)] if rel == "more" else [ge(K(-10), x), ge(x, K(-(1 << 62)))]

        r = Run(self.ctx, key, E=E, pre=pre)
        r.note = "block %s, relative excess %s" % (format(v, "08b"), rel)
        n0 = len(self.ctx.results)
        r.no_panic()
        want = None
        if isinstance(rel, int):
            if fwd:
                want = next((t for t in range(8) if sum(seq[:t + 1]) == rel), None)
            else:
                want = next((t for t in range(7, -1, -1) if -sum(seq[t:]) == rel), None)
        for o in r.rets():
            x = o.val
            if x[0] != "agg":
                raise Giveup("shape of the result")
            if (x[2] == 0) != (want is not None):
                r.fail("a position is found if the excess occurs in the block", o.st)
            elif x[2] == 0:
                r.prove("the closest position in the block", o.st, eq(x[3][0][1], K(want)))
            else:
                a = r.args[1]
                now = E.read(o.st, a[1], a[2])[1]
                r.prove("the relative excess is moved over the block", o.st, eq(now, box["rel"].addc(-total if fwd else total)))
        if any(q.status != "proved" for q in self.ctx.results[n0:]):
            self.bad.append((v, rel))
