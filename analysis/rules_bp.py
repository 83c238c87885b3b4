"""Contracts of the balanced parentheses tree. The ghost R(i) counts the opening parentheses before position i, X(i) =
2 R(i) - i is the excess before it. The first position right of i (or last position left of i) with a given excess is a
ghost function of its own: the navigation is decided against these, the rank/select vector and the two excess searches
by their contracts."""
from lin import *
from eng import Giveup, cnot, prim, Outcome
from contracts import Run, Rules, Result
from models import none, some
from rules_bitvec import BitVecRules, setup, ge, lt, eq
from rules_rsvec import RS

BP = "trees::bp::BpTree::<512>"
BPT = "trees::bp::BpTree<512>"
W = (1 << 64) - 1
SIZE = 1 << 58


class Parens:
    given = False
    kinds = ("bR", "bF", "bB", "bhalf")

    def __init__(self, E, n, balanced):
        self.E, self.balanced = E, balanced
        # a balanced sequence has twice as many parentheses as opening ones
        self.n = atom(("bhalf",), 0, SIZE).scale(2) if balanced else n
        self.busy = False
        E.CONG = dict(E.CONG, bR=(1,), bF=(1, 2), bB=(1, 2))
        E.ghosts["bR"] = lambda E, key, sub, cmap: self.R(E.subst_atoms(key[1], sub, cmap))
        for g in ("bF", "bB"):
            E.ghosts[g] = lambda E, key, sub, cmap, g=g: self.search(g, E.subst_atoms(key[1], sub, cmap), E.subst_atoms(key[2], sub, cmap))
        E.axioms = list(E.axioms) + [self.axioms]
        E.model_checks = list(E.model_checks) + [lambda m, seen: False]

    def R(self, i):
        if i.const() == 0:
            return K(0)
        if self.balanced and i == self.n and not self.given:
            return atom(("bhalf",), 0, SIZE)
        return self.E.uf("bR", (i,), 0, SIZE, lambda x: [f for f in [prim(ge(i, x))] if f is not True])

    def X(self, i):
        return self.R(i).scale(2).sub(i)

    def search(self, g, i, L):
        return self.E.uf(g, (i, L), 0, SIZE, lambda x: [])

    def basics(self):
        return [ge(self.n, K(0)), ge(K(SIZE), self.n)]

    def axioms(self, E, st, atoms, query):
        if self.busy:
            return []
        keys = [AT.key[a] for a in sorted(self.scope(st, atoms))]
        keys = [k for k in keys if k[0] in self.kinds]
        if not keys:
            return []
        self.busy = True
        try:
            idx = list(dict.fromkeys([k[1] for k in keys if k[0] == "bR"] + [K(0), self.n]))
            found = [(k[0], k[1], k[2], self.search(k[0], k[1], k[2])) for k in keys if k[0] in ("bF", "bB")]
            for g, i, L, f in found:
                for x in ([i.addc(1), f.addc(1)] if g == "bF" else [i, f]):
                    if x not in idx:
                        idx.append(x)
            extra = self.terms(keys, idx)
            terms = extra + [x for x in idx] + [self.R(x) for x in idx] + [f for _, _, L, f in found] + [L for _, _, L, f in found]
            cone = set(map(prim, [("ge", x.addc(1 << 100)) for x in terms if x.t]))
            base, _ = E.closure(st, [f for f in query if f[0] != "ne"] + sorted(cone, key=str), False)
            if base is None:
                return [("ge", K(-1))]
            base = [f for f in base if f not in cone]
            out, have = [], set(base)

            def yes(f):
                f = prim(f)
                if isinstance(f, bool):
                    return f
                return f in have or all(infeasible(base + [g]) for g in negate(f))

            def add(*fs):
                for f in map(prim, fs):
                    if f is False:
                        f = ("ge", K(-1))
                    if f is not True and f not in have:
                        have.add(f)
                        out.append(f)
                        base.append(f)

            self.early(st, idx, keys, yes, add)
            for x in idx:
                add(ge(self.R(x), K(0)))
            for a in idx:
                for b in idx:
                    if a is not b and yes(ge(b, a)):
                        add(ge(self.R(b), self.R(a)), ge(b.sub(a), self.R(b).sub(self.R(a))))
            if self.balanced:
                for x in idx:
                    if yes(ge(x, K(1))) and yes(lt(x, self.n)):
                        add(ge(self.X(x), K(1)))
            for g, i, L, f in found:
                if g == "bF" and yes(lt(f, self.n)):
                    add(ge(f, i.addc(1)), eq(self.X(f.addc(1)), L))
                if g == "bB" and yes(lt(f, self.n)):
                    add(lt(f, i), eq(self.X(f), L))
                # the excess changes by one per position: it stays on one side of the level until it is reached
                start = self.X(i.addc(1)) if g == "bF" else self.X(i)
                for sgn in (1, -1):
                    if yes(ge(start.sub(L).scale(sgn), K(1))):
                        for x in idx:
                            if g == "bF" and yes(ge(x, i.addc(1))) and yes(ge(f, x)) or g == "bB" and yes(ge(i, x)) and (yes(lt(f, x)) or yes(ge(f, self.n))):
                                add(ge(self.X(x).sub(L).scale(sgn), K(1)))
            self.more(st, idx, keys, yes, add)
            return out
        finally:
            self.busy = False

    def more(self, st, idx, keys, yes, add):
        pass

    def early(self, st, idx, keys, yes, add):
        pass

    def scope(self, st, atoms):
        return atoms

    def terms(self, keys, idx):
        """further terms the axioms talk about; may add positions"""
        return []

    # ------------------------------------------------------------------ facts by cases: [(state, value)]
    def cases(self, st, *alts):
        out = []
        for facts, v in alts:
            sts = [st]
            for f in facts:
                sts = [t for s in sts for t in self.E.assume(s, f)]
            out += [(s, v) for s in sts if not self.E.dead(s)]
        return out

    def bit(self, st, i):
        return self.cases(st, ([eq(self.R(i.addc(1)), self.R(i))], 0), ([eq(self.R(i.addc(1)), self.R(i).addc(1))], 1))

    def get(self, st, i):
        out = []
        for s, inside in self.cases(st, ([ge(i, self.n)], False), ([lt(i, self.n)], True)):
            out += self.bit(s, i) if inside else [(s, None)]
        return out

    def rank(self, st, i, one):
        c = lambda x: self.R(x) if one else x.sub(self.R(x))
        return self.cases(st, ([lt(self.n, i)], c(self.n)), ([ge(self.n, i)], c(i)))

    def select(self, st, k, one):
        c = lambda x: self.R(x) if one else x.sub(self.R(x))
        x = atom(("call", "bsel", k, one), 0, SIZE)
        return self.cases(st, ([ge(k, c(self.n))], self.n), ([lt(k, c(self.n)), lt(x, self.n), eq(c(x), k), eq(c(x.addc(1)), k.addc(1))], x))

    def fwd(self, st, i, d):
        """first j > i with excess d relative to the one behind i"""
        out = []
        for s, ok in self.cases(st, ([ge(i.addc(1), self.n)], False), ([lt(i.addc(1), self.n)], True)):
            if not ok:
                out.append((s, None))
                continue
            L = self.X(i.addc(1)).add(d)
            f = self.search("bF", i, L)
            out += self.cases(s, ([eq(f, self.n)], None), ([lt(f, self.n), lt(i, f), eq(self.X(f.addc(1)), L)], f))
        return out

    def bwd(self, st, i, d):
        """last j < i with excess d relative to the one before i"""
        out = []
        for s, ok in self.cases(st, ([ge(i, self.n)], False), ([lt(i, self.n)], True)):
            if not ok:
                out.append((s, None))
                continue
            L = self.X(i).add(d)
            f = self.search("bB", i, L)
            out += self.cases(s, ([eq(f, self.n)], None), ([lt(f, i), eq(self.X(f), L)], f))
        return out


class GivenParens(Parens):
    given = True

    def __init__(self, E, text):
        self.E, self.text, self.n = E, text, K(len(text))
        self.balanced = balanced(text)

    def c(self, x):
        if x.const() is None:
            raise Giveup("position")
        return x.const()

    def R(self, i):
        return K(self.text[:max(self.c(i), 0)].count("("))

    def basics(self):
        return []

    def cases(self, st, *alts):
        for facts, v in alts:
            if all(prim(f) is True for f in facts):
                return [(st, v)]
        return []

    def select(self, st, k, one):
        at = [i for i, x in enumerate(self.text) if (x == "(") == bool(one)]
        return [(st, K(at[self.c(k)]) if self.c(k) < len(at) else self.n)]

    def fwd(self, st, i, d):
        e, d = 0, self.c(d)
        for j in range(self.c(i) + 1, len(self.text)):
            e += 1 if self.text[j] == "(" else -1
            if e == d:
                return [(st, K(j))]
        return [(st, None)]

    def bwd(self, st, i, d):
        e, d = 0, self.c(d)
        if self.c(i) >= len(self.text):
            return [(st, None)]
        for j in range(self.c(i) - 1, -1, -1):
            e -= 1 if self.text[j] == "(" else -1
            if e == d:
                return [(st, K(j))]
        return [(st, None)]


def balanced(t):
    e = 0
    for i, x in enumerate(t):
        e += 1 if x == "(" else -1
        if e < 0 or (e == 0 and i + 1 < len(t)):
            return False
    return e == 0


# name -> (path, arguments: n node, o position, k number; only meaningful on balanced sequences)
T = {"close": (BP, "o", False), "open": (BP, "c", False), "enclose": (BP, "i", False), "excess": (BP, "i", False), "subtree_iter": (BP, "n", True), "subtree_post_iter": (BP, "n", True)}
for _t, _fs in (("Tree", {"root": ("", True), "parent": ("n", True), "first_child": ("n", True), "next_sibling": ("n", True), "previous_sibling": ("n", True), "last_child": ("n", True), "node_index": ("n", False),
                          "node_handle": ("k", False), "is_leaf": ("n", True), "depth": ("n", False), "size": ("", False), "is_empty": ("", False)}),
                ("IsAncestor", {"is_ancestor": ("nn", False)}), ("LevelTree", {"level_ancestor": ("nk", True), "level_next": ("n", True), "level_prev": ("n", True), "level_leftmost": ("k", True), "level_rightmost": ("k", True)}),
                ("SubtreeSize", {"subtree_size": ("n", False)})):
    for _f, (_a, _b) in _fs.items():
        T[_f] = ("<%s as trees::%s>" % (BPT, _t), _a, _b)
SHAPES = ["", "()", "(())", "(()())", "((()())(())())", "((())()(()(())))", "(((())))", "(()(())())", "((", "(()", "())", ")(", "(()()", "())(()"]


class BpRules(BitVecRules):
    keys = {f: p + "::" + f for f, (p, _, _) in T.items()}
    prefix = BP + "::"

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    @staticmethod
    def names():
        return list(T)

    shape = None

    def run(self, name, fn=None):
        Rules.run(self, name, lambda key: self.query(key, name), lambda key: self.confirm(key, name))

    def query(self, key, name):
        self.one(key, name, True)
        if not T[name][2]:
            self.one(key, name, False)

    def confirm(self, key, name):
        sig = T[name][1]
        for text in SHAPES:
            if T[name][2] and not balanced(text):
                continue
            n = len(text)
            vals = [[]]
            for a in sig:
                dom = {"n": [i for i in range(n) if text[i] == "("], "o": [i for i in range(n + 2) if i >= n or text[i] == "("], "c": [i for i in range(n + 2) if i >= n or text[i] == ")"],
                       "i": range(n if name == "excess" else n + 2), "k": range(n + 1)}[a]
                vals = [v + [x] for v in vals for x in dom]
            for v in vals:
                self.shape = (text, v)
                try:
                    self.one(key, name, balanced(text))
                except Giveup:
                    pass
                finally:
                    self.shape = None

    def install(self, E, par):
        p = self.ctx.p
        names = {}
        for f in ("get", "get_unchecked", "is_bit_set", "is_bit_set_unchecked", "rank0", "rank1", "select0", "select1", "len", "is_empty", "iter0", "iter1"):
            k = p.find(RS + "::" + f)
            if k:
                names[k] = f
        for f in ("fwd_search", "bwd_search"):
            k = p.find(BP + "::" + f)
            if k:
                names[k] = f
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            f = names.get(callee.get("inst")) or names.get(callee.get("rpath", callee["path"]))
            if f is None:
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            ret = lambda xs: [Outcome("ret", s, v) for s, v in xs]
            opt = lambda x: none(dty) if x is None else some(dty, ("int", x))
            if f == "len":
                return ret([(st, ("int", par.n))])
            if f == "is_empty":
                return ret([(st, ("bool", eq(par.n, K(0))))])
            if f.startswith("iter"):
                return ret([(st, ("bpiter", int(f[4])))])
            x = args[1][1]
            if f.startswith(("get", "is_bit")):
                out = []
                for s, b in par.get(st, x):
                    if f.endswith("unchecked"):
                        out.append(Outcome("panic", s, None, ("bit read behind the end", E.site(body, line))) if b is None else Outcome("ret", s, ("bool", bool(b)) if "is_bit" in f else ("int", K(b))))
                    else:
                        out.append(Outcome("ret", s, none(dty) if b is None else some(dty, ("bool", bool(b)) if "is_bit" in f else ("int", K(b)))))
                return out
            if f.startswith("rank"):
                return ret([(s, ("int", v)) for s, v in par.rank(st, x, f[4] == "1")])
            if f.startswith("select"):
                return ret([(s, ("int", v)) for s, v in par.select(st, x, f[6] == "1")])
            d = args[2][1]
            return ret([(s, opt(v)) for s, v in (par.fwd if f[0] == "f" else par.bwd)(st, x, d)])

        E.on_call = on_call

    def one(self, key, name, bal):
        E = self.engine()
        E.struct_inv = {}
        path, sig, _ = T[name]
        box = {}

        def pre(r):
            if self.shape:
                par = GivenParens(E, self.shape[0])
                r.note = "parentheses %s, arguments %s" % self.shape
            else:
                par = Parens(E, atom(("blen",), 0, SIZE), bal)
            box["par"] = par
            self.install(E, par)
            out = par.basics()
            vals = []
            for n, a in enumerate(sig):
                if self.shape:
                    r.args[n + 1] = ("int", K(self.shape[1][n]))
                x = r.args[n + 1][1]
                vals.append(x)
                if self.shape:
                    continue
                if a == "n":
                    out += [lt(x, par.n), eq(par.R(x.addc(1)), par.R(x).addc(1))]
                elif a == "k":
                    out.append(lt(x, K(1 << 62)))
                elif a in "oc":
                    out.append(("or", ge(x, par.n), eq(par.R(x.addc(1)), par.R(x).addc(1) if a == "o" else par.R(x))))
                elif name == "excess":
                    out.append(lt(x, par.n))
            box["vals"] = vals
            return out

        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        par, vals = box["par"], box["vals"]
        for o in r.rets():
            for s, want in self.spec(name, o.st, par, vals):
                if not E.dead(s):
                    self.same(r, s, name, o.val, want, par)

    # ------------------------------------------------------------------ what the operations mean
    def spec(self, name, st, P, vals):
        """[(state, wanted value)]; None: nothing is returned, Ellipsis: left open"""
        E = self.E = P.E
        x = vals[0] if vals else None
        n = P.n
        close = lambda s, i: P.fwd(s, i, K(-1))
        open_ = lambda s, i: P.bwd(s, i, K(-1))
        then = lambda xs, f: [y for s, v in xs for y in ([(s, None)] if v is None else f(s, v))]

        def within(s, i, f):
            return [y for t, b in P.get(s, i) for y in ([(t, None)] if b is None else f(t, b))]

        if name in ("close", "open", "enclose"):
            if name == "close":
                return close(st, x)
            if name == "open":
                return open_(st, x)
            return within(st, x, lambda s, b: P.bwd(s, x, K(-1 if b else -2)))
        if name == "excess":
            return [(st, P.X(x.addc(1)))]
        if name == "root":
            return P.cases(st, ([eq(n, K(0))], None), ([ge(n, K(1))], K(0)))
        if name == "parent":
            return open_(st, x)
        if name == "first_child":
            return within(st, x.addc(1), lambda s, b: [(s, x.addc(1) if b else None)])
        if name == "is_leaf":
            return [(s, b == 0) for s, b in P.get(st, x.addc(1))]
        if name == "next_sibling":
            return then(close(st, x), lambda s, c: within(s, c.addc(1), lambda t, b: [(t, c.addc(1) if b else None)]))
        if name == "previous_sibling":
            out = []
            for s, first in P.cases(st, ([eq(x, K(0))], True), ([ge(x, K(1))], False)):
                out += [(s, None)] if first else within(s, x.addc(-1), lambda t, b: [(t, None)] if b else open_(t, x.addc(-1)))
            return out
        if name == "last_child":
            return then(close(st, x), lambda s, c: within(s, x.addc(1), lambda t, b: open_(t, c.addc(-1)) if b else [(t, None)]))
        if name == "node_index":
            return [(st, P.R(x))]
        if name == "node_handle":
            return [(s, v) if v != n else (s, Ellipsis) for s, v in P.select(st, x, True)]
        if name == "depth":
            return P.cases(st, ([ge(P.X(x.addc(1)), K(1))], P.X(x.addc(1)).addc(-1)), ([ge(K(0), P.X(x.addc(1)))], K(0)))
        if name == "size":
            return [(st, P.R(n))]
        if name == "is_empty":
            return P.cases(st, ([eq(n, K(0))], True), ([ge(n, K(1))], False))
        if name == "is_ancestor":
            y = vals[1]
            return then(close(st, x), lambda s, c: P.cases(s, ([lt(y, x)], ("some", False)), ([ge(y, c)], ("some", False)), ([ge(y, x), lt(y, c)], ("some", True))))
        if name == "subtree_size":
            return then(close(st, x), lambda s, c: [(s, P.R(c).sub(P.R(x)))])
        if name == "level_ancestor":
            l = vals[1]
            out = []
            for s, z in P.cases(st, ([eq(l, K(0))], True), ([ge(l, K(1))], False)):
                out += [(s, x)] if z else P.bwd(s, x, l.scale(-1))
            return out
        if name == "level_next":
            return then(close(st, x), lambda s, c: P.fwd(s, c, K(1)))
        if name == "level_prev":
            return then(P.bwd(st, x, K(1)), lambda s, c: open_(s, c))
        if name in ("level_leftmost", "level_rightmost"):
            out = []
            for s, k in P.cases(st, ([eq(n, K(0))], 0), ([ge(n, K(1)), eq(x, K(0))], 1), ([ge(n, K(1)), ge(x, K(1))], 2)):
                if k < 2:
                    out.append((s, K(0) if k else None))
                elif name == "level_leftmost":
                    out += P.fwd(s, K(0), x)
                else:
                    out += then(P.bwd(s, n.addc(-1), x), lambda t, c: open_(t, c))
            return out
        if name in ("subtree_iter", "subtree_post_iter"):
            if name == "subtree_iter":
                return [(s, ("skip", 1, P.R(x), P.R(c).sub(P.R(x)))) for s, c in close(st, x) if c is not None]
            z = lambda i: i.sub(P.R(i))
            return [(s, ("skip", 0, z(x), z(c).addc(1).sub(z(x)))) for s, c in close(st, x) if c is not None]
        raise Giveup("no meaning")

    def same(self, r, st, name, v, want, par):
        E = r.E
        if want is Ellipsis:
            return
        if name in ("subtree_iter", "subtree_post_iter"):
            return self.iterator(r, st, v, want)
        if name in ("excess", "node_index", "depth", "size", "node_handle"):
            if name == "node_handle":
                r.prove("the node of this number", st, eq(par.R(v[1]), par.R(want)))
                r.prove("the node of this number", st, lt(v[1], par.n))
                return r.prove("the handle is an opening parenthesis", st, eq(par.R(v[1].addc(1)), par.R(v[1]).addc(1)))
            return r.prove("value by the structure of the tree", st, eq(v[1], want))
        if isinstance(want, bool):
            return self.truth(r, st, v, want)
        if v[0] != "agg":
            raise Giveup("shape of the result")
        what = "nothing is returned without such a node" if want is None else "a node is returned if there is one"
        if (v[2] == 0) != (want is None):
            if not E.dead(st):
                r.fail(what, st)
            return
        r.res(what, "proved")
        if want is None:
            return
        if isinstance(want, tuple):
            return self.truth(r, st, v[3][0], want[1])
        r.prove("the node by the structure of the tree", st, eq(v[3][0][1], want))

    def truth(self, r, st, v, want):
        c = r.E.tobool(v)
        for s in r.E.assume(st, cnot(c) if want else c):
            if not r.E.dead(s):
                return r.fail("answer by the structure of the tree", s)
        r.res("answer by the structure of the tree", "proved")

    def iterator(self, r, st, v, want):
        """all nodes of one kind from a rank on: what is skipped and how many are taken"""
        E = r.E
        skip = take = None
        n = 0
        while v[0] == "iter" and n < 6:
            n += 1
            kind, parts = v[1], v[2]
            if kind == "take" and take is None and skip is None:
                take = parts[1][1]
            elif kind == "skip" and skip is None and take is not None:
                skip = parts[1][1]
            elif kind != "map":
                raise Giveup("iterator of another shape")
            v = parts[0]
        if v[0] != "bpiter" or skip is None or take is None:
            raise Giveup("iterator of another shape")
        if v[1] != want[1]:
            return r.fail("nodes of the right kind", st)
        r.prove("the subtree begins with its first node", st, eq(skip, want[2]))
        r.prove("the subtree has as many nodes", st, eq(take, want[3]))


ITER = "<trees::bp::ChildrenIter<'_, 512, %s> as std::iter::Iterator>::next"


class ChildrenRules(BpRules):
    """iteration over the children: the cursor begins with the first (last) child and moves to the next (previous) sibling"""
    keys = {"children": BP + "::children", "rev_children": BP + "::rev_children", "next": ITER % "true", "rev_next": ITER % "false"}

    @staticmethod
    def names():
        return ["children", "rev_children", "next", "rev_next"]

    def run(self, name, fn=None):
        if "next" in name and self.ctx.p.find(self.keys[name]) is None:
            self.ctx.results.append(Result(self.keys[name], "the cursor moves to the sibling", "unknown", "no iterator of this form"))
            return
        Rules.run(self, name, lambda key: self.one(key, name), lambda key: self.confirm(key, name))

    def confirm(self, key, name):
        for text in SHAPES:
            if balanced(text):
                for x in range(len(text)):
                    if text[x] == "(":
                        self.shape = (text, [x])
                        try:
                            self.one(key, name)
                        finally:
                            self.shape = None

    def cursor(self, E, v):
        fs = [(x["n"], x["t"]) for x in E.T[v[1]]["variants"][0]["f"]] if v[0] == "agg" else []
        at = [i for i, (n, t) in enumerate(fs) if E.T[t].get("path") == "std::option::Option" and E.is_int(E.T[t]["args"][0])]
        if len(at) != 1 or len(fs) != 2:
            raise Giveup("iterator of another shape")
        return at[0], fs[at[0]][1]

    def one(self, key, name):
        rev = name.startswith("rev")
        for have in (True, False) if "next" in name else (True,):
            E = self.engine()
            E.struct_inv = {}
            box = {}

            def pre(r):
                par = box["par"] = GivenParens(E, self.shape[0]) if self.shape else Parens(E, None, True)
                if self.shape:
                    r.note = "parentheses %s, node %s" % self.shape
                self.install(E, par)
                x = K(self.shape[1][0]) if self.shape else atom(("node",), 0, SIZE)
                box["x"] = x
                if "next" in name:
                    a = r.args[0]
                    v = E.read(r.st0, a[1], a[2])
                    i, t = self.cursor(E, v)
                    fs = list(v[3])
                    fs[i] = some(t, ("int", x)) if have else none(t)
                    E.write(r.st0, a[1], a[2], v[:3] + (tuple(fs),))
                else:
                    r.args[1] = ("int", x)
                return par.basics() + ([] if self.shape else [lt(x, par.n), eq(par.R(x.addc(1)), par.R(x).addc(1))])

            r = Run(self.ctx, key, E=E, pre=pre)
            r.no_panic()
            par, x = box["par"], box["x"]
            for o in r.rets():
                if "next" in name:
                    post = E.read(o.st, r.args[0][1], r.args[0][2])
                    self.same(r, o.st, "item", o.val, x if have else None, par)
                    goal = "previous_sibling" if rev else "next_sibling"
                else:
                    post = o.val
                    goal = "last_child" if rev else "first_child"
                c = post[3][self.cursor(E, post)[0]]
                for s, want in self.spec(goal, o.st, par, [x]) if have else [(o.st, None)]:
                    if not E.dead(s):
                        self.same(r, s, goal, c, want, par)


BUILD = "<trees::bp::builder::BpBuilder<512> as trees::TreeBuilder>"


class BuilderRules(BitVecRules):
    """the builder appends one parenthesis per call and keeps the excess, which decides about success"""
    keys = {"new": "trees::bp::builder::BpBuilder::<512>::new", "with_capacity": "trees::bp::builder::BpBuilder::<512>::with_capacity", "enter_node": BUILD + "::enter_node", "leave_node": BUILD + "::leave_node", "build": BUILD + "::build"}

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    @staticmethod
    def names():
        return ["new", "with_capacity", "enter_node", "leave_node", "build"]

    def run(self, name, fn=None):
        Rules.run(self, name, lambda key: self.one(key, name))

    def fields(self, E, v):
        fs = [x["n"] for x in E.T[v[1]]["variants"][0]["f"]] if v[0] == "agg" else []
        if sorted(fs) != ["bit_vec", "excess"]:
            raise Giveup("fields of the builder")
        return v[3][fs.index("excess")][1], v[3][fs.index("bit_vec")]

    def one(self, key, name):
        E = self.engine()
        E.struct_inv = {}
        p = self.ctx.p
        box = {}
        bv = lambda f: p.find("bit_vec::BitVec::" + f)
        names = {bv(f): f for f in ("append_bit", "new", "with_capacity") if bv(f)}
        names.update({k: "tree" for k in (p.find(BP + "::from_bit_vector"),) if k})
        orig = E.on_call
        seq = ("bseq", ())

        def on_call(E, st, callee, args, dty, depth, body, line):
            f = names.get(callee.get("inst")) or names.get(callee.get("rpath", callee["path"]))
            if f is None:
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            if f in ("new", "with_capacity"):
                return [Outcome("ret", st, ("bseq", ()))]
            if f == "tree":
                return [Outcome("ret", st, ("btree", args[0]))]
            s = st.copy()
            v = E.read(s, args[0][1], args[0][2])
            if v[0] != "bseq":
                raise Giveup("another bit vector")
            E.write(s, args[0][1], args[0][2], ("bseq", v[1] + (args[1][1].const(),)))
            return [Outcome("ret", s, ("agg", dty, 0, ()))]

        E.on_call = on_call

        def pre(r):
            if name in ("new", "with_capacity"):
                return [lt(r.args[0][1], K(1 << 62))] if r.args else []
            a = r.args[0]
            v = E.read(r.st0, a[1], a[2]) if a[0] == "ref" else a
            i = [x["n"] for x in E.T[v[1]]["variants"][0]["f"]].index("bit_vec")
            e = self.fields(E, v)[0]
            fs = list(v[3])
            fs[i] = seq
            w = v[:3] + (tuple(fs),)
            if a[0] == "ref":
                E.write(r.st0, a[1], a[2], w)
            else:
                r.args[0] = w
            box["e"] = e
            return [lt(e, K(1 << 62)), lt(K(-(1 << 62)), e)]

        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        for o in r.rets():
            if name in ("new", "with_capacity"):
                e, b = self.fields(E, o.val)
                r.prove("no parentheses yet", o.st, eq(e, K(0)))
                if b != ("bseq", ()):
                    raise Giveup("bit vector of another origin")
            elif name == "build":
                v = o.val
                if v[0] != "agg":
                    raise Giveup("shape of the result")
                for f, ok in ((eq(box["e"], K(0)), True), (lt(box["e"], K(0)), False), (lt(K(0), box["e"]), False)):
                    for s in E.assume(o.st, f):
                        if E.dead(s):
                            continue
                        if (v[2] == 0) != ok:
                            r.fail("succeeds exactly if every node was left", s)
                        elif ok:
                            if v[3][0] != ("btree", seq):
                                raise Giveup("tree of another origin")
                            r.res("succeeds exactly if every node was left", "proved")
                        else:
                            r.prove("the error is the number of open nodes", s, eq(v[3][0][1], box["e"]))
            else:
                b = 1 if name == "enter_node" else 0
                e, q = self.fields(E, E.read(o.st, r.args[0][1], r.args[0][2]))
                r.prove("the excess counts the open nodes", o.st, eq(e, box["e"].addc(1 if b else -1)))
                if q == ("bseq", (b,)):
                    r.res("one parenthesis is appended", "proved")
                elif q[0] == "bseq" and None not in q[1]:
                    r.fail("one parenthesis is appended", o.st)
                else:
                    raise Giveup("bit vector of another origin")
