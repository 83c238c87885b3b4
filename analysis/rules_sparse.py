"""Contracts of the sparse vector: it stands for a bit string of which the Elias-Fano vector holds the positions of the
ones; the Elias-Fano vector's own functions stand for their contracts on that string."""
from lin import *
from eng import Giveup, cnot, prim, Outcome
from contracts import Run, Rules, Result
from models import none, some, call_clo
from rules_bitvec import BitVecRules, setup, ge, lt, eq, BV
from rules_rsvec import setup_rs

SP = "bit_vec::sparse::SparseRSVec"
EF = "elias_fano::EliasFanoVec"
C = ("sparse",)
QUERIES = ["len", "is_empty", "is_set", "is_set_unchecked", "get", "get_unchecked", "select1", "rank1", "rank0", "iter1"]


class SparseRules(BitVecRules):
    prefix = SP + "::"
    keys = {}

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)
        self.s = setup_rs(ctx.p)

    @staticmethod
    def names():
        return QUERIES + ["new", "from_bitvec", "from_bitvec_inverted"]

    def run(self, name, fn=None):
        if name in QUERIES:
            Rules.run(self, name, lambda key: self.query(key, name))
        elif name == "new":
            Rules.run(self, name, self.new)
        else:
            Rules.run(self, name, lambda key: self.from_bits(key, 0 if name.endswith("inverted") else 1))

    # ------------------------------------------------------------------ the Elias-Fano vector by contract
    def contract(self, E, L):
        """L: length of the bit string"""
        p = self.ctx.p
        names = {}
        for f in ("rank", "predecessor", "predecessor_unchecked", "successor", "successor_unchecked", "get", "select", "get_unchecked", "len", "is_empty", "iter"):
            k = p.find(EF + "::" + f)
            if k:
                names[k] = f
        orig = E.on_call
        Pc = lambda x: E.bdom.P(None, C, x)

        def upto(st, x):
            """(state, min(x, L))"""
            return [(s, x) for s in E.assume(st, ge(L, x))] + [(s, L) for s in E.assume(st, lt(L, x))]

        def on_call(E, st, callee, args, dty, depth, body, line):
            k = names.get(callee.get("inst")) or names.get(callee.get("rpath", callee["path"]))
            if k is None:
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            if k == "len":
                return [Outcome("ret", st, ("int", Pc(L)))]
            if k == "is_empty":
                return [Outcome("ret", st, ("bool", eq(Pc(L), K(0))))]
            if k == "iter":
                return [Outcome("ret", st, ("sym", ("efiter",), dty))]
            x = args[1][1]
            out = []
            if k == "rank":
                return [Outcome("ret", s, ("int", Pc(m))) for s, m in upto(st, x)]
            wrap = (lambda v: ("int", v)) if k.endswith("unchecked") else (lambda v: some(dty, ("int", v)))
            if k.startswith("pred"):
                for s, m in upto(st, x.addc(1)):
                    for s1 in E.assume(s, ge(Pc(m), K(1))):
                        q = E.uf("efpred", (m,), 0, (1 << 64) - 1, lambda q: [lt(q, m), eq(Pc(q.addc(1)), Pc(m)), eq(Pc(q), Pc(m).addc(-1))])
                        out.append(Outcome("ret", s1, wrap(q)))
                    for s1 in E.assume(s, eq(Pc(m), K(0))):
                        out.append(Outcome("ret", s1, none(dty)) if k == "predecessor" else Outcome("panic", s1, None, ("no predecessor", E.site(body, line))))
                return out
            if k.startswith("succ"):
                for s, m in upto(st, x):
                    for s1 in E.assume(s, lt(Pc(m), Pc(L))):
                        q = E.uf("efsucc", (m,), 0, (1 << 64) - 1, lambda q: [lt(q, L), ge(q, m), eq(Pc(q), Pc(m)), eq(Pc(q.addc(1)), Pc(m).addc(1))])
                        out.append(Outcome("ret", s1, wrap(q)))
                    for s1 in E.assume(s, ge(Pc(m), Pc(L))):
                        out.append(Outcome("ret", s1, none(dty)) if k == "successor" else Outcome("panic", s1, None, ("no successor", E.site(body, line))))
                return out
            for s in E.assume(st, lt(x, Pc(L))):
                q = E.uf("efsel", (x,), 0, (1 << 64) - 1, lambda q: [lt(q, L), eq(Pc(q), x), eq(Pc(q.addc(1)), x.addc(1))])
                out.append(Outcome("ret", s, wrap(q)))
            for s in E.assume(st, ge(x, Pc(L))):
                out.append(Outcome("ret", s, none(dty)) if not k.endswith("unchecked") else Outcome("panic", s, None, ("no such element", E.site(body, line))))
            return out

        E.on_call = on_call
        return Pc

    def query(self, key, name):
        E = self.engine()
        box = {}

        def pre(r):
            v = r.pointee(0)
            fs = {x["n"]: i for i, x in enumerate(E.T[v[1]]["variants"][0]["f"])}
            if set(fs) != {"vec", "len"}:
                raise Giveup("fields of the sparse vector")
            box["L"] = L = v[3][fs["len"]][1]
            box["P"] = self.contract(E, L)
            out = [ge(K((1 << 64) - 1), L)]
            if name.endswith("unchecked"):
                out.append(lt(r.int(1), L))
            return out

        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        L, P = box["L"], box["P"]
        for o in r.rets():
            v = o.val
            if name == "len":
                r.prove("length", o.st, eq(v[1], L))
            elif name == "is_empty":
                self.boolean(r, o.st, "empty", v, eq(L, K(0)))
            elif name == "iter1":
                if v != ("sym", ("efiter",), v[-1]):
                    raise Giveup("not the iterator of the positions")
                r.res("iterates over the positions of the ones", "proved")
            elif name in ("rank1", "rank0"):
                i = r.int(1)
                for cond, m in ((ge(L, i), i), (lt(L, i), L)):
                    for s in E.assume(o.st, cond):
                        r.prove("number of %s before the position" % ("ones" if name == "rank1" else "zeros"), s, eq(v[1], P(m) if name == "rank1" else m.sub(P(m))))
            elif name == "select1":
                i = r.int(1)
                for s in E.assume(o.st, ge(i, P(L))):
                    r.prove("no such bit: the length", s, eq(v[1], L))
                for s in E.assume(o.st, lt(i, P(L))):
                    r.prove("the bit lies inside the vector", s, lt(v[1], L))
                    r.prove("exactly the given number of ones lie before it", s, eq(P(v[1]), i))
                    r.prove("the bit found is a one", s, eq(P(v[1].addc(1)), i.addc(1)))
            else:
                i = r.int(1)
                sts = [(o.st, v)]
                if not name.endswith("unchecked"):
                    for s in E.assume(o.st, ge(i, L)):
                        self.opt(r, s, v, False)
                    sts = [(s, v[3][0]) for s in E.assume(o.st, lt(i, L)) if self.opt(r, s, v, True)]
                for s, x in sts:
                    bit = P(i.addc(1)).sub(P(i))
                    if x[0] == "bool":
                        self.boolean(r, s, "the bit at the position", x, eq(bit, K(1)))
                    else:
                        r.prove("the bit at the position", s, eq(x[1], bit))

    def opt(self, r, st, v, want):
        what = "a bit is returned" if want else "nothing is returned behind the end"
        if v[0] != "agg":
            raise Giveup("shape of the result")
        if (v[2] == 1) == want:
            r.res(what, "proved")
            return True
        if not r.E.dead(st):
            r.fail(what, st)
        return False

    def boolean(self, r, st, what, v, want):
        c = r.E.tobool(v)
        for s in r.E.assume(st, c):
            r.prove(what, s, want)
        for s in r.E.assume(st, cnot(c)):
            r.prove(what, s, cnot(want))

    # ------------------------------------------------------------------ construction
    def capture(self, E):
        """the slice handed to the Elias-Fano constructor is kept in the value it returns"""
        k0 = self.ctx.p.find(EF + "::from_slice")
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            name = callee.get("rpath", callee["path"])
            if callee.get("inst") == k0 or name == k0:
                return [Outcome("ret", st, ("sym", ("ef", E.snap(st, args[0])), dty))]
            if name.endswith("::windows") or name.endswith("::is_sorted"):
                return [Outcome("ret", st, ("sym", ("asserted",), dty))] if E.T[dty]["k"] == "adt" else [Outcome("ret", st, ("bool", True))]
            if name.endswith("Iterator>::all") or name.endswith("Iterator::all"):
                # the documented precondition of the constructor
                a = E.read(st, args[0][1], args[0][2]) if args[0][0] == "ref" else args[0]
                if a[0] == "sym" and a[1] == ("asserted",):
                    return [Outcome("ret", st, ("bool", True))]
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        E.on_call = on_call

    def made(self, r, v):
        fs = {x["n"]: i for i, x in enumerate(r.E.T[v[1]]["variants"][0]["f"])}
        e = v[3][fs["vec"]]
        if e[0] != "sym" or e[1][0] != "ef":
            raise Giveup("the positions are not stored by the Elias-Fano constructor")
        return e[1][1], v[3][fs["len"]][1]

    def new(self, key):
        E = self.engine()
        self.capture(E)
        r = Run(self.ctx, key, E=E)
        r.no_panic()
        for o in r.rets():
            src, L = self.made(r, o.val)
            r.prove("the length is kept", o.st, eq(L, r.int(1)))
            if src != E.snap(r.st0, r.args[0]):
                raise Giveup("positions are changed before they are stored")
            r.res("stores the given positions", "proved")

    def from_bits(self, key, want):
        E = self.engine()
        self.capture(E)
        inner = E.on_call
        box = {"n": 0}
        i = atom(("ghost", "i"), 0, 1 << 62)
        b = atom(("ghost", "bit"), 0, 1)

        def item(E, st, v, depth, body, line):
            """what the adapter chain makes of the i-th bit b: [(state, item or None)]"""
            if v[0] == "iter":
                kind, f = v[1], v[2]
                if kind == "enumerate" and f[1] == ("int", K(0)):
                    return [(s, x if x is None else ("agg", None, 0, (("int", i), x))) for s, x in item(E, st, f[0], depth, body, line)]
                if kind in ("filter", "map"):
                    out = []
                    for s, x in item(E, st, f[0], depth, body, line):
                        if x is None:
                            out.append((s, x))
                            continue
                        a = x
                        if kind == "filter":
                            root = ("C", E.freshterm("fi"))
                            s = s.copy()
                            s.mem[root] = x
                            a = ("ref", root, ())
                        for s2, clo, val in call_clo(E, s, f[1], [a], depth, body, line):
                            if clo is None:
                                raise Giveup("the closure may panic")
                            if kind == "map":
                                out.append((s2, val))
                            else:
                                c = E.tobool(val)
                                out += [(s3, x) for s3 in E.assume(s2, c)] + [(s3, None) for s3 in E.assume(s2, cnot(c))]
                    return out
                raise Giveup("adapter " + kind)
            if v == ("sym", ("bits",), v[-1]):
                return [(st, ("int", b))]
            raise Giveup("source of the positions")

        it0 = self.ctx.p.find(BV + "::iter")

        def on_call(E, st, callee, args, dty, depth, body, line):
            name = callee.get("rpath", callee["path"])
            if it0 in (callee.get("inst"), name):
                if args[0] != r0.get("arg"):
                    raise Giveup("another vector is iterated")
                return [Outcome("ret", st, ("sym", ("bits",), dty))]
            if callee["path"].endswith("Iterator::enumerate") and args[0][0] == "sym":
                return [Outcome("ret", st, ("iter", "enumerate", (args[0], ("int", K(0)))))]
            if callee["path"].endswith("Iterator::collect") and args[0][0] == "iter":
                box["n"] += 1
                box["items"] = item(E, st, args[0], depth, body, line)
                return [Outcome("ret", st, ("vec", E.T[dty]["args"][0], atom(("ghost", "count"), 0, 1 << 62), ("init", ("chosen",))))]
            return inner(E, st, callee, args, dty, depth, body, line)

        E.on_call = on_call
        r0 = {}

        def pre(r):
            r0["arg"] = r.args[0]
            return []

        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        if box["n"] != 1:
            raise Giveup("positions collected %d times" % box["n"])
        _, _, l = self.b.parts(r.pointee(0))
        for s, x in box["items"]:
            if x is None:
                r.prove("every bit of the kind is stored", s, eq(b, K(1 - want)))
            else:
                r.prove("only bits of the kind are stored", s, eq(b, K(want)))
                r.prove("the position of the bit is stored", s, eq(x[1], i))
        for o in r.rets():
            src, L = self.made(r, o.val)
            r.prove("the length is kept", o.st, eq(L, l))
            if "chosen" not in repr(src):
                raise Giveup("the collected positions are not the ones stored")
            r.res("stores the collected positions", "proved")
