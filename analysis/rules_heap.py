"""heap_size must account for every buffer the value owns: the expected sum is derived from the type definition."""
from lin import *
from eng import Giveup, prim
from contracts import Run, Rules, Result
from rules_bitvec import BitVecRules, setup, ge, lt, eq
from rules_rsvec import setup_rs, RS

TYPES = ["bit_vec::BitVec", "bit_vec::fast_rs_vec::RsVec", "bit_vec::sparse::SparseRSVec", "elias_fano::EliasFanoVec", "rmq::binary_rmq::BinaryRmq",
         "rmq::fast_rmq::FastRmq", "wavelet::WaveletMatrix", "trees::bp::BpTree"]


class HeapRules(BitVecRules):
    prefix = ""
    keys = {}

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)
        self.s = setup_rs(ctx.p)

    @staticmethod
    def names():
        return TYPES

    def run(self, name, fn=None):
        p = self.ctx.p
        key = [k for k in p.bodies if k.startswith(name) and k.endswith("::heap_size") and "{" not in k]
        if len(key) != 1:
            self.ctx.results.append(Result(name + "::heap_size", "the function exists", "unknown", "%d candidates" % len(key)))
            return
        Rules.run(self, key[0], self.heap)

    def key(self, name):
        return name

    def size(self, ty):
        return self.ctx.p.types[ty].get("size")

    def owned(self, E, v):
        """bytes in buffers owned by v"""
        if v[0] == "sym":
            v = E.sym_struct(v[1], v[2])
        if v[0] in ("int", "bool", "float"):
            return K(0)
        if v[0] == "vec":
            n = self.size(v[1])
            if n is None:
                raise Giveup("size of " + self.ctx.p.types[v[1]]["s"])
            if self.owns(v[1]):
                self.nests = True
                return v[2].scale(n).add(self.S(v[2]))
            return v[2].scale(n)
        if v[0] == "agg":
            t = K(0)
            for x in v[3]:
                t = t.add(self.owned(E, x))
            return t
        raise Giveup("value of kind " + v[0])

    def owns(self, ty, seen=()):
        t = self.ctx.p.types[ty]
        if t["k"] == "adt":
            if t.get("path") in ("std::vec::Vec", "std::boxed::Box", "alloc::vec::Vec", "alloc::boxed::Box"):
                return True
            return any(self.owns(f["t"]) for v in t["variants"] for f in v["f"])
        return False

    def nested(self, E, r):
        """one vector of buffer-owning elements: their sizes are summed by a ghost prefix sum"""
        p = self.ctx.p

        def S(i):
            c = i.const()
            return K(0) if c == 0 else E.uf("hsum", (i,), 0, 1 << 60)

        def H(i):
            return E.uf("hel", (i,), 0, 1 << 58)

        def axioms(E, st, atoms, query):
            out = []
            for a in atoms:
                k = AT.key[a]
                if k[0] == "hsum" and k[1].const() == 0:
                    out.append(eq(Lin(0, ((a, 1),)), K(0)))
                if k[0] == "hel":
                    out.append(eq(S(k[1].addc(1)), S(k[1]).add(Lin(0, ((a, 1),)))))
            return [f for f in map(prim, out) if f is not True]

        def cands(E, entry, Hs, mapping):
            xs = [E.get_leaf(Hs, l)[1] for l, (c, v) in mapping.items() if v[0] == "int" and c[0] == "int"]
            ns = list(self.lens)
            out = []
            for x in xs:
                for y in xs:
                    if y is not x:
                        out.append(eq(x, S(y)))
                        out += [eq(x, S(n.sub(y))) for n in ns]
            return out

        E.ghosts["hsum"] = lambda E, key, sub, cmap: S(E.subst_atoms(key[1], sub, cmap))
        E.ghosts["hel"] = lambda E, key, sub, cmap: H(E.subst_atoms(key[1], sub, cmap))
        E.CONG = dict(E.CONG, hsum=(1,), hel=(1,))
        E.axioms = list(E.axioms) + [axioms]
        E.loop_cands = [cands]
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            path = callee.get("rpath", callee["path"])
            if path.endswith("::heap_size") and args and args[0][0] == "ref" and args[0][2]:
                pr = args[0][2][-1]
                if pr[0] == "i" and isinstance(pr[1], Lin):
                    from eng import Outcome

                    return [Outcome("ret", st, ("int", H(pr[1])))]
                if self.ctx.debug:
                    print("heap_size of", args[0])
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        E.on_call = on_call
        self.S, self.H, self.nests = S, H, False

    def heap(self, key):
        E = BitVecRules.engine(self)
        # sizes only: the bit counts of the type invariants do not matter here
        E.struct_inv = dict(E.struct_inv)
        E.struct_inv[RS] = lambda E, v: self.s.sizes(v)
        self.lens = []
        self.nested(E, None)

        def pre(r):
            v = r.pointee(0)
            if v[0] == "sym":
                v = E.sym_struct(v[1], v[2])
            self.lens = [x[2] for x in v[3] if x[0] == "vec"]
            return []

        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        want = self.owned(E, r.pointee(0))
        n = [x for x in self.lens if self.nests]
        if self.ctx.peel and n:
            # exact loops: the ghost sum is spelled out for vectors of up to three elements
            for o in r.rets():
                for c in range(4):
                    for s in E.assume(o.st, eq(n[0], K(c))):
                        w = want.sub(self.S(n[0]))
                        for i in range(c):
                            w = w.add(self.H(K(i)))
                        r.prove("every owned buffer is counted, and nothing else", s, eq(o.val[1], w))
            return
        for o in r.rets():
            r.prove("every owned buffer is counted, and nothing else", o.st, eq(o.val[1], want))
