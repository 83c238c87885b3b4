"""Contracts of the iterators that walk a vector by position: an iterator is the range [i, j) of positions not yet
yielded, every method is decided against that range, the vector's own accessors stand for their contracts."""
from lin import *
from eng import Giveup, cnot, cand, cor, prim, Outcome
from contracts import Run, Rules, Result
from models import none, some
from rules_bitvec import BitVecRules, setup, ge, lt, eq, BV
from rules_rsvec import setup_rs, RS

WM = "wavelet::WaveletMatrix"

# iterator type -> (vector type, checked getter, unchecked getter)
ITERS = {
    "bit_vec::BitVecIter": (BV, "get", "get_unchecked"),
    "bit_vec::BitVecRefIter<'_>": (BV, "get", "get_unchecked"),
    "bit_vec::fast_rs_vec::RsVecIter": (RS, "get", "get_unchecked"),
    "bit_vec::fast_rs_vec::RsVecRefIter<'_>": (RS, "get", "get_unchecked"),
    "wavelet::WaveletIter": (WM, "get_value", "get_value_unchecked"),
    "wavelet::WaveletRefIter<'_>": (WM, "get_value", "get_value_unchecked"),
    "wavelet::WaveletNumIter": (WM, "get_u64", "get_u64_unchecked"),
    "wavelet::WaveletNumRefIter<'_>": (WM, "get_u64", "get_u64_unchecked"),
    "wavelet::WaveletSortedIter": (WM, "get_sorted", "get_sorted_unchecked"),
    "wavelet::WaveletSortedRefIter<'_>": (WM, "get_sorted", "get_sorted_unchecked"),
    "wavelet::WaveletSortedNumIter": (WM, "get_sorted_u64", "get_sorted_u64_unchecked"),
    "wavelet::WaveletSortedNumRefIter<'_>": (WM, "get_sorted_u64", "get_sorted_u64_unchecked"),
}

TRAIT = {
    "next": "std::iter::Iterator",
    "nth": "std::iter::Iterator",
    "size_hint": "std::iter::Iterator",
    "count": "std::iter::Iterator",
    "last": "std::iter::Iterator",
    "len": "std::iter::ExactSizeIterator",
    "next_back": "std::iter::DoubleEndedIterator",
    "nth_back": "std::iter::DoubleEndedIterator",
}
REQUIRED = {"next", "next_back"}
METHODS = list(TRAIT)


def item(i):
    return ("item", i)


class IterRules(BitVecRules):
    """names are <iterator type>|<method>"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)
        self.s = setup_rs(ctx.p)

    @staticmethod
    def names(types=None):
        return ["%s|%s" % (t, m) for t in (types or ITERS) for m in METHODS]

    def key(self, name):
        t, m = name.split("|")
        return "<%s as %s>::%s" % (t, TRAIT[m], m)

    def run(self, name, fn=None):
        t, m = name.split("|")
        if self.ctx.p.find(self.key(name)) is None and m not in REQUIRED:
            # the standard library's default, which is defined by the required methods
            self.ctx.results.append(Result(self.key(name), "default method of the standard library", "proved"))
            return
        Rules.run(self, name, lambda key: self.method(key, t, m))

    def engine(self, vec):
        E = BitVecRules.engine(self)
        _, get, getu = vec
        n = atom(("veclen",), 0, 1 << 62)
        E.veclen = n
        E.bad_unchecked = []
        p = self.ctx.p
        names = {}
        for f in ("len", "is_empty", get, getu):
            k = p.find(vec[0] + "::" + f)
            if k:
                names[k] = f
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            k = names.get(callee.get("inst")) or names.get(callee.get("rpath", callee["path"]))
            if k is None:
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            if k == "len":
                return [Outcome("ret", st, ("int", n))]
            if k == "is_empty":
                return [Outcome("ret", st, ("bool", eq(n, K(0)) if False else ("eq", n)))]
            i = args[1][1]
            if k == get:
                oty = [a for a in E.T[dty]["args"]][0]
                out = []
                for s in E.assume(st, lt(i, n)):
                    out.append(Outcome("ret", s, some(dty, self.item(E, i, oty))))
                for s in E.assume(st, ge(i, n)):
                    out.append(Outcome("ret", s, none(dty)))
                return out
            out = [Outcome("panic", s, None, ("unchecked read behind the end", E.site(body, line))) for s in E.assume(st, ge(i, n))]
            out += [Outcome("ret", s, self.item(E, i, dty)) for s in E.assume(st, lt(i, n))]
            return out

        E.on_call = on_call
        return E

    def item(self, E, i, ty):
        if E.is_int(ty):
            return E.sym(item(i), ty)
        return ("sym", item(i), ty)

    # ------------------------------------------------------------------
    def layout(self, ty):
        p = self.ctx.p
        t = p.types[ty]
        f = {x["n"]: i for i, x in enumerate(t["variants"][0]["f"])}
        for n in ("index", "back_index"):
            if n not in f:
                raise Giveup("iterator without field " + n)
        return f["index"], f["back_index"], t["variants"][0]["f"][f["back_index"]]["t"]

    def view(self, v, lay):
        """remaining range of an iterator value, None if it is not in a known shape"""
        i = v[3][lay[0]]
        b = v[3][lay[1]]
        if b[0] != "agg":
            raise Giveup("shape of the back cursor")
        return i[1], (K(0) if b[2] == 0 else b[3][0][1].addc(1))

    def method(self, key, tname, m):
        body = self.ctx.body(key)
        a1 = self.ctx.p.types[body.locals[1]]
        ty = a1["to"] if a1["k"] == "ref" else body.locals[1]
        lay = self.layout(ty)
        for case in ("some", "none"):
            E = self.engine(ITERS[tname])
            base = E.sym_struct(("self",), ty)
            n = E.veclen
            idx = base[3][lay[0]][1]
            b = atom(("back",), 0, (1 << 64) - 1)
            bi = none(lay[2]) if case == "none" else some(lay[2], ("int", b))
            fs = list(base[3])
            fs[lay[1]] = bi
            val = base[:3] + (tuple(fs),)
            i, j = self.view(val, lay)
            root = ("O", ("arg", 0))
            E.root_ty[root] = ty
            byref = a1["k"] == "ref"

            def pre(r):
                if byref:
                    r.st0.mem[root] = val
                return [ge(j, i), ge(n, j)]

            r = Run(self.ctx, key, E=E, pre=pre, args={0: ("ref", root, ()) if byref else val})
            r.no_panic()
            rem = j.sub(i)
            for o in r.rets():
                self.decide(r, o, m, i, j, rem, lambda: self.view(E.read(o.st, root, ()), lay))

    def is_item(self, r, st, what, v, pos):
        if v[0] == "int" and len(v[1].t) == 1 and v[1].c == 0 and v[1].t[0][1] == 1:
            k = AT.key[v[1].t[0][0]]
        elif v[0] == "sym":
            k = v[1]
        else:
            k = None
        if k is None or k[0] != "item":
            r.fail(what, st)
            return
        r.prove(what, st, eq(k[1], pos))

    def range_is(self, r, st, what, got, i, j):
        """the remaining range is [i, j)"""
        gi, gj = got
        for s in r.E.assume(st, lt(i, j)):
            r.prove(what, s, eq(gi, i))
            r.prove(what, s, eq(gj, j))
        for s in r.E.assume(st, ge(i, j)):
            self.exhausted(r, s, got)

    def exhausted(self, r, st, got):
        """the cursors meet; if they do not, the iterator may still behave as exhausted, which its own methods tell"""
        what = "an exhausted iterator stays exhausted"
        gi, gj = got
        E = r.E
        if E.entails(st, eq(gi, gj)):
            r.res(what, "proved")
            return
        if r.args[0][0] != "ref":
            return r.prove(what, st, eq(gi, gj))
        t = r.key.split(" as ")[0][1:]
        for m in ("len", "next", "next_back"):
            b = self.ctx.body("<%s as %s>::%s" % (t, TRAIT[m], m))
            if b is None:
                continue
            for o in E.call_body(st, b, [r.args[0]], 0):
                if o.kind != "ret":
                    r.fail(what + ": %s panics" % m, o.st)
                elif m == "len":
                    r.prove(what + ": no element remains", o.st, eq(o.val[1], K(0)))
                else:
                    self.opt(r, o.st, o.val, False)

    def decide(self, r, o, m, i, j, rem, post):
        E = r.E
        v = o.val
        if m in ("next", "next_back", "nth", "nth_back"):
            n = K(0) if m.startswith("next") else r.int(1)
            back = m.endswith("back")
            for s in E.assume(o.st, lt(n, rem)):
                if not self.opt(r, s, v, True):
                    continue
                self.is_item(r, s, "yields the right element", v[3][0], j.sub(n).addc(-1) if back else i.add(n))
                self.range_is(r, s, "leaves exactly the following elements", post(), i if back else i.add(n).addc(1), j.sub(n).addc(-1) if back else j)
            for s in E.assume(o.st, ge(n, rem)):
                if not self.opt(r, s, v, False):
                    continue
                self.exhausted(r, s, post())
        elif m == "len" or m == "count":
            r.prove("number of remaining elements", o.st, eq(v[1], rem))
        elif m == "size_hint":
            r.prove("lower bound is exact", o.st, eq(v[3][0][1], rem))
            if self.opt(r, o.st, v[3][1], True):
                r.prove("upper bound is exact", o.st, eq(v[3][1][3][0][1], rem))
        elif m == "last":
            for s in E.assume(o.st, lt(K(0), rem)):
                if self.opt(r, s, v, True):
                    self.is_item(r, s, "last remaining element", v[3][0], j.addc(-1))
            for s in E.assume(o.st, ge(K(0), rem)):
                self.opt(r, s, v, False)

    def opt(self, r, st, v, want):
        what = "an element is returned" if want else "nothing is returned"
        if v[0] != "agg":
            raise Giveup("shape of the result")
        if (v[2] == 1) == want:
            r.res(what, "proved")
            return True
        if not r.E.dead(st):
            r.fail(what, st)
        return False


CTORS = {}
for _t, _n in ((BV, "BitVec"), (RS, "RsVec"), (WM, "Wavelet")):
    for _k in ("%s::iter" % _t, "<%s as std::iter::IntoIterator>::into_iter" % _t, "<&%s as std::iter::IntoIterator>::into_iter" % _t, "<&mut %s as std::iter::IntoIterator>::into_iter" % _t):
        CTORS[_k] = _t
for _f in ("iter_u64", "into_iter_u64", "iter_sorted", "into_iter_sorted", "iter_sorted_u64", "into_iter_sorted_u64"):
    CTORS[WM + "::" + _f] = WM


class IterCtorRules(IterRules):
    """a new iterator covers the whole vector"""

    @staticmethod
    def names(types=None):
        return list(CTORS)

    def key(self, name):
        return name

    def run(self, name, fn=None):
        Rules.run(self, name, lambda key: self.ctor(key, CTORS[name]))

    def ctor(self, key, vty):
        E = self.engine((vty, "get", "get_unchecked"))
        r = Run(self.ctx, key, E=E)
        r.no_panic()
        for o in r.rets():
            v = o.val
            if E.T[v[1]].get("path", "") == "std::option::Option":
                if v[2] == 0:
                    continue
                v = v[3][0]
            i, j = self.view(v, self.layout(v[1]))
            self.range_is(r, o.st, "a new iterator covers the whole vector", (i, j), K(0), E.veclen)
