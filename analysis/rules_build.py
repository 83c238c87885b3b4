"""Construction of the compressed structures. A constructor is analysed for an arbitrary input; what its loops do to the bit
vectors is counted (the how many-th bit is set, the how many-th word is appended), and each such step is compared with the
element it has to stand for. The layout is private: a step that is not proved only leads to a search for a constant input
for which a public query goes wrong."""
from lin import *
from eng import Giveup, prim, Outcome
from contracts import Run, Rules, Result, Ctx
from models import none, some
from rules_bitvec import BitVecRules, setup, ge, lt, eq, BV
from rules_rsvec import RS
from rules_ef import EF, width

W = (1 << 64) - 1
SIZE = 1 << 58
FLIPS, WORDS = ("G", "flips"), ("G", "words")


# ---------------------------------------------------------------------- constants
def bits_of(E, st, a):
    """the constant bit string behind an argument, or None"""
    v = E.read(st, a[1], a[2]) if a[0] == "ref" else a
    return v[1][1] if v[0] == "sym" and v[1][0] in ("bits", "rsbits") else None


class ConstBits:
    """bit vectors and rank/select vectors with constant content, by their contracts (P01-P03, P06, P07)"""

    def __init__(self, E, p):
        self.E = E
        self.orig = E.on_call
        self.rs = {p.find(RS + "::" + f) for f in ("select0", "select1", "rank0", "rank1")}
        E.on_call = self.call

    def call(self, E, st, callee, args, dty, depth, body, line):
        path = callee.get("rpath", callee["path"])
        inst = callee.get("inst") or path
        f = path.split("::")[-1]
        who = "b" if inst.startswith(BV + "::") else "r" if inst.startswith(RS + "::") or inst in self.rs or path in self.rs else None
        if who is None:
            if f in ("from", "into") and args and bits_of(E, st, args[0]) is not None and RS in inst:
                return [Outcome("ret", st, ("sym", ("rsbits", bits_of(E, st, args[0])), dty))]
            if f == "clone" and args and bits_of(E, st, args[0]) is not None:
                return [Outcome("ret", st, E.read(st, args[0][1], args[0][2]))]
            return self.orig(E, st, callee, args, dty, depth, body, line) if self.orig else None
        ints = [a[1].const() if a[0] == "int" else int(a[1]) if a[0] == "bool" and isinstance(a[1], bool) else None for a in args]
        ret = lambda v, s=st: [Outcome("ret", s, v)]
        bad = lambda why: [Outcome("panic", st, None, (why, E.site(body, line)))]
        if who == "b" and f in ("new", "with_capacity"):
            return ret(("sym", ("bits", ()), dty))
        if who == "b" and f in ("from_zeros", "from_ones"):
            if ints[0] is None or ints[0] > 1 << 20:
                raise Giveup("length")
            return ret(("sym", ("bits", (int(f == "from_ones"),) * ints[0]), dty))
        if f == "from_bit_vec" and who == "r":
            b = bits_of(E, st, args[0])
            if b is None:
                raise Giveup("bits are not constant")
            return ret(("sym", ("rsbits", b), dty))
        b = bits_of(E, st, args[0]) if args else None
        if b is None:
            raise Giveup("call of " + f)
        n = len(b)
        un = f.endswith("unchecked")
        g = f[:-10] if un else f

        def write(nb, val=None):
            s = st.copy()
            a = args[0]
            old = E.read(s, a[1], a[2])
            E.write(s, a[1], a[2], ("sym", ("bits", tuple(nb)), old[2]))
            return ret(("agg", dty, 0, ()) if val is None else val, s)

        if g == "len":
            return ret(("int", K(n)))
        if g == "is_empty":
            return ret(("bool", n == 0))
        if g == "count_ones":
            return ret(("int", K(sum(b))))
        if g == "count_zeros":
            return ret(("int", K(n - sum(b))))
        if any(x is None for x in ints[1:]):
            raise Giveup("arguments of " + f)
        x = ints[1] if len(ints) > 1 else None
        if g == "append_bits" and len(ints) == 3:
            return write(b + tuple(x >> k & 1 for k in range(ints[2])))
        if g in ("append_bit", "append"):
            return write(b + (x & 1,))
        if g == "append_word":
            return write(b + tuple(x >> k & 1 for k in range(64)))
        if g in ("get", "is_bit_set"):
            if x >= n:
                if un and x < (n + 63) // 64 * 64:
                    raise Giveup("unspecified bit")
                return bad("bit read behind the end") if un else ret(none(dty))
            v = ("bool", bool(b[x])) if g == "is_bit_set" else ("int", K(b[x]))
            return ret(v if un else some(dty, v))
        if g in ("get_bits", "unpack_element"):
            w = ints[2]
            at = x if g == "get_bits" else x * w
            if at + w > n or w > 64 or w == 0 and not un:
                if un and at + w <= (n + 63) // 64 * 64:
                    raise Giveup("unspecified bits")
                return bad("bits read behind the end") if un else ret(none(dty))
            v = ("int", K(sum(b[at + k] << k for k in range(w))))
            return ret(v if un else some(dty, v))
        if g == "rank1":
            return ret(("int", K(sum(b[:x]))))
        if g == "rank0":
            return ret(("int", K(min(x, n) - sum(b[:x]))))
        if g in ("select0", "select1"):
            ps = [k for k, y in enumerate(b) if y == int(g[-1])]
            return ret(("int", K(ps[x] if x < len(ps) else n)))
        if un and g in ("flip_bit", "set"):
            if x >= n:
                if x < (n + 63) // 64 * 64:
                    raise Giveup("unspecified bit")
                return bad("bit changed behind the end")
            return write(b[:x] + ((1 - b[x] if g == "flip_bit" else ints[2] & 1),) + b[x + 1:])
        if g == "flip_bit":
            if x >= n:
                return bad("bit changed behind the end")
            return write(b[:x] + (1 - b[x],) + b[x + 1:])
        raise Giveup("call of " + f)


class BuildRules(BitVecRules):
    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    def guarded(self, key, proof, confirm):
        ctx = self.ctx
        if ctx.name == "all-features":
            return  # the same code as in the other configuration
        key = ctx.p.find(key)
        if key is None:
            return
        n0 = len(ctx.results)
        self.once(proof, key)
        mine = ctx.results[n0:]
        for r in mine:
            if r.status == "refuted":
                r.status = "weak"
        if mine and all(r.status == "proved" for r in mine):
            return
        n1 = len(ctx.results)
        st = dict(ctx.stats)
        self.once(confirm, key, 240)
        ctx.stats.update(st)
        self.conf = ctx.results[n1:]
        conf = [r for r in ctx.results[n1:] if r.status == "refuted"]
        del ctx.results[n1:]
        if conf:
            ctx.results[n0:] = [r for r in mine if r.status == "proved"] + conf


# ---------------------------------------------------------------------- Elias-Fano
def ef_sequences():
    yield [0]
    yield [17]
    yield [5, 5]
    yield [0, W]
    yield [3, 3, 3, 3, 3, 3, 3]
    yield list(range(40))
    yield [0, 1, 1000, 1001, 5000, 5000, 70000, 70001]
    yield [1 << 40, (1 << 40) + 5, (1 << 40) + 6, (1 << 41)]
    yield [7 * k * k + 3 for k in range(30)]
    yield [0, 1 << 62, 1 << 63, W - 1, W]
    yield [k * 64 for k in range(17)]
    yield [0] * 9 + [1] * 8 + [200] * 3
    yield [(1 << 63) + k // 2 for k in range(33)]
    yield [k * k * k for k in range(64)] + [1 << 33]
    # upper vectors that end with a word, in front of or behind the last zero
    for end in (63, 64, 65, 128):
        found = 0
        for n in range(2, end):
            for bound in range(1, 4 * end):
                if found < 2 and 2 + n + (bound >> width(n, bound)) == end:
                    found += 1
                    yield [bound * k // (n - 1) for k in range(n)]


class EfBuildRules(BuildRules):
    @staticmethod
    def names():
        return ["from_slice"]

    def run(self, name, fn=None):
        self.guarded(EF + "::" + name, self.proof, self.confirm)

    def proof(self, key):
        E = self.engine()
        E.struct_inv = {}
        E.clog = lambda x: E.uf("clog", (x,), 0, 64)
        box = {"masks": {}}
        orig = E.on_call
        busy = []

        def V(st, k):
            return E.elem(st, box["data"], box["off"].add(k))[1]

        def hi(x, w):
            return E.uf("efhi", (x, w), 0, W)

        def lo(x, w):
            return E.uf("eflo", (x, w), 0, W)

        def word_op(nm, old, st, a, b, bits):
            if bits == 64 and nm == "shr" and b.t:
                return hi(a, b)
            if bits == 64 and nm == "shl" and a.const() == 1 and b.t:
                r = old(st, a, b, bits)
                box["masks"][r] = b
                return r
            if bits == 64 and nm == "band":
                for x, y in ((a, b), (b, a)):
                    if y.addc(1) in box["masks"]:
                        return lo(x, box["masks"][y.addc(1)])
            return old(st, a, b, bits)

        for nm in ("shl", "shr", "band"):
            setattr(E, nm, lambda st, a, b, bits, nm=nm, old=getattr(E, nm): word_op(nm, old, st, a, b, bits))

        names = {}
        for f in ("from_zeros", "with_capacity", "new", "flip_bit_unchecked", "flip_bit", "set_unchecked", "append_bits_unchecked", "append_bits"):
            k = self.ctx.p.find(BV + "::" + f)
            if k:
                names[k] = f
        k = self.ctx.p.find(RS + "::from_bit_vec")
        names[k] = "from_bit_vec"

        def which(st, a):
            v = E.read(st, a[1], a[2]) if a[0] == "ref" else a
            return v[1] if v[0] == "sym" else None

        def check(what, st, f):
            if not E.loop_quiet:
                box.setdefault("todo", []).append((what, st, f))

        def on_call(E, st, callee, args, dty, depth, body, line):
            f = names.get(callee.get("inst")) or names.get(callee.get("rpath", callee["path"]))
            if f is None:
                return orig(E, st, callee, args, dty, depth, body, line) if orig else None
            if f == "from_zeros":
                if FLIPS in st.mem:
                    raise Giveup("two vectors of zeros")
                s = st.copy()
                s.mem[FLIPS] = ("int", K(0))
                s.mem[("G", "ulen")] = args[0]
                up = [AT.key[a] for a, c in args[0][1].t if AT.key[a][0] == "efhi"]
                if len(up) != 1:
                    raise Giveup("length of the upper vector")
                s.mem[("G", "width")] = ("int", up[0][2])
                return [Outcome("ret", s, ("sym", ("upper",), dty))]
            if f in ("with_capacity", "new"):
                s = st.copy()
                if "data" in box and E.entails(st, ge(box["n"], K(1))):
                    if WORDS in st.mem:
                        raise Giveup("two growing vectors")
                    s.mem[WORDS] = ("int", K(0))
                return [Outcome("ret", s, ("sym", ("lower",), dty))]
            if f == "from_bit_vec":
                w = which(st, args[0])
                if w not in (("upper",), ("lower",)):
                    raise Giveup("rank/select vector over something else")
                return [Outcome("ret", st, ("sym", ("rs",) + w, dty))]
            if f in ("flip_bit_unchecked", "flip_bit", "set_unchecked"):
                if which(st, args[0]) != ("upper",) or f == "set_unchecked" and args[2] != ("int", K(1)):
                    raise Giveup("other bits are changed")
                i = st.mem[FLIPS][1]
                x = args[1][1]
                up = [AT.key[a] for a, c in x.t if AT.key[a][0] == "efhi"]
                check("a bit is set for an element", st, lt(i, box["n"]))
                if len(up) == 1:
                    check("the upper parts begin at the same bit", st, eq(up[0][2], st.mem[("G", "width")][1]))
                    check("the bit stands for the upper part of its element", st, eq(x, hi(V(st, i).sub(V(st, K(0))), up[0][2]).add(i).addc(1)))
                else:
                    check("the bit stands for the upper part of its element", st, ("ge", K(-1)))
                check("the bit lies inside the vector", st, lt(x, st.mem[("G", "ulen")][1]))
                s = st.copy()
                s.mem[FLIPS] = ("int", i.addc(1))
                return [Outcome("ret", s, ("agg", dty, 0, ()))]
            if f in ("append_bits_unchecked", "append_bits"):
                if which(st, args[0]) != ("lower",):
                    raise Giveup("bits are appended elsewhere")
                i = st.mem[WORDS][1]
                x, w = args[1][1], args[2][1]
                check("the lower parts end at the same bit", st, eq(w, st.mem[("G", "width")][1]))
                check("a word is appended for an element", st, lt(i, box["n"]))
                check("the word is the lower part of its element", st, eq(x, lo(V(st, i).sub(V(st, K(0))), w)))
                s = st.copy()
                s.mem[WORDS] = ("int", i.addc(1))
                return [Outcome("ret", s, ("agg", dty, 0, ()))]

        E.on_call = on_call

        def axioms(E, st, atoms, query):
            if busy or "n" not in box:
                return []
            elts = [a for a in sorted(atoms) if AT.key[a][0] == "elt" and AT.key[a][1] == box["data"][3]]
            his = [AT.key[a] for a in sorted(atoms) if AT.key[a][0] == "efhi"]
            cl = [AT.key[a] for a in sorted(atoms) if AT.key[a][0] == "clog"]
            na = box["n"].t[0][0] if box["n"].t else None
            ms = []
            for a in sorted(atoms):
                k = AT.key[a]
                if k[0] == "mono" and len(k[1]) == 2 and na in k[1]:
                    c = list(k[1])
                    c.remove(na)
                    if AT.key[c[0]][0] == "clog":
                        ms.append((Lin(0, ((c[0], 1),)), Lin(0, ((a, 1),))))
            if not elts and not his and not cl and not ms:
                return []
            busy.append(1)
            try:
                out = []
                n, off = box["n"], box["off"]
                v0, v1 = V(st, K(0)), V(st, n.addc(-1))
                for h in his:
                    out += [ge(K(SIZE), hi(h[1], h[2]).add(n))]
                for a in elts:
                    out += [ge(Lin(0, ((a, 1),)), v0), ge(v1, Lin(0, ((a, 1),)))]
                    for b in elts:
                        d = AT.key[b][2].sub(AT.key[a][2]).const()
                        if d is not None and d > 0:
                            out.append(ge(Lin(0, ((b, 1),)), Lin(0, ((a, 1),))))
                for h in his:
                    for g in his:
                        if h is not g and h[2] == g[2] and v1.sub(v0) == g[1]:
                            out.append(ge(hi(*g[1:]), hi(*h[1:])))
                base, _ = E.closure(st, [f for f in query if f[0] != "ne"] + [("ge", k[1].addc(1 << 100)) for k in cl if k[1].t], False)
                if base is None:
                    return [("ge", K(-1))]

                def yes(f):
                    f = prim(f)
                    return f if isinstance(f, bool) else all(infeasible(base + [g]) for g in negate(f))

                for c, m in ms:
                    out += [ge(m, K(0)), ge(n.scale(64), m)]
                    if yes(ge(c, K(1))):
                        out.append(ge(m, n))
                    for c2, m2 in ms:
                        if c2 is not c and yes(ge(c, c2)):
                            out.append(ge(m, m2))
                for k in cl:
                    if yes(ge(k[1], K(2))):
                        out.append(ge(E.clog(k[1]), K(1)))
                    for h in cl:
                        if h is not k and yes(ge(k[1], h[1])):
                            out.append(ge(E.clog(k[1]), E.clog(h[1])))
                return [f for f in map(prim, out) if f is not True]
            finally:
                busy.pop()

        E.axioms = list(E.axioms) + [axioms]
        E.CONG = dict(E.CONG, efhi=(1, 2), eflo=(1, 2), clog=(1,))
        for nm, g in (("efhi", hi), ("eflo", lo)):
            E.ghosts[nm] = lambda E, k, sub, cmap, g=g: g(E.subst_atoms(k[1], sub, cmap), E.subst_atoms(k[2], sub, cmap))

        def moved(E, k, sub, cmap):
            if "data" not in box or k[1] != box["data"][3]:
                return atom(k, None, None)
            return atom((k[0], k[1], E.subst_atoms(k[2], sub, cmap)), 0, W)

        E.ghosts["elt"] = moved

        def cands(E, entry, H, mapping):
            ls = [E.get_leaf(H, l)[1] for l, (c, v) in mapping.items() if v[0] == "int" and c[0] == "int"]
            ls += [H.mem[g][1] for g in (FLIPS, WORDS) if g in H.mem]
            out = []
            for k, x in enumerate(ls):
                out += [ge(box["n"], x)]
                for y in ls[:k]:
                    out += [eq(x, y)]
            return out

        E.loop_cands = [cands]

        def pre(r):
            a = r.args[0]
            if a[0] != "slice":
                raise Giveup("data")
            box["data"] = E.read(r.st0, a[1], a[2])
            box["off"], box["n"] = a[3], a[4]
            n = box["n"]
            return [ge(K(SIZE), n), ge(K(1 << 59), n.scale(64))]

        r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        for what, st, f in box.get("todo", ()):
            if f == ("ge", K(-1)):
                r.res(what, "unknown")
            else:
                r.prove(what, st, f)
        n = box["n"]
        full = 0
        for o in r.rets():
            for case in (0, 1):
                for s in E.assume(o.st, ge(n, K(1)) if case else eq(n, K(0))):
                    v = o.val
                    f = lambda nm: r.field(v, nm)
                    r.prove("the number of elements", s, eq(f("len")[1], n))
                    if not case:
                        for nm in ("universe_zero", "universe_max", "lower_len"):
                            r.prove("an empty vector", s, eq(f(nm)[1], K(0)))
                        continue
                    full += 1
                    r.prove("the smallest element", s, eq(f("universe_zero")[1], V(s, K(0))))
                    r.prove("the largest element", s, eq(f("universe_max")[1], V(s, n.addc(-1))))
                    ok = f("upper_vec")[:2] == ("sym", ("rs", "upper")) and f("lower_vec")[:2] == ("sym", ("lower",))
                    if not ok or FLIPS not in s.mem or WORDS not in s.mem:
                        r.res("the parts are stored", "unknown")
                        continue
                    w = f("lower_len")[1]
                    r.prove("every element has an upper part", s, eq(s.mem[FLIPS][1], n))
                    r.prove("every element has a lower part", s, eq(s.mem[WORDS][1], n))
                    r.prove("the width of the lower parts", s, eq(w, s.mem[("G", "width")][1]))
                    r.prove("the width is less than a word", s, ge(K(63), w))
                    r.prove("the upper vector ends one behind the last part", s, eq(s.mem[("G", "ulen")][1], hi(V(s, n.addc(-1)).sub(V(s, K(0))), w).add(n).addc(2)))
        if not full:
            r.res("the parts are stored", "unknown")

    def confirm(self, key):
        p = self.ctx.p
        ask = {f: p.find(EF + "::" + f) for f in ("get", "predecessor", "successor", "rank", "delta", "len")}
        for d in ef_sequences():
            try:
                if self.confirm1(key, p, ask, d):
                    return
            except Giveup:
                pass

    def confirm1(self, key, p, ask, d):
        E = self.engine()
        E.struct_inv = {}
        E.peel = 500
        E.visit_limit = 10 ** 8
        ConstBits(E, p)

        def pre(r):
            a = r.args[0]
            E.write(r.st0, a[1], a[2], ("vec", E.read(r.st0, a[1], a[2])[1], K(len(d)), ("lit", tuple(("int", K(x)) for x in d))))
            r.args[0] = ("slice", a[1], a[2], K(0), K(len(d)))
            return []

        r = Run(self.ctx, key, E=E, pre=pre)
        r.note = "sequence %s" % d
        r.no_panic()
        rets = r.rets()
        if len(rets) != 1:
            raise Giveup("construction does not follow one path")
        val = rets[0].val
        n = len(d)
        qs = sorted({q for x in d for q in (x - 1, x, x + 1) if 0 <= q <= W} | {0, W})
        if len(qs) > 40:
            qs = qs[:12] + qs[12:-12:3] + qs[-12:]
        for f, k in ask.items():
            if k is None:
                continue
            for q in ([None] if f == "len" else list(range(n + 2)) + [W] if f in ("get", "delta") else qs):
                def pre2(r):
                    a = r.args[0]
                    E.write(r.st0, a[1], a[2], val)
                    if q is not None:
                        r.args[1] = ("int", K(q))
                    return []

                if f == "get":
                    want = d[q] if q < n else None
                elif f == "delta":
                    want = None if q >= n else d[q] - d[q - 1] if q else d[0]
                elif f == "predecessor":
                    want = max([x for x in d if x <= q], default=None)
                elif f == "successor":
                    want = min([x for x in d if x >= q], default=None)
                elif f == "rank":
                    want = sum(1 for x in d if x < q)
                else:
                    want = n
                r = Run(self.ctx, k, E=E, pre=pre2)
                r.note = "argument %s on %s" % (q, d)
                r.no_panic()
                for o in r.rets():
                    v = o.val
                    if v[0] == "agg":
                        if (v[2] == 1) != (want is not None):
                            r.fail("%s answers exactly if there is an answer" % f, o.st)
                            continue
                        if v[2] == 0:
                            continue
                        v = v[3][0]
                    if v[0] != "int" or v[1].const() is None:
                        raise Giveup("answer is not constant")
                    if v[1].const() != want:
                        r.fail("%s gives the element of the sequence" % f, o.st)
        return any(r.status == "refuted" for r in self.ctx.results[-400:])


def ef_layout(cls, prog, cfg):
    """does the constructor still store the elements in the way the queries are judged by?"""
    if cls is EfBuildRules:
        return True
    ctx = Ctx(prog, cfg)
    rules = EfBuildRules(ctx)
    key = prog.find(EF + "::from_slice")
    if key is None:
        return False
    rules.once(rules.proof, key)
    return all(r.status == "proved" for r in ctx.results)
