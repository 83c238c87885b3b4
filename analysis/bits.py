"""Bit-segment domain: a machine word is a sequence of segments [lo, hi) with linear bounds, each taken from a
constant, another word, or a run of the bit string stored in a vector of words.  Used to decide bit-level equalities
for symbolic positions and to relate population counts to prefix counts of the stored bit string."""
from lin import *
from eng import NARROW, Giveup, cnot, cand, cor, prim


def pw(c):
    return c > 0 and c & (c - 1) == 0


class Same:
    """the bits at the same positions of another content"""

    def __init__(self, B, content):
        self.B, self.alias = B, content

    def __call__(self, st, q):
        return self.B.gb(st, self.alias, q)


class Bits:
    def __init__(self, E):
        self.E = E
        self.cfacts_on = True
        self.pcache = {}

    # ---------------------------------------------------------------- helpers
    def cmp(self, st, a, b):
        """list of (state, sign) with a ? b"""
        d = a.sub(b)
        c = d.const()
        if c is not None:
            return [(st, (c > 0) - (c < 0))]
        E = self.E
        res = []
        for s in E.assume(st, ("ge", d)):
            res.append((s, 1))
        for s in E.assume(st, ("ge", d.neg().addc(-1))):
            res.append((s, -1))
        return res

    def minl(self, st, a, b):
        return [(s, b if g >= 0 else a) for s, g in self.cmp(st, a, b)]

    def maxl(self, st, a, b):
        return [(s, a if g >= 0 else b) for s, g in self.cmp(st, a, b)]

    def clip(self, st, pieces, a, b):
        """restrict pieces to [a, b)"""
        out = [(st, [])]
        for lo, hi, src in pieces:
            nxt = []
            for s, acc in out:
                for s1, l in self.maxl(s, lo, a):
                    for s2, h in self.minl(s1, hi, b):
                        d = h.sub(l)
                        if d.const() is not None:
                            if d.c > 0:
                                nxt.append((s2, acc + [(l, h, self.shift(src, l.sub(lo)))]))
                            else:
                                nxt.append((s2, acc))
                        else:
                            for s3 in self.E.assume(s2, ("ge", d.addc(-1))):
                                nxt.append((s3, acc + [(l, h, self.shift(src, l.sub(lo)))]))
                            for s3 in self.E.assume(s2, ("ge", d.neg())):
                                nxt.append((s3, acc))
            out = nxt
        return out

    def shift(self, src, d):
        k = src[0]
        if k in ("z", "o") or d.const() == 0:
            return src
        if k == "w":
            return ("w", src[1], src[2].add(d))
        if k == "c":
            return ("c", src[1], src[2].add(d))
        if k == "n":
            return ("n", self.shift(src[1], d))
        return (k, self.shift(src[1], d), self.shift(src[2], d))

    def move(self, pieces, d):
        return [(lo.add(d), hi.add(d), src) for lo, hi, src in pieces]

    def fill(self, st, pieces, W):
        """pieces are sorted and disjoint; add zero segments for the gaps in [0, W)"""
        out = [(st, [], K(0))]
        for lo, hi, src in pieces:
            nxt = []
            for s, acc, cur in out:
                d = lo.sub(cur)
                if d.const() == 0:
                    nxt.append((s, acc + [(lo, hi, src)], hi))
                    continue
                for s1 in self.E.assume(s, ("ge", d.addc(-1))):
                    nxt.append((s1, acc + [(cur, lo, ("z",)), (lo, hi, src)], hi))
                for s1 in self.E.assume(s, ("eq", d)):
                    nxt.append((s1, acc + [(lo, hi, src)], hi))
            out = nxt
        res = []
        for s, acc, cur in out:
            d = K(W).sub(cur)
            if d.const() is not None:
                res.append((s, acc + [(cur, K(W), ("z",))] if d.c > 0 else acc))
                continue
            for s1 in self.E.assume(s, ("ge", d.addc(-1))):
                res.append((s1, acc + [(cur, K(W), ("z",))]))
            for s1 in self.E.assume(s, ("ge", d.neg())):
                res.append((s1, acc))
        return res

    def zip2(self, st, A, B, f, W):
        """combine two full covers of [0, W)"""
        out = []
        work = [(st, A, B, [])]
        while work:
            s, a, b, acc = work.pop()
            if not a or not b:
                out.append((s, acc))
                continue
            (l1, h1, s1), (l2, h2, s2) = a[0], b[0]
            for x, g in self.cmp(s, h1, h2):
                h = h1 if g <= 0 else h2
                # equality is folded into g >= 0 by cmp: refine
                if g >= 0 and h1 != h2:
                    eqs = self.E.assume(x, ("eq", h1.sub(h2)))
                    gts = self.E.assume(x, ("ge", h1.sub(h2).addc(-1)))
                    for y in eqs:
                        work.append((y, a[1:], b[1:], acc + [(l1, h2, f(s1, s2))]))
                    for y in gts:
                        work.append((y, [(h2, h1, self.shift(s1, h2.sub(l1)))] + a[1:], b[1:], acc + [(l1, h2, f(s1, s2))]))
                elif g < 0:
                    work.append((x, a[1:], [(h1, h2, self.shift(s2, h1.sub(l2)))] + b[1:], acc + [(l1, h1, f(s1, s2))]))
                else:
                    work.append((x, a[1:], b[1:], acc + [(l1, h1, f(s1, s2))]))
        return out

    @staticmethod
    def f_and(a, b):
        if a[0] == "z" or b[0] == "z":
            return ("z",)
        if a[0] == "o":
            return b
        if b[0] == "o":
            return a
        if a == b:
            return a
        return ("and",) + tuple(sorted((a, b), key=repr))

    @staticmethod
    def f_or(a, b):
        if a[0] == "o" or b[0] == "o":
            return ("o",)
        if a[0] == "z":
            return b
        if b[0] == "z":
            return a
        if a == b:
            return a
        return ("or",) + tuple(sorted((a, b), key=repr))

    @staticmethod
    def f_xor(a, b):
        if a[0] == "z":
            return b
        if b[0] == "z":
            return a
        if a[0] == "o":
            return Bits.f_not(b)
        if b[0] == "o":
            return Bits.f_not(a)
        if a == b:
            return ("z",)
        return ("xor",) + tuple(sorted((a, b), key=repr))

    @staticmethod
    def f_not(a):
        if a[0] == "z":
            return ("o",)
        if a[0] == "o":
            return ("z",)
        if a[0] == "n":
            return a[1]
        return ("n", a)

    # ---------------------------------------------------------------- segments of a word
    def segs(self, st, x, W=64, depth=0):
        """list of (state, pieces covering [0, W))"""
        E = self.E
        if depth > 40:
            raise Giveup("segment depth")
        if not x.t:
            c = x.c & ((1 << W) - 1)
            out = []
            j = 0
            while j < W:
                b = (c >> j) & 1
                k = j
                while k < W and ((c >> k) & 1) == b:
                    k += 1
                out.append((K(j), K(k), ("o",) if b else ("z",)))
                j = k
            return [(st, out)]
        M = (1 << W) - 1
        # complement: M - y
        if x.c == M and all(k < 0 for _, k in x.t):
            y = K(M).sub(x)
            return self.neg(self.segs(st, y, W, depth + 1))
        # 2^W - pow2(k) : bits k..W
        if x.c == M + 1 and len(x.t) == 1 and x.t[0][1] < 0:
            k = E.as_pow2(x.neg().addc(M + 1))
            if k is not None:
                return self.fill_hi(st, k, W)
        # pow2(k) - 1
        if x.c == -1:
            k = E.as_pow2(x.addc(1))
            if k is not None:
                return self.fill_lo(st, k, W)
        k = E.as_pow2(x)
        if k is not None:
            return self.fill(st, [(k, k.addc(1), ("o",))], W)
        if len(x.t) == 1 and x.c == 0:
            a, co = x.t[0]
            if co == 1:
                return self.atom_segs(st, a, W, depth)
            if co > 1 and pw(co):
                sh = co.bit_length() - 1
                inner = Lin(0, ((a, 1),))
                res = []
                for s, p in self.segs(st, inner, W, depth + 1):
                    for s1, q in self.clip(s, self.nz(p), K(0), K(W - sh)):
                        res += self.fill(s1, self.move(q, K(sh)), W)
                return res
        # low bits / high bits patterns on sums
        r = self.sum_patterns(st, x, W, depth)
        if r is not None:
            return r
        return self.opaque(st, x, W)

    def nz(self, pieces):
        return [p for p in pieces if p[2][0] != "z"]

    def neg(self, segl):
        return [(s, [(lo, hi, self.f_not(src)) for lo, hi, src in p]) for s, p in segl]

    def fill_hi(self, st, k, W):
        res = []
        for s in self.E.assume(st, ("ge", K(W - 1).sub(k))):
            res += self.fill(s, [(k, K(W), ("o",))], W)
        for s in self.E.assume(st, ("ge", k.addc(-W))):
            res += self.fill(s, [], W)
        return res

    def fill_lo(self, st, k, W):
        res = []
        for s in self.E.assume(st, ("ge", k.addc(-1))):
            for s1, h in self.minl(s, k, K(W)):
                res += self.fill(s1, [(K(0), h, ("o",))], W)
        for s in self.E.assume(st, ("ge", k.neg())):
            res += self.fill(s, [], W)
        return res

    def opaque(self, st, x, W):
        # use an upper bound to zero the top
        E = self.E
        n = W
        if x.t and len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0:
            hi = AT.hi[x.t[0][0]]
            if hi is not None and hi < (1 << W):
                n = hi.bit_length()
        else:
            for c in (1, 8, 16, 32):
                if c < W and E.entails(st, ("ge", K((1 << c) - 1).sub(x))):
                    n = c
                    break
        if n == 0:
            return self.fill(st, [], W)
        return self.fill(st, [(K(0), K(n), ("w", x, K(0)))], W)

    def sum_patterns(self, st, x, W, depth):
        E = self.E
        for a, co in x.t:
            key = AT.key[a]
            # y - 2^c * div(y, 2^c)  [mod]
            if key[0] == "div" and co < 0 and key[2] == -co and pw(-co):
                y = x.add(Lin(0, ((a, -co),)))
                if y == key[1] or y.sub(key[1]).const() is not None or True:
                    d = y.sub(key[1])
                    # y = key[1] + 2^c * (something): then x = (y mod 2^c)
                    if all(k % key[2] == 0 for _, k in d.t) and d.c % key[2] == 0 and d.c == 0 and not d.t:
                        c = key[2].bit_length() - 1
                        res = []
                        for s, p in self.segs(st, y, W, depth + 1):
                            for s1, q in self.clip(s, self.nz(p), K(0), K(min(c, W))):
                                res += self.fill(s1, q, W)
                        return res
            if key[0] == "lowbits" and co == -1:
                y = x.add(Lin(0, ((a, 1),)))
                if y == key[1]:
                    res = []
                    for s, p in self.segs(st, y, W, depth + 1):
                        for s0, lo in self.minl(s, key[2], K(W)):
                            for s1, q in self.clip(s0, self.nz(p), lo, K(W)):
                                res += self.fill(s1, q, W)
                    return res
            if key[0] == "mono" and co == -1:
                # y - bit(y,k)*2^k : clear bit
                y = x.add(Lin(0, ((a, 1),)))
                bp = self.bitpow(a)
                if bp is not None and bp[0] == y:
                    return self.zip_clear(st, y, bp[1], W, depth)
            if key[0] == "gb" and co < 0 and pw(-co):
                y = x.add(Lin(0, ((a, -co),)))
                if len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1:
                    ky = AT.key[y.t[0][0]]
                    sh = (-co).bit_length() - 1
                    if ky[0] == "elt" and ky[1] == key[1] and ky[2].scale(64).addc(sh) == key[2]:
                        return self.zip_clear(st, y, K(sh), W, depth)
        # disjoint sum: the parts occupy disjoint bit ranges
        parts = [Lin(0, ((a, co),)) for a, co in x.t if co > 0]
        if len(parts) == len(x.t) and 2 <= len(parts) + (1 if x.c else 0) <= 4 and x.c >= 0 and all(pw(co) for _, co in x.t):
            if x.c:
                parts.append(K(x.c))
            cur = self.segs(st, parts[0], W, depth + 1)
            for p in parts[1:]:
                nxt = []
                for s, A in cur:
                    for s2, B in self.segs(s, p, W, depth + 1):
                        for s3, C in self.zip2(s2, A, B, self.f_or, W):
                            if any(src[0] == "or" for _, _, src in C):
                                return None
                            # overlapping constants would carry
                            nxt.append((s3, C))
                cur = nxt
            # make sure nothing overlapped (or of equal sources collapses): recheck by emptiness of the and
            chk = self.segs(st, parts[0], W, depth + 1)
            for i in range(len(parts)):
                for j in range(i + 1, len(parts)):
                    for s, A in self.segs(st, parts[i], W, depth + 1):
                        for s2, B in self.segs(s, parts[j], W, depth + 1):
                            for s3, C in self.zip2(s2, A, B, self.f_and, W):
                                if any(src[0] != "z" for _, _, src in C):
                                    return None
            return cur
        return None

    def bitpow(self, a):
        """atom a = bit(y,k) * pow2(k): (y, k)"""
        key = AT.key[a]
        if key[0] != "mono" or len(key[1]) != 2:
            return None
        for p, q in ((0, 1), (1, 0)):
            kb, kp = AT.key[key[1][p]], AT.key[key[1][q]]
            if kb[0] == "bit" and kp[0] == "pow2" and kb[2] == kp[1]:
                return kb[1], kb[2]
            if kb[0] == "gb" and kp[0] == "pow2":
                # the word holding that bit, when the shift is the offset in it
                d = kb[2].sub(kp[1])
                if all(c % 64 == 0 for _, c in d.t) and d.c % 64 == 0:
                    i = Lin(d.c // 64, tuple((x, c // 64) for x, c in d.t))
                    w = AT.find(("elt", kb[1], i))
                    if w is not None:
                        return Lin(0, ((w, 1),)), kp[1]
        return None

    def zip_clear(self, st, y, k, W, depth):
        res = []
        for s, A in self.segs(st, y, W, depth + 1):
            for s2, B in self.fill(s, [(k, k.addc(1), ("o",))], W):
                nb = [(lo, hi, self.f_not(src)) for lo, hi, src in B]
                res += self.zip2(s2, A, nb, self.f_and, W)
        return res

    def atom_segs(self, st, a, W, depth):
        E = self.E
        key = AT.key[a]
        k = key[0]
        x = Lin(0, ((a, 1),))
        if k == "elt":
            # element of a word vector
            hi = AT.hi[a]
            if hi == (1 << 64) - 1:
                p = [(K(0), K(min(W, 64)), ("c", key[1], key[2].scale(64)))]
                return self.fill(st, p, W)
            if hi in NARROW and key[1][0] == "init":
                w = NARROW[hi]
                return self.fill(st, [(K(0), K(min(W, w)), ("c", ("bits", w, key[1]), key[2].scale(w)))], W)
            return self.opaque(st, x, W)
        if k in ("and", "or", "xor"):
            f = {"and": self.f_and, "or": self.f_or, "xor": self.f_xor}[k]
            res = []
            for s, A in self.segs(st, key[1], W, depth + 1):
                for s2, B in self.segs(s, key[2], W, depth + 1):
                    res += self.zip2(s2, A, B, f, W)
            return res
        if k == "lowbits":
            res = []
            for s, p in self.segs(st, key[1], W, depth + 1):
                for s0, h in self.minl(s, key[2], K(W)):
                    for s1, q in self.clip(s0, self.nz(p), K(0), h):
                        res += self.fill(s1, q, W)
            return res
        if k == "shr":
            return self.do_shr(st, key[1], key[2], W, depth)
        if k == "shl":
            res = []
            B = key[3]
            for s, p in self.segs(st, key[1], B, depth + 1):
                for s1, q in self.clip(s, self.nz(p), K(0), K(B).sub(key[2])):
                    res += self.fill(s1, self.move(q, key[2]), W)
            return res
        if k == "div" and pw(key[2]):
            c = key[2].bit_length() - 1
            return self.do_shr(st, key[1], K(c), W, depth)
        if k == "gb":
            return self.fill(st, [(K(0), K(1), ("c", key[1], key[2]))], W)
        if k == "bit":
            res = []
            for s, p in self.segs(st, key[1], 64, depth + 1):
                for s1, q in self.clip(s, self.nz(p), key[2], key[2].addc(1)):
                    res += self.fill(s1, self.move(q, key[2].neg()), W)
            return res
        if k == "mono":
            bp = self.bitpow(a)
            if bp is not None:
                y, kk = bp
                res = []
                for s, p in self.segs(st, y, W, depth + 1):
                    for s1, q in self.clip(s, self.nz(p), kk, kk.addc(1)):
                        res += self.fill(s1, q, W)
                return res
            # y * pow2(k) without overflow = shift left
            for f in key[1]:
                if AT.key[f][0] == "pow2" and len(key[1]) == 2:
                    y = [g for g in key[1] if g != f][0]
                    kk = AT.key[f][1]
                    res = []
                    for s, p in self.segs(st, Lin(0, ((y, 1),)), W, depth + 1):
                        for s1, q in self.clip(s, self.nz(p), K(0), K(W).sub(kk)):
                            res += self.fill(s1, self.move(q, kk), W)
                    return res
        return self.opaque(st, x, W)

    def do_shr(self, st, y, k, W, depth):
        res = []
        B = 64 if W <= 64 else W
        for s, p in self.segs(st, y, B, depth + 1):
            for s1, q in self.clip(s, self.nz(p), k, K(B)):
                res += self.fill(s1, self.move(q, k.neg()), W)
        return res

    # ---------------------------------------------------------------- bits
    def bitat(self, st, x, j, W=64):
        """list of (state, condition) : bit j (0 <= j < W assumed) of word x"""
        res = []
        for s, p in self.segs(st, x, W):
            for lo, hi, src in p:
                for s1 in self.E.assume(s, ("ge", j.sub(lo))):
                    for s2 in self.E.assume(s1, ("ge", hi.sub(j).addc(-1))):
                        res += self.srcbit(s2, src, j.sub(lo))
        return res

    def srcbit(self, st, src, d):
        k = src[0]
        if k == "z":
            return [(st, False)]
        if k == "o":
            return [(st, True)]
        if k == "n":
            return [(s, cnot(c)) for s, c in self.srcbit(st, src[1], d)]
        if k == "w":
            return [(st, prim(("eq", self.E.bit(st, src[1], src[2].add(d)).addc(-1))))]
        if k == "c":
            return self.gb(st, src[1], src[2].add(d))
        res = []
        for s, a in self.srcbit(st, src[1], d):
            for s2, b in self.srcbit(s, src[2], d):
                if k == "and":
                    c = cand(a, b)
                elif k == "or":
                    c = cor(a, b)
                else:
                    if a in (True, False):
                        c = cnot(b) if a else b
                    elif b in (True, False):
                        c = cnot(a) if b else a
                    elif a == b:
                        c = False
                    else:
                        c = cor(cand(a, cnot(b)), cand(cnot(a), b))
                res.append((s2, c))
        return res

    def batom(self, st, content, pos):
        return prim(("eq", self.E.gbatom(st, content, pos).addc(-1)))

    def gb(self, st, content, q):
        """bit q of the bit string stored in a vector of u64 words"""
        E = self.E
        k = content[0]
        hits = [(lo, hi, F) for cid, lo, hi, F in st.cf if cid == content]
        for lo, hi, F in hits:
            if E.entails(st, ("ge", hi.sub(q).addc(-1))) and E.entails(st, ("ge", q.sub(lo))):
                return F(st, q)
        if hits and (k == "init" or len(hits) == 1):
            # the fact covers part of the positions: by cases
            lo, hi, F = hits[0]
            res, rest = [], E.assume(st, ("ge", lo.sub(q).addc(-1)))
            for s in E.assume(st, ("ge", q.sub(lo))):
                rest += E.assume(s, ("ge", q.sub(hi)))
                for s2 in E.assume(s, ("ge", hi.sub(q).addc(-1))):
                    res += F(s2, q)
            if res:
                for s in rest:
                    res += self.gb(s, content, q)
                return res
        if k == "store":
            i = E.divc(q, 64, st)
            res = []
            d = i.sub(content[2])
            for s in E.assume(st, ("eq", d)):
                v = content[3]
                if v[0] != "int":
                    raise Giveup("non-integer word")
                res += self.bitat(s, v[1], q.sub(content[2].scale(64)), 64)
            for s in E.assume(st, ("ne", d)):
                res += self.gb(s, content[1], q)
            return res
        if k == "fill":
            v = content[1]
            if v[0] == "int":
                j = q.sub(E.divc(q, 64, st).scale(64))
                return self.bitat(st, v[1], j, 64)
        if k == "sub":
            return self.gb(st, content[1], q.add(content[2].scale(64)))
        if k == "ext":
            res = []
            for s in E.assume(st, ("ge", content[2].scale(64).sub(q).addc(-1))):
                res += self.gb(s, content[1], q)
            for s in E.assume(st, ("ge", q.sub(content[2].scale(64)))):
                v = content[3]
                j = q.sub(E.divc(q, 64, s).scale(64))
                res += self.bitat(s, v[1], j, 64)
            return res
        if k == "cat":
            res = []
            for s in E.assume(st, ("ge", content[2].scale(64).sub(q).addc(-1))):
                res += self.gb(s, content[1], q)
            for s in E.assume(st, ("ge", q.sub(content[2].scale(64)))):
                res += self.gb(s, content[3], q.sub(content[2].scale(64)).add(content[4].scale(64)))
            return res
        if k == "blit":
            lo, hi = content[2].scale(64), content[2].add(content[3]).scale(64)
            res = []
            for s in E.assume(st, ("ge", lo.sub(q).addc(-1))):
                res += self.gb(s, content[1], q)
            for s in E.assume(st, ("ge", q.sub(hi))):
                res += self.gb(s, content[1], q)
            for s in E.assume(st, ("ge", q.sub(lo))):
                for s2 in E.assume(s, ("ge", hi.sub(q).addc(-1))):
                    res += self.gb(s2, content[4], q.sub(lo).add(content[5].scale(64)))
            return res
        if k == "lit":
            res = []
            for n, v in enumerate(content[1]):
                for s in E.assume(st, ("ge", q.addc(-64 * n))):
                    for s2 in E.assume(s, ("ge", K(64 * n + 63).sub(q))):
                        res += self.bitat(s2, v[1], q.addc(-64 * n), 64)
            return res
        if k == "appbv":  # old bits below content[2], then the bits of another vector
            res = []
            for s in E.assume(st, ("ge", content[2].sub(q).addc(-1))):
                res += self.gb(s, content[1], q)
            for s in E.assume(st, ("ge", q.sub(content[2]))):
                for s2 in E.assume(s, ("ge", content[2].add(content[4]).sub(q).addc(-1))):
                    res += self.gb(s2, content[3], q.sub(content[2]))
                for s2 in E.assume(s, ("ge", q.sub(content[2]).sub(content[4]))):
                    res.append((s2, self.batom(s2, content, q)))
            return res
        if k == "appb":  # bit string content: old bits below content[2], then the low content[4] bits of word content[3]
            res = []
            for s in E.assume(st, ("ge", content[2].sub(q).addc(-1))):
                res += self.gb(s, content[1], q)
            for s in E.assume(st, ("ge", q.sub(content[2]))):
                for s2 in E.assume(s, ("ge", content[2].add(content[4]).sub(q).addc(-1))):
                    res += self.bitat(s2, content[3], q.sub(content[2]), 64)
                for s2 in E.assume(s, ("ge", q.sub(content[2]).sub(content[4]))):
                    res.append((s2, self.batom(s2, content, q)))
            return res
        return [(st, self.batom(st, content, q))]

    # ---------------------------------------------------------------- population counts
    def P(self, st, content, pos):
        """number of ones among the first pos bits of the bit string"""
        if content[0] == "sub":
            o = content[2].scale(64)
            return self.P(st, content[1], pos.add(o)).sub(self.P(st, content[1], o))
        if content[0] == "fill" and content[1][0] == "int" and content[1][1].const() == 0:
            return K(0)
        if content[0] == "store" and st is not None:
            # positions at or below the stored word do not see it
            if self.E.entails(st, ("ge", content[2].scale(64).sub(pos)), False):
                return self.P(st, content[1], pos)
        if content[0] in ("pad0", "pad1") and st is not None:
            # content[1] below position content[2], zeros / ones from there on
            if self.E.entails(st, ("ge", content[2].sub(pos)), False):
                return self.P(st, content[1], pos)
            if self.E.entails(st, ("ge", pos.sub(content[2])), False):
                n = self.P(st, content[1], content[2])
                return n.add(pos).sub(content[2]) if content[0] == "pad1" else n
        c = pos.const()
        if c is not None and c <= 0:
            return pos  # by convention all bits left of the string are ones
        key = ("P", content, pos)
        i = AT.find(key)
        if i is None:
            nonneg = pos.c >= 0 and all(k > 0 and AT.lo[a] is not None and AT.lo[a] >= 0 for a, k in pos.t)
            i = AT.get(key, 0 if nonneg else None, None)
            AT.facts[i] = [("ge", pos.sub(Lin(0, ((i, 1),))))]
        return Lin(0, ((i, 1),))

    def srcpop(self, st, src, n):
        """ones in a segment of n bits, or None"""
        k = src[0]
        if k == "z":
            return K(0)
        if k == "o":
            return n
        if k == "c" and src[1][0] != "bits":
            return self.P(st, src[1], src[2].add(n)).sub(self.P(st, src[1], src[2]))
        if k == "n":
            r = self.srcpop(st, src[1], n)
            return None if r is None else n.sub(r)
        return None

    def pop(self, st, x, W):
        """list of (state, count of ones in word x)"""
        E = self.E
        if not x.t:
            return [(st, K(bin(x.c & ((1 << W) - 1)).count("1")))]
        res = []
        try:
            cases = self.segs(st, x, W)
        except Giveup:
            return [(st, E.popcount(st, x, W))]
        for s, p in cases:
            tot = K(0)
            for lo, hi, src in p:
                r = self.srcpop(s, src, hi.sub(lo))
                if r is None:
                    return [(st, E.popcount(st, x, W))]
                tot = tot.add(r)
            res.append((s, tot))
        return res

    def p_axioms(self, E, st, atoms, query=()):
        """prefix counts grow by at most one per bit"""
        groups = {}
        for a in atoms:
            k = AT.key[a]
            if k[0] == "P":
                groups.setdefault(k[1], []).append(a)
        out = []
        if not groups:
            return out
        base, stq = st, None
        ck = tuple(st.cons)
        inq = {a for f in query for a, _ in f[1].t}

        def nonneg(d):
            """d >= 0 in the state, or else in the state restricted to the query"""
            nonlocal stq
            if d.const() is not None:
                return d.c >= 0
            k = (d, ck)
            r = self.pcache.get(k)
            if r is None:
                if len(self.pcache) > 300000:
                    self.pcache.clear()
                r = self.pcache[k] = self.easy(d) or E.entails(base, ("ge", d), False)
            if r or not query:
                return r
            if stq is None:
                stq = st.copy()
                stq.cons += [f for f in query if f[0] != "ne" and f not in stq.cons]
            return E.entails(stq, ("ge", d), False)

        for c, l in groups.items():
            for a in l:
                p = AT.key[a][2]
                x = Lin(0, ((a, 1),))
                if AT.lo[a] is None:
                    if nonneg(p):
                        out.append(("ge", x))
                    elif nonneg(p.neg()):
                        out.append(("eq", x.sub(p)))
                if c[0] in ("pad0", "pad1"):
                    one = c[0] == "pad1"
                    q = self.P(None, c[1], p)
                    if nonneg(c[2].sub(p)):
                        out.append(("eq", x.sub(q)))
                    elif nonneg(p.sub(c[2])):
                        out.append(("eq", x.sub(self.P(None, c[1], c[2])).sub(p).add(c[2]) if one else x.sub(self.P(None, c[1], c[2]))))
                        out.append(("ge", x.sub(q) if one else q.sub(x)))
                    else:
                        out.append(("ge", x.sub(q) if one else q.sub(x)))
        for c, l in groups.items():
            if len(l) > 14:
                # those of the query first, then those a constant distance from one of them
                near = {AT.key[a][2].t for a in l if a in inq}
                l.sort(key=lambda a: (a not in inq, AT.key[a][2].t not in near, -a if AT.key[a][2].t in near else a))
                l = l[:14]
            else:
                l.sort()
            for i in range(len(l)):
                for j in range(i):
                    pi, pj = AT.key[l[i]][2], AT.key[l[j]][2]
                    d = pi.sub(pj)
                    a, b = Lin(0, ((l[i], 1),)), Lin(0, ((l[j], 1),))
                    if d.const() is not None:
                        if d.c < 0:
                            a, b, d, pj = b, a, d.neg(), pi
                        out += [("ge", a.sub(b)), ("ge", d.sub(a.sub(b)))]
                        if d.c == 1:
                            g = AT.find(("gb", c, pj))
                            if g is not None:
                                out.append(("eq", a.sub(b).sub(Lin(0, ((g, 1),)))))
                    elif nonneg(d):
                        out += [("ge", a.sub(b)), ("ge", d.sub(a.sub(b)))]
                    elif nonneg(d.neg()):
                        out += [("ge", b.sub(a)), ("ge", d.neg().sub(b.sub(a)))]
        return out

    @staticmethod
    def easy(d):
        """d >= 0 from the ranges of its atoms alone"""
        v = d.c
        for a, k in d.t:
            b = AT.lo[a] if k > 0 else AT.hi[a]
            if b is None:
                return False
            v += k * b
        return v >= 0

    def p_subst(self, E, key, sub, cmap):
        c = key[1]
        if cmap and c in cmap:
            c = cmap[c]
        return self.P(None, c, E.subst_atoms(key[2], sub, cmap))

    # ---------------------------------------------------------------- equality of bits
    def gbof(self, c):
        """(content, position) of a condition that says one stored bit is set or clear"""
        if isinstance(c, tuple) and c[0] in ("eq", "ne") and len(c[1].t) == 1:
            k = AT.key[c[1].t[0][0]]
            if k[0] == "gb":
                return k[1], k[2]
        return None

    def word_equalities(self, st):
        for k, l in st.cons:
            if k != "eq":
                continue
            pos = [(a, c) for a, c in l.t if c > 0]
            ng = [(a, -c) for a, c in l.t if c < 0]
            if any(abs(c) != 1 for _, c in l.t) or len(pos) > 1 or len(ng) > 1:
                continue
            if not all(AT.key[a][0] in ("elt", "lowbits", "shr", "shl", "and", "or", "xor", "div", "gb") for a, _ in l.t):
                continue
            x = Lin(0, tuple(pos)) if pos else K(0)
            y = Lin(-l.c, tuple(ng))
            if not pos:
                x, y = Lin(0, tuple(ng)), K(l.c)
            if y.c < 0:
                continue
            yield x, y

    def by_words(self, st, c1, c2):
        """refine the state by the word equalities it records, at the bit the two conditions speak about"""
        E = self.E
        out = [st]
        for c in (c1, c2):
            g = self.gbof(c)
            if g is None:
                continue
            content, pos = g
            for x, y in self.word_equalities(st):
                for x, y in ((x, y), (y, x)):
                    if not x.t:
                        continue
                    nxt = []
                    for s in out:
                        js = None
                        for s1, p in self.segs(s, x, 64):
                            for lo, hi, src in p:
                                for base in self.cbases(src, content):
                                    j = lo.add(pos).sub(base)
                                    if E.entails(s1, ("ge", j.sub(lo))) and E.entails(s1, ("ge", hi.sub(j).addc(-1))):
                                        js = (s1, j)
                        if js is None:
                            nxt.append(s)
                            continue
                        j = js[1]
                        for s2, a in self.bitat(s, x, j):
                            for s3, b in self.bitat(s2, y, j):
                                if a == b:
                                    nxt.append(s3)
                                    continue
                                for u, v in ((a, b), (cnot(a), cnot(b))):
                                    for s4 in E.assume(s3, u):
                                        nxt += E.assume(s4, v)
                    out = nxt
        return out

    def cbases(self, src, content):
        if src[0] == "c":
            if src[1] == content:
                yield src[2]
        elif src[0] in ("n", "and", "or", "xor"):
            for x in src[1:]:
                yield from self.cbases(x, content)

    def equal(self, st, c1, c2):
        """are two bit conditions equal in this state?  returns None if equal, else a state in which they may differ"""
        if c1 == c2:
            return None
        d = self.equal0(st, c1, c2)
        if d is None:
            return None
        for s in self.by_words(st, c1, c2):
            d = self.equal0(s, c1, c2)
            if d is not None:
                return d
        return None

    def equal0(self, st, c1, c2):
        for a, b in ((c1, cnot(c2)), (cnot(c1), c2)):
            for s in self.E.assume(st, a):
                r = self.E.assume(s, b)
                if r:
                    return r[0]
        return None

    def words_differ(self, st, x, y, W=64):
        """None if the words x and y have the same bits in this state"""
        j = atom(self.E.freshterm("ghostj"), 0, W - 1)
        for s, a in self.bitat(st, x, j, W):
            for s2, b in self.bitat(s, y, j, W):
                d = self.equal(s2, a, b)
                if d is not None:
                    return d
        return None
