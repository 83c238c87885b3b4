"""Transfer functions for the standard-library operations that are not interpreted from their own MIR."""
from lin import *
from eng import Outcome, Giveup, UNIT, UNINIT, cnot, cand, cor, prim, mkint, W64


def none(dty):
    return ("agg", dty, 0, ())


def some(dty, v):
    return ("agg", dty, 1, (v,))


def panic(E, st, kind, body, line):
    return Outcome("panic", st, None, (kind, E.site(body, line) if body else None))


def deref(E, st, v):
    while v[0] == "ref":
        v = E.read(st, v[1], v[2])
    return v


def toint(E, st, v):
    v = deref(E, st, v)
    if v[0] == "nz":
        return v[1]
    if v[0] != "int":
        raise Giveup("int expected, got %s" % v[0])
    return v[1]


# ---------------------------------------------------------------------------------------------- slices and vectors
def as_slice(E, st, v):
    """('slice', root, proj, start, len) of a &Vec / &[T] / &Box<[T]> / &[T;N]"""
    if v[0] == "slice":
        return v
    if v[0] == "slicev":
        return ("slice",) + v[1:]
    if v[0] == "ref":
        x = E.read(st, v[1], v[2])
        if x[0] == "vec":
            return ("slice", v[1], v[2], K(0), x[2])
        if x[0] == "slice":
            return x
        if x[0] == "ref":
            return as_slice(E, st, x)
    if v[0] == "vec":
        root = ("C", E.freshterm("tmpv"))
        st.mem[root] = v
        return ("slice", root, (), K(0), v[2])
    raise Giveup("slice expected, got %s" % v[0])


def vec_of(E, st, ref):
    if ref[0] != "ref":
        raise Giveup("vec reference expected")
    v = E.read(st, ref[1], ref[2])
    if v[0] == "ref":
        return vec_of(E, st, v)
    if v[0] != "vec":
        raise Giveup("vec expected, got %s" % v[0])
    return ref, v


def setvec(E, st, ref, v):
    s = st.copy()
    E.write(s, ref[1], ref[2], v)
    return s


def range_parts(E, st, idx, ln):
    """(lo, hi) of a range argument; hi for inclusive ranges is end+1"""
    if idx[0] == "agg" and idx[1] is not None:
        t = E.T[idx[1]]
        p = t.get("path", "")
        f = idx[3]
        if p == "std::ops::Range":
            return f[0][1], f[1][1]
        if p == "std::ops::RangeFrom":
            return f[0][1], ln
        if p == "std::ops::RangeTo":
            return K(0), f[0][1]
        if p == "std::ops::RangeFull":
            return K(0), ln
        if p == "std::ops::RangeInclusive":
            return f[0][1], f[1][1].addc(1)
        if p == "std::ops::RangeToInclusive":
            return K(0), f[0][1].addc(1)
    return None


def m_index(E, st, callee, args, dty, depth, body, line):
    base = args[0]
    idx = args[1]
    sl = as_slice(E, st, base)
    if idx[0] == "int":
        i = idx[1]
        res = []
        ok = prim(("ge", sl[4].sub(i).addc(-1)))
        for s in E.assume(st, ok):
            res.append((s, ("ref", sl[1], sl[2] + (("i", sl[3].add(i)),))))
        for s in E.assume(st, cnot(ok)):
            res.append(panic(E, s, "bounds", body, line))
        return res
    rp = range_parts(E, st, idx, sl[4])
    if rp is None:
        return None
    lo, hi = rp
    res = []
    ok = cand(prim(("ge", hi.sub(lo))), prim(("ge", sl[4].sub(hi))))
    for s in E.assume(st, ok):
        res.append((s, ("slice", sl[1], sl[2], sl[3].add(lo), hi.sub(lo))))
    for s in E.assume(st, cnot(ok)):
        res.append(panic(E, s, "slice range", body, line))
    return res


def m_get(E, st, callee, args, dty, depth, body, line):
    sl = as_slice(E, st, args[0])
    idx = args[1]
    res = []
    if idx[0] == "int":
        ok = prim(("ge", sl[4].sub(idx[1]).addc(-1)))
        for s in E.assume(st, ok):
            res.append((s, some(dty, ("ref", sl[1], sl[2] + (("i", sl[3].add(idx[1])),)))))
        for s in E.assume(st, cnot(ok)):
            res.append((s, none(dty)))
        return res
    rp = range_parts(E, st, idx, sl[4])
    if rp is None:
        return None
    lo, hi = rp
    ok = cand(prim(("ge", hi.sub(lo))), prim(("ge", sl[4].sub(hi))))
    for s in E.assume(st, ok):
        res.append((s, some(dty, ("slice", sl[1], sl[2], sl[3].add(lo), hi.sub(lo)))))
    for s in E.assume(st, cnot(ok)):
        res.append((s, none(dty)))
    return res


def m_get_unchecked(E, st, callee, args, dty, depth, body, line):
    sl = as_slice(E, st, args[0])
    idx = args[1]
    if idx[0] != "int":
        return None
    res = []
    ok = prim(("ge", sl[4].sub(idx[1]).addc(-1)))
    for s in E.assume(st, ok):
        res.append((s, ("ref", sl[1], sl[2] + (("i", sl[3].add(idx[1])),))))
    for s in E.assume(st, cnot(ok)):
        res.append(panic(E, s, "ub:get_unchecked", body, line))
    return res


def m_len(E, st, callee, args, dty, depth, body, line):
    sl = as_slice(E, st, args[0])
    return [(st, ("int", sl[4]))]


def m_capacity(E, st, callee, args, dty, depth, body, line):
    v = deref(E, st, args[0])
    if v[0] != "vec":
        return None
    c = atom(("cap", v[3], v[2]), 0, (1 << 60))
    return [(s, ("int", c)) for s in E.assume(st, ("ge", c.sub(v[2])))]


def m_is_empty(E, st, callee, args, dty, depth, body, line):
    v = deref(E, st, args[0])
    if v[0] not in ("slice", "vec"):
        return None
    sl = as_slice(E, st, args[0])
    return [(st, ("bool", prim(("eq", sl[4]))))]


def m_as_slice(E, st, callee, args, dty, depth, body, line):
    v = args[0]
    x = E.read(st, v[1], v[2]) if v[0] == "ref" else v
    if x[0] in ("vec", "slice"):
        return [(st, as_slice(E, st, v))]
    if x[0] == "box" or (x[0] == "sym" and E.T[x[2]].get("path") == "std::boxed::Box"):
        return [(st, ("ref", v[1], v[2] + (("bx",),)))]
    return None


def m_first_last(which):
    def f(E, st, callee, args, dty, depth, body, line):
        sl = as_slice(E, st, args[0])
        res = []
        for s in E.assume(st, ("ge", sl[4].addc(-1))):
            i = sl[3] if which == 0 else sl[3].add(sl[4]).addc(-1)
            res.append((s, some(dty, ("ref", sl[1], sl[2] + (("i", i),)))))
        for s in E.assume(st, ("eq", sl[4])):
            res.append((s, none(dty)))
        return res

    return f


def elem_ty(E, dty):
    t = E.T[dty]
    return t["args"][0]


def m_vec_new(E, st, callee, args, dty, depth, body, line):
    return [(st, ("vec", elem_ty(E, dty), K(0), ("init", ("empty", elem_ty(E, dty)))))]


def m_from_elem(E, st, callee, args, dty, depth, body, line):
    n = toint(E, st, args[1])
    ety = elem_ty(E, dty)
    sz = E.T[ety].get("size", 1) or 1
    # the allocation succeeded
    return [(s, ("vec", ety, n, ("fill", args[0]))) for s in E.assume(st, ("ge", K((1 << 56) // sz).sub(n)))]


def m_push(E, st, callee, args, dty, depth, body, line):
    r, v = vec_of(E, st, args[0])
    return [(setvec(E, st, r, ("vec", v[1], v[2].addc(1), E.store(st, v[3], v[2], args[1]))), UNIT)]


def m_pop(E, st, callee, args, dty, depth, body, line):
    r, v = vec_of(E, st, args[0])
    res = []
    for s in E.assume(st, ("ge", v[2].addc(-1))):
        x = E.elem(s, v, v[2].addc(-1))
        res.append((setvec(E, s, r, ("vec", v[1], v[2].addc(-1), v[3])), some(dty, x)))
    for s in E.assume(st, ("eq", v[2])):
        res.append((s, none(dty)))
    return res


def m_clear(E, st, callee, args, dty, depth, body, line):
    r, v = vec_of(E, st, args[0])
    return [(setvec(E, st, r, ("vec", v[1], K(0), v[3])), UNIT)]


def m_truncate(E, st, callee, args, dty, depth, body, line):
    r, v = vec_of(E, st, args[0])
    n = toint(E, st, args[1])
    res = []
    for s in E.assume(st, ("ge", v[2].sub(n))):
        res.append((setvec(E, s, r, ("vec", v[1], n, v[3])), UNIT))
    for s in E.assume(st, ("ge", n.sub(v[2]).addc(-1))):
        res.append((s, UNIT))
    return res


def m_resize(E, st, callee, args, dty, depth, body, line):
    r, v = vec_of(E, st, args[0])
    n = toint(E, st, args[1])
    res = []
    for s in E.assume(st, ("ge", v[2].sub(n))):
        res.append((setvec(E, s, r, ("vec", v[1], n, v[3])), UNIT))
    for s in E.assume(st, ("ge", n.sub(v[2]).addc(-1))):
        res.append((setvec(E, s, r, ("vec", v[1], n, ("ext", v[3], v[2], args[2]))), UNIT))
    return res


def m_extend_slice(E, st, callee, args, dty, depth, body, line):
    r, v = vec_of(E, st, args[0])
    sl = as_slice(E, st, args[1])
    src = E.read(st, sl[1], sl[2])
    return [(setvec(E, st, r, ("vec", v[1], v[2].add(sl[4]), ("cat", v[3], v[2], src[3], sl[3]))), UNIT)]


def m_noop(E, st, callee, args, dty, depth, body, line):
    return [(st, UNIT)]


def clone_value(E, st, v):
    return v


def m_clone(E, st, callee, args, dty, depth, body, line):
    v = args[0]
    if v[0] == "ref":
        v = E.read(st, v[1], v[2])
        if v[0] in ("agg", "sym") and callee.get("local"):
            return None
        if v[0] == "sym":
            t = E.T[v[2]]
            if t["k"] == "param":
                return [(st, v)]
        return [(st, v)]
    if v[0] == "slice":
        x = E.read(st, v[1], v[2])
        return [(st, ("vec", x[1], v[4], subcontent(x[3], v[3])))]
    return None


def subcontent(c, off):
    if off.const() == 0:
        return c
    return ("sub", c, off)


def m_to_vec(E, st, callee, args, dty, depth, body, line):
    sl = as_slice(E, st, args[0])
    x = E.read(st, sl[1], sl[2])
    return [(st, ("vec", x[1], sl[4], subcontent(x[3], sl[3])))]


def m_ident(E, st, callee, args, dty, depth, body, line):
    return [(st, args[0])]


def m_swap(E, st, callee, args, dty, depth, body, line):
    a, b = args
    x = E.read(st, a[1], a[2])
    y = E.read(st, b[1], b[2])
    s = st.copy()
    E.write(s, a[1], a[2], y)
    E.write(s, b[1], b[2], x)
    return [(s, UNIT)]


def m_replace(E, st, callee, args, dty, depth, body, line):
    a, b = args
    x = E.read(st, a[1], a[2])
    s = st.copy()
    E.write(s, a[1], a[2], b)
    return [(s, x)]


def m_take_default(E, st, callee, args, dty, depth, body, line):
    a = args[0]
    x = E.read(st, a[1], a[2])
    if x[0] == "vec":
        s = st.copy()
        E.write(s, a[1], a[2], ("vec", x[1], K(0), ("init", ("empty", x[1]))))
        return [(s, x)]
    return None


def m_slice_copy(E, st, callee, args, dty, depth, body, line):
    d = as_slice(E, st, args[0])
    s_ = as_slice(E, st, args[1])
    dv = E.read(st, d[1], d[2])
    sv = E.read(st, s_[1], s_[2])
    res = []
    for s in E.assume(st, ("eq", d[4].sub(s_[4]))):
        s = s.copy()
        E.write(s, d[1], d[2], ("vec", dv[1], dv[2], ("blit", dv[3], d[3], d[4], sv[3], s_[3])))
        res.append((s, UNIT))
    for s in E.assume(st, ("ne", d[4].sub(s_[4]))):
        res.append(panic(E, s, "copy_from_slice length", body, line))
    return res


def m_slice_fill(E, st, callee, args, dty, depth, body, line):
    d = as_slice(E, st, args[0])
    dv = E.read(st, d[1], d[2])
    s = st.copy()
    E.write(s, d[1], d[2], ("vec", dv[1], dv[2], ("blit", dv[3], d[3], d[4], ("fill", args[1]), K(0))))
    return [(s, UNIT)]


def m_as_ptr(E, st, callee, args, dty, depth, body, line):
    sl = as_slice(E, st, args[0])
    return [(st, ("ref", sl[1], sl[2] + (("i", sl[3]),)))]


def m_ptr_add(E, st, callee, args, dty, depth, body, line):
    p = args[0]
    if p[0] == "ref" and p[2] and p[2][-1][0] == "i" and args[1][0] == "int":
        return [(st, ("ref", p[1], p[2][:-1] + (("i", p[2][-1][1].add(args[1][1])),)))]
    return None


# ---------------------------------------------------------------------------------------------- vector instructions
def lane16(E, st, x):
    """the bit pattern of a 16-bit lane as a number"""
    if not x.t:
        return K(x.c % 65536)
    if E.entails(st, ("ge", x)) and E.entails(st, ("ge", x.neg().addc(65535))):
        return x
    return E.modc(x, 65536, st)


def m_simd_load16(E, st, callee, args, dty, depth, body, line):
    p = args[0]
    if p[0] != "ref" or not p[2] or p[2][-1][0] != "i":
        return None
    v = E.read(st, p[1], p[2][:-1])
    if v[0] != "vec":
        return None
    t = E.T[v[1]]
    while t["k"] == "adt":
        if len(t["variants"]) != 1 or len(t["variants"][0]["f"]) != 1:
            return None
        t = E.T[t["variants"][0]["f"][0]["t"]]
    if t["s"] not in ("u16", "i16"):
        return None
    i = p[2][-1][1]
    out = []
    # reading behind the end of the allocation is undefined
    bad = E.assume(st, ("ge", i.sub(v[2]).addc(15)))
    for s in bad:
        out.append(Outcome("panic", s, None, ("out-of-bounds vector load", E.site(body, line))))
    for s in E.assume(st, ("ge", v[2].sub(i).addc(-16))):
        lanes = []
        for k in range(16):
            x = E.elem(s, v, i.addc(k))
            while x[0] == "agg":
                x = x[3][0]
            if x[0] != "int":
                return None
            lanes.append(lane16(E, s, x[1]))
        out.append(Outcome("ret", s, ("simd", tuple(lanes))))
    return out


def m_simd_set1(E, st, callee, args, dty, depth, body, line):
    return [(st, ("simd", (lane16(E, st, args[0][1]),) * 16))]


def m_simd_set16(E, st, callee, args, dty, depth, body, line):
    return [(st, ("simd", tuple(lane16(E, st, a[1]) for a in reversed(args))))]


def m_simd_sub16(E, st, callee, args, dty, depth, body, line):
    if args[0][0] != "simd" or args[1][0] != "simd":
        return None
    return [(st, ("simd", tuple(lane16(E, st, a.sub(b)) for a, b in zip(args[0][1], args[1][1]))))]


def m_simd_add16(E, st, callee, args, dty, depth, body, line):
    if args[0][0] != "simd" or args[1][0] != "simd":
        return None
    return [(st, ("simd", tuple(lane16(E, st, a.add(b)) for a, b in zip(args[0][1], args[1][1]))))]


def simd_cmp(test):
    def m(E, st, callee, args, dty, depth, body, line):
        if args[0][0] != "simd" or args[1][0] != "simd":
            return None
        cur = [(st, 0)]
        for k, (a, b) in enumerate(zip(args[0][1], args[1][1])):
            nxt = []
            c = test(a, b)
            for s, m in cur:
                nxt += [(x, m | 1 << k) for x in E.assume(s, c)]
                nxt += [(x, m) for x in E.assume(s, cnot(c))]
            if len(nxt) > 600:
                return None
            cur = nxt
        return [(s, ("int", K(m))) for s, m in cur]

    return m


# ---------------------------------------------------------------------------------------------- integers
def self_ty(E, callee):
    """primitive type of a core::num::<impl T>::f path"""
    p = callee.get("rpath", callee["path"])
    import re

    m = re.search(r"<impl ([iu](?:\d+|size))>", p) or re.search(r"for ([iu](?:\d+|size))>", p)
    return E.p.tid(m.group(1)) if m else None


def m_count_ones(E, st, callee, args, dty, depth, body, line):
    ty = self_ty(E, callee)
    return [(s, ("int", n)) for s, n in E.bdom.pop(st, args[0][1], E.bits(ty))]


def m_count_zeros(E, st, callee, args, dty, depth, body, line):
    ty = self_ty(E, callee)
    b = E.bits(ty)
    return [(s, ("int", K(b).sub(n))) for s, n in E.bdom.pop(st, args[0][1], b)]


def m_tz(E, st, callee, args, dty, depth, body, line):
    ty = self_ty(E, callee)
    b = E.bits(ty)
    x = args[0][1]
    if not x.t:
        c = x.c
        return [(st, ("int", K(b if c == 0 else (c & -c).bit_length() - 1)))]
    k = E.as_pow2(x)
    if k is not None and E.entails(st, ("ge", K(b - 1).sub(k))):
        return [(st, ("int", k))]
    return [(st, ("int", E.uf("tz", (x, b), 0, b)))]


def m_pdep(E, st, callee, args, dty, depth, body, line):
    """deposit of a single bit: the bit lands on the r-th set bit of the mask"""
    W = E.bits(dty)
    r = E.as_pow2(args[0][1])
    if r is None or W != 64 or not E.entails(st, ("ge", r)):
        return None
    B = E.bdom
    x = args[1][1]
    res = []
    try:
        cases = B.segs(st, x, W)
    except Giveup:
        return None
    for s, p in cases:
        if len(p) != 1 or p[0][2][0] not in ("c", "n") or p[0][2][0] == "n" and p[0][2][1][0] != "c" or p[0][2][0] == "c" and p[0][2][1][0] == "bits":
            return None
        src = p[0][2]
        one = src[0] == "c"
        content, off = (src[1], src[2]) if one else (src[1][1], src[1][2])

        def cnt(q, s):
            n = B.P(s, content, q)
            return n if one else q.sub(n)

        tot = cnt(off.addc(64), s).sub(cnt(off, s))
        for s1 in E.assume(s, ("ge", tot.sub(r).addc(-1))):
            pos = atom(("selpos", content, off, one, r), 0, 63)
            q = off.add(pos)
            c0 = cnt(q, s1)
            c1 = cnt(q.addc(1), s1)
            base = cnt(off, s1)
            for s2 in E.assume(s1, ("eq", c0.sub(base).sub(r))):
                for s3 in E.assume(s2, ("eq", c1.sub(base).sub(r).addc(-1))):
                    res.append((s3, ("int", E.pow2(pos))))
        for s1 in E.assume(s, ("ge", r.sub(tot))):
            res.append((s1, ("int", K(0))))
    return res


def m_lz(E, st, callee, args, dty, depth, body, line):
    ty = self_ty(E, callee)
    b = E.bits(ty)
    x = args[0][1]
    if not x.t:
        return [(st, ("int", K(b - x.c.bit_length())))]
    res = []
    for s in E.assume(st, ("ge", x.addc(-1))):
        res.append((s, ("int", K(b - 1).sub(E.ilog2(x, b)))))
    for s in E.assume(st, ("eq", x)):
        res.append((s, ("int", K(b))))
    return res


def m_is_multiple_of(E, st, callee, args, dty, depth, body, line):
    x, y = args[0][1], args[1][1]
    c = y.const()
    if c is None or c == 0:
        return None
    return [(st, ("bool", prim(("eq", E.modc(x, c, st)))))]


def m_div_ceil(E, st, callee, args, dty, depth, body, line):
    x, y = args[0][1], args[1][1]
    c = y.const()
    if c is None or c <= 0:
        return None
    # ceil(x/c) = floor((x + c - 1)/c) mathematically; cannot overflow for unsigned x
    return [(st, ("int", E.divc(x.addc(c - 1), c, st)))]


def m_wrapping(op):
    def f(E, st, callee, args, dty, depth, body, line):
        ty = self_ty(E, callee)
        a = args[0][1]
        b = args[1][1] if len(args) > 1 else None
        if op == "add":
            e = a.add(b)
        elif op == "sub":
            e = a.sub(b)
        elif op == "neg":
            e = a.neg()
        else:
            e = E.mul(a, b)
        return [(s, ("int", v)) for s, v in E.wrap(st, e, ty, op != "mul" or not (a.t and b.t))]

    return f


def m_checked(op):
    def f(E, st, callee, args, dty, depth, body, line):
        ty = self_ty(E, callee)
        lo, hi = E.rng(ty)
        a, b = args[0][1], args[1][1]
        e = a.add(b) if op == "add" else a.sub(b) if op == "sub" else E.mul(a, b)
        ok = cand(prim(("ge", e.addc(-lo))), prim(("ge", K(hi).sub(e))))
        res = []
        for s in E.assume(st, ok):
            res.append((s, some(dty, ("int", e))))
        for s in E.assume(st, cnot(ok)):
            res.append((s, none(dty)))
        return res

    return f


def m_checked_div(E, st, callee, args, dty, depth, body, line):
    a, b = args[0][1], args[1][1]
    if b.const() is None or b.c <= 0:
        return None
    rem = callee["path"].endswith("rem")
    return [(st, some(dty, ("int", E.modc(a, b.c, st) if rem else E.divc(a, b.c, st))))]


def m_overflowing(op):
    def f(E, st, callee, args, dty, depth, body, line):
        ty = self_ty(E, callee)
        lo, hi = E.rng(ty)
        a, b = args[0][1], args[1][1]
        e = a.add(b) if op == "add" else a.sub(b) if op == "sub" else E.mul(a, b)
        res = []
        ok = cand(prim(("ge", e.addc(-lo))), prim(("ge", K(hi).sub(e))))
        for s in E.assume(st, ok):
            res.append((s, ("agg", dty, 0, (("int", e), ("bool", False)))))
        for s in E.assume(st, cnot(ok)):
            for s2, v in E.wrap(s, e, ty, op != "mul" or not (a.t and b.t)):
                res.append((s2, ("agg", dty, 0, (("int", v), ("bool", True)))))
        return res

    return f


def m_saturating(op):
    def f(E, st, callee, args, dty, depth, body, line):
        ty = self_ty(E, callee)
        lo, hi = E.rng(ty)
        a, b = args[0][1], args[1][1]
        e = a.add(b) if op == "add" else a.sub(b) if op == "sub" else E.mul(a, b)
        res = []
        for s in E.assume(st, cand(prim(("ge", e.addc(-lo))), prim(("ge", K(hi).sub(e))))):
            res.append((s, ("int", e)))
        for s in E.assume(st, ("ge", e.addc(-hi - 1))):
            res.append((s, mkint(K(hi))))
        for s in E.assume(st, ("ge", K(lo - 1).sub(e))):
            res.append((s, mkint(K(lo))))
        return res

    return f


def m_checked_sh(op):
    def f(E, st, callee, args, dty, depth, body, line):
        ty = self_ty(E, callee)
        b = E.bits(ty)
        res = []
        for s in E.assume(st, ("ge", K(b - 1).sub(args[1][1]))):
            for s2, v in E.binop(s, op, args[0], args[1], ty):
                res.append((s2, some(dty, v)))
        for s in E.assume(st, ("ge", args[1][1].addc(-b))):
            res.append((s, none(dty)))
        return res

    return f


def m_wrapping_sh(op):
    def f(E, st, callee, args, dty, depth, body, line):
        ty = self_ty(E, callee)
        return E.binop(st, op, args[0], args[1], ty)

    return f


def m_abs_diff(E, st, callee, args, dty, depth, body, line):
    a, b = args[0][1], args[1][1]
    res = []
    for s in E.assume(st, ("ge", a.sub(b))):
        res.append((s, mkint(a.sub(b))))
    for s in E.assume(st, ("ge", b.sub(a).addc(-1))):
        res.append((s, mkint(b.sub(a))))
    return res


def m_unsigned_abs(E, st, callee, args, dty, depth, body, line):
    a = args[0][1]
    res = []
    for s in E.assume(st, ("ge", a)):
        res.append((s, mkint(a)))
    for s in E.assume(st, ("ge", a.neg().addc(-1))):
        res.append((s, mkint(a.neg())))
    return res


def m_next_pow2(E, st, callee, args, dty, depth, body, line):
    x = args[0][1]
    if not x.t:
        n = 1
        while n < x.c:
            n *= 2
        return [(st, mkint(K(n)))]
    l = E.uf("nextpow2", (x,), 1, 1 << 63, lambda l: [("ge", l.sub(x)), ("ge", x.scale(2).sub(l).addc(1))])
    return [(st, mkint(l))]


def minmax(E, st, a, b, which):
    if a == b:
        return [(st, a)]
    if a[0] != "int" or b[0] != "int":
        return None
    res = []
    for s in E.assume(st, ("ge", b[1].sub(a[1]))):
        res.append((s, a if which == "min" else b))
    for s in E.assume(st, ("ge", a[1].sub(b[1]).addc(-1))):
        res.append((s, b if which == "min" else a))
    return res


def m_min(which):
    def f(E, st, callee, args, dty, depth, body, line):
        return minmax(E, st, args[0], args[1], which)

    return f


def m_clamp(E, st, callee, args, dty, depth, body, line):
    x, lo, hi = args
    if x[0] != "int":
        return None
    res = []
    for s in E.assume(st, ("ge", hi[1].sub(lo[1]))):
        for s1 in E.assume(s, ("ge", lo[1].sub(x[1]).addc(-1))):
            res.append((s1, lo))
        for s1 in E.assume(s, ("ge", x[1].sub(lo[1]))):
            for s2 in E.assume(s1, ("ge", x[1].sub(hi[1]).addc(-1))):
                res.append((s2, hi))
            for s2 in E.assume(s1, ("ge", hi[1].sub(x[1]))):
                res.append((s2, x))
    for s in E.assume(st, ("ge", lo[1].sub(hi[1]).addc(-1))):
        res.append(panic(E, s, "clamp", body, line))
    return res


def m_cmp(E, st, callee, args, dty, depth, body, line):
    a, b = deref(E, st, args[0]), deref(E, st, args[1])
    if a[0] == "nz":
        a = mkint(a[1])
    if b[0] == "nz":
        b = mkint(b[1])
    if a[0] == "int" and b[0] == "int":
        res = E.binop(st, "Cmp", a, b, E.p.tid("usize"))
        t = E.T[dty]
        if t.get("path") == "std::option::Option":
            return [(s, some(dty, v)) for s, v in res]
        return res
    return None


def enum_split(E, st, v):
    if v[0] == "sym":
        return E.expand_enum(st, v)
    return [(st, v)]


def veq(E, st, a, b):
    """structural equality: list of (state, cond) or None"""
    a, b = deref(E, st, a), deref(E, st, b)
    if a[0] == "nz":
        a = mkint(a[1])
    if b[0] == "nz":
        b = mkint(b[1])
    if a[0] == "int" and b[0] == "int":
        return [(st, prim(("eq", a[1].sub(b[1]))))]
    if a[0] == "bool" and b[0] == "bool":
        r = E.binop(st, "Eq", a, b, E.p.tid("bool"))
        return [(st, r[0][1][1])]
    res = []
    ea = E.T[a[2]].get("kind") == "enum" if a[0] == "sym" and a[2] is not None else a[0] == "agg"
    eb = E.T[b[2]].get("kind") == "enum" if b[0] == "sym" and b[2] is not None else b[0] == "agg"
    if ea and eb:
        for s, x in enum_split(E, st, a):
            for s2, y in enum_split(E, s, b):
                if x[2] != y[2]:
                    res.append((s2, False))
                    continue
                cur = [(s2, True)]
                for p, q in zip(x[3], y[3]):
                    nxt = []
                    for s3, c in cur:
                        r = veq(E, s3, p, q)
                        if r is None:
                            return None
                        for s4, c2 in r:
                            nxt.append((s4, cand(c, c2)))
                    cur = nxt
                res += cur
        return res
    return None


def m_eq(neg):
    def f(E, st, callee, args, dty, depth, body, line):
        if callee.get("local"):
            return None
        r = veq(E, st, args[0], args[1])
        if r is None:
            a, b = deref(E, st, args[0]), deref(E, st, args[1])
            if a[0] in ("vec", "slice") and b[0] in ("vec", "slice"):
                return vec_eq(E, st, args[0], args[1], neg)
            return None
        return [(s, ("bool", cnot(c) if neg else c)) for s, c in r]

    return f


def vec_eq(E, st, a, b, neg):
    x, y = as_slice(E, st, a), as_slice(E, st, b)
    vx, vy = E.read(st, x[1], x[2]), E.read(st, y[1], y[2])
    res = []
    for s in E.assume(st, ("eq", x[4].sub(y[4]))):
        if vx[3] == vy[3] and x[3] == y[3]:
            c = True
        elif vx[1] is not None and E.T[vx[1]]["s"] == "u64":
            # equal: the bit strings agree; different: some element differs
            t = s.copy()
            off = y[3].sub(x[3]).scale(64)
            t.cf = tuple(t.cf) + ((vx[3], x[3].scale(64), x[3].add(x[4]).scale(64), lambda q_st, q, off=off, c=vy[3]: E.bdom.gb(q_st, c, q.add(off))),)
            res.append((t, ("bool", not neg)))
            w = atom(E.freshterm("wit"), 0, None)
            for u in E.assume(s, ("ge", x[4].sub(w).addc(-1))):
                p, q = E.elem(u, vx, x[3].add(w)), E.elem(u, vy, y[3].add(w))
                for u2 in E.assume(u, ("ne", p[1].sub(q[1]))):
                    res.append((u2, ("bool", neg)))
            continue
        else:
            c = ("b", ("conteq", vx[3], x[3], vy[3], y[3], x[4]))
        res.append((s, ("bool", cnot(c) if neg else c)))
    for s in E.assume(st, ("ne", x[4].sub(y[4]))):
        res.append((s, ("bool", neg)))
    return res


def m_rel(op):
    def f(E, st, callee, args, dty, depth, body, line):
        if callee.get("local"):
            return None
        a, b = deref(E, st, args[0]), deref(E, st, args[1])
        if a[0] == "nz":
            a = mkint(a[1])
        if b[0] == "nz":
            b = mkint(b[1])
        if a[0] == "int" and b[0] == "int":
            return E.binop(st, op, a, b, E.p.tid("usize"))
        # Option<int>: None < Some(_)
        isopt = lambda v: (v[0] == "agg" and v[1] is not None and E.T[v[1]].get("path") == "std::option::Option") or (
            v[0] == "sym" and E.T[v[2]].get("path") == "std::option::Option"
        )
        if isopt(a) and isopt(b):
            res = []
            for s, x in enum_split(E, st, a):
                for s2, y in enum_split(E, s, b):
                    if x[2] == 1 and y[2] == 1:
                        p, q = deref(E, s2, x[3][0]), deref(E, s2, y[3][0])
                        if p[0] != "int" or q[0] != "int":
                            return None
                        res += E.binop(s2, op, p, q, E.p.tid("usize"))
                    else:
                        o = {"Lt": x[2] < y[2], "Le": x[2] <= y[2], "Gt": x[2] > y[2], "Ge": x[2] >= y[2]}[op]
                        res.append((s2, ("bool", o)))
            return res
        return None

    return f


def m_nz_new(E, st, callee, args, dty, depth, body, line):
    e = args[0][1]
    res = []
    for s in E.assume(st, ("ne", e)):
        res.append((s, some(dty, ("nz", e))))
    for s in E.assume(st, ("eq", e)):
        res.append((s, none(dty)))
    return res


def m_nz_get(E, st, callee, args, dty, depth, body, line):
    v = args[0]
    if v[0] == "ref":
        v = deref(E, st, v)
    if v[0] == "nz":
        return [(st, ("int", v[1]))]
    return None


def m_nz_checked_add(E, st, callee, args, dty, depth, body, line):
    a, b = args[0][1], args[1][1]
    e = a.add(b)
    res = []
    for s in E.assume(st, ("ge", K(W64 - 1).sub(e))):
        res.append((s, some(dty, ("nz", e))))
    for s in E.assume(st, ("ge", e.addc(-W64))):
        res.append((s, none(dty)))
    return res


def m_into(E, st, callee, args, dty, depth, body, line):
    """numeric widening From/Into, identity conversions"""
    v = args[0]
    if dty is None:
        return [(st, v)] if v[0] == "int" else None
    t = E.T[dty]
    if v[0] == "int" and E.is_int(dty):
        return [(st, v)]
    if v[0] == "bool" and E.is_int(dty):
        return E.cast(st, "IntToInt", v, dty, E.p.tid("bool"))
    if v[0] == "bool" and t["k"] == "bool":
        return [(st, v)]
    if v[0] == "nz" and E.is_int(dty):
        return [(st, ("int", v[1]))]
    p = callee.get("rpath", callee["path"])
    if p == "<T as std::convert::From<T>>::from":
        return [(st, v)]
    return None


def m_try_from(E, st, callee, args, dty, depth, body, line):
    v = args[0]
    t = E.T[dty]
    if v[0] == "int" and t["k"] == "adt" and t["path"] == "std::result::Result" and E.is_int(t["args"][0]):
        lo, hi = E.rng(t["args"][0])
        ok = cand(prim(("ge", v[1].addc(-lo))), prim(("ge", K(hi).sub(v[1]))))
        res = []
        for s in E.assume(st, ok):
            res.append((s, ("agg", dty, 0, (v,))))
        for s in E.assume(st, cnot(ok)):
            res.append((s, ("agg", dty, 1, (E.sym(("tryerr",), t["args"][1]),))))
        return res
    return None


def m_ref_binop(op):
    def f(E, st, callee, args, dty, depth, body, line):
        a, b = deref(E, st, args[0]), deref(E, st, args[1])
        if a[0] in ("int", "bool") and b[0] == a[0]:
            r = E.binop(st, op, a, b, dty)
            return [(s, ("int", v[1]) if v[0] == "ovf" else v) for s, v in r]
        return None

    return f


def m_default(E, st, callee, args, dty, depth, body, line):
    t = E.T[dty]
    if E.is_int(dty):
        return [(st, mkint(K(0)))]
    if t["k"] == "bool":
        return [(st, ("bool", False))]
    if t["k"] == "adt" and t["path"] == "std::vec::Vec":
        return m_vec_new(E, st, callee, args, dty, depth, body, line)
    if t["k"] == "adt" and t["path"] == "std::boxed::Box" and E.T[t["args"][0]]["k"] == "slice":
        et = E.T[t["args"][0]]["to"]
        return [(st, ("vec", et, K(0), ("init", ("empty", et))))]
    if t["k"] == "adt" and t["path"] == "std::option::Option":
        return [(st, none(dty))]
    return None


def m_size_of(E, st, callee, args, dty, depth, body, line):
    ta = callee.get("targs") or []
    if ta:
        sz = E.T[ta[0]].get("size") if isinstance(ta[0], int) else None
        if sz is not None:
            return [(st, mkint(K(sz)))]
        return [(st, ("int", atom(("size_of", str(ta[0])), 0, 1 << 40)))]
    return None


def m_unit_box_new(E, st, callee, args, dty, depth, body, line):
    return [(st, ("box", args[0], dty))]


def m_opt_as_ref(E, st, callee, args, dty, depth, body, line):
    r = args[0]
    if r[0] != "ref":
        return None
    v = E.read(st, r[1], r[2])
    res = []
    for s, x in enum_split(E, st, v):
        if v[0] == "sym":
            s = s.copy()
            E.write(s, r[1], r[2], x)
        if x[2] == 0:
            res.append((s, none(dty)))
        else:
            res.append((s, some(dty, ("ref", r[1], r[2] + (("d", 1), ("f", 0))))))
    return res


def m_opt_copied(E, st, callee, args, dty, depth, body, line):
    res = []
    for s, x in enum_split(E, st, args[0]):
        if x[2] == 0:
            res.append((s, none(dty)))
        else:
            res.append((s, some(dty, deref(E, s, x[3][0]))))
    return res


def m_opt_take(E, st, callee, args, dty, depth, body, line):
    r = args[0]
    v = E.read(st, r[1], r[2])
    s = st.copy()
    E.write(s, r[1], r[2], none(dty))
    return [(s, v)]


def m_opt_unwrap(E, st, callee, args, dty, depth, body, line):
    res = []
    for s, x in enum_split(E, st, args[0]):
        if x[0] != "agg":
            return None
        t = E.T[x[1]] if x[1] is not None else None
        good = 1
        if t is not None and t.get("path") == "std::result::Result":
            good = 0
        if x[2] == good:
            res.append((s, x[3][0]))
        else:
            res.append(panic(E, s, "unwrap", body, line))
    return res


def m_unwrap_unchecked(E, st, callee, args, dty, depth, body, line):
    r = m_opt_unwrap(E, st, callee, args, dty, depth, body, line)
    for o in r or []:
        if isinstance(o, Outcome):
            o.info = ("ub:unwrap_unchecked", o.info[1])
    return r


def m_is(variant):
    def f(E, st, callee, args, dty, depth, body, line):
        r = args[0]
        v = deref(E, st, r)
        res = []
        for s, x in enum_split(E, st, v):
            if x[0] != "agg":
                return None
            if v[0] == "sym" and r[0] == "ref":
                s = s.copy()
                try:
                    E.write(s, r[1], r[2], x)
                except Giveup:
                    pass
            res.append((s, ("bool", x[2] == variant)))
        return res

    return f


# ---------------------------------------------------------------------------------------------- iterators
def it(kind, *fields):
    return ("iter", kind, tuple(fields))


def m_slice_iter(E, st, callee, args, dty, depth, body, line):
    return [(st, it("slice", as_slice(E, st, args[0])))]


def m_into_iter(E, st, callee, args, dty, depth, body, line):
    v = args[0]
    p = callee.get("rpath", "")
    if callee.get("local"):
        return None
    if v[0] == "iter":
        return [(st, v)]
    if v[0] == "slice":
        return [(st, it("slice", v))]
    if v[0] == "ref":
        x = E.read(st, v[1], v[2])
        if x[0] in ("vec",):
            return [(st, it("slice", as_slice(E, st, v)))]
        return [(st, v)] if p == "<I as std::iter::IntoIterator>::into_iter" else None
    if v[0] == "vec":
        return [(st, it("vec", v, mkint(K(0)), mkint(v[2])))]
    if p == "<I as std::iter::IntoIterator>::into_iter":
        return [(st, v)]
    return None


def is_iterish(E, v):
    if v[0] == "iter":
        return True
    if v[0] == "agg" and v[1] is not None:
        p = E.T[v[1]].get("path", "")
        return p.startswith("std::ops::Range")
    return False


def mk_adapter(kind, n):
    def f(E, st, callee, args, dty, depth, body, line):
        if kind == "step_by":
            r, c = args[0], args[1][1].const()
            if c is not None and c > 0 and r[0] == "agg" and r[1] is not None and E.T[r[1]].get("path") == "std::ops::Range" and r[3][0][0] == r[3][1][0] == "int":
                a, b = r[3][0][1], r[3][1][1]
                res = [(s, it("stride", mkint(a), mkint(E.divc(b.sub(a).addc(c - 1), c, s)), mkint(K(c)))) for s in E.assume(st, ("ge", b.sub(a).addc(-1)))]
                return res + [(s, it("stride", mkint(a), mkint(K(0)), mkint(K(c)))) for s in E.assume(st, ("ge", a.sub(b)))]
            return [(st, it("step_by", args[0], args[1], ("bool", True)))]
        if kind == "enumerate":
            return [(st, it("enumerate", args[0], mkint(K(0))))]
        if kind == "chain":
            return [(st, it("chain", args[0], m_into_iter(E, st, {"path": "", "rpath": "<I as std::iter::IntoIterator>::into_iter"}, [args[1]], dty, depth, body, line)[0][1], ("bool", False)))]
        if kind == "zip":
            r = m_into_iter(E, st, {"path": "", "rpath": "<I as std::iter::IntoIterator>::into_iter"}, [args[1]], dty, depth, body, line)
            return [(r[0][0], it("zip", args[0], r[0][1]))]
        return [(st, it(kind, *args[:n]))]

    return f


def opt_of(E, dty):
    return dty


def iter_next(E, st, v, depth, body, line, back=False, ty=None):
    """list of (state, new iterator value, item or None) | Outcome"""
    k = v[0]
    if k == "agg" and v[1] is not None:
        p = E.T[v[1]].get("path", "")
        if p == "std::ops::Range":
            a, b = v[3][0][1], v[3][1][1]
            res = []
            for s in E.assume(st, ("ge", b.sub(a).addc(-1))):
                if back:
                    nb = b.addc(-1)
                    res.append((s, ("agg", v[1], 0, (v[3][0], mkint(nb))), mkint(nb)))
                else:
                    res.append((s, ("agg", v[1], 0, (mkint(a.addc(1)), v[3][1])), mkint(a)))
            for s in E.assume(st, ("ge", a.sub(b))):
                res.append((s, v, None))
            return res
        if p == "std::ops::RangeFrom" and not back:
            a = v[3][0][1]
            return [(st, ("agg", v[1], 0, (mkint(a.addc(1)),)), mkint(a))]
        if p == "std::ops::RangeInclusive":
            # (start, end, exhausted)
            a, b, ex = v[3][0][1], v[3][1][1], v[3][2][1]
            res = []
            for s in E.assume(st, cnot(ex)):
                for s2 in E.assume(s, ("ge", b.sub(a).addc(-1))):
                    if back:
                        res.append((s2, ("agg", v[1], 0, (v[3][0], mkint(b.addc(-1)), ("bool", False))), mkint(b)))
                    else:
                        res.append((s2, ("agg", v[1], 0, (mkint(a.addc(1)), v[3][1], ("bool", False))), mkint(a)))
                for s2 in E.assume(s, ("eq", b.sub(a))):
                    res.append((s2, ("agg", v[1], 0, (v[3][0], v[3][1], ("bool", True))), mkint(a)))
                for s2 in E.assume(s, ("ge", a.sub(b).addc(-1))):
                    res.append((s2, v, None))
            for s in E.assume(st, ex):
                res.append((s, v, None))
            return res
    if k == "ref":
        inner = E.read(st, v[1], v[2])
        res = []
        for o in iter_next(E, st, inner, depth, body, line, back):
            if isinstance(o, Outcome):
                res.append(o)
                continue
            s, nv, item = o
            s = s.copy()
            E.write(s, v[1], v[2], nv)
            res.append((s, v, item))
        return res
    if k != "iter":
        return local_next(E, st, v, depth, body, line, back)
    kind, f = v[1], v[2]
    if kind == "slice":
        sl = f[0]
        res = []
        for s in E.assume(st, ("ge", sl[4].addc(-1))):
            if back:
                i = sl[3].add(sl[4]).addc(-1)
                res.append((s, it("slice", ("slice", sl[1], sl[2], sl[3], sl[4].addc(-1))), ("ref", sl[1], sl[2] + (("i", i),))))
            else:
                res.append(
                    (s, it("slice", ("slice", sl[1], sl[2], sl[3].addc(1), sl[4].addc(-1))), ("ref", sl[1], sl[2] + (("i", sl[3]),)))
                )
        for s in E.assume(st, prim(("eq", sl[4]))):
            res.append((s, v, None))
        return res
    if kind == "vec":
        a, b = f[1][1], f[2][1]
        res = []
        for s in E.assume(st, ("ge", b.sub(a).addc(-1))):
            if back:
                res.append((s, it("vec", f[0], f[1], mkint(b.addc(-1))), E.elem(s, f[0], b.addc(-1))))
            else:
                res.append((s, it("vec", f[0], mkint(a.addc(1)), f[2]), E.elem(s, f[0], a)))
        for s in E.assume(st, ("ge", a.sub(b))):
            res.append((s, v, None))
        return res
    if kind == "enumerate":
        res = []
        off = None
        if back:
            # index of the back element = count + remaining - 1
            rem = iter_len(E, st, f[0])
            if rem is None:
                raise Giveup("enumerate.rev over unsized")
            off = f[1][1].add(rem).addc(-1)
        for o in iter_next(E, st, f[0], depth, body, line, back):
            if isinstance(o, Outcome):
                res.append(o)
                continue
            s, nv, item = o
            if item is None:
                res.append((s, it("enumerate", nv, f[1]), None))
            elif back:
                res.append((s, it("enumerate", nv, f[1]), ("agg", None, 0, (mkint(off), item))))
            else:
                res.append((s, it("enumerate", nv, mkint(f[1][1].addc(1))), ("agg", None, 0, (f[1], item))))
        return res
    if kind == "stride":
        # first element, number of elements left, distance
        a, n, c = f[0][1], f[1][1], f[2][1].c
        res = [(s, v, None) for s in E.assume(st, ("ge", n.neg()))]
        for s in E.assume(st, ("ge", n.addc(-1))):
            if back:
                res.append((s, it("stride", f[0], mkint(n.addc(-1)), f[2]), mkint(a.add(n.addc(-1).scale(c)))))
            else:
                res.append((s, it("stride", mkint(a.addc(c)), mkint(n.addc(-1)), f[2]), mkint(a)))
        return res
    if kind == "rev":
        return [o if isinstance(o, Outcome) else (o[0], it("rev", o[1]), o[2]) for o in iter_next(E, st, f[0], depth, body, line, not back)]
    if kind in ("copied", "cloned"):
        res = []
        for o in iter_next(E, st, f[0], depth, body, line, back):
            if isinstance(o, Outcome):
                res.append(o)
            else:
                s, nv, item = o
                res.append((s, it(kind, nv), deref(E, s, item) if item is not None else None))
        return res
    if kind == "zip":
        res = []
        if back:
            raise Giveup("zip.rev")
        for o in iter_next(E, st, f[0], depth, body, line):
            if isinstance(o, Outcome):
                res.append(o)
                continue
            s, na, x = o
            if x is None:
                res.append((s, it("zip", na, f[1]), None))
                continue
            for o2 in iter_next(E, s, f[1], depth, body, line):
                if isinstance(o2, Outcome):
                    res.append(o2)
                    continue
                s2, nb, y = o2
                res.append((s2, it("zip", na, nb), ("agg", None, 0, (x, y)) if y is not None else None))
        return res
    if kind == "map":
        res = []
        for o in iter_next(E, st, f[0], depth, body, line, back):
            if isinstance(o, Outcome):
                res.append(o)
                continue
            s, nv, item = o
            if item is None:
                res.append((s, it("map", nv, f[1]), None))
                continue
            for s2, clo, val in call_clo(E, s, f[1], [item], depth, body, line):
                if clo is None:
                    res.append(val)
                else:
                    res.append((s2, it("map", nv, clo), val))
        return res
    if kind == "take":
        n = f[1][1]
        res = []
        for s in E.assume(st, ("eq", n)):
            res.append((s, v, None))
        for s in E.assume(st, ("ge", n.addc(-1))):
            if back:
                raise Giveup("take.rev")
            for o in iter_next(E, s, f[0], depth, body, line, back):
                if isinstance(o, Outcome):
                    res.append(o)
                else:
                    res.append((o[0], it("take", o[1], mkint(n.addc(-1))), o[2]))
        return res
    if kind == "skip":
        n = f[1][1]
        inner, st2s = f[0], None
        res = []
        for s, nv in iter_skip(E, st, inner, n, depth, body, line):
            for o in iter_next(E, s, nv, depth, body, line, back):
                if isinstance(o, Outcome):
                    res.append(o)
                else:
                    res.append((o[0], it("skip", o[1], mkint(K(0))), o[2]))
        return res
    if kind == "step_by":
        step = f[1][1]
        res = []
        if back:
            # position of the last element: needs the remaining length
            rem = iter_len(E, st, f[0])
            c = step.const()
            if rem is None or c is None:
                raise Giveup("step_by.rev")
            raise Giveup("step_by.rev")
        first = f[2][1]
        if first is True:
            for o in iter_next(E, st, f[0], depth, body, line):
                if isinstance(o, Outcome):
                    res.append(o)
                else:
                    res.append((o[0], it("step_by", o[1], f[1], ("bool", False)), o[2]))
            return res
        for s in E.assume(st, first):
            for o in iter_next(E, s, f[0], depth, body, line):
                if isinstance(o, Outcome):
                    res.append(o)
                else:
                    res.append((o[0], it("step_by", o[1], f[1], ("bool", False)), o[2]))
        for s in E.assume(st, cnot(first)):
            for s1, nv in iter_skip(E, s, f[0], step.addc(-1), depth, body, line):
                for o in iter_next(E, s1, nv, depth, body, line):
                    if isinstance(o, Outcome):
                        res.append(o)
                    else:
                        res.append((o[0], it("step_by", o[1], f[1], ("bool", False)), o[2]))
        return res
    if kind == "chunks":
        sl, n = f[0], f[1][1]
        if back:
            raise Giveup("chunks.rev")
        res = []
        for s in E.assume(st, ("ge", sl[4].addc(-1))):
            for s2 in E.assume(s, ("ge", sl[4].sub(n))):
                res.append((s2, it(kind, ("slice", sl[1], sl[2], sl[3].add(n), sl[4].sub(n)), f[1]), ("slice", sl[1], sl[2], sl[3], n)))
            for s2 in E.assume(s, ("ge", n.sub(sl[4]).addc(-1))):
                res.append((s2, it(kind, ("slice", sl[1], sl[2], sl[3].add(sl[4]), K(0)), f[1]), ("slice", sl[1], sl[2], sl[3], sl[4])))
        for s in E.assume(st, prim(("eq", sl[4]))):
            res.append((s, v, None))
        return res
    if kind == "windows":
        sl, n = f[0], f[1][1]
        if back:
            raise Giveup("windows.rev")
        res = []
        for s in E.assume(st, ("ge", sl[4].sub(n))):
            res.append((s, it(kind, ("slice", sl[1], sl[2], sl[3].addc(1), sl[4].addc(-1)), f[1]), ("slice", sl[1], sl[2], sl[3], n)))
        for s in E.assume(st, ("ge", n.sub(sl[4]).addc(-1))):
            res.append((s, v, None))
        return res
    if kind == "filter":
        # one element at a time, rejected elements are skipped by a loop
        return filter_next(E, st, v, depth, body, line, back)
    raise Giveup("iterator %s" % kind)


def call_clo(E, st, clo, xs, depth, body, line):
    """list of (state, closure', value) or (state, None, Outcome)"""
    if clo[0] == "closure":
        root = ("C", E.freshterm("clo"))
        E.root_ty[root] = clo[3]
        s = st.copy()
        s.mem[root] = clo
        outs = E.call_closure(s, clo, ("ref", root, ()), xs, depth)
        res = []
        for o in outs:
            if o.kind == "panic":
                res.append((o.st, None, o))
            else:
                res.append((o.st, o.st.mem.get(root, clo), o.val))
        return res
    if clo[0] in ("fn", "fnkey", "ref", "sym"):
        dty = None
        if clo[0] == "fn":
            sig = E.T[clo[1]]
            dty = sig.get("ret")
        outs = E.call_value(st, clo, xs, dty, depth, body, line)
        return [(o.st, None, o) if o.kind == "panic" else (o.st, clo, o.val) for o in outs]
    raise Giveup("call of %s" % clo[0])


def iter_len(E, st, v):
    """exact number of remaining elements (Lin) or None"""
    if v[0] == "agg" and v[1] is not None:
        p = E.T[v[1]].get("path", "")
        if p == "std::ops::Range":
            a, b = v[3][0][1], v[3][1][1]
            if E.entails(st, ("ge", b.sub(a))):
                return b.sub(a)
            if E.entails(st, ("ge", a.sub(b))):
                return K(0)
            return None
        return None
    if v[0] != "iter":
        return None
    kind, f = v[1], v[2]
    if kind == "slice":
        return f[0][4]
    if kind == "stride":
        return f[1][1]
    if kind == "vec":
        return f[2][1].sub(f[1][1])
    if kind in ("enumerate", "rev", "map", "copied", "cloned"):
        return iter_len(E, st, f[0])
    if kind == "take":
        n = iter_len(E, st, f[0])
        if n is None:
            return None
        m = f[1][1]
        if E.entails(st, ("ge", n.sub(m))):
            return m
        if E.entails(st, ("ge", m.sub(n))):
            return n
        return None
    if kind == "skip":
        n = iter_len(E, st, f[0])
        if n is None:
            return None
        m = f[1][1]
        if E.entails(st, ("ge", n.sub(m))):
            return n.sub(m)
        if E.entails(st, ("ge", m.sub(n))):
            return K(0)
        return None
    if kind == "windows":
        sl, n = f[0], f[1][1]
        if E.entails(st, ("ge", sl[4].sub(n))):
            return sl[4].sub(n).addc(1)
        return None
    return None


def iter_skip(E, st, v, n, depth, body, line):
    """advance by n (saturating): list of (state, iterator)"""
    if n.const() == 0:
        return [(st, v)]
    if v[0] == "agg" and v[1] is not None and E.T[v[1]].get("path") == "std::ops::Range":
        a, b = v[3][0][1], v[3][1][1]
        res = []
        for s in E.assume(st, ("ge", b.sub(a).sub(n))):
            res.append((s, ("agg", v[1], 0, (mkint(a.add(n)), v[3][1]))))
        for s in E.assume(st, ("ge", n.sub(b.sub(a)).addc(-1))):
            res.append((s, ("agg", v[1], 0, (v[3][1], v[3][1]))))
        return res
    if v[0] == "iter" and v[1] == "slice":
        sl = v[2][0]
        res = []
        for s in E.assume(st, ("ge", sl[4].sub(n))):
            res.append((s, it("slice", ("slice", sl[1], sl[2], sl[3].add(n), sl[4].sub(n)))))
        for s in E.assume(st, ("ge", n.sub(sl[4]).addc(-1))):
            res.append((s, it("slice", ("slice", sl[1], sl[2], sl[3].add(sl[4]), K(0)))))
        return res
    if v[0] == "iter" and v[1] == "enumerate":
        res = []
        for s, nv in iter_skip(E, st, v[2][0], n, depth, body, line):
            res.append((s, it("enumerate", nv, mkint(v[2][1][1].add(n)))))
        return res
    if v[0] == "iter" and v[1] in ("copied", "cloned"):
        return [(s, it(v[1], nv)) for s, nv in iter_skip(E, st, v[2][0], n, depth, body, line)]
    if v[0] == "iter" and v[1] == "vec":
        f = v[2]
        a, b = f[1][1], f[2][1]
        res = []
        for s in E.assume(st, ("ge", b.sub(a).sub(n))):
            res.append((s, it("vec", f[0], mkint(a.add(n)), f[2])))
        for s in E.assume(st, ("ge", n.sub(b.sub(a)).addc(-1))):
            res.append((s, it("vec", f[0], f[2], f[2])))
        return res
    c = n.const()
    if c is not None and c <= 4:
        states = [(st, v)]
        for _ in range(c):
            nxt = []
            for s, x in states:
                for o in iter_next(E, s, x, depth, body, line):
                    if isinstance(o, Outcome):
                        raise Giveup("panic in skipped element")
                    nxt.append((o[0], o[1]))
            states = nxt
        return states
    raise Giveup("skip over %s" % (v[1] if v[0] == "iter" else v[0]))


def local_next(E, st, v, depth, body, line, back):
    ty = v[1] if v[0] == "agg" else v[2] if v[0] == "sym" else None
    if ty is None:
        raise Giveup("next of %s" % v[0])
    t = E.T[ty]
    root = ("C", E.freshterm("itself"))
    E.root_ty[root] = ty
    s = st.copy()
    s.mem[root] = v
    key = "<%s as std::iter::%s" % (t["s"], "DoubleEndedIterator>::next_back" if back else "Iterator>::next")
    b = E.p.bodies.get(key) or E.p.bodies.get(key.replace("'a", "'_"))
    if b is None and t["k"] == "param":
        if v[0] == "sym":
            # an unknown iterator: each call may yield an arbitrary item or end
            n = E.freshterm("itst")
            nv = ("sym", ("iterafter", v[1]), ty)
            item_ty = E.p.assoc_item(t["s"]) if hasattr(E.p, "assoc_item") else None
            s1, s2 = st.copy(), st.copy()
            it_ = ("sym", ("iteritem", v[1]), item_ty)
            if item_ty is not None:
                it_ = E.sym(("iteritem", v[1]), item_ty)
            return [(s1, nv, it_), (s2, nv, None)]
    if b is None:
        raise Giveup("no body for %s" % key)
    res = []
    for o in E.call_body(s, b, [("ref", root, ())], depth + 1):
        if o.kind == "panic":
            res.append(o)
            continue
        for s2, x in enum_split(E, o.st, o.val):
            nv = s2.mem[root]
            res.append((s2, nv, x[3][0] if x[2] == 1 else None))
    return res


def filter_next(E, st, v, depth, body, line, back):
    f = v[2]
    root = ("C", E.freshterm("flt"))
    s = st.copy()
    s.mem[root] = v

    def step(s):
        backs, others = [], []
        cur = s.mem[root]
        for o in iter_next(E, s, cur[2][0], depth, body, line, back):
            if isinstance(o, Outcome):
                others.append(("panic", o.st, o.info))
                continue
            s1, nv, item = o
            if item is None:
                s1 = s1.copy()
                s1.mem[root] = it("filter", nv, cur[2][1])
                others.append(("exit", s1, None))
                continue
            r2 = ("C", E.freshterm("fi"))
            s1 = s1.copy()
            s1.mem[r2] = item
            for s2, clo, val in call_clo(E, s1, cur[2][1], [("ref", r2, ())], depth, body, line):
                if clo is None:
                    others.append(("panic", val.st, val.info))
                    continue
                c = E.tobool(val)
                for s3 in E.assume(s2, c):
                    s3 = s3.copy()
                    s3.mem[root] = it("filter", nv, clo)
                    others.append(("exit", s3, s3.mem[r2]))
                for s3 in E.assume(s2, cnot(c)):
                    s3 = s3.copy()
                    s3.mem[root] = it("filter", nv, clo)
                    backs.append(s3)
        return backs, others

    res = []
    for kind, s2, x in E.solve_loop(s, step, None, E.site(body, line) if body else None):
        if kind == "panic":
            res.append(Outcome("panic", s2, None, x))
        else:
            res.append((s2, s2.mem[root], x))
    return res


def m_next(back):
    def f(E, st, callee, args, dty, depth, body, line):
        r = args[0]
        if r[0] != "ref":
            return None
        v = E.read(st, r[1], r[2])
        while v[0] == "ref":
            r = v
            v = E.read(st, r[1], r[2])
        if v[0] == "sym" and E.T[v[2]]["k"] == "param":
            pass
        elif not is_iterish(E, v):
            return None
        res = []
        for o in iter_next(E, st, v, depth, body, line, back):
            if isinstance(o, Outcome):
                res.append(o)
                continue
            s, nv, item = o
            s = s.copy()
            E.write(s, r[1], r[2], nv)
            res.append((s, none(dty) if item is None else some(dty, item)))
        return res

    return f


def m_size_hint_len(E, st, callee, args, dty, depth, body, line):
    v = deref(E, st, args[0])
    if not is_iterish(E, v):
        return None
    n = iter_len(E, st, v)
    if n is None:
        return None
    return [(st, mkint(n))]


def consume(E, st, itv, accs, per_item, depth, body, line, stop=None):
    """generic consumer loop.  accs: list of (value, type); per_item(s, roots, item) -> list of ('cont', s)|('stop', s, val)|Outcome
    returns list of ('end'|'stop', state, [acc values], stopval) | Outcome"""
    rit = ("C", E.freshterm("cit"))
    roots = []
    s = st.copy()
    s.mem[rit] = itv
    for v, ty in accs:
        r = ("C", E.freshterm("acc"))
        s.mem[r] = v
        if ty is not None:
            E.root_ty[r] = ty
        roots.append(r)

    def step(s):
        backs, others = [], []
        for o in iter_next(E, s, s.mem[rit], depth, body, line):
            if isinstance(o, Outcome):
                others.append(("panic", o.st, o.info))
                continue
            s1, nv, item = o
            s1 = s1.copy()
            s1.mem[rit] = nv
            if item is None:
                others.append(("end", s1, None))
                continue
            for r in per_item(s1, roots, item):
                if isinstance(r, Outcome):
                    others.append(("panic", r.st, r.info))
                elif r[0] == "cont":
                    backs.append(r[1])
                else:
                    others.append(("stop", r[1], r[2]))
        return backs, others

    res = []
    for kind, s2, x in E.solve_loop(s, step, None, E.site(body, line) if body else None):
        if kind == "panic":
            res.append(Outcome("panic", s2, None, x))
        else:
            res.append((kind, s2, [s2.mem[r] for r in roots], x))
    return res


def self_iter(E, st, v):
    """consumers take self by value or (any/all/position/find/nth) by &mut"""
    if v[0] == "ref":
        return E.read(st, v[1], v[2]), v
    return v, None


def m_for_each(E, st, callee, args, dty, depth, body, line):
    itv, clo = args

    def per(s, roots, item):
        res = []
        for s2, c, val in call_clo(E, s, s.mem[roots[0]], [item], depth, body, line):
            if c is None:
                res.append(val)
            else:
                s2 = s2.copy()
                s2.mem[roots[0]] = c
                res.append(("cont", s2))
        return res

    out = consume(E, st, itv, [(clo, clo[3] if clo[0] == "closure" else None)], per, depth, body, line)
    return [o if isinstance(o, Outcome) else (o[1], UNIT) for o in out]


def m_fold(E, st, callee, args, dty, depth, body, line):
    itv, init, clo = args

    def per(s, roots, item):
        res = []
        for s2, c, val in call_clo(E, s, s.mem[roots[1]], [s.mem[roots[0]], item], depth, body, line):
            if c is None:
                res.append(val)
            else:
                s2 = s2.copy()
                s2.mem[roots[0]] = val
                s2.mem[roots[1]] = c
                res.append(("cont", s2))
        return res

    out = consume(E, st, itv, [(init, dty), (clo, clo[3] if clo[0] == "closure" else None)], per, depth, body, line)
    return [o if isinstance(o, Outcome) else (o[1], o[2][0]) for o in out]


def m_sum(E, st, callee, args, dty, depth, body, line):
    if not E.is_int(dty):
        return None
    lo, hi = E.rng(dty)

    def per(s, roots, item):
        e = s.mem[roots[0]][1].add(toint(E, s, item))
        res = []
        for s2 in E.assume(s, ("ge", K(hi).sub(e))):
            s2 = s2.copy()
            s2.mem[roots[0]] = mkint(e)
            res.append(("cont", s2))
        for s2 in E.assume(s, ("ge", e.addc(-hi - 1))):
            res.append(panic(E, s2, "overflow:Add", body, line))
        return res

    out = consume(E, st, args[0], [(mkint(K(0)), dty)], per, depth, body, line)
    return [o if isinstance(o, Outcome) else (o[1], o[2][0]) for o in out]


def m_count(E, st, callee, args, dty, depth, body, line):
    if not is_iterish(E, args[0]):
        return None
    n = iter_len(E, st, args[0])
    if n is not None:
        return [(st, mkint(n))]

    def per(s, roots, item):
        s2 = s.copy()
        s2.mem[roots[0]] = mkint(s.mem[roots[0]][1].addc(1))
        return [("cont", s2)]

    out = consume(E, st, args[0], [(mkint(K(0)), dty)], per, depth, body, line)
    return [o if isinstance(o, Outcome) else (o[1], o[2][0]) for o in out]


def m_quant(kind):
    def f(E, st, callee, args, dty, depth, body, line):
        itv, ref = self_iter(E, st, args[0])
        if not is_iterish(E, itv):
            return None
        clo = args[1]

        def per(s, roots, item):
            res = []
            arg = item
            if kind == "find":
                r = ("C", E.freshterm("fi"))
                s = s.copy()
                s.mem[r] = item
                arg = ("ref", r, ())
            for s2, c, val in call_clo(E, s, s.mem[roots[0]], [arg], depth, body, line):
                if c is None:
                    res.append(val)
                    continue
                s2 = s2.copy()
                s2.mem[roots[0]] = c
                cond = E.tobool(val)
                if kind == "all":
                    cond = cnot(cond)
                for s3 in E.assume(s2, cond):
                    if kind == "any":
                        res.append(("stop", s3, ("bool", True)))
                    elif kind == "all":
                        res.append(("stop", s3, ("bool", False)))
                    elif kind == "position":
                        res.append(("stop", s3, some(dty, s3.mem[roots[1]])))
                    else:
                        res.append(("stop", s3, some(dty, item)))
                for s3 in E.assume(s2, cnot(cond)):
                    s3 = s3.copy()
                    if kind == "position":
                        s3.mem[roots[1]] = mkint(s3.mem[roots[1]][1].addc(1))
                    res.append(("cont", s3))
            return res

        accs = [(clo, clo[3] if clo[0] == "closure" else None)]
        if kind == "position":
            accs.append((mkint(K(0)), E.p.tid("usize")))
        out = consume(E, st, itv, accs, per, depth, body, line)
        dflt = {"any": ("bool", False), "all": ("bool", True)}.get(kind) or none(dty)
        res = []
        for o in out:
            if isinstance(o, Outcome):
                res.append(o)
            else:
                res.append((o[1], o[3] if o[0] == "stop" else dflt))
        return res

    return f


def m_collect(E, st, callee, args, dty, depth, body, line):
    t = E.T[dty]
    if t["k"] == "adt" and t["path"] in ("std::vec::Vec", "std::boxed::Box") and is_iterish(E, args[0]):
        ety = t["args"][0] if t["path"] == "std::vec::Vec" else E.T[t["args"][0]]["to"]

        def per(s, roots, item):
            v = s.mem[roots[0]]
            s2 = s.copy()
            s2.mem[roots[0]] = ("vec", v[1], v[2].addc(1), ("store", v[3], v[2], item))
            return [("cont", s2)]

        out = consume(E, st, args[0], [(("vec", ety, K(0), ("init", ("empty", ety))), dty)], per, depth, body, line)
        return [o if isinstance(o, Outcome) else (o[1], o[2][0]) for o in out]
    # a local FromIterator implementation
    for k, b in E.p.bodies.items():
        if k.startswith("<%s as std::iter::FromIterator" % t["s"]) and k.endswith(">::from_iter"):
            return E.call_body(st, b, [args[0]], depth + 1)
    return None


def m_extend(E, st, callee, args, dty, depth, body, line):
    if callee.get("local"):
        return None
    r, v = vec_of(E, st, args[0])
    src = args[1]
    if not is_iterish(E, src):
        x = m_into_iter(E, st, {"path": "", "rpath": "<I as std::iter::IntoIterator>::into_iter"}, [src], dty, depth, body, line)
        if x is None:
            return None
        src = x[0][1]

    def per(s, roots, item):
        w = s.mem[roots[0]]
        s2 = s.copy()
        s2.mem[roots[0]] = ("vec", w[1], w[2].addc(1), ("store", w[3], w[2], item))
        return [("cont", s2)]

    out = consume(E, st, src, [(v, None)], per, depth, body, line)
    res = []
    for o in out:
        if isinstance(o, Outcome):
            res.append(o)
        else:
            s = o[1].copy()
            E.write(s, r[1], r[2], o[2][0])
            res.append((s, UNIT))
    return res


def m_opaque_pure(E, st, callee, args, dty, depth, body, line):
    """result is an unknown but deterministic function of the (snapshotted) arguments; nothing is modified"""
    name = callee.get("inst") or callee["path"]
    if callee.get("local") and E.p.bodies.get(name) is not None:
        return None
    s = st.copy()
    return [(s, E.sym(("call", name, tuple(E.snap(s, a) for a in args)), dty))]


def m_sort(E, st, callee, args, dty, depth, body, line):
    sl = as_slice(E, st, args[0])
    v = E.read(st, sl[1], sl[2])
    s = st.copy()
    E.write(s, sl[1], sl[2], ("vec", v[1], v[2], E.freshterm("hvc")))
    return [(s, UNIT)]


def m_hash_write(E, st, callee, args, dty, depth, body, line):
    s = st.copy()
    s.log.append(("hash", callee["path"].split("::")[-1], E.snap(s, args[1])))
    return [(s, UNIT)]


def m_box_clone(E, st, callee, args, dty, depth, body, line):
    return m_clone(E, st, callee, args, dty, depth, body, line)


def m_ri_new(E, st, callee, args, dty, depth, body, line):
    return [(st, ("agg", dty, 0, (args[0], args[1], ("bool", False))))]


def m_ri_field(i):
    def f(E, st, callee, args, dty, depth, body, line):
        r = args[0]
        return [(st, ("ref", r[1], r[2] + (("f", i),)))] if r[0] == "ref" else None

    return f


def m_range_is_empty(E, st, callee, args, dty, depth, body, line):
    v = deref(E, st, args[0])
    if v[0] == "agg" and len(v[3]) >= 2 and v[3][0][0] == "int":
        p = E.T[v[1]].get("path")
        if p == "std::ops::Range":
            return [(st, ("bool", prim(("ge", v[3][0][1].sub(v[3][1][1])))))]
    return None


def m_bound(which):
    def f(E, st, callee, args, dty, depth, body, line):
        v = deref(E, st, args[0])
        r = args[0]
        if v[0] == "agg" and v[1] is not None:
            p = E.T[v[1]].get("path", "")
            i = 0 if which == "start" else 1
            # Bound: Included 0, Excluded 1, Unbounded 2
            if p == "std::ops::Range":
                return [(st, ("agg", dty, 0 if i == 0 else 1, (("ref", r[1], r[2] + (("f", i),)),)))]
            if p == "std::ops::RangeInclusive":
                return [(st, ("agg", dty, 0, (("ref", r[1], r[2] + (("f", i),)),)))]
        if v[0] == "sym":
            # generic RangeBounds: a pure function of the range value
            return [(st, E.sym((which + "_bound", v[1]), dty))]
        return None

    return f


def m_is_sorted(E, st, callee, args, dty, depth, body, line):
    sl = as_slice(E, st, args[0])
    v = E.read(st, sl[1], sl[2])
    return [(st, ("bool", ("b", ("sorted", v[3], sl[3], sl[4]))))]


def install(E):
    M = E.models
    P = lambda *names: names

    def reg(f, *names):
        for n in names:
            M[n] = f

    reg(m_index, "std::ops::Index::index", "std::ops::IndexMut::index_mut",
        "<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut")
    S = "core::slice::<impl [T]>::"
    V = "std::vec::Vec::<T, A>::"
    reg(m_get, S + "get", S + "get_mut")
    reg(m_get_unchecked, S + "get_unchecked", S + "get_unchecked_mut")
    reg(m_len, S + "len", V + "len")
    reg(m_capacity, V + "capacity")
    reg(m_is_empty, S + "is_empty", V + "is_empty")
    reg(m_as_slice, "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", V + "as_slice", V + "as_mut_slice",
        "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::convert::AsMut::as_mut")
    reg(m_first_last(0), S + "first", S + "first_mut")
    reg(m_first_last(1), S + "last", S + "last_mut")
    reg(m_vec_new, "std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
    reg(m_from_elem, "std::vec::from_elem")
    reg(m_push, V + "push")
    reg(m_pop, V + "pop")
    reg(m_clear, V + "clear")
    reg(m_truncate, V + "truncate")
    reg(m_resize, V + "resize")
    reg(m_extend_slice, V + "extend_from_slice")
    reg(m_extend, "std::iter::Extend::extend")
    reg(m_noop, V + "reserve", V + "reserve_exact", V + "shrink_to_fit", V + "shrink_to")
    reg(m_ident, V + "into_boxed_slice", "std::slice::<impl [T]>::into_vec", V + "from_raw_parts", "core::hint::black_box", "std::hint::black_box", "std::hint::must_use", "core::hint::must_use")
    reg(m_to_vec, "std::slice::<impl [T]>::to_vec", "std::borrow::ToOwned::to_owned")
    reg(m_clone, "std::clone::Clone::clone")
    reg(m_swap, "std::mem::swap")
    reg(m_replace, "std::mem::replace")
    reg(m_take_default, "std::mem::take")
    reg(m_slice_copy, S + "copy_from_slice", S + "clone_from_slice")
    reg(m_slice_fill, S + "fill")
    for A in ("std::arch::x86_64::", "core::arch::x86_64::", "core::core_arch::x86::avx::", "core::core_arch::x86::avx2::", "core::core_arch::x86::avx512bw::"):
        reg(m_simd_load16, A + "_mm256_loadu_epi16")
        reg(m_simd_set1, A + "_mm256_set1_epi16")
        reg(m_simd_set16, A + "_mm256_set_epi16")
        reg(m_simd_sub16, A + "_mm256_sub_epi16")
        reg(m_simd_add16, A + "_mm256_add_epi16")
        for n, f in (
            ("cmpgt", lambda a, b: ("ge", a.sub(b).addc(-1))),
            ("cmpge", lambda a, b: ("ge", a.sub(b))),
            ("cmplt", lambda a, b: ("ge", b.sub(a).addc(-1))),
            ("cmple", lambda a, b: ("ge", b.sub(a))),
        ):
            reg(simd_cmp(f), A + "_mm256_%s_epu16_mask" % n)
    reg(m_as_ptr, S + "as_ptr", S + "as_mut_ptr", V + "as_ptr", V + "as_mut_ptr")
    reg(m_ptr_add, "core::ptr::const_ptr::<impl *const T>::add", "core::ptr::mut_ptr::<impl *mut T>::add")
    for ty in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
        N = "core::num::<impl %s>::" % ty
        reg(m_count_ones, N + "count_ones")
        reg(m_count_zeros, N + "count_zeros")
        reg(m_tz, N + "trailing_zeros")
        reg(m_lz, N + "leading_zeros")
        reg(m_is_multiple_of, N + "is_multiple_of")
        reg(m_div_ceil, N + "div_ceil")
        for op in ("add", "sub", "mul", "neg"):
            reg(m_wrapping(op), N + "wrapping_" + op)
        for op in ("add", "sub", "mul"):
            reg(m_checked(op), N + "checked_" + op)
            reg(m_saturating(op), N + "saturating_" + op)
            reg(m_overflowing(op), N + "overflowing_" + op)
        reg(m_checked_div, N + "checked_div", N + "checked_rem")
        reg(m_checked_sh("Shl"), N + "checked_shl")
        reg(m_checked_sh("Shr"), N + "checked_shr")
        reg(m_wrapping_sh("Shl"), N + "wrapping_shl")
        reg(m_wrapping_sh("Shr"), N + "wrapping_shr")
        reg(m_abs_diff, N + "abs_diff")
        reg(m_next_pow2, N + "next_power_of_two")
        reg(m_unsigned_abs, N + "unsigned_abs")
        reg(m_opaque_pure, N + "reverse_bits", N + "swap_bytes", N + "rotate_left", N + "rotate_right", N + "leading_ones", N + "trailing_ones", N + "pow")
    reg(m_pdep, "util::pdep::Pdep::pdep")
    reg(m_min("min"), "std::cmp::min", "std::cmp::Ord::min")
    reg(m_min("max"), "std::cmp::max", "std::cmp::Ord::max")
    reg(m_clamp, "std::cmp::Ord::clamp")
    reg(m_cmp, "std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
    reg(m_eq(False), "std::cmp::PartialEq::eq")
    reg(m_eq(True), "std::cmp::PartialEq::ne")
    for n, o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
        reg(m_rel(o), "std::cmp::PartialOrd::" + n)
    reg(m_nz_new, "std::num::NonZero::<T>::new")
    reg(m_nz_get, "std::num::NonZero::<T>::get")
    reg(m_nz_checked_add, "std::num::NonZero::<usize>::checked_add")
    reg(m_into, "std::convert::From::from", "std::convert::Into::into")
    reg(m_try_from, "std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
    for tr, op in (("BitAnd::bitand", "BitAnd"), ("BitOr::bitor", "BitOr"), ("BitXor::bitxor", "BitXor"), ("Shr::shr", "Shr"), ("Shl::shl", "Shl")):
        reg(m_ref_binop(op), "std::ops::" + tr)
    reg(m_default, "std::default::Default::default")
    reg(m_size_of, "std::mem::size_of", "core::mem::size_of", "std::mem::size_of_val")
    reg(m_unit_box_new, "std::boxed::Box::<T>::new")
    O = "std::option::Option::<T>::"
    R = "std::result::Result::<T, E>::"
    reg(m_opt_as_ref, O + "as_ref", O + "as_mut")
    reg(m_opt_copied, "std::option::Option::<&T>::copied", "std::option::Option::<&T>::cloned")
    reg(m_opt_take, O + "take")
    reg(m_opt_unwrap, O + "unwrap", O + "expect", R + "unwrap", R + "expect")
    reg(m_unwrap_unchecked, O + "unwrap_unchecked", R + "unwrap_unchecked")
    reg(m_is(1), O + "is_some", R + "is_err")
    reg(m_is(0), O + "is_none", R + "is_ok")
    # iterators
    I = "std::iter::Iterator::"
    reg(m_slice_iter, S + "iter", S + "iter_mut")
    reg(mk_adapter("chunks", 2), S + "chunks")
    reg(mk_adapter("windows", 2), S + "windows")
    M[S + "chunks"] = lambda E, st, c, a, d, dep, b, l: [(st, it("chunks", as_slice(E, st, a[0]), a[1]))]
    M[S + "windows"] = lambda E, st, c, a, d, dep, b, l: [(st, it("windows", as_slice(E, st, a[0]), a[1]))]
    reg(m_into_iter, "std::iter::IntoIterator::into_iter")
    for k, n in (("enumerate", 1), ("rev", 1), ("copied", 1), ("cloned", 1), ("zip", 2), ("map", 2), ("take", 2), ("skip", 2), ("step_by", 2), ("filter", 2)):
        reg(mk_adapter(k, n), I + k)
    reg(m_next(False), I + "next")
    reg(m_next(True), "std::iter::DoubleEndedIterator::next_back")
    reg(m_size_hint_len, "std::iter::ExactSizeIterator::len")
    reg(m_for_each, I + "for_each")
    reg(m_fold, I + "fold")
    reg(m_sum, I + "sum")
    reg(m_count, I + "count")
    for k in ("any", "all", "position", "find"):
        reg(m_quant(k), I + k)
    reg(m_collect, I + "collect", "std::iter::FromIterator::from_iter")
    reg(m_opaque_pure, I + "min_by_key", I + "max_by_key", I + "min_by", I + "max_by", I + "min", I + "max", I + "last")
    reg(m_sort, S + "sort_unstable_by", S + "sort_unstable_by_key", S + "sort_unstable", "std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort_by_key")
    reg(m_is_sorted, S + "is_sorted")
    for w in ("write_u64", "write_usize", "write_u32", "write_u8", "write_u128", "write"):
        reg(m_hash_write, "std::hash::Hasher::" + w)
    reg(m_ri_new, "std::ops::RangeInclusive::<Idx>::new")
    reg(m_ri_field(0), "std::ops::RangeInclusive::<Idx>::start")
    reg(m_ri_field(1), "std::ops::RangeInclusive::<Idx>::end")
    reg(m_range_is_empty, "std::ops::Range::<Idx>::is_empty")
    reg(m_bound("start"), "std::ops::RangeBounds::start_bound")
    reg(m_bound("end"), "std::ops::RangeBounds::end_bound")
    # consumers only when the receiver is a modelled iterator: local iterator types have their own bodies
    for n in ("enumerate", "rev", "copied", "cloned", "zip", "map", "take", "skip", "step_by", "filter"):
        pass
    for n in ("for_each", "fold", "sum", "count"):
        f0 = M[I + n]

        def g(E, st, callee, args, dty, depth, body, line, f0=f0):
            if callee.get("local"):
                return None
            return f0(E, st, callee, args, dty, depth, body, line)

        M[I + n] = g
