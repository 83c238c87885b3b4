"""Linear integer expressions over interned atoms and the relational (polyhedral) abstract domain.

A Lin is c + sum(k_i * atom_i).  Atoms are interned terms with an integer range and optional
definitional facts (floor division, powers of two, ...).  `infeasible` is the emptiness test of the
domain: exact equality elimination followed by Fourier-Motzkin projection with integer tightening.
"""
from math import gcd


class Lin:
    __slots__ = ("c", "t", "_h", "_i")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))
        self._i = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t)

    def __repr__(self):
        return show(self)

    def const(self):
        return self.c if not self.t else None

    def add(self, o, k=1):
        if not o.t:
            return Lin(self.c + k * o.c, self.t)
        d = dict(self.t)
        for a, x in o.t:
            v = d.get(a, 0) + k * x
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))

    def sub(self, o):
        return self.add(o, -1)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    def addc(self, k):
        return Lin(self.c + k, self.t)

    def neg(self):
        return self.scale(-1)

    def atoms(self):
        return [a for a, _ in self.t]


def K(n):
    return Lin(n)


class Atoms:
    """Interned atoms."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.ids = {}
        self.key = []
        self.lo = []
        self.hi = []
        self.facts = []  # list of list of ('ge'|'eq', Lin)
        self.depth = []

    def get(self, key, lo=None, hi=None):
        i = self.ids.get(key)
        if i is None:
            i = len(self.key)
            self.ids[key] = i
            self.key.append(key)
            self.lo.append(lo)
            self.hi.append(hi)
            self.facts.append(None)
        return i

    def find(self, key):
        return self.ids.get(key)


AT = Atoms()


def atom(key, lo=None, hi=None):
    return Lin(0, ((AT.get(key, lo, hi), 1),))


def show(x, depth=0):
    if isinstance(x, Lin):
        parts = []
        for a, k in x.t:
            s = showkey(AT.key[a], depth + 1)
            parts.append((("%+d*" % k) if k not in (1, -1) else ("+" if k == 1 else "-")) + s)
        if x.c or not parts:
            parts.append("%+d" % x.c)
        r = "".join(parts)
        return r[1:] if r.startswith("+") else r
    return showkey(x, depth)


def showkey(k, depth=0):
    if isinstance(k, Lin):
        return show(k, depth)
    if isinstance(k, tuple):
        if depth > 6:
            return "..."
        return "(" + " ".join(showkey(y, depth + 1) for y in k) + ")"
    return str(k)


_bounds = {}


def bounds(a, lo, hi):
    """interval of an atom as constraints"""
    r = _bounds.get((a, lo, hi))
    if r is None:
        r = []
        if lo is not None:
            r.append(("ge", Lin(-lo, ((a, 1),))))
        if hi is not None:
            r.append(("ge", Lin(hi, ((a, -1),))))
        _bounds[(a, lo, hi)] = r
    return r


def ge(a, b):
    """a >= b"""
    return ("ge", a.sub(b))


def le(a, b):
    return ("ge", b.sub(a))


def lt(a, b):
    return ("ge", b.sub(a).addc(-1))


def gt(a, b):
    return ("ge", a.sub(b).addc(-1))


def eq(a, b):
    return ("eq", a.sub(b))


def ne(a, b):
    return ("ne", a.sub(b))


def negate(f):
    """negation of a primitive fact, as a list of alternatives"""
    k, l = f
    if k == "ge":
        return [("ge", l.neg().addc(-1))]
    if k == "eq":
        return [("ge", l.addc(-1)), ("ge", l.neg().addc(-1))]
    return [("eq", l)]


def norm_ge(l):
    """integer tightening of l >= 0"""
    if not l.t:
        return l
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
        if g == 1:
            return l
    return Lin(l.c // g, tuple((a, k // g) for a, k in l.t))


LIMIT = 6000
MODE = [0]


class Stats:
    queries = 0
    unknown = 0


def subst(l, a, e):
    """replace atom a by Lin e in l"""
    for x, k in l.t:
        if x == a:
            rest = Lin(l.c, tuple(p for p in l.t if p[0] != a))
            return rest.add(e, k)
    return l


def py_infeasible(facts):
    """True if the conjunction of ('ge'|'eq', Lin) facts has no integer solution (sound, incomplete)."""
    eqs = []
    ges = []
    for k, l in facts:
        if k == "eq":
            eqs.append(l)
        else:
            ges.append(l)
    # equality elimination
    while eqs:
        # choose an equality with a unit coefficient
        best = None
        for i, l in enumerate(eqs):
            if not l.t:
                if l.c != 0:
                    return True
                best = (i, None)
                break
            for a, k in l.t:
                if k == 1 or k == -1:
                    cost = len(l.t)
                    if best is None or best[1] is None or cost < best[2]:
                        best = (i, a, cost, k)
                    break
        if best is None:
            # no unit coefficients: gcd test, then treat as two inequalities
            for l in eqs:
                g = 0
                for _, k in l.t:
                    g = gcd(g, k)
                if g and l.c % g:
                    return True
                ges.append(l)
                ges.append(l.neg())
            break
        i = best[0]
        l = eqs.pop(i)
        if best[1] is None:
            continue
        a, k = best[1], best[3]
        # k*a + rest = 0  ->  a = -rest/k
        rest = Lin(l.c, tuple(p for p in l.t if p[0] != a))
        e = rest.neg() if k == 1 else rest
        eqs = [subst(x, a, e) for x in eqs]
        ges = [subst(x, a, e) for x in ges]
    cur = {}

    def put(l):
        l = norm_ge(l)
        if not l.t:
            return l.c >= 0
        o = cur.get(l.t)
        if o is None or l.c < o:
            cur[l.t] = l.c
        return True

    for l in ges:
        if not put(l):
            return True
    while True:
        # contradiction between opposite constraints + detect implied equalities
        for t, c in cur.items():
            nt = tuple((a, -k) for a, k in t)
            o = cur.get(nt)
            if o is not None and c + o < 0:
                return True
        if not cur:
            return False
        occ = {}
        for t in cur:
            for a, k in t:
                p = occ.get(a)
                if p is None:
                    p = occ[a] = [0, 0, 0, 0]
                if k > 0:
                    p[0] += 1
                    if k > 1:
                        p[2] = 1
                else:
                    p[1] += 1
                    if k < -1:
                        p[3] = 1
        besta, bestc = None, None
        for a, (p, n, np, nn) in occ.items():
            # exact integer projections first: a unit coefficient on one side
            cst = p * n - p - n + ((6, 60, 600)[MODE[0]] if np and nn else 0)
            if bestc is None or cst < bestc:
                besta, bestc = a, cst
        a = besta
        pos, negs, rest = [], [], {}
        for t, c in cur.items():
            k = 0
            for x, kk in t:
                if x == a:
                    k = kk
                    break
            if k > 0:
                pos.append((k, Lin(c, t)))
            elif k < 0:
                negs.append((-k, Lin(c, t)))
            else:
                rest[t] = c
        cur = rest
        if len(pos) * len(negs) + len(rest) > LIMIT:
            Stats.unknown += 1
            return False
        for kp, lp in pos:
            for kn, ln in negs:
                g = gcd(kp, kn)
                if not put(lp.scale(kn // g).add(ln, kp // g)):
                    return True


# ---------------------------------------------------------------- compiled emptiness test
def _load():
    import ctypes
    import os
    import subprocess
    import hashlib
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(here, "fm.cpp")
    try:
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
        d = os.path.join(os.path.dirname(here), ".cache")
        so = os.path.join(d, "fm-%s.so" % h)
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            tmp = so + ".%d" % os.getpid()
            subprocess.run(["g++", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.replace(tmp, so)
        L = ctypes.CDLL(so)
        return L
    except Exception:
        return None


_L = _load()

if _L is None:
    def infeasible(facts):
        Stats.queries += 1
        return py_infeasible(facts)
else:
    import ctypes as _ct
    from array import array as _arr
    import sys as _sys

    _M64 = (1 << 64) - 1
    _BIG = 1 << 120
    _reg = _L.fm_reg
    _reg.argtypes = [_ct.c_int, _ct.c_void_p, _ct.c_void_p, _ct.c_void_p, _ct.c_uint64, _ct.c_uint64]
    _inf = _L.fm_infeasible
    _inf.argtypes = [_ct.c_int, _ct.c_void_p, _ct.c_int, _ct.c_int]

    def _register(l):
        if not -_BIG < l.c < _BIG:
            return -1
        A = _arr("i")
        LO = _arr("Q")
        HI = _arr("Q")
        for a, k in l.t:
            if not -_BIG < k < _BIG:
                return -1
            A.append(a)
            LO.append(k & _M64)
            HI.append((k >> 64) & _M64)
        return _reg(len(A), A.buffer_info()[0], LO.buffer_info()[0], HI.buffer_info()[0], l.c & _M64, (l.c >> 64) & _M64)

    def infeasible(facts):
        """True if the conjunction of ('ge'|'eq', Lin) facts has no integer solution (sound, incomplete)."""
        Stats.queries += 1
        ids = _arr("i")
        for k, l in facts:
            i = l._i
            if i is None:
                i = l._i = _register(l)
            if i < 0:
                return py_infeasible(facts)
            ids.append(i * 2 + 1 if k == "eq" else i * 2)
        r = _inf(len(ids), ids.buffer_info()[0], LIMIT, (6, 60, 600)[MODE[0]])
        if r == 2:
            Stats.ovf = getattr(Stats, "ovf", 0) + 1
            return py_infeasible(facts)
        return r == 1
