"""Abstract interpreter over monomorphic MIR.

Abstract state = functional memory of symbolic values x linear-inequality facts (lin.py), partitioned by
control-flow trace.  Loops are solved by a fixpoint: the places a loop changes are replaced by fresh atoms,
candidate invariants (constant strides, telescoping sums, bounds, struct invariants supplied by a rule) are
filtered until they are inductive, and only then is the loop body evaluated once from the invariant state.
Nothing is executed; no solver is called.
"""
import time
import itertools
import re
from lin import *

W64 = 1 << 64
USIZE_MAX = W64 - 1
DBG = False
NARROW = {255: 8, (1 << 16) - 1: 16, (1 << 32) - 1: 32}  # element vectors of narrower integers
MAXBYTES = 1 << 56  # no allocation is larger (stated assumption)


class Giveup(Exception):
    pass


class State:
    __slots__ = ("mem", "cons", "nes", "bools", "log", "imp", "cf", "lk", "ef")

    def __init__(self):
        self.mem = {}
        self.cons = []
        self.nes = []
        self.bools = {}
        self.log = []
        self.imp = frozenset()
        self.cf = ()
        self.ef = ()
        self.lk = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.cons = list(self.cons)
        s.nes = list(self.nes)
        s.bools = dict(self.bools)
        s.log = list(self.log)
        s.imp = self.imp
        s.cf = self.cf
        s.ef = self.ef
        s.lk = self.lk
        return s


def mkint(l):
    return ("int", l)


UNIT = ("agg", None, 0, ())
UNINIT = ("uninit",)


def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == "ge":
        return ("ge", c[1].neg().addc(-1))
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "not":
        return c[1]
    if k == "and":
        return ("or", cnot(c[1]), cnot(c[2]))
    if k == "or":
        return ("and", cnot(c[1]), cnot(c[2]))
    return ("not", c)


def cand(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return ("and", a, b)


def cor(a, b):
    return cnot(cand(cnot(a), cnot(b)))


def prim(c):
    """normalise a primitive comparison"""
    if c is True or c is False:
        return c
    k = c[0]
    if k in ("ge", "eq", "ne"):
        l = c[1]
        if not l.t:
            return {"ge": l.c >= 0, "eq": l.c == 0, "ne": l.c != 0}[k]
        if k == "ge":
            return ("ge", norm_ge(l))
        # a product with a power of two is zero iff the other factor is
        if len(l.t) == 1 and l.c == 0:
            key = AT.key[l.t[0][0]]
            if key[0] == "mono":
                rest = [a for a in key[1] if not (AT.lo[a] is not None and AT.lo[a] >= 1)]
                if len(rest) == 1 and len(rest) < len(key[1]):
                    return (k, Lin(0, ((rest[0], 1),)))
            if key[0] == "andx" :
                pass
        if l.t[0][1] < 0:
            l = l.neg()
        return (k, l)
    return c


class Outcome:
    __slots__ = ("kind", "st", "val", "info")

    def __init__(self, kind, st, val=None, info=None):
        self.kind = kind  # 'ret' | 'panic'
        self.st = st
        self.val = val
        self.info = info


PANICS = re.compile(
    r"panicking|panic_fmt|unwrap_failed|expect_failed|slice_index_fail|slice_start_index|slice_end_index|slice_index_order|begin_panic|handle_alloc_error|panic_nounwind|capacity_overflow|panic_const|unreachable_default_msg"
)


class Engine:
    def __init__(self, prog, stop=(), max_depth=60, budget=200000):
        AT.reset()  # one analysis at a time: terms are only meaningful within it
        self.p = prog
        self.T = prog.types
        self.stop = dict(stop) if not isinstance(stop, dict) else stop
        self.fresh = itertools.count()
        self.frames = itertools.count(1)
        self.root_ty = {}
        self.max_depth = max_depth
        self.budget = budget
        self.steps = 0
        self.events = []  # global event hooks
        self.on_cast = None
        self.on_call = None
        self.on_rawop = None
        self.model_checks = []  # functions (valuation, atoms) -> bool: what a valuation must satisfy beyond the path
        self.axioms = []  # functions (engine, state, atoms) -> extra facts
        self.loop_cands = []  # rule-supplied candidate invariants: f(engine, entry, header, leaves) -> [facts]
        self.elt_types = {}  # content -> element type, for reads whose aliasing was undecided
        self.havoc_hooks = []  # f(engine, state, root, proj, ty) after a struct at that place was changed by a loop
        self.opaque_calls = []
        self.rewriters = {}  # atom-key kind -> f(key) -> Lin
        self.models = {}
        self.functions_seen = set()
        self.obligations = 0
        self.qcache = {}
        self.gbs = {}
        self.store_rules = {}  # vector content -> f(E, st, index, value): content after the store
        self.elt_rules = {}  # vector content -> f(E, st, index): value of an element by a type invariant
        self.visit_limit = 400000
        import models

        models.install(self)

    # ------------------------------------------------------------------ types
    def rng(self, ty):
        t = self.T[ty]
        if t["k"] == "uint":
            return 0, (1 << t["bits"]) - 1
        if t["k"] == "int":
            return -(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1
        if t["k"] == "bool":
            return 0, 1
        if t["k"] == "char":
            return 0, 0x10FFFF
        return None, None

    def is_int(self, ty):
        return ty is not None and self.T[ty]["k"] in ("int", "uint", "char")

    def bits(self, ty):
        return self.T[ty].get("bits", 64)

    def signed(self, ty):
        return self.T[ty]["k"] == "int"

    # ------------------------------------------------------------------ symbolic values
    def freshterm(self, tag):
        return (tag, next(self.fresh))

    def iatom(self, key, ty=None, lo=None, hi=None):
        if ty is not None:
            lo, hi = self.rng(ty)
        r = self.rewriters.get(key[0])
        if r:
            x = r(key)
            if x is not None:
                return x
        return atom(key, lo, hi)

    def sym(self, term, ty, depth=0):
        t = self.T[ty]
        k = t["k"]
        if k in ("int", "uint", "char"):
            return ("int", self.iatom(term, ty))
        if k == "bool":
            return ("bool", ("eq", atom(term, 0, 1).addc(-1)))
        if k in ("ref", "ptr"):
            to = self.T[t["to"]]
            root = ("O", term)
            if to["k"] == "slice":
                ln = self.lenatom(term, to["to"])
                self.root_ty[root] = t["to"]
                return ("slice", root, (), K(0), ln)
            if to["k"] == "str":
                return ("str", term)
            self.root_ty[root] = t["to"]
            return ("ref", root, ())
        if k == "adt":
            p = t["path"]
            if p == "std::vec::Vec":
                return ("vec", t["args"][0], self.lenatom(term, t["args"][0]), ("init", term))
            if p == "std::boxed::Box":
                inner = self.T[t["args"][0]]
                if inner["k"] == "slice":
                    return ("vec", inner["to"], self.lenatom(term, inner["to"]), ("init", term))
                return ("sym", term, ty)
            if p == "std::num::NonZero":
                a = t["args"][0]
                lo, hi = self.rng(a) if self.is_int(a) else (None, None)
                return ("nz", atom(("fld", term, 0), max(1, lo) if lo == 0 else lo, hi))
            if t["kind"] == "struct" and "variants" in t and not p.startswith("std::") and depth < 8:
                return self.sym_struct(term, ty, depth)
            if t["kind"] == "struct" and p in ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom", "std::ops::RangeTo"):
                return self.sym_struct(term, ty, depth)
            return ("sym", term, ty)
        if k == "tuple":
            return ("agg", ty, 0, tuple(self.sym(("fld", term, i), x, depth + 1) for i, x in enumerate(t["ts"])))
        if k == "closure":
            return ("closure", t["inst"], tuple(self.sym(("fld", term, i), x, depth + 1) for i, x in enumerate(t["ts"])), ty)
        if k == "fndef":
            return ("fn", ty)
        if k == "array":
            n = t.get("n")
            return ("vec", t["to"], K(n) if n is not None else self.lenatom(term, t["to"]), ("init", term))
        return ("sym", term, ty)

    def sym_struct(self, term, ty, depth=0):
        t = self.T[ty]
        fs = t["variants"][0]["f"]
        v = ("agg", ty, 0, tuple(self.sym(("fld", term, i), f["t"], depth + 1) for i, f in enumerate(fs)))
        inv = self.struct_inv.get(t.get("path"))
        if inv:
            for f in inv(self, v):
                for a, _ in f[1].t:
                    if AT.facts[a] is None:
                        AT.facts[a] = []
                    if f not in AT.facts[a]:
                        AT.facts[a].append(f)
        return v

    struct_inv = {}

    def lenatom(self, term, elemty):
        sz = self.T[elemty].get("size", 1) or 1
        return atom(("len", term), 0, MAXBYTES // sz)

    def expand_enum(self, st, v):
        """('sym', term, enum ty) -> list of (state, concrete variant value)"""
        _, term, ty = v
        t = self.T[ty]
        known = st.bools.get(("variant", term))
        res = []
        for vi, var in enumerate(t["variants"]):
            if known is not None and known != vi:
                continue
            if any(self.T[f["t"]]["k"] == "never" for f in var["f"]):
                continue
            s = st if known is not None else st.copy()
            s.bools[("variant", term)] = vi
            fs = tuple(self.sym(("vfld", term, vi, i), f["t"]) for i, f in enumerate(var["f"]))
            res.append((s, ("agg", ty, vi, fs)))
        return res

    # ------------------------------------------------------------------ facts and queries
    def closure(self, st, facts, use_axioms=True, early=False):
        """cone of influence: facts + related state constraints + definitional facts of all atoms involved"""
        out = list(facts)
        atoms = set()
        work = []

        def addatoms(l):
            for a, _ in l.t:
                if a not in atoms:
                    atoms.add(a)
                    work.append(a)

        for _, l in facts:
            addatoms(l)
        cons = self.linked(st)
        used = [False] * len(cons)
        while True:
            while work:
                a = work.pop()
                lo, hi = AT.lo[a], AT.hi[a]
                if lo is not None or hi is not None:
                    out += bounds(a, lo, hi)
                fs = AT.facts[a]
                if fs:
                    for f in fs:
                        out.append(f)
                        addatoms(f[1])
            ch = False
            for i, f in enumerate(cons):
                if used[i]:
                    continue
                for a, _ in f[1].t:
                    if a in atoms:
                        used[i] = True
                        out.append(f)
                        addatoms(f[1])
                        ch = True
                        break
            if not ch and not work:
                break
        if use_axioms:
            if early and infeasible([f for f in out if f[0] != "ne"]):
                return None, atoms
            have = set()
            for _ in range(3):
                extra = []
                for a in sorted(atoms):
                    if AT.key[a][0] == "pow2":
                        extra += self.pow2_facts(st, a)
                extra += self.congruence(st, atoms, facts)
                for ax in self.axioms:
                    extra += ax(self, st, atoms, facts)
                extra = [f for f in extra if f not in have]
                have.update(extra)
                out += extra
                before = len(atoms)
                for _k, l in extra:
                    addatoms(l)
                if len(atoms) == before:
                    break
                # the new atoms' own facts
                while work:
                    a = work.pop()
                    out += bounds(a, AT.lo[a], AT.hi[a])
                    for f in AT.facts[a] or ():
                        out.append(f)
                        addatoms(f[1])
                for i, f in enumerate(cons):
                    if not used[i] and any(a in atoms for a, _ in f[1].t):
                        used[i] = True
                        out.append(f)
        return [f for f in out if f[0] != "ne"], atoms

    def linked(self, st):
        """the constraints of the state together with the definitional facts of the atoms they mention"""
        n = (len(st.cons), len(st.nes))
        c = st.lk
        if c is not None and c[0] == n:
            return c[1]
        out = list(st.cons)
        have = set(out)
        seen = set()
        work = list(st.cons) + [("ne", l) for l in st.nes]
        for l in st.nes:
            out.append(("ne", l))
        while work:
            f = work.pop()
            for a, _ in f[1].t:
                if a in seen:
                    continue
                seen.add(a)
                for g in AT.facts[a] or ():
                    if g not in have:
                        have.add(g)
                        out.append(g)
                        work.append(g)
        st.lk = (n, out)
        return out

    CONG = {"gb": (2,), "bit": (1, 2), "elt": (2,), "pow2": (1,), "lowbits": (1, 2), "pop": (1,), "shr": (1, 2), "P": (2,), "ilog2": (1,), "selidx": (3,), "selfin": (2,), "selpos": (2, 4)}

    def congruence(self, st, atoms, facts):
        """equal arguments give equal values, for the value terms in the cone"""
        groups = {}
        shapes = set()
        for a in atoms:
            pos = self.CONG.get(AT.key[a][0])
            if pos is not None:
                shapes.add(tuple(x for i, x in enumerate(AT.key[a]) if i not in pos))
        if not shapes:
            return []
        al = set(atoms)
        for f in st.cons:
            for a, _ in f[1].t:
                al.add(a)
        for a in al:
            key = AT.key[a]
            pos = self.CONG.get(key[0])
            if pos is None:
                continue
            rest = tuple(x for i, x in enumerate(key) if i not in pos)
            if rest in shapes:
                groups.setdefault(rest, []).append((a, [key[i] for i in pos]))
        out = []
        n = 0
        for rest, l in groups.items():
            l.sort(key=lambda e: e[0])
            for i in range(len(l)):
                if rest == ("bit",) and l[i][1][1].t and self.same(st, l[i][1][1], K(0)):
                    x = l[i][1][0]
                    out.append(("eq", Lin(0, ((l[i][0], 1),)).sub(self.modc(x, 2))))
                for j in range(i):
                    n += 1
                    if n > 60:
                        return out
                    if all(self.same(st, x, y) for x, y in zip(l[i][1], l[j][1])):
                        out.append(("eq", Lin(0, ((l[j][0], -1), (l[i][0], 1)))))
        return out

    def same(self, st, x, y):
        d = x.sub(y)
        if not d.t:
            return d.c == 0
        # cheap rejection: no constraint of the state mentions these atoms together
        return self.infeasible_with(st, [("ge", d.addc(-1))], False) and self.infeasible_with(st, [("ge", d.neg().addc(-1))], False)

    def pow2_facts(self, st, a):
        """bounds of 2^k from bounds of k"""
        k = AT.key[a][1]
        p = Lin(0, ((a, 1),))
        out = []
        for c in (63, 31):
            if self.infeasible_with(st, [("ge", k.addc(-c - 1))], False):
                out = [("ge", K(1 << c).sub(p))]
            else:
                break
        if self.infeasible_with(st, [("ge", k.neg())], False):
            out.append(("ge", p.addc(-2)))
        return out

    def infeasible_with(self, st, facts, use_axioms=True):
        prims = []
        nes = []
        for f in facts:
            f = prim(f)
            if f is False:
                return True
            if f is True:
                continue
            if f[0] == "ne":
                nes.append(f[1])
            else:
                prims.append(f)
        if not prims and not nes:
            return False
        key = (tuple(prims), tuple(nes), tuple(st.cons), tuple(st.nes), use_axioms, MODE[0])
        r = self.qcache.get(key)
        if r is not None:
            return r
        # the second form pulls in the cone of the disequalities
        base, atoms = self.closure(st, prims or [("ge", l.addc(1 << 110)) for l in nes], use_axioms, True)
        r = base is None or infeasible(base)
        if not r:
            allnes = nes + [l for l in st.nes if any(a in atoms for a, _ in l.t)]
            r = self._nes(base, allnes[:8], 0)
        if len(self.qcache) > 200000:
            self.qcache.clear()
        self.qcache[key] = r
        return r

    def dead(self, st):
        """no concrete state satisfies the constraints (tried on the conjunction of all of them)"""
        key = ("dead", tuple(st.cons), tuple(st.nes))
        r = self.qcache.get(key)
        if r is None:
            base, atoms = self.closure(st, list(st.cons), True, True)
            r = base is None or infeasible(base) or self._nes(base, [l for l in st.nes if any(a in atoms for a, _ in l.t)][:8], 0)
            self.qcache[key] = r
        return r

    def entails_hard(self, st, f):
        """entailment, retried with other projection orders and by emptiness of the state itself"""
        if self.entails(st, f):
            return True
        for m in (1, 2):
            MODE[0] = m
            try:
                if self.entails(st, f):
                    return True
            finally:
                MODE[0] = 0
        return self.dead(st)

    def infeasible_with_list(self, st, facts):
        return self.infeasible_with(st, list(facts))

    def _nes(self, base, nes, depth):
        if not nes:
            return False
        for l in nes:
            a = infeasible(base + [("ge", l.addc(-1))])
            b = infeasible(base + [("ge", l.neg().addc(-1))])
            if a and b:
                return True
            if depth < 2 and (a or b) and len(nes) > 1:
                nb = base + [("ge", l.neg().addc(-1)) if a else ("ge", l.addc(-1))]
                if infeasible(nb):
                    return True
                rest = [x for x in nes if x is not l]
                if self._nes(nb, rest, depth + 1):
                    return True
        return False

    def entails(self, st, f, use_axioms=True):
        f = prim(f)
        if f is True:
            return True
        if f is False:
            return False
        if f in st.cons:
            return True
        if f[0] in ("and",):
            return self.entails(st, f[1]) and self.entails(st, f[2])
        if f[0] == "or":
            if self.entails(st, f[1]) or self.entails(st, f[2]):
                return True
            ss = self.assume(st, cnot(f))
            return not ss
        if f[0] == "b":
            return st.bools.get(f[1]) is True
        if f[0] == "not":
            return st.bools.get(f[1][1]) is False if f[1][0] == "b" else False
        return all(self.infeasible_with(st, [g], use_axioms) for g in negate(f))

    def assume(self, st, c, check=True):
        """list of refined states"""
        c = prim(c)
        if c is True:
            return [st]
        if c is False:
            return []
        k = c[0]
        if k in ("ge", "eq"):
            if c in st.cons:
                return [st]
            if check and self.infeasible_with(st, [c]):
                return []
            s = st.copy()
            s.cons.append(c)
            return [s]
        if k == "ne":
            l = c[1]
            hi = not self.infeasible_with(st, [("ge", l.addc(-1))])
            lo = not self.infeasible_with(st, [("ge", l.neg().addc(-1))])
            if not hi and not lo:
                return []
            s = st.copy()
            if not lo:
                s.cons.append(prim(("ge", l.addc(-1))))
            elif not hi:
                s.cons.append(prim(("ge", l.neg().addc(-1))))
            else:
                s.nes.append(l)
            return [s]
        if k == "and":
            r = []
            for s in self.assume(st, c[1]):
                r += self.assume(s, c[2])
            return r
        if k == "or":
            r = self.assume(st, c[1])
            for s in self.assume(st, cnot(c[1])):
                r += self.assume(s, c[2])
            return r
        neg = False
        if k == "not":
            neg = True
            c = c[1]
            if c[0] != "b":
                return self.assume(st, cnot(c))
        term = c[1]
        v = st.bools.get(term)
        want = not neg
        if v is not None:
            return [st] if v == want else []
        s = st.copy()
        s.bools[term] = want
        return [s]

    # ------------------------------------------------------------------ arithmetic on Lin
    def divc(self, e, c, st=None):
        """floor(e / c), c > 0 constant"""
        if c == 1:
            return e
        A = {}
        B = {}
        for a, k in e.t:
            q, r = divmod(k, c)
            if r == 0:
                A[a] = q
            else:
                B[a] = k
        qc, rc = divmod(e.c, c)
        part = Lin(qc, tuple(sorted(A.items())))
        if not B:
            return part
        rest = Lin(rc, tuple(sorted(B.items())))
        # bounds of the rest: may collapse
        lo = rest.c
        hi = rest.c
        for a, k in rest.t:
            l, h = AT.lo[a], AT.hi[a]
            if l is None or h is None:
                lo = hi = None
                break
            lo += min(k * l, k * h)
            hi += max(k * l, k * h)
        if lo is not None and lo // c == hi // c:
            return part.addc(lo // c)
        if st is not None:
            # rest in [0, c) by the facts at hand?
            if self.entails(st, ("ge", rest), False) and self.entails(st, ("ge", rest.neg().addc(c - 1)), False):
                return part
        # floor(floor(x/a)/b) = floor(x/(ab))
        if len(rest.t) == 1 and rest.t[0][1] == 1 and rest.c == 0:
            key = AT.key[rest.t[0][0]]
            if key[0] == "div":
                return part.add(self.divc(key[1], key[2] * c, st))
        key = ("div", rest, c)
        i = AT.find(key)
        if i is None:
            q = atom(key, (lo // c) if lo is not None else None, (hi // c) if hi is not None else None)
            i = q.t[0][0]
            AT.facts[i] = [("ge", rest.sub(q.scale(c))), ("ge", q.scale(c).addc(c - 1).sub(rest))]
        else:
            q = Lin(0, ((i, 1),))
        return part.add(q)

    def modc(self, e, c, st=None):
        return e.sub(self.divc(e, c, st).scale(c))

    def mul(self, a, b):
        if not a.t:
            return b.scale(a.c)
        if not b.t:
            return a.scale(b.c)
        r = a.scale(b.c).add(Lin(0, b.t).scale(a.c)) if a.c or b.c else Lin(0)
        if a.c or b.c:
            r = Lin(0, a.t).scale(b.c).add(Lin(0, b.t).scale(a.c)).addc(a.c * b.c)
        for x, kx in a.t:
            for y, ky in b.t:
                r = r.add(self.mono(x, y), kx * ky)
        return r

    def mono(self, x, y):
        fx = AT.key[x][1] if AT.key[x][0] == "mono" else (x,)
        fy = AT.key[y][1] if AT.key[y][0] == "mono" else (y,)
        fs = tuple(sorted(fx + fy))
        # pow2(a) * pow2(b) = pow2(a+b)
        ps = [f for f in fs if AT.key[f][0] == "pow2"]
        if len(ps) >= 2:
            e = K(0)
            for f in ps:
                e = e.add(AT.key[f][1])
            rest = [f for f in fs if f not in ps]
            r = self.pow2(e)
            for f in rest:
                r = self.mul(r, Lin(0, ((f, 1),)))
            return r
        key = ("mono", fs)
        i = AT.find(key)
        if i is None:
            lo = 0 if all(AT.lo[f] is not None and AT.lo[f] >= 0 for f in fs) else None
            hi = None
            if lo is not None and all(AT.hi[f] is not None for f in fs):
                hi = 1
                for f in fs:
                    hi *= AT.hi[f]
                if hi >= 1 << 110:
                    hi = None
            i = AT.get(key, lo, hi)
            facts = []
            if lo == 0 and len(fs) == 2:
                # m >= x if y >= 1 (by range)
                for p, q in ((0, 1), (1, 0)):
                    if AT.lo[fs[q]] >= 1:
                        facts.append(("ge", Lin(0, ((i, 1),)).sub(Lin(0, ((fs[p], 1),)))))
                    if AT.hi[fs[q]] is not None and AT.hi[fs[q]] < 1 << 32:
                        facts.append(("ge", Lin(0, ((fs[p], 1),)).scale(AT.hi[fs[q]]).sub(Lin(0, ((i, 1),)))))
            AT.facts[i] = facts
        return Lin(0, ((i, 1),))

    def pow2(self, k):
        c = k.const()
        if c is not None and 0 <= c < 200:
            return K(1 << c)
        # normal form: pull a non-negative constant offset out
        if k.c > 0:
            return self.pow2(Lin(0, k.t)).scale(1 << k.c)
        key = ("pow2", k)
        i = AT.find(key)
        if i is None:
            i = AT.get(key, 1, None)
            AT.facts[i] = [("ge", Lin(0, ((i, 1),)).sub(k).addc(-1))]
        return Lin(0, ((i, 1),))

    def as_pow2(self, e):
        """k such that e == 2^k (Lin) or None"""
        if not e.t:
            if e.c > 0 and e.c & (e.c - 1) == 0:
                return K(e.c.bit_length() - 1)
            return None
        if e.c == 0 and len(e.t) == 1:
            a, k = e.t[0]
            if AT.key[a][0] == "pow2" and k > 0 and k & (k - 1) == 0:
                return AT.key[a][1].addc(k.bit_length() - 1)
        return None

    def uf(self, op, args, lo, hi, facts=None):
        key = (op,) + tuple(args)
        i = AT.find(key)
        if i is None:
            i = AT.get(key, lo, hi)
            if facts:
                AT.facts[i] = facts(Lin(0, ((i, 1),)))
        return Lin(0, ((i, 1),))

    def lowbits(self, x, k, bits):
        """x mod 2^k for 0 <= k <= bits, x unsigned"""
        c = k.const()
        if c is not None:
            return self.modc(x, 1 << c) if c < bits else x
        return self.uf(
            "lowbits",
            (x, k),
            0,
            (1 << bits) - 1,
            lambda l: [("ge", x.sub(l)), ("ge", self.pow2(k).sub(l).addc(-1))],
        )

    def band(self, st, a, b, bits):
        M = (1 << bits) - 1
        for x, y in ((a, b), (b, a)):
            if not y.t:
                if y.c == M:
                    return x
                if y.c == 0:
                    return K(0)
                if (y.c + 1) & y.c == 0:
                    n = y.c.bit_length()
                    if y.c == 1:
                        bt = self.bit_of(st, x)
                        if bt is not None:
                            return bt
                    return self.modc(x, y.c + 1, st)
            k = self.as_pow2(y.addc(1))
            if k is not None:
                return self.lowbits(x, k, bits)
            k = self.as_pow2(K(M + 1).sub(y))
            if k is not None:  # y = 2^bits - 2^k : high bits
                return x.sub(self.lowbits(x, k, bits))
            k = self.as_pow2(y)
            if k is not None:
                return self.mul(self.bit(st, x, k), self.pow2(k))
            k = self.as_pow2(K(M).sub(y))
            if k is not None:  # clear bit k
                return x.sub(self.mul(self.bit(st, x, k), self.pow2(k)))
        if not a.t and not b.t:
            return K(a.c & b.c)
        if a == b:
            return a
        x, y = sorted((a, b), key=lambda l: (l.c, l.t))
        return self.uf("and", (x, y), 0, M, lambda l: [("ge", x.sub(l)), ("ge", y.sub(l))])

    def bit_of(self, st, x):
        """x & 1"""
        if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
            key = AT.key[x.t[0][0]]
            if key[0] == "shr":
                return self.bit(st, key[1], key[2])
            if key[0] == "div" and key[2] & (key[2] - 1) == 0:
                return self.bit(st, key[1], K(key[2].bit_length() - 1))
            if key[0] == "elt" and (AT.hi[x.t[0][0]] == W64 - 1 or key[1][0] == "init" and AT.hi[x.t[0][0]] in NARROW):
                return self.bit(st, x, K(0))
            if key[0] in ("gb", "bit"):
                return x
        return None

    def bit(self, st, x, k):
        """bit k (0 <= k < width) of word x as a 0/1 expression"""
        c = k.const()
        if c is None and st is not None and self.same(st, k, K(0)):
            c = 0
            k = K(0)
        if not x.t:
            if c is not None:
                return K((x.c >> c) & 1)
            if x.c == 0:
                return K(0)
        if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0:
            a = x.t[0][0]
            key = AT.key[a]
            if key[0] == "elt" and AT.hi[a] == W64 - 1:
                return self.gbatom(st, key[1], key[2].scale(64).add(k))
            if key[0] == "elt" and key[1][0] == "init" and AT.hi[a] in NARROW:
                w = NARROW[AT.hi[a]]
                if c is not None and c < w or c is None and st is not None and self.entails(st, ("ge", K(w - 1).sub(k))):
                    return self.gbatom(st, ("bits", w, key[1]), key[2].scale(w).add(k))
            if key[0] in ("gb", "bit") and c is not None:
                return x if c == 0 else K(0)
            if key[0] == "shr":
                return self.bit(st, key[1], key[2].add(k)) if self.entails(st, ("ge", K(63).sub(key[2].add(k)))) else self.uf("bit", (x, k), 0, 1)
        if c == 0:
            return self.modc(x, 2)
        return self.uf("bit", (x, k), 0, 1)

    def gbatom(self, st, content, pos):
        """bit pos of the bit string stored in a word vector: canonical modulo the equalities of the state"""
        key = ("gb", content, pos)
        i = AT.find(key)
        if i is None and st is not None:
            for p in self.gbs.get(content, ()):
                d = p.sub(pos)
                if d.const() is None and self.entails(st, ("eq", d)):
                    return atom(("gb", content, p), 0, 1)
        if i is None:
            self.gbs.setdefault(content, []).append(pos)
        return atom(key, 0, 1)

    def bor(self, st, a, b, bits):
        M = (1 << bits) - 1
        if not a.t and not b.t:
            return K(a.c | b.c)
        for x, y in ((a, b), (b, a)):
            if not y.t and y.c == 0:
                return x
            if not y.t and y.c == M:
                return y
        if a == b:
            return a
        x, y = sorted((a, b), key=lambda l: (l.c, l.t))
        return self.uf(
            "or", (x, y), 0, M, lambda l: [("ge", l.sub(x)), ("ge", l.sub(y)), ("ge", x.add(y).sub(l))]
        )

    def bxor(self, st, a, b, bits):
        if not a.t and not b.t:
            return K(a.c ^ b.c)
        for x, y in ((a, b), (b, a)):
            if not y.t and y.c == 0:
                return x
        if a == b:
            return K(0)
        x, y = sorted((a, b), key=lambda l: (l.c, l.t))
        return self.uf("xor", (x, y), 0, (1 << bits) - 1, lambda l: [("ge", x.add(y).sub(l))])

    def shl(self, st, a, k, bits):
        M1 = 1 << bits
        c = k.const()
        if not a.t:
            if a.c == 0:
                return K(0)
            if c is not None:
                return K((a.c << (c % bits)) % M1)
            p = a.c
            if p & (p - 1) == 0:
                # p * 2^k, still inside the word?
                s = p.bit_length() - 1
                if s == 0 or self.entails(st, ("ge", K(bits - 1 - s).sub(k))):
                    return self.pow2(k.addc(s))
            if p == M1 - 1:
                return K(M1).sub(self.pow2(k))
        if c is not None:
            e = a.scale(1 << c)
            if self.entails(st, ("ge", K(M1 - 1).sub(e))):
                return e
            return self.uf("shl", (a, k, bits), 0, M1 - 1)
        return self.uf("shl", (a, k, bits), 0, M1 - 1)

    def shr(self, st, a, k, bits):
        c = k.const()
        if c is not None:
            return self.divc(a, 1 << (c % bits), st)
        if not a.t and a.c == 0:
            return K(0)
        return self.uf("shr", (a, k), 0, (1 << bits) - 1, lambda l: [("ge", a.sub(l))])

    def popcount(self, st, x, bits):
        if not x.t:
            return K(bin(x.c).count("1"))
        return self.uf("pop", (x,), 0, bits)

    def ilog2(self, x, bits):
        """floor(log2 x) for x >= 1"""
        return self.uf("ilog2", (x,), 0, bits - 1)

    def inrange(self, st, e, lo, hi):
        return self.entails(st, ("ge", e.addc(-lo))) and self.entails(st, ("ge", K(hi).sub(e)))

    def wrap(self, st, e, ty, linear=True):
        """value of e in type ty (wrapping): list of (state, Lin)"""
        lo, hi = self.rng(ty)
        m = hi - lo + 1
        if not e.t:
            return [(st, K((e.c - lo) % m + lo))]
        if self.inrange(st, e, lo, hi):
            return [(st, e)]
        res = []
        for s in self.assume(st, ("ge", e.addc(-lo))):
            for s2 in self.assume(s, ("ge", K(hi).sub(e))):
                res.append((s2, e))
        if linear:
            # one wrap in either direction
            over = e.addc(-m)
            for s in self.assume(st, ("ge", e.addc(-hi - 1))):
                if self.entails(s, ("ge", K(hi).sub(over))):
                    res.append((s, over))
                else:
                    w = atom(self.freshterm("wrapped"), lo, hi)
                    s = s.copy()
                    s.imp = s.imp | {"wrapping arithmetic"}
                    res.append((s, w))
            under = e.addc(m)
            for s in self.assume(st, ("ge", K(lo - 1).sub(e))):
                if self.entails(s, ("ge", under.addc(-lo))):
                    res.append((s, under))
                else:
                    w = atom(self.freshterm("wrapped"), lo, hi)
                    s = s.copy()
                    s.imp = s.imp | {"wrapping arithmetic"}
                    res.append((s, w))
        else:
            for s in self.assume(st, ("ge", e.addc(-hi - 1))):
                s = s.copy()
                s.imp = s.imp | {"wrapping multiplication"}
                res.append((s, atom(("wrapped", e, ty), lo, hi)))
            for s in self.assume(st, ("ge", K(lo - 1).sub(e))):
                s = s.copy()
                s.imp = s.imp | {"wrapping multiplication"}
                res.append((s, atom(("wrapped", e, ty), lo, hi)))
        return res

    # ------------------------------------------------------------------ memory
    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "O":
                ty = self.root_ty[root]
                t = self.T[ty]
                if t["k"] == "slice":
                    v = ("vec", t["to"], self.lenatom(root[1], t["to"]), ("init", root[1]))
                else:
                    v = self.sym(("deref", root[1]), ty)
                st.mem[root] = v
            elif root[0] == "C":
                raise Giveup("constant object missing")
            else:
                return UNINIT
        return v

    def read(self, st, root, proj):
        v = self.root_value(st, root)
        for i, e in enumerate(proj):
            v = self.proj1(st, v, e, (root, proj[:i]))
        return v

    def proj1(self, st, v, e, where=None):
        k = e[0]
        if k == "f":
            if v[0] == "agg":
                if e[1] < len(v[3]):
                    return v[3][e[1]]
                return UNINIT
            if v[0] == "closure":
                return v[2][e[1]]
            if v[0] == "iter":
                raise Giveup("field of iterator model")
            if v[0] == "nz":
                return ("int", v[1])
            if v[0] == "ovf":
                return ("int", v[1]) if e[1] == 0 else ("bool", v[2])
            if v[0] == "sym":
                t = self.T[v[2]]
                fs = t.get("variants", [{}])[0].get("f") if t["k"] == "adt" and t.get("kind") == "struct" else None
                if fs:
                    return self.sym(("fld", v[1], e[1]), fs[e[1]]["t"])
            if v[0] == "uninit":
                return UNINIT
            raise Giveup("field %s of %s" % (e, v[0]))
        if k == "d":
            if v[0] == "agg":
                return v
            if v[0] == "sym":
                for s, x in self.expand_enum(st, v):
                    if x[2] == e[1]:
                        return x
            raise Giveup("downcast of %s" % (v[0],))
        if k == "i":
            if v[0] == "vec":
                return self.elem(st, v, e[1])
            raise Giveup("index of %s" % v[0])
        if k == "bx":
            if v[0] == "box":
                return v[1]
            if v[0] == "sym":
                t = self.T[v[2]]
                return self.sym(("deref", v[1]), t["args"][0])
            raise Giveup("box deref of %s" % v[0])
        raise Giveup("projection %s" % (e,))

    def elem(self, st, v, idx):
        _, ety, ln, content = v
        c = content
        while True:
            if c[0] == "store":
                d = c[2].sub(idx)
                if d.const() is not None:
                    if d.c == 0:
                        return c[3]
                    c = c[1]
                    continue
                if self.entails(st, ("eq", d)):
                    return c[3]
                if self.entails(st, ("ne", d)):
                    c = c[1]
                    continue
                break
            if c[0] == "fill":
                return c[1]
            if c[0] == "lit":
                if idx.const() is not None and 0 <= idx.c < len(c[1]):
                    return c[1][idx.c]
                break
            if c[0] == "sub":  # subslice copy of another content
                return self.elem(st, ("vec", ety, ln, c[1]), idx.add(c[2]))
            if c[0] == "ext":  # old content up to c[2], then a constant
                if self.entails(st, ("ge", c[2].sub(idx).addc(-1))):
                    c = c[1]
                    continue
                if self.entails(st, ("ge", idx.sub(c[2]))):
                    return c[3]
                break
            if c[0] == "cat":
                if self.entails(st, ("ge", c[2].sub(idx).addc(-1))):
                    c = c[1]
                    continue
                if self.entails(st, ("ge", idx.sub(c[2]))):
                    return self.elem(st, ("vec", ety, ln, c[3]), idx.sub(c[2]).add(c[4]))
                break
            if c[0] == "blit":
                if self.entails(st, ("ge", c[2].sub(idx).addc(-1))) or self.entails(st, ("ge", idx.sub(c[2]).sub(c[3]))):
                    c = c[1]
                    continue
                if self.entails(st, ("ge", idx.sub(c[2]))) and self.entails(st, ("ge", c[2].add(c[3]).sub(idx).addc(-1))):
                    return self.elem(st, ("vec", ety, ln, c[4]), idx.sub(c[2]).add(c[5]))
                break
            if st.cf and c[0] in ("hvc", "call"):
                hit = False
                for cid, lo, hi, F in st.cf:
                    al = getattr(F, "alias", None)
                    if al is not None and cid == c and self.entails(st, ("ge", idx.scale(64).sub(lo))) and self.entails(st, ("ge", hi.sub(idx.scale(64)).addc(-64))):
                        c, hit = al, True
                        break
                if hit:
                    continue
            break
        for cid, lo, hi, V, par in st.ef:
            if cid == c and self.entails(st, ("ge", idx.sub(lo))) and self.entails(st, ("ge", hi.sub(idx).addc(-1))):
                v = V.read(self, st, idx, c, par)
                if v is not None:
                    return v
        rule = self.elt_rules.get(c)
        if rule is not None:
            return rule(self, st, idx)
        self.elt_types[c] = ety
        return self.sym(("elt", c, idx), ety)

    def elem_cases(self, st, v, idx):
        """element idx by cases on the stores that may have produced it: list of (state, value)"""
        res = []
        for s, x in self.elem_cases1(st, v, idx):
            res += self.resolve(s, x, v[1])
        return res

    def resolve(self, st, val, ety):
        """a value that was read from a store whose aliasing was undecided at the time: decided now, by cases"""
        if val[0] == "int" and len(val[1].t) == 1 and val[1].c == 0 and val[1].t[0][1] == 1:
            k = AT.key[val[1].t[0][0]]
            f = None
            if k[0] == "fld" and k[1][0] == "elt":
                f, k = k[2], k[1]
            if k[0] == "elt" and k[1][0] in ("store", "lit", "ext", "cat"):
                out = []
                for s, x in self.elem_cases(st, ("vec", ety, None, k[1]), k[2]):
                    out.append((s, x if f is None else x[3][f]))
                return out
            return [(st, val)]
        if val[0] == "agg":
            out = [(st, ())]
            for x in val[3]:
                out = [(s2, acc + (y,)) for s, acc in out for s2, y in self.resolve(s, x, ety)]
            return [(s, val[:3] + (acc,)) for s, acc in out]
        return [(st, val)]

    def refine_elts(self, st):
        """the cases of a state in which element reads of undecided aliasing are resolved; dead cases are left out"""
        todo = []
        for f in list(st.cons) + [("ne", l) for l in st.nes]:
            for a, _ in f[1].t:
                k = AT.key[a]
                if k[0] == "fld" and k[1][0] == "elt":
                    k = k[1]
                if k[0] == "elt" and k[1][0] in ("store", "lit", "ext", "cat") and a not in todo:
                    todo.append(a)
        if not todo:
            return None
        out = [st]
        for a in todo[:4]:
            k = AT.key[a]
            key = k[1] if k[0] == "fld" else k
            nxt = []
            for s in out:
                x = ("int", Lin(0, ((a, 1),)))
                for s2, y in self.resolve(s, x, self.elt_types.get(key[1])):
                    if y[0] == "int" and y != x:
                        nxt += self.assume(s2, ("eq", y[1].sub(x[1])))
                    else:
                        nxt.append(s2)
            out = nxt
        return [s for s in out if not self.dead(s)]

    def elem_cases1(self, st, v, idx):
        _, ety, ln, c = v
        if c[0] == "store":
            d = c[2].sub(idx)
            res = [(s, c[3]) for s in self.assume(st, ("eq", d))]
            for s in self.assume(st, ("ne", d)):
                res += self.elem_cases1(s, ("vec", ety, ln, c[1]), idx)
            return res
        if c[0] == "lit":
            res = []
            for n, x in enumerate(c[1]):
                res += [(s, x) for s in self.assume(st, ("eq", idx.addc(-n)))]
            return res
        if c[0] == "ext":
            res = []
            for s in self.assume(st, ("ge", c[2].sub(idx).addc(-1))):
                res += self.elem_cases1(s, ("vec", ety, ln, c[1]), idx)
            res += [(s, c[3]) for s in self.assume(st, ("ge", idx.sub(c[2])))]
            return res
        if c[0] == "cat":
            res = []
            for s in self.assume(st, ("ge", c[2].sub(idx).addc(-1))):
                res += self.elem_cases1(s, ("vec", ety, ln, c[1]), idx)
            for s in self.assume(st, ("ge", idx.sub(c[2]))):
                res += self.elem_cases1(s, ("vec", ety, ln, c[3]), idx.sub(c[2]).add(c[4]))
            return res
        return [(st, self.elem(st, v, idx))]

    def write(self, st, root, proj, val):
        if not proj:
            st.mem[root] = val
            return
        v = self.root_value(st, root)
        st.mem[root] = self.upd(st, v, proj, val, root, 0)

    def upd(self, st, v, proj, val, root, i):
        if i == len(proj):
            return val
        e = proj[i]
        k = e[0]
        if k == "f":
            if v[0] == "uninit":
                v = ("agg", None, 0, ())
            if v[0] == "sym":
                t = self.T[v[2]]
                if t["k"] == "adt" and t.get("kind") == "struct":
                    v = self.sym_struct(v[1], v[2])
            if v[0] == "nz":
                return ("nz", val[1])
            if v[0] == "closure":
                fs = list(v[2])
                fs[e[1]] = self.upd(st, fs[e[1]], proj, val, root, i + 1)
                return ("closure", v[1], tuple(fs), v[3])
            if v[0] != "agg":
                raise Giveup("field update of %s" % v[0])
            fs = list(v[3])
            while len(fs) <= e[1]:
                fs.append(UNINIT)
            fs[e[1]] = self.upd(st, fs[e[1]], proj, val, root, i + 1)
            return ("agg", v[1], v[2], tuple(fs))
        if k == "d":
            if v[0] == "uninit":
                v = ("agg", None, e[1], ())
            if v[0] == "sym":
                for s, x in self.expand_enum(st, v):
                    if x[2] == e[1]:
                        v = x
                        break
            return self.upd(st, ("agg", v[1], e[1], v[3]) if v[0] == "agg" else v, proj, val, root, i + 1)
        if k == "i":
            if v[0] != "vec":
                raise Giveup("index update of %s" % v[0])
            old = self.elem(st, v, e[1]) if i + 1 < len(proj) else None
            new = self.upd(st, old, proj, val, root, i + 1) if i + 1 < len(proj) else val
            # identical re-store is no change
            return ("vec", v[1], v[2], self.store(st, v[3], e[1], new))
        if k == "bx":
            if v[0] == "box":
                return ("box", self.upd(st, v[1], proj, val, root, i + 1), v[2])
        raise Giveup("update projection %s of %s" % (e, v[0]))

    def store(self, st, content, idx, val):
        rule = self.store_rules.get(content)
        if rule is not None:
            return rule(self, st, idx, val)
        # overwrite of the same index collapses
        if content[0] == "store" and (content[2] == idx or self.entails(st, ("eq", content[2].sub(idx)))):
            return ("store", content[1], content[2], val)
        return ("store", content, idx, val)

    # resolve a MIR place to an lvalue: ('pl', root, proj) or ('sl', root, proj, start, len) or ('boxin', root, proj)
    def lval(self, st, fr, place):
        root = ("L", fr, place[0])
        lv = ("pl", root, ())
        for e in place[1:]:
            if e == "*":
                v = self.read_lv(st, lv)
                if v[0] == "ref":
                    lv = ("pl", v[1], v[2])
                elif v[0] == "slice":
                    lv = ("sl", v[1], v[2], v[3], v[4])
                elif v[0] == "box":
                    lv = ("pl", lv[1], lv[2] + (("bx",),))
                elif v[0] == "vec" and lv[0] == "pl":  # Box<[T]>
                    lv = ("sl", lv[1], lv[2], K(0), v[2])
                elif v[0] == "sym":
                    t = self.T[v[2]]
                    if t["k"] == "adt" and t["path"] == "std::boxed::Box":
                        lv = ("pl", lv[1], lv[2] + (("bx",),))
                    else:
                        raise Giveup("deref of opaque %s" % t["s"])
                elif v[0] == "str":
                    lv = ("val", v)
                else:
                    raise Giveup("deref of %s" % v[0])
            elif lv[0] == "boxin":
                pass  # stay: Unique/NonNull wrappers
            elif e[0] == "f":
                if lv[0] == "pl":
                    v = None
                    if e[1] == 0:
                        v = self.read_lv(st, lv)
                    if v is not None and (v[0] in ("box",) or v[0] == "vec" or (v[0] == "sym" and self.T[v[2]].get("path") == "std::boxed::Box")):
                        lv = ("boxin", lv[1], lv[2])
                    else:
                        lv = ("pl", lv[1], lv[2] + (("f", e[1]),))
                elif lv[0] == "val":
                    lv = ("val", self.proj1(st, lv[1], ("f", e[1])))
                else:
                    raise Giveup("field of slice")
            elif e[0] == "d":
                lv = ("pl", lv[1], lv[2] + (("d", e[1]),))
            elif e[0] == "i":
                idx = self.read(st, ("L", fr, e[1]), ())
                if idx[0] != "int":
                    raise Giveup("index not int")
                if lv[0] == "sl":
                    lv = ("pl", lv[1], lv[2] + (("i", lv[3].add(idx[1])),))
                else:
                    lv = ("pl", lv[1], lv[2] + (("i", idx[1]),))
            elif e[0] == "ci":
                off, from_end = e[1], e[3]
                if lv[0] == "sl":
                    base = lv[3].add(lv[4]).addc(-off) if from_end else lv[3].addc(off)
                    lv = ("pl", lv[1], lv[2] + (("i", base),))
                else:
                    v = self.read_lv(st, lv)
                    ix = v[2].addc(-off) if from_end else K(off)
                    lv = ("pl", lv[1], lv[2] + (("i", ix),))
            elif e[0] == "ss":
                if lv[0] == "sl":
                    frm, to, fe = e[1], e[2], e[3]
                    ln = lv[4].addc(-to - frm) if fe else K(to - frm)
                    lv = ("sl", lv[1], lv[2], lv[3].addc(frm), ln)
                else:
                    raise Giveup("subslice of array")
            else:
                raise Giveup("projection %s" % (e,))
        return lv

    def read_lv(self, st, lv):
        if lv[0] == "pl":
            return self.read(st, lv[1], lv[2])
        if lv[0] == "val":
            return lv[1]
        if lv[0] == "sl":
            return ("slicev", lv[1], lv[2], lv[3], lv[4])
        if lv[0] == "boxin":
            v = self.read(st, lv[1], lv[2])
            if v[0] == "vec":
                return ("slice", lv[1], lv[2], K(0), v[2])
            return ("ref", lv[1], lv[2] + (("bx",),))
        raise Giveup("read lv")

    def write_lv(self, st, lv, v):
        if lv[0] != "pl":
            raise Giveup("write to %s" % lv[0])
        self.write(st, lv[1], lv[2], v)

    def addr_of(self, st, lv):
        if lv[0] == "pl":
            return ("ref", lv[1], lv[2])
        if lv[0] == "sl":
            return ("slice", lv[1], lv[2], lv[3], lv[4])
        if lv[0] == "val":
            v = lv[1]
            if v[0] == "str":
                return v
            root = ("C", self.freshterm("tmp"))
            st.mem[root] = v
            return ("ref", root, ())
        raise Giveup("address of %s" % lv[0])

    # ------------------------------------------------------------------ operands
    def const_val(self, st, j, ty):
        t = self.T[ty]
        k = t["k"]
        if isinstance(j, bool):
            return ("bool", j)
        if isinstance(j, int):
            return ("int", K(j))
        if isinstance(j, dict):
            if "zst" in j:
                if k == "tuple":
                    return ("agg", ty, 0, ())
                if k == "adt" and "variants" in t:
                    return ("agg", ty, 0, tuple(self.const_val(st, {"zst": True}, f["t"]) for f in t["variants"][0]["f"]))
                if k == "closure":
                    return ("closure", t["inst"], (), ty)
                if k == "array":
                    return ("vec", t["to"], K(t.get("n", 0)), ("init", ("zst", ty)))
                return ("agg", ty, 0, ())
            if "ref" in j:
                to = t["to"]
                root = ("C", repr(j)[:200], to)
                if root not in st.mem:
                    if self.T[to]["k"] == "slice":
                        et = self.T[to]["to"]
                        vals = tuple(self.const_val(st, x, et) for x in j["ref"])
                        st.mem[root] = ("vec", et, K(len(vals)), ("lit", vals))
                    else:
                        st.mem[root] = self.const_val(st, j["ref"], to)
                self.root_ty[root] = to
                if self.T[to]["k"] == "slice":
                    return ("slice", root, (), K(0), st.mem[root][2])
                return ("ref", root, ())
            if "arr" in j:
                vals = tuple(self.const_val(st, x, t["to"]) for x in j["arr"])
                return ("vec", t["to"], K(len(vals)), ("lit", vals))
            if "agg" in j:
                if k == "tuple":
                    tys = t["ts"]
                else:
                    tys = [f["t"] for f in t["variants"][0]["f"]]
                return ("agg", ty, 0, tuple(self.const_val(st, x, y) for x, y in zip(j["agg"], tys)))
            if "str" in j:
                return ("str", ("lit", j["str"]))
            if "static" in j:
                root = ("C", "static", j["static"])
                to = t["to"]
                self.root_ty[root] = to
                if root not in st.mem:
                    s = self.p.statics.get(j["static"]) if hasattr(self, "p") else None
                    v = s and not s["mut"] and s["v"]
                    if isinstance(v, dict) and "arr" in v and v["arr"] and all(type(x) is int for x in v["arr"]):
                        c = ("init", ("static", j["static"]))
                        arr, ety = v["arr"], self.T[to]["to"]
                        self.elt_rules[c] = lambda E, st, i: ("int", K(arr[i.c])) if i.const() is not None and 0 <= i.c < len(arr) else E.sym(("elt", c, i), ety)
                        st.mem[root] = ("vec", ety, K(len(arr)), c)
                    else:
                        st.mem[root] = self.sym(("static", j["static"]), to)
                return ("ref", root, ())
            if "fnptr" in j:
                return ("fnkey", j["fnptr"])
            if "bits" in j or "bytes" in j:
                if "bytes" in j and t.get("path") == "std::option::Option" and self.is_int(t["args"][0]) and not self.signed(t["args"][0]):
                    n = self.bits(t["args"][0]) // 8
                    b = bytes.fromhex(j["bytes"])
                    if len(b) == 2 * n and b[0] < 2:
                        return ("agg", ty, b[0], (("int", K(int.from_bytes(b[n:], "little"))),) if b[0] else ())
        return self.sym(("const", repr(j)[:300], ty), ty)

    def operand(self, st, fr, o):
        if "c" in o or "m" in o:
            p = o.get("c") or o.get("m")
            return self.read_lv(st, self.lval(st, fr, p))
        if "rt" in o:
            return ("bool", False)
        k = o["k"]
        ty = k["t"]
        if "fn" in k:
            return ("fn", ty)
        if "v" in k:
            return self.const_val(st, k["v"], ty)
        return self.sym(("constsym", k.get("sym")), ty)

    # ------------------------------------------------------------------ rvalues: list of (state, value)
    def rvalue(self, st, fr, r, body, dst_ty=None, line=None):
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, fr, r[1]))]
        if k == "ref" or k == "rawptr":
            lv = self.lval(st, fr, r[2])
            return [(st, self.addr_of(st, lv))]
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            a = self.operand(st, fr, r[2])
            op = r[1]
            if op == "Not":
                if a[0] == "bool":
                    return [(st, ("bool", cnot(a[1])))]
                if a[0] == "int":
                    lo, hi = self.rng(r[3])
                    return [(st, ("int", K(hi + lo).sub(a[1])))]
            if op == "Neg" and a[0] == "int":
                return [(s, ("int", e)) for s, e in self.wrap(st, a[1].neg(), r[3])]
            if op == "PtrMetadata":
                if a[0] == "slice":
                    return [(st, ("int", a[4]))]
                if a[0] == "ref":
                    v = self.read(st, a[1], a[2])
                    if v[0] == "vec":
                        return [(st, ("int", v[2]))]
                if a[0] == "str":
                    return [(st, ("int", atom(("strlen", a[1]), 0, (1 << 63) - 1)))]
            return [(st, self.opaque(st, ("un", op, self.snap(st, a)), dst_ty))]
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4], body, line)
        if k == "discr":
            lv = self.lval(st, fr, r[1])
            v = self.read_lv(st, lv)

            def num(d):
                if self.is_int(dst_ty) and self.signed(dst_ty) and d >= 1 << (self.bits(dst_ty) - 1):
                    d -= 1 << self.bits(dst_ty)
                return K(d)

            if v[0] == "agg":
                if v[1] is None:
                    return [(st, ("int", K(v[2])))]
                t = self.T[v[1]]
                return [(st, ("int", num(t["variants"][v[2]]["d"]) if "variants" in t else K(v[2])))]
            if v[0] == "sym":
                t = self.T[v[2]]
                if t["k"] == "adt" and t.get("kind") == "enum":
                    res = []
                    for s, x in self.expand_enum(st, v):
                        if lv[0] == "pl":
                            self.write(s, lv[1], lv[2], x)
                        res.append((s, ("int", num(t["variants"][x[2]]["d"]))))
                    return res
            raise Giveup("discriminant of %s" % v[0])
        if k == "agg":
            vals = tuple(self.operand(st, fr, o) for o in r[2])
            kd = r[1]
            if kd["k"] == "tuple":
                return [(st, ("agg", dst_ty, 0, vals))]
            if kd["k"] == "adt":
                t = self.T[kd["t"]]
                if t["path"] == "std::num::NonZero":
                    return [(st, ("nz", vals[0][1]))]
                if "active" in kd:
                    return [(st, self.opaque(st, ("union", vals), kd["t"]))]
                return [(st, ("agg", kd["t"], kd["v"], vals))]
            if kd["k"] == "closure":
                return [(st, ("closure", kd["inst"], vals, dst_ty))]
            if kd["k"] == "array":
                return [(st, ("vec", kd["t"], K(len(vals)), ("lit", vals)))]
            if kd["k"] == "rawptr":
                # raw pointer from (data pointer, metadata)
                if vals[0][0] == "ref" and vals[1][0] == "int" and vals[0][2] and vals[0][2][-1][0] == "i":
                    b = vals[0]
                    return [(st, ("slice", b[1], b[2][:-1], b[2][-1][1], vals[1][1]))]
            raise Giveup("aggregate %s" % kd["k"])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            ety = self.T[dst_ty]["to"]
            ln = K(n) if n is not None else self.lenatom(self.freshterm("arr"), ety)
            return [(st, ("vec", ety, ln, ("fill", v)))]
        raise Giveup("rvalue %s" % (r[:2],))

    def opaque(self, st, term, ty):
        if ty is None:
            return ("sym", term, None)
        return self.sym(term, ty)

    def havoc_value(self, ty, tag="hv"):
        return self.sym(self.freshterm(tag), ty)

    def snap(self, st, v, depth=0):
        """value with references replaced by what they point to"""
        if depth > 12:
            return v
        k = v[0]
        if k == "ref":
            try:
                return ("&", self.snap(st, self.read(st, v[1], v[2]), depth + 1))
            except Giveup:
                return v
        if k == "slice":
            try:
                x = self.read(st, v[1], v[2])
                return ("&slice", x[3] if x[0] == "vec" else x, v[3], v[4])
            except Giveup:
                return v
        if k == "agg":
            return ("agg", v[2], tuple(self.snap(st, x, depth + 1) for x in v[3]))
        if k == "closure":
            return ("closure", v[1], tuple(self.snap(st, x, depth + 1) for x in v[2]))
        if k == "iter":
            return ("iter", v[1], tuple(self.snap(st, x, depth + 1) for x in v[2]))
        if k == "vec":
            return ("vec", v[2], v[3])
        return v

    def tobool(self, v):
        if v[0] == "bool":
            return v[1]
        raise Giveup("bool expected, got %s" % v[0])

    def binop(self, st, op, a, b, ty):
        t = self.T[ty]
        if a[0] == "nz":
            a = ("int", a[1])
        if b[0] == "nz":
            b = ("int", b[1])
        if a[0] == "bool" and b[0] == "bool":
            x, y = a[1], b[1]
            if op == "BitAnd":
                return [(st, ("bool", cand(x, y)))]
            if op == "BitOr":
                return [(st, ("bool", cor(x, y)))]
            if op in ("BitXor", "Ne", "Eq"):
                if x in (True, False):
                    x, y = y, x
                if y is True:
                    r = cnot(x)
                elif y is False:
                    r = x
                else:
                    r = cor(cand(x, cnot(y)), cand(cnot(x), y))
                return [(st, ("bool", cnot(r) if op == "Eq" else r))]
            if op in ("Lt", "Gt", "Le", "Ge"):
                r = {"Lt": cand(cnot(x), y), "Gt": cand(x, cnot(y)), "Le": cor(cnot(x), y), "Ge": cor(x, cnot(y))}[op]
                return [(st, ("bool", r))]
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                c = {
                    "Lt": ("ge", y.sub(x).addc(-1)),
                    "Le": ("ge", y.sub(x)),
                    "Gt": ("ge", x.sub(y).addc(-1)),
                    "Ge": ("ge", x.sub(y)),
                    "Eq": ("eq", x.sub(y)),
                    "Ne": ("ne", x.sub(y)),
                }[op]
                return [(st, ("bool", prim(c)))]
            if op == "Cmp":
                oty = self.p.tid("std::cmp::Ordering")
                res = []
                for c, v in ((("ge", y.sub(x).addc(-1)), 0), (("eq", x.sub(y)), 1), (("ge", x.sub(y).addc(-1)), 2)):
                    for s in self.assume(st, c):
                        res.append((s, ("agg", oty, v, ())))
                return res
            lo, hi = self.rng(ty) if self.is_int(ty) else (0, USIZE_MAX)
            bits = self.bits(ty)
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            if base in ("Add", "Sub", "Mul"):
                e = x.add(y) if base == "Add" else x.sub(y) if base == "Sub" else self.mul(x, y)
                if op.endswith("WithOverflow"):
                    ok = cand(prim(("ge", e.addc(-lo))), prim(("ge", K(hi).sub(e))))
                    return [(st, ("ovf", e, cnot(ok), ty))]
                if op.endswith("Unchecked"):
                    r = []
                    for s in self.assume(st, ("ge", e.addc(-lo))):
                        for s2 in self.assume(s, ("ge", K(hi).sub(e))):
                            r.append((s2, ("int", e)))
                    return r
                return [(s, ("int", v)) for s, v in self.wrap(st, e, ty, base != "Mul" or not (x.t and y.t))]
            if base in ("Shl", "Shr"):
                kk = y
                if not self.entails(st, cand(prim(("ge", kk)), prim(("ge", K(bits - 1).sub(kk))))):
                    kk = self.modc(kk, bits, st)
                if self.signed(ty):
                    if base == "Shr" and self.entails(st, ("ge", x)):
                        return [(st, ("int", self.shr(st, x, kk, bits)))]
                    if base == "Shl" and not x.t and x.c == 1:
                        return [(st, ("int", self.pow2(kk)))]
                    return [(st, ("int", self.uf(base + "s", (x, kk), lo, hi)))]
                f = self.shl if base == "Shl" else self.shr
                return [(st, ("int", f(st, x, kk, bits)))]
            if op in ("Div", "Rem"):
                c = y.const()
                if c == 2 and op == "Rem" and not self.signed(ty):
                    return [(st, ("int", self.band(st, x, K(1), bits)))]
                if c is not None and c > 0 and (not self.signed(ty) or self.entails(st, ("ge", x))):
                    return [(st, ("int", self.divc(x, c, st) if op == "Div" else self.modc(x, c, st)))]
                if op == "Div":
                    return [(st, ("int", self.uf("divv", (x, y), lo, hi, (lambda l: [("ge", x.sub(l))]) if lo == 0 else None)))]
                return [
                    (
                        st,
                        (
                            "int",
                            self.uf(
                                "remv",
                                (x, y),
                                lo,
                                hi,
                                (lambda l: [("ge", x.sub(l)), ("ge", y.sub(l).addc(-1))]) if lo == 0 else None,
                            ),
                        ),
                    )
                ]
            if op in ("BitAnd", "BitOr", "BitXor"):
                if self.signed(ty):
                    if not (self.entails(st, ("ge", x)) and self.entails(st, ("ge", y))):
                        return [(st, ("int", self.uf(op + "s", (x, y), lo, hi)))]
                f = {"BitAnd": self.band, "BitOr": self.bor, "BitXor": self.bxor}[op]
                return [(st, ("int", f(st, x, y, bits)))]
        if op in ("Eq", "Ne"):
            key = ("eqv",) + tuple(sorted((repr(self.snap(st, a)), repr(self.snap(st, b)))))
            if self.snap(st, a) == self.snap(st, b):
                return [(st, ("bool", op == "Eq"))]
            c = ("b", key)
            return [(st, ("bool", c if op == "Eq" else cnot(c)))]
        rty = ty
        if op in ("Lt", "Le", "Gt", "Ge"):
            return [(st, ("bool", ("b", ("cmpv", op, self.snap(st, a), self.snap(st, b)))))]
        if op == "Offset":
            if a[0] == "ref" and a[2] and a[2][-1][0] == "i" and b[0] == "int":
                return [(st, ("ref", a[1], a[2][:-1] + (("i", a[2][-1][1].add(b[1])),)))]
        return [(st, self.sym(("bin", op, self.snap(st, a), self.snap(st, b)), rty))]

    def cast(self, st, kind, v, ty, from_ty, body=None, line=None):
        t = self.T[ty]
        if kind == "IntToInt":
            if v[0] == "bool":
                c = v[1]
                if c is True or c is False:
                    return [(st, ("int", K(1 if c else 0)))]
                res = []
                for s in self.assume(st, c):
                    res.append((s, ("int", K(1))))
                for s in self.assume(st, cnot(c)):
                    res.append((s, ("int", K(0))))
                return res
            if v[0] == "agg":  # fieldless enum
                tt = self.T[v[1]]
                return [(st, ("int", K(tt["variants"][v[2]]["d"])))]
            if v[0] == "sym" and self.T[v[2]].get("kind") == "enum":
                res = []
                for s, x in self.expand_enum(st, v):
                    res.append((s, ("int", K(self.T[v[2]]["variants"][x[2]]["d"]))))
                return res
            if v[0] != "int":
                return [(st, self.sym(("cast", self.snap(st, v)), ty))]
            e = v[1]
            lo, hi = self.rng(ty)
            flo, fhi = self.rng(from_ty)
            if flo is not None and flo >= lo and fhi <= hi:
                return [(st, v)]
            ok = self.inrange(st, e, lo, hi)
            if self.on_cast:
                self.on_cast(self, st, e, from_ty, ty, ok, body, line)
            if ok:
                return [(st, v)]
            bits = self.bits(ty)
            if lo == 0 and flo == 0:
                return [(st, ("int", self.modc(e, 1 << bits, st)))]
            return [(s, ("int", x)) for s, x in self.wrap(st, e if flo is None or (fhi - flo) <= 2 * (hi - lo) + 2 else self.modc(e, 1 << bits, st), ty)]
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                to = self.T[t["to"]] if t["k"] in ("ref", "ptr") else None
                if to and to["k"] == "slice" and v[0] == "ref":
                    x = self.read(st, v[1], v[2])
                    if x[0] == "vec":
                        return [(st, ("slice", v[1], v[2], K(0), x[2]))]
                return [(st, v)]
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return [(st, v)]
            return [(st, v)]
        if kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute") and v[0] in ("ref", "slice"):
            return [(st, v)]
        if kind == "Transmute" and v[0] == "int" and self.is_int(ty):
            return [(s, ("int", x)) for s, x in self.wrap(st, v[1], ty)]
        if kind in ("FloatToInt",):
            n = self.ceil_log2(v)
            if n is not None:
                return [(st, ("int", n))]
            return [(st, self.sym(("f2i", self.snap(st, v)), ty))]
        return [(st, self.sym(("cast", kind, self.snap(st, v)), ty))]

    clog = None

    def ceil_log2(self, v):
        """the value of ceil(log2(n as f64)), for a constant n unless the rounding of f64 could matter"""
        def arg(v, name):
            if v[0] == "sym" and v[1][0] == "call" and name in str(v[1][1]) and len(v[1][2]) == 1:
                return v[1][2][0]
        for name in ("ceil", "log2"):
            v = arg(v, "intrinsics::" + name)
            if v is None:
                return None
        if v[0] == "sym" and v[1][0] == "cast" and v[1][1] == "IntToFloat" and v[1][2][0] == "int":
            n = v[1][2][1].const()
            if n is None:
                return self.clog(v[1][2][1]) if self.clog else None
            if n < 1:
                return None
            n = int(float(n))
            k = (n - 1).bit_length()
            if n == 1 << k or n - (1 << k - 1) > n >> 40:
                return K(k)
        return None

    # ------------------------------------------------------------------ bodies
    def tick(self):
        self.steps += 1
        if self.steps > self.visit_limit:
            raise Giveup("step budget exhausted")

    def call_body(self, st, body, args, depth):
        """list of Outcome"""
        self.functions_seen.add(body.key)
        if depth > self.max_depth:
            raise Giveup("inlining depth")
        fr = next(self.frames)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        outs = []
        for kind, s, x in self.run(body, fr, 0, st, None, depth):
            if kind == "ret":
                v = s.mem.get(("L", fr, 0), UNINIT)
                outs.append(Outcome("ret", s, v))
            elif kind == "panic":
                outs.append(Outcome("panic", s, None, x))
        for o in outs:
            m = o.st.mem
            for k in [k for k in m if k[0] == "L" and k[1] == fr]:
                # keep locals that are still referenced by the returned value (returned refs into own temporaries)
                if not (o.val is not None and self.mentions(o.val, fr)):
                    del m[k]
        return outs

    def mentions(self, v, fr):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "L" and v[1] == fr:
                return True
            return any(self.mentions(x, fr) for x in v if isinstance(x, tuple))
        return False

    def run(self, body, fr, bb, st, ctx, depth):
        """ctx = None or (header, loopset).  Yields (kind, state, info): 'ret','panic','back','exit'(bb)"""
        out = []
        loops = body.loops()
        work = [(bb, st, True, None)]
        merging = self.merge_cands is not None and self.peel is None and ctx is None
        while work:
            if merging and len(work) > 1:
                # blocks in topological order, so that all states of a join point are there when it is reached
                i = min(range(len(work)), key=lambda i: (body.rpo.get(work[i][0], 0), i))
                b, s, fresh, src = work.pop(i)
                if not fresh and len(work) + 1 >= self.merge_min and body.joins(b) and (depth or body.bbs[b]["t"][0] != "return") and not (ctx is not None and (b == ctx[0] or b not in ctx[1])):
                    here = [w for w in work if w[0] == b and not w[2]]
                    if len(here) + 1 >= self.merge_min and any(w[3] != src for w in here):
                        work = [w for w in work if w[0] != b or w[2]]
                        ms = self.merge(body, fr, b, [s] + [w[1] for w in here])
                        s = ms[0]
                        work += [(b, m, "merged", None) for m in ms[1:]]
            elif self.sample is not None:
                # a selection of the paths, used to confirm violations
                if (depth or ctx is not None) and sum(1 for o in out if o[0] != "panic") >= self.sample_width or time.time() > self.sample_end and (out or depth):
                    break
                b, s, fresh, src = work.pop(self.sample.randrange(len(work)) if self.sample.random() < 0.5 else -1)
            else:
                b, s, fresh, src = work.pop()
            if ctx is not None:
                if b == ctx[0] and not fresh:
                    out.append(("back", s, None))
                    continue
                if b not in ctx[1]:
                    out.append(("exit", s, b))
                    continue
            if b in loops and not (ctx is not None and b == ctx[0]):
                for kind, s2, x in self.mir_loop(body, fr, b, loops[b], s, depth):
                    if kind == "exit":
                        work.append((x, s2, False, b))
                    else:
                        out.append((kind, s2, x))
                continue
            self.tick()
            for s2 in self.stmts(body, fr, b, s):
                for r in self.term(body, fr, b, s2, depth):
                    if r[0] == "goto":
                        work.append((r[2], r[1], False, b))
                    else:
                        out.append(r)
        return out

    sample = None
    sample_width = 4
    sample_end = None
    merge_cands = None  # f(engine, merged state, {leaf: value}) -> candidate facts; None: states are never merged
    merge_min = 5

    @staticmethod
    def shape(v):
        """a value with its integers blanked"""
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "int" and isinstance(v[1], Lin):
                return ("int", None)
            return tuple(Engine.shape(x) for x in v)
        return v

    @staticmethod
    def refers(v, root):
        if isinstance(v, tuple):
            return v == root or any(Engine.refers(x, root) for x in v)
        return False

    def merge(self, body, fr, b, states):
        """one state for several ones that differ in integers only: those become unknowns, of which the candidate facts
        that hold in every one of the states are kept"""
        live = body.live(b)
        groups = {}
        for s in states:
            s = s.copy()
            for k in [k for k in s.mem if k[0] == "L" and k[1] == fr and k[2] not in live and k[2] not in body._always]:
                del s.mem[k]
            while True:
                # locals whose address was taken: as long as something still refers to them
                dead = []
                for k in s.mem:
                    if k[0] == "L" and k[1] == fr and k[2] not in live and k[2] != 0:
                        if not any(self.refers(v, k) for q, v in s.mem.items() if q != k):
                            dead.append(k)
                for k in dead:
                    del s.mem[k]
                if not dead:
                    break
            key = (tuple(sorted(((repr(k), self.shape(v)) for k, v in s.mem.items()), key=lambda x: x[0])), s.cf, s.ef, repr(s.log))
            groups.setdefault(key, []).append(s)
        out = []
        if DBG:
            print("merge at", body.path, b, [len(g) for g in groups.values()])
        for g in groups.values():
            out.append(g[0] if len(g) == 1 else self.merge_group(body, fr, g))
        return out

    @staticmethod
    def deep_atoms(l, seen):
        for a, _ in l.t:
            if a in seen:
                continue
            seen.add(a)
            stack = [AT.key[a]]
            while stack:
                k = stack.pop()
                if isinstance(k, Lin):
                    Engine.deep_atoms(k, seen)
                elif isinstance(k, tuple):
                    stack.extend(k)

    def merge_group(self, body, fr, g):
        leaves = set()
        for s in g[1:]:
            for root, v in g[0].mem.items():
                if s.mem[root] != v:
                    self.leaf_paths(s, v, s.mem[root], root, (), leaves)
        common = [f for f in g[0].cons if all(f in s.cons for s in g[1:])]
        M = g[0].copy()
        M.cons = common
        M.nes = [l for l in g[0].nes if all(l in s.nes for s in g[1:])]
        M.bools = {k: v for k, v in g[0].bools.items() if all(s.bools.get(k) == v for s in g[1:])}
        M.imp = frozenset().union(*[s.imp for s in g])
        M.lk = None
        H, mapping = self.make_header(M, leaves, (body, fr))
        cands = []
        ls = [l for l in sorted(leaves, key=repr) if mapping[l][1][0] == "int"]
        vals = {l: [self.get_leaf(s, l)[1] for s in g] for l in ls}
        for i, l in enumerate(ls):
            x = mapping[l][1][1]
            ds = [v.sub(vals[l][0]).const() for v in vals[l]]
            if None not in ds:
                cands += [("ge", x.sub(vals[l][0]).addc(-min(ds))), ("ge", vals[l][0].sub(x).addc(max(ds)))]
            for m in ls[:i]:
                y = mapping[m][1][1]
                es = {a.sub(b) for a, b in zip(vals[l], vals[m])}
                if len(es) == 1:
                    cands.append(("eq", x.sub(y).sub(es.pop())))
        cands += self.merge_cands(self, H, {l: mapping[l][1][1] for l in ls})
        subs = []
        for k, s in enumerate(g):
            subs.append({mapping[l][1][1].t[0][0]: vals[l][k] for l in ls})
        for alt in cands:
            # a list of alternatives: the first that holds
            for f in alt if isinstance(alt, list) else [alt]:
                f = prim(f)
                if f is True or f in H.cons:
                    break
                if f is False or f[0] not in ("ge", "eq"):
                    continue
                if all(self.entails(s, (f[0], self.subst_atoms(f[1], sub))) for s, sub in zip(g, subs)):
                    H.cons.append(f)
                    break
                elif DBG:
                    import os
                    if os.environ.get("DROP") and os.environ["DROP"] in show(f[1]):
                        for s, sub in zip(g, subs):
                            if not self.entails(s, (f[0], self.subst_atoms(f[1], sub))):
                                print("   in", show(self.subst_atoms(f[1], sub)), "|", [(k, show(l)) for k, l in s.cons])
                    print("  dropped", f[0], show(f[1]), [int(self.entails(s, (f[0], self.subst_atoms(f[1], sub)))) for s, sub in zip(g, subs)])
        # unknowns that nothing refers to any more carry no information
        reach = set()
        stack = list(H.mem.values()) + [H.cf, H.ef]
        while stack:
            v = stack.pop()
            if isinstance(v, Lin):
                self.deep_atoms(v, reach)
            elif isinstance(v, tuple):
                stack.extend(v)

        def keep(l):
            d = set()
            self.deep_atoms(l, d)
            return all(a in reach or AT.key[a][0] not in ("hv", "iter") for a in d)

        H.cons = [f for f in H.cons if keep(f[1])]
        H.nes = [l for l in H.nes if keep(l)]
        H.lk = None
        if DBG:
            print("merge", body.path, len(g), len(leaves), [(k, show(l)) for k, l in H.cons])
        return H

    def stmts(self, body, fr, b, st):
        states = [st.copy()]
        for s in body.bbs[b]["s"]:
            if s[0] == "=":
                nxt = []
                for x in states:
                    dst = s[1]
                    dty = self.place_ty(body, dst)
                    for x2, v in self.rvalue(x, fr, s[2], body, dty, s[3]):
                        if x2 is x and len(states) == 1:
                            pass
                        lv = self.lval(x2, fr, dst)
                        if lv[0] == "boxin":
                            raise Giveup("write into box pointer")
                        x2 = x2.copy() if x2 is not x else x2
                        self.write_lv(x2, lv, v)
                        nxt.append(x2)
                states = nxt
            elif s[0] == "setd":
                for x in states:
                    lv = self.lval(x, fr, s[1])
                    v = self.read_lv(x, lv)
                    if v[0] in ("agg", "uninit"):
                        ty = v[1] if v[0] == "agg" else self.place_ty(body, s[1])
                        self.write_lv(x, lv, ("agg", ty, s[2], v[3] if v[0] == "agg" else ()))
                    else:
                        raise Giveup("set discriminant")
            elif s[0] == "assume":
                nxt = []
                for x in states:
                    nxt += self.assume(x, self.tobool(self.operand(x, fr, s[1])))
                states = nxt
        return states

    def place_ty(self, body, place):
        ty = body.locals[place[0]]
        for e in place[1:]:
            t = self.T[ty]
            if e == "*":
                if t["k"] in ("ref", "ptr"):
                    ty = t["to"]
                elif t["k"] == "adt":
                    ty = t["args"][0]
                else:
                    return None
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = t.get("to")
            elif e[0] == "d":
                pass
            elif e[0] == "ss":
                pass
            else:
                return None
        return ty

    def site(self, body, line=None):
        return (body.file, body.path, line if line is not None else body.line)

    def term(self, body, fr, b, st, depth):
        t = body.bbs[b]["t"]
        k = t[0]
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "return":
            return [("ret", st, None)]
        if k == "drop":
            return [("goto", st, t[2])]
        if k == "unreachable":
            return []
        if k == "switch":
            v = self.operand(st, fr, t[1])
            res = []
            if v[0] == "bool":
                c = v[1]
                other = None
                for val, tgt in t[2]:
                    cc = c if val == 1 else cnot(c)
                    for s in self.assume(st, cc):
                        res.append(("goto", s, tgt))
                vals = [x[0] for x in t[2]]
                if 0 in vals and 1 in vals:
                    return res
                cc = c if 0 in vals else cnot(c)
                for s in self.assume(st, cc):
                    res.append(("goto", s, t[3]))
                return res
            if v[0] == "int":
                e = v[1]
                if not e.t:
                    m = e.c
                    bits = self.bits(t[4]) if self.is_int(t[4]) else 64
                    if m < 0:
                        m += 1 << bits
                    for val, tgt in t[2]:
                        if val == m:
                            return [("goto", st, tgt)]
                    return [("goto", st, t[3])]
                rest = [st]
                for val, tgt in t[2]:
                    if self.is_int(t[4]) and self.signed(t[4]) and val >= 1 << (self.bits(t[4]) - 1):
                        val -= 1 << self.bits(t[4])
                    nrest = []
                    for s in rest:
                        for s2 in self.assume(s, prim(("eq", e.addc(-val)))):
                            res.append(("goto", s2, tgt))
                        nrest += self.assume(s, prim(("ne", e.addc(-val))))
                    rest = nrest
                for s in rest:
                    res.append(("goto", s, t[3]))
                return res
            raise Giveup("switch on %s" % v[0])
        if k == "assert" and t[3] == "other":
            # the checks for null and misaligned raw pointers which debug builds insert: a pointer made from a
            # reference or an allocation passes them
            return [("goto", st, t[4])]
        if k == "assert":
            c = self.tobool(self.operand(st, fr, t[1])) if not self.is_ovf(st, fr, t[1]) else self.ovf_cond(st, fr, t[1])
            if not t[2]:
                c = cnot(c)
            res = []
            for s in self.assume(st, c):
                res.append(("goto", s, t[4]))
            for s in self.assume(st, cnot(c)):
                res.append(("panic", s, (t[3], self.site(body, t[5]))))
            return res
        if k == "call":
            return self.term_call(body, fr, t, st, depth)
        if k == "resume":
            return []
        raise Giveup("terminator %s" % k)

    # overflow pairs are kept as ('ovf', exact result, overflow condition)
    def is_ovf(self, st, fr, o):
        p = o.get("c") or o.get("m")
        if not p or len(p) < 2 or p[-1][0] != "f":
            return False
        v = self.read(st, ("L", fr, p[0]), ())
        return v[0] == "ovf"

    def ovf_cond(self, st, fr, o):
        p = o.get("c") or o.get("m")
        v = self.read(st, ("L", fr, p[0]), ())
        return v[2]

    # ------------------------------------------------------------------ calls
    def callee_of(self, fnty):
        return self.T[fnty]["callee"]

    def term_call(self, body, fr, t, st, depth):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        dst, target, line = t[3], t[4], t[5]
        dty = self.place_ty(body, dst)
        outs = self.call_value(st, f, args, dty, depth, body, line)
        res = []
        for o in outs:
            if o.kind == "panic":
                res.append(("panic", o.st, o.info))
                continue
            if target is None:
                res.append(("panic", o.st, ("diverge", self.site(body, line))))
                continue
            s = o.st.copy()
            lv = self.lval(s, fr, dst)
            self.write_lv(s, lv, o.val)
            res.append(("goto", s, target))
        return res

    def call_value(self, st, f, args, dty, depth, body=None, line=None):
        if f[0] == "ref":
            f = self.read(st, f[1], f[2])
            return self.call_value(st, f, args, dty, depth, body, line)
        if f[0] == "fn":
            return self.call(st, self.callee_of(f[1]), args, dty, depth, body, line)
        if f[0] == "fnkey":
            b = self.p.bodies.get(f[1])
            if b:
                return self.call_body(st, b, args, depth + 1)
        if f[0] == "closure":
            return self.call_closure(st, f, None, args, depth)
        if f[0] == "sym":
            if self.T[f[2]]["k"] == "fnptr" and all(a[0] == "int" for a in args):
                return [Outcome("ret", st, self.apply_pure(st, f, args, dty))]
            return [Outcome("ret", *self.opaque_call(st, ("callptr", f[1]), args, dty, body, line))]
        raise Giveup("call of %s" % f[0])

    def call_closure(self, st, clo, cloref, args, depth):
        b = self.p.bodies.get(clo[1])
        if b is None:
            raise Giveup("closure body missing")
        t1 = self.T[b.locals[1]]
        if t1["k"] == "ref":
            if cloref is None:
                root = ("C", self.freshterm("clo"))
                st = st.copy()
                st.mem[root] = clo
                cloref = ("ref", root, ())
            env = cloref
        else:
            env = clo
        return self.call_body(st, b, [env] + list(args), depth + 1)

    def call(self, st, callee, args, dty, depth, body=None, line=None):
        path = callee.get("rpath", callee["path"])
        gpath = callee["path"]
        if self.on_call:
            r = self.on_call(self, st, callee, args, dty, depth, body, line)
            if r is not None:
                return r
        key = callee.get("inst")
        # rule-supplied summaries
        for kx in (key, path):
            if kx in self.stop:
                r = self.stop[kx]
                return r(self, st, callee, args, dty, depth, body, line)
        if callee.get("ctor"):
            return [Outcome("ret", st, self.ctor(callee, args, dty))]
        # calling callables
        if gpath in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
            r = self.call_fn_trait(st, callee, args, dty, depth, body, line)
            if r is not None:
                return r
        m = self.models.get(path) or self.models.get(gpath)
        if m is None and callee.get("intrinsic"):
            m = self.models.get("intrinsic:" + callee["intrinsic"])
        if m is not None:
            r = m(self, st, callee, args, dty, depth, body, line)
            if r is not None:
                return [o if isinstance(o, Outcome) else Outcome("ret", o[0], o[1]) for o in r]
        if PANICS.search(path) or PANICS.search(gpath):
            return [Outcome("panic", st, None, (self.panic_kind(path), self.site(body, line) if body else None))]
        b = self.p.bodies.get(key) if key else None
        if b is not None:
            return self.call_body(st, b, args, depth + 1)
        return [Outcome("ret", *self.opaque_call(st, callee, args, dty, body, line))]

    def panic_kind(self, path):
        return "panic:" + path.split("::")[-1]

    def ctor(self, callee, args, dty):
        t = self.T[dty]
        if t["k"] == "adt" and t.get("kind") == "enum":
            name = callee["path"].split("::")[-1]
            for i, v in enumerate(t["variants"]):
                if v["n"] == name:
                    return ("agg", dty, i, tuple(args))
        return ("agg", dty, 0, tuple(args))

    def call_fn_trait(self, st, callee, args, dty, depth, body, line):
        f = args[0]
        ref = None
        while f[0] == "ref":
            ref = f
            f = self.read(st, f[1], f[2])
        tup = args[1]
        if tup[0] == "agg":
            xs = list(tup[3])
        else:
            return None
        if f[0] == "closure":
            return self.call_closure(st, f, ref, xs, depth)
        if f[0] in ("fn", "fnkey"):
            return self.call_value(st, f, xs, dty, depth, body, line)
        # symbolic callable: pure function of its arguments (Fn) or opaque
        if callee["path"] == "std::ops::Fn::call":
            return [Outcome("ret", st, self.apply_pure(st, f, xs, dty))]
        term = ("call", ("apply", self.snap(st, f), tuple(self.snap(st, x) for x in xs)), next(self.fresh))
        return [Outcome("ret", st, self.sym(term, dty))]

    def apply_pure(self, st, f, xs, dty):
        """result of an arbitrary caller-supplied function: a deterministic function of its arguments.  Applied to the
        i-th words of two vectors it is the i-th word of a derived vector."""
        F = self.snap(st, f)
        if len(xs) == 2 and all(x[0] == "int" for x in xs) and self.is_int(dty):
            ks = []
            for x in xs:
                l = x[1]
                ks.append(AT.key[l.t[0][0]] if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 else (None,))
            if all(k[0] == "elt" for k in ks) and (ks[0][2] == ks[1][2] or self.entails(st, ("eq", ks[0][2].sub(ks[1][2])))):
                return self.sym(("elt", ("zipmap", F, ks[0][1], ks[1][1]), ks[0][2]), dty)
            return self.sym(("apply", F, (xs[0][1], xs[1][1])), dty)
        return self.sym(("call", "apply", F, tuple(self.snap(st, x) for x in xs)), dty)

    def opaque_call(self, st, callee, args, dty, body, line):
        name = callee if isinstance(callee, tuple) else (callee.get("inst") or callee["path"])
        st = st.copy()
        snaps = tuple(self.snap(st, a) for a in args)
        self.opaque_calls.append((name, body.path if body else None))
        st.imp = st.imp | {"opaque call %s" % (name,)}
        # havoc everything reachable through mutable references
        for a in args:
            self.havoc_ref(st, a)
        v = self.sym(("call", name, snaps), dty) if dty is not None else UNIT
        return st, v

    def havoc_ref(self, st, a, depth=0):
        if depth > 4:
            return
        if a[0] == "ref":
            root, proj = a[1], a[2]
            if root[0] == "C":
                return
            v = self.read(st, root, proj)
            try:
                self.write(st, root, proj, self.havoc_like(st, v, None))
            except Giveup:
                pass
        elif a[0] == "slice":
            v = self.read(st, a[1], a[2])
            if v[0] == "vec":
                self.write(st, a[1], a[2], ("vec", v[1], v[2], self.freshterm("hvc")))
        elif a[0] in ("agg",):
            for x in a[3]:
                self.havoc_ref(st, x, depth + 1)
        elif a[0] in ("closure", "iter"):
            for x in a[2]:
                if isinstance(x, tuple):
                    self.havoc_ref(st, x, depth + 1)

    def havoc_like(self, st, v, ty):
        k = v[0]
        if k == "int":
            lo, hi = self.rng(ty) if ty is not None else (None, None)
            return ("int", atom(self.freshterm("hv"), lo, hi))
        if k == "bool":
            return ("bool", ("b", self.freshterm("hv")))
        if k == "vec":
            return ("vec", v[1], self.lenatom(self.freshterm("hv"), v[1]), self.freshterm("hvc"))
        if k == "agg":
            if v[1] is not None:
                t = self.T[v[1]]
                if t["k"] == "adt" and t.get("kind") == "enum":
                    return self.sym(self.freshterm("hv"), v[1])
                return self.sym(self.freshterm("hv"), v[1])
            return ("agg", None, v[2], tuple(self.havoc_like(st, x, None) for x in v[3]))
        if k == "sym":
            return self.sym(self.freshterm("hv"), v[2])
        return v

    # ------------------------------------------------------------------ loops
    def mir_loop(self, body, fr, header, blocks, st, depth):
        ctx = (header, blocks)

        def step(s):
            backs, others = [], []
            for kind, s2, x in self.run(body, fr, header, s, ctx, depth):
                if kind == "back":
                    backs.append(s2)
                else:
                    others.append((kind, s2, x))
            return backs, others

        loc = self.site(body, None)
        return self.solve_loop(st, step, (body, fr), loc)

    def leaf_paths(self, st, a, b, root, proj, out):
        """places where value b differs from a"""
        if a == b:
            return
        ka, kb = a[0], b[0]
        if ka == kb == "agg" and a[2] == b[2] and len(a[3]) == len(b[3]):
            t = self.T[a[1]] if a[1] is not None else None
            enum = t is not None and t["k"] == "adt" and t.get("kind") == "enum"
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                p = proj + ((("d", a[2]),) if enum else ()) + (("f", i),)
                self.leaf_paths(st, x, y, root, p, out)
            return
        if ka == kb == "closure" and a[1] == b[1]:
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                self.leaf_paths(st, x, y, root, proj + (("f", i),), out)
            return
        if ka == kb == "iter" and a[1] == b[1]:
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                self.leaf_paths(st, x, y, root, proj + (("it", i),), out)
            return
        if ka == kb == "vec":
            if a[2] != b[2]:
                out.add((root, proj + (("len",),)))
            if a[3] != b[3]:
                out.add((root, proj + (("cnt",),)))
            return
        if ka == kb == "slice" and a[1] == b[1] and a[2] == b[2]:
            if a[3] != b[3]:
                out.add((root, proj + (("sstart",),)))
            if a[4] != b[4]:
                out.add((root, proj + (("slen",),)))
            return
        out.add((root, proj))

    def get_leaf(self, st, leaf):
        """current value (Lin or value) of a leaf"""
        root, proj = leaf
        return self._get(st, self.root_value(st, root), proj)

    def _get(self, st, v, proj):
        for i, e in enumerate(proj):
            if e[0] == "it":
                v = v[2][e[1]]
            elif e[0] == "len":
                return ("int", v[2])
            elif e[0] == "cnt":
                return ("cnt", v[3])
            elif e[0] == "sstart":
                return ("int", v[3])
            elif e[0] == "slen":
                return ("int", v[4])
            else:
                v = self.proj1(st, v, e)
        return v

    def set_leaf(self, st, leaf, val):
        root, proj = leaf
        st.mem[root] = self._set(st, self.root_value(st, root), proj, val)

    def _set(self, st, v, proj, val):
        if not proj:
            return val
        e, rest = proj[0], proj[1:]
        if e[0] == "it":
            fs = list(v[2])
            fs[e[1]] = self._set(st, fs[e[1]], rest, val)
            return ("iter", v[1], tuple(fs)) + v[3:]
        if e[0] == "len":
            return ("vec", v[1], val[1], v[3])
        if e[0] == "cnt":
            return ("vec", v[1], v[2], val[1])
        if e[0] == "sstart":
            return ("slice", v[1], v[2], val[1], v[4])
        if e[0] == "slen":
            return ("slice", v[1], v[2], v[3], val[1])
        if e[0] == "d":
            return self._set(st, v, rest, val)
        if e[0] == "f":
            if v[0] == "closure":
                fs = list(v[2])
                fs[e[1]] = self._set(st, fs[e[1]], rest, val)
                return ("closure", v[1], tuple(fs), v[3])
            if v[0] == "sym":
                v = self.sym_struct(v[1], v[2])
            fs = list(v[3])
            fs[e[1]] = self._set(st, fs[e[1]], rest, val)
            return ("agg", v[1], v[2], tuple(fs))
        if e[0] == "i":
            return ("vec", v[1], v[2], ("store", v[3], e[1], self._set(st, self.elem(st, v, e[1]), rest, val)))
        raise Giveup("set leaf %s" % (e,))

    def leaf_ty(self, st, leaf, owner):
        """static type of a leaf if it can be found"""
        root, proj = leaf
        if root[0] == "L":
            body = owner[0] if owner and owner[1] == root[1] else self.frame_body(root[1])
            ty = body.locals[root[2]] if body else None
        else:
            ty = self.root_ty.get(root)
        for e in proj:
            if ty is None:
                break
            t = self.T[ty]
            if e[0] == "f":
                if t["k"] == "tuple" or t["k"] == "closure":
                    ty = t["ts"][e[1]]
                elif t["k"] == "adt" and "variants" in t:
                    vi = var if "var" in locals() and var is not None else 0
                    fs = t["variants"][vi]["f"]
                    ty = fs[e[1]]["t"] if e[1] < len(fs) else None
                else:
                    ty = None
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                ty = t.get("to") or (t["args"][0] if t["k"] == "adt" and t.get("args") else None)
            elif e[0] == "bx":
                ty = t["args"][0]
            else:
                ty = None
        return ty

    def frame_body(self, fr):
        return self._frames.get(fr) if hasattr(self, "_frames") else None

    def value_int_ty(self, v):
        return None

    def fresh_leaf(self, st, leaf, cur, owner):
        """(fresh value, list of facts)"""
        last = leaf[1][-1][0] if leaf[1] else None
        if last == "len":
            root, proj = leaf
            v = self._get(st, self.root_value(st, root), proj[:-1])
            return ("int", self.lenatom(self.freshterm("hv"), v[1]))
        if last == "cnt":
            return ("cnt", self.freshterm("hvc"))
        if last in ("sstart", "slen"):
            return ("int", atom(self.freshterm("hv"), 0, (1 << 63) - 1))
        ty = self.leaf_ty(st, leaf, owner)
        k = cur[0]
        if k == "int":
            if ty is not None and self.is_int(ty):
                lo, hi = self.rng(ty)
            elif any(e[0] == "it" for e in leaf[1]):
                lo, hi = 0, USIZE_MAX
            else:
                lo, hi = self.int_bounds_hint.get(leaf[0], (None, None))
            return ("int", atom(self.freshterm("hv"), lo, hi))
        if k == "bool":
            return ("bool", ("b", self.freshterm("hv")))
        if k == "agg" or k == "sym":
            t = cur[1] if k == "agg" else cur[2]
            if t is None:
                t = ty
            if t is not None:
                return self.sym(self.freshterm("hv"), t)
        if k == "vec":
            return ("vec", cur[1], self.lenatom(self.freshterm("hv"), cur[1]), self.freshterm("hvc"))
        if k == "uninit":
            return UNINIT
        if k == "nz":
            return ("nz", atom(self.freshterm("hv"), 1, USIZE_MAX))
        if k == "ref" and ty is not None:
            # a cursor reference that moves: keep the pointee opaque
            return self.sym(self.freshterm("hv"), ty)
        if k == "slice" and ty is not None:
            return self.sym(self.freshterm("hv"), ty)
        if k == "ovf":
            return UNINIT
        if ty is not None:
            return self.sym(self.freshterm("hv"), ty)
        raise Giveup("loop changes a %s" % k)

    int_bounds_hint = {}

    def solve_loop(self, st, step, owner, loc, temps=()):
        """generic fixpoint.  step(state) -> (back states, [(kind, state, info)])"""
        if self.peel is not None:
            # exact iterations only: an under-approximation, used to confirm violations
            cur, res = [st.copy()], []
            for _ in range(self.peel + 1):
                nxt = []
                for s in cur:
                    backs, others = step(s)
                    nxt += backs
                    res += list(others)
                cur = nxt
                if not cur or len(cur) > self.peel_width:
                    break
            if cur and not all(self.dead(s) for s in cur):
                self.peel_cut = True
            return res
        # loops whose every branch is decided are followed exactly
        ev0 = self.loop_enter()
        cur = st.copy()
        for _ in range(self.unroll):
            backs, others = step(cur)
            if not backs:
                return others
            if len(backs) != 1 or others:
                pass
                break
            cur = backs[0]
        self.loop_exit(ev0)
        if owner is not None:
            if not hasattr(self, "_frames"):
                self._frames = {}
            self._frames[owner[1]] = owner[0]
        # values that are overwritten before being read (temporaries) need no invariant: they are simply dropped
        leaves = set()
        entry = st
        base_roots = set(st.mem.keys())
        log0 = len(st.log)
        saved_events = self.loop_enter()
        for _round in range(12):
            H, mapping = self.make_header(entry, leaves, owner)
            self.loop_quiet += 1
            self.discover += 1
            try:
                backs, _ = step(H.copy())
            finally:
                self.loop_quiet -= 1
                self.discover -= 1
            new = set()
            for s in backs:
                for root in base_roots:
                    a, b = H.mem.get(root), s.mem.get(root)
                    if a is None or b is None:
                        continue
                    if a != b:
                        self.leaf_paths(s, a, b, root, (), new)
            # drop leaves already covered (prefix)
            new = {l for l in new if not any(l[0] == m[0] and l[1][: len(m[1])] == m[1] for m in leaves)}
            if not new:
                break
            leaves |= new
            # remove leaves made redundant by a shorter prefix
            leaves = {
                l for l in leaves if not any(m != l and l[0] == m[0] and l[1][: len(m[1])] == m[1] for m in leaves)
            }
        else:
            raise Giveup("loop does not stabilise at %s" % (loc,))
        if not backs:
            # no feasible back edge: plain code
            self.loop_exit(saved_events)
            b2, others = step(entry.copy())
            return others
        # ---- candidate invariants
        facts, H, mapping = self.find_invariants(entry, leaves, owner, step, backs, H, mapping)
        self.loop_exit(saved_events)
        backs, others = step(H.copy())
        res = []
        for kind, s, x in others:
            res.append((kind, s, x))
        if self.on_loop:
            self.on_loop(self, entry, H, backs, others, loc)
        return res

    on_loop = None
    peel = None
    peel_width = 64
    peel_cut = False
    unroll = 40
    discover = 0  # > 0 while looking for the locations a loop changes (no facts are drawn from such steps except strides)
    loop_quiet = 0

    def loop_enter(self):
        return len(self.events)

    def loop_exit(self, n):
        del self.events[n:]

    def make_header(self, entry, leaves, owner):
        H = entry.copy()
        mapping = {}
        for leaf in sorted(leaves, key=repr):
            cur = self.get_leaf(H, leaf)
            v = self.fresh_leaf(H, leaf, cur, owner)
            self.set_leaf(H, leaf, v)
            mapping[leaf] = (cur, v)
        for hk in self.havoc_hooks:
            hk(self, H, leaves)
        return H, mapping

    def find_invariants(self, entry, leaves, owner, step, backs, H, mapping):
        ints = [l for l, (c, v) in mapping.items() if v[0] == "int" and c[0] == "int"]
        ints.sort(key=repr)
        hv = {l: mapping[l][1][1] for l in ints}
        ev = {l: mapping[l][0][1] for l in ints}
        cands = []

        # strides: combinations of leaves that change by the same constant on every path
        def delta(s, l):
            try:
                v = self.get_leaf(s, l)
            except Giveup:
                return None
            if v[0] != "int":
                return None
            return v[1].sub(hv[l])

        ds = {l: [delta(s, l) for s in backs] for l in ints}
        const = {}
        for l in ints:
            d = ds[l]
            if all(x is not None and x.const() is not None for x in d) and len({x.c for x in d}) == 1:
                const[l] = d[0].c
        invs = []
        k = None
        if const:
            k = atom(self.freshterm("iter"), 0, None)
            H = H.copy()
            old = {}
            for l, d in const.items():
                # an induction variable is a function of the iteration count
                a = hv[l].t[0][0]
                new = ev[l].add(k, d)
                old[a] = new
                hv[l] = new
                self.set_leaf(H, l, ("int", new))
                mapping[l] = (mapping[l][0], ("int", new))
            H.cons = [prim((f[0], self.subst_atoms(f[1], old))) for f in H.cons]
            H.cons = [f for f in H.cons if f is not True]
            H.nes = [self.subst_atoms(f, old) for f in H.nes]
            for a in old:
                for f in list(bounds(a, AT.lo[a], AT.hi[a])) + list(AT.facts[a] or ()):
                    f = prim((f[0], self.subst_atoms(f[1], old)))
                    if f is not True and f not in H.cons:
                        H.cons.append(f)
            H.lk = None
        hat = {l: hv[l].t[0][0] for l in ints if l not in const}
        ka = k.t[0][0] if k is not None else None
        self.last_strides = const
        if const:
            # the other deltas are read off with the strides known
            Hs = H.copy()
            self.loop_quiet += 1
            self.discover += 1
            try:
                b2, _o = step(Hs)
            finally:
                self.loop_quiet -= 1
                self.discover -= 1
            if b2:
                backs = b2
                ds = {l: [delta(s, l) for s in backs] for l in ints}
        # telescoping: delta of p is G(after) - G(before) for induction variables
        combos = [((l, 1),) for l in ints if l not in const]
        rest = [l for l in ints if l not in const]
        for i in range(len(rest)):
            for j in range(i + 1, len(rest)):
                combos.append(((rest[i], 1), (rest[j], 1)))
                combos.append(((rest[i], 1), (rest[j], -1)))
        for cb in combos:
            tot = []
            for n, s in enumerate(backs):
                e = K(0)
                okk = True
                for l, c in cb:
                    if ds[l][n] is None:
                        okk = False
                        break
                    e = e.add(ds[l][n], c)
                tot.append(e if okk else None)
            if any(x is None for x in tot):
                continue
            if all(x == tot[0] for x in tot):
                g = self.telescope(tot[0], const, hv, hat, k)
                if g is not None:
                    G_h, G_e = g(hv, k), g(ev, K(0))
                    lhs, rhs = K(0), K(0)
                    for l, c in cb:
                        lhs = lhs.add(hv[l], c)
                        rhs = rhs.add(ev[l], c)
                    f = ("eq", lhs.sub(G_h).sub(rhs.sub(G_e)))
                    cands.append(f)
                elif tot[0].const() is not None and k is not None:
                    lhs, rhs = K(0), K(0)
                    for l, c in cb:
                        lhs = lhs.add(hv[l], c)
                        rhs = rhs.add(ev[l], c)
                    cands.append(("eq", lhs.sub(rhs).sub(k.scale(tot[0].c))))
        # bounds
        for l in ints:
            if l in const:
                continue
            cands.append(("ge", hv[l].sub(ev[l])))
            cands.append(("ge", ev[l].sub(hv[l])))
        # relational bounds against guard terms: collect comparisons the body makes on header atoms
        guard = set()
        hatoms = {a: l for l, a in hat.items()}
        if k is not None:
            hatoms[ka] = None
        n0 = len(H.cons)
        for s in backs if self.guard_cands else ():
            for c in s.cons[n0:]:
                if c[0] == "ge" and any(a in hatoms for a, _ in c[1].t):
                    guard.add(c[1])
        for gl in guard:
            # g(h) >= 0 holds in the body; candidate for the header: g(h) >= -stride slack
            for slack in (0, 1):
                cands.append(("ge", gl.addc(slack)))
            mx = 0
            for a, kx in gl.t:
                if a == ka and kx < 0:
                    mx += -kx
            if mx > 1:
                cands.append(("ge", gl.addc(mx)))
        for a in ints:
            for b in ints:
                if a < b:
                    cands.append(("ge", hv[a].sub(hv[b])))
                    cands.append(("ge", hv[b].sub(hv[a])))
        for lc in self.loop_cands:
            cands += lc(self, entry, H, mapping)
        # dedupe
        seen = set()
        cl = []
        for f in cands:
            f = prim(f)
            if f is True or f is False or f in seen:
                continue
            seen.add(f)
            cl.append(f)
        cands = cl
        # initial filter at entry: substitute header atoms by entry values
        sub = {}
        for l in hat:
            sub[hat[l]] = ev[l]
        if k is not None:
            sub[k.t[0][0]] = K(0)
        cmap = {}
        for l, (c, v) in mapping.items():
            if v[0] == "cnt":
                cmap[v[1]] = c[1]
        cands = [f for f in cands if self.entails(entry, prim((f[0], self.subst_atoms(f[1], sub, cmap))))]

        def holds_after(f, s, kv):
            sub2 = {}
            for l in hat:
                v = self.get_leaf(s, l)
                if v[0] != "int":
                    return False
                sub2[hat[l]] = v[1]
            if k is not None:
                sub2[ka] = kv
            cm2 = {}
            for l, (c, v) in mapping.items():
                if v[0] == "cnt":
                    x = self.get_leaf(s, l)
                    if x[0] == "cnt":
                        cm2[v[1]] = x[1]
            g = prim((f[0], self.subst_atoms(f[1], sub2, cm2)))
            if self.entails_hard(s, g):
                return True
            if self.drop_hook:
                self.drop_hook(f, s, g, n0)
            return False

        if len(cands) > 12:
            # candidates that do not survive one iteration from the entry state are hopeless
            self.loop_quiet += 1
            try:
                bs, _o = step(entry.copy())
            finally:
                self.loop_quiet -= 1
            cands = [f for f in cands if all(holds_after(f, s, K(1)) for s in bs)]
        for _ in range(10):
            Hc = H.copy()
            Hc.cons += [prim(f) for f in invs + cands if prim(f) is not True]
            self.loop_quiet += 1
            try:
                bs, _o = step(Hc.copy())
            finally:
                self.loop_quiet -= 1
            keep = [f for f in cands if all(holds_after(f, s, k.addc(1) if k is not None else None) for s in bs)]
            if len(keep) == len(cands):
                H = Hc
                break
            cands = keep
        else:
            H = H.copy()
            H.cons += [prim(f) for f in invs]
        self.last_invs = invs + cands
        H = self.element_invariants(entry, H, mapping, step)
        H = self.content_invariants(entry, H, mapping, step)
        return invs + cands, H, mapping

    element_cands = None
    guard_cands = True
    drop_hook = None

    def element_invariants(self, entry, H, mapping, step):
        """quantified facts about vector elements: for all lo <= i < hi: V.check(element i)"""
        if not self.element_cands:
            return H
        cs = []
        for f in self.element_cands:
            cs += f(self, entry, H, mapping)
        ok = [c for c in cs if self.ef_holds(entry, c)]
        for _ in range(6):
            if not ok:
                return H
            Hc = H.copy()
            for get, V in ok:
                c, lo, hi, par = get(Hc)
                Hc.ef = tuple(Hc.ef) + ((c, lo, hi, V, par),)
            self.loop_quiet += 1
            try:
                bs, _o = step(Hc.copy())
            finally:
                self.loop_quiet -= 1
            keep = [c for c in ok if all(self.ef_holds(s, c) for s in bs)]
            if len(keep) == len(ok):
                return Hc
            ok = keep
        return H

    def ef_holds(self, st, c):
        get, V = c
        content, lo, hi, par = get(st)
        i = atom(self.freshterm("ghosti"), 0, None)
        try:
            for s0 in self.assume(st, ("ge", hi.sub(i).addc(-1))):
                for s in self.assume(s0, ("ge", i.sub(lo))):
                    for s1, val in self.elem_cases(s, ("vec", V.ety, hi, content), i):
                        if not V.check(self, s1, i, val, par):
                            return False
        except Giveup:
            return False
        return True

    content_cands = None

    def content_invariants(self, entry, H, mapping, step):
        """quantified facts about vector contents: for all lo <= q < hi (functions of the state): bit q of content(state) == F(q)"""
        if not self.content_cands:
            return H
        cs = []
        for f in self.content_cands:
            cs += f(self, entry, H, mapping)
        ok = []
        for c in cs:
            if self.cf_holds(entry, c):
                ok.append(c)
        for _ in range(6):
            if not ok:
                return H
            Hc = H.copy()
            Hc.cf = tuple(Hc.cf) + tuple(c[0](Hc) + (c[1],) for c in ok)
            self.loop_quiet += 1
            try:
                bs, _o = step(Hc.copy())
            finally:
                self.loop_quiet -= 1
            keep = [c for c in ok if all(self.cf_holds(s, c) for s in bs)]
            if len(keep) == len(ok):
                return Hc
            ok = keep
        return H

    def cf_holds(self, st, c):
        content, lo, hi = c[0](st)
        q = atom(self.freshterm("ghostq"), 0, None)
        try:
            for s0 in self.assume(st, ("ge", hi.sub(q).addc(-1))):
                for s in self.assume(s0, ("ge", q.sub(lo))):
                    for s1, a in self.bdom.gb(s, content, q):
                        for s2, b in c[1](s1, q):
                            if self.bdom.equal(s2, a, b) is not None:
                                return False
        except Giveup:
            return False
        return True

    def subst_atoms(self, l, sub, cmap=None):
        """substitute atoms (also inside rebuildable terms)"""
        r = K(l.c)
        for a, k in l.t:
            r = r.add(self.subst_atom(a, sub, cmap), k)
        return r

    def subst_atom(self, a, sub, cmap=None):
        if a in sub:
            return sub[a]
        key = AT.key[a]
        if key[0] == "div":
            e = self.subst_atoms(key[1], sub, cmap)
            if e != key[1]:
                return self.divc(e, key[2])
        elif key[0] == "mono":
            r = K(1)
            ch = False
            for f in key[1]:
                x = self.subst_atom(f, sub, cmap)
                if x != Lin(0, ((f, 1),)):
                    ch = True
                r = self.mul(r, x)
            if ch:
                return r
        elif key[0] == "pow2":
            e = self.subst_atoms(key[1], sub, cmap)
            if e != key[1]:
                return self.pow2(e)
        elif key[0] in self.ghosts:
            return self.ghosts[key[0]](self, key, sub, cmap)
        return Lin(0, ((a, 1),))

    ghosts = {}

    def telescope(self, d, const, hv, hat, k):
        """find G with G(h+stride) - G(h) == d; returns function from leaf->Lin map to Lin"""
        if d.const() is not None:
            # linear in an induction variable with stride s: d = (d/s) * s
            for l, s in const.items():
                if s != 0 and d.c % s == 0:
                    return lambda m, kv, l=l, q=d.c // s: m[l].scale(q)
            return None
        gk = [(a, k) for a, k in d.t if AT.key[a][0] in self.ghosts]
        if not gk:
            return None
        if k is None:
            return None
        ka = k.t[0][0]
        step = {ka: k.addc(1)}
        # G = sum over ghost atoms with the sign of the 'before' terms
        for sign in (-1, 1):
            G = Lin(0, tuple((a, -k) for a, k in gk if (k < 0) == (sign < 0)))
            if not G.t:
                continue
            diff = self.subst_atoms(G, step).sub(G)
            rem = d.sub(diff)
            if rem.const() is not None:
                for l, s in const.items():
                    if s != 0 and rem.c % s == 0:
                        def g(m, kv, G=G, l=l, q=rem.c // s):
                            sub = {hat[x]: m[x] for x in hat}
                            sub[ka] = kv
                            return self.subst_atoms(G, sub).add(m[l].scale(q))

                        return g
        return None
