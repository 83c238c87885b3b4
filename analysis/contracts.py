"""Function contracts: running a function from its symbolic entry state and deciding obligations on every abstract
path (proved / refuted with a valuation / undecided)."""
import random
import signal
import time
from contextlib import contextmanager
from lin import *
import eng
from eng import Engine, State, Outcome, Giveup, cnot, cand, cor, prim, MAXBYTES
from bits import Bits


class Result:
    """one obligation"""

    __slots__ = ("fn", "what", "status", "detail", "site", "pins")

    def __init__(self, fn, what, status, detail="", site=None, pins=None):
        self.fn, self.what, self.status, self.detail, self.site, self.pins = fn, what, status, detail, site, pins


class Timeout(BaseException):
    pass


class Found(BaseException):
    """a violation is confirmed; nothing more to look for"""


@contextmanager
def limit(seconds):
    """ends the analysis inside after the given time; what it has not decided by then stays undecided"""

    def expired(*_):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


IMPRECISE = {"sum", "hv", "hvc", "wrapped", "call", "iter", "iteritem", "f2i"}


def atoms_deep(l, seen):
    for a, _ in l.t:
        if a in seen:
            continue
        seen.add(a)
        stack = [AT.key[a]]
        while stack:
            k = stack.pop()
            if isinstance(k, Lin):
                atoms_deep(k, seen)
            elif isinstance(k, tuple):
                stack.extend(k)


class Model:
    """concrete valuation of the base atoms; derived atoms are evaluated"""

    def __init__(self, fixed):
        self.v = dict(fixed)
        self.words = {}
        self.bvals = {}

    def lin(self, l):
        r = l.c
        for a, k in l.t:
            r += k * self.atom(a)
        return r

    def atom(self, a):
        if a in self.v:
            return self.v[a]
        r = self.derive(AT.key[a], a)
        self.v[a] = r
        return r

    def derive(self, key, a):
        k = key[0]
        L = self.lin
        if k == "div":
            return L(key[1]) // key[2]
        if k == "mono":
            r = 1
            for f in key[1]:
                r *= self.atom(f)
            return r
        if k == "pow2":
            e = L(key[1])
            if e < 0 or e > 4096:
                raise ValueError
            return 1 << e
        if k == "lowbits":
            return L(key[1]) & ((1 << L(key[2])) - 1)
        if k == "and":
            return L(key[1]) & L(key[2])
        if k == "or":
            return L(key[1]) | L(key[2])
        if k == "xor":
            return L(key[1]) ^ L(key[2])
        if k == "bit":
            return (L(key[1]) >> L(key[2])) & 1
        if k == "shr":
            return L(key[1]) >> L(key[2])
        if k == "shl":
            return (L(key[1]) << L(key[2])) & ((1 << key[3]) - 1)
        if k == "pop":
            return bin(L(key[1])).count("1")
        if k == "tz":
            x = L(key[1])
            return key[2] if x == 0 else (x & -x).bit_length() - 1
        if k == "ilog2":
            x = L(key[1])
            if x <= 0:
                raise ValueError
            return x.bit_length() - 1
        if k == "divv":
            return L(key[1]) // L(key[2])
        if k == "remv":
            return L(key[1]) % L(key[2])
        if k == "nextpow2":
            x = L(key[1])
            n = 1
            while n < x:
                n *= 2
            return n
        if k == "elt":
            return self.word(key[1], L(key[2]), a)
        raise KeyError(key)

    def word(self, content, i, a):
        c = (content, i)
        if c not in self.words:
            raise KeyError(c)
        return self.words[c]


DERIVED = {"div", "mono", "pow2", "lowbits", "and", "or", "xor", "bit", "shr", "shl", "pop", "tz", "ilog2", "divv", "remv", "nextpow2"}

SEEDS = [0, 1, 2, 63, 64, 65, 3, 127, 128, 129, 5, 191, 192, 511, 512, 513, 8191, 8192, 8193, (1 << 64) - 1, (1 << 64) - 2, (1 << 63), (1 << 32), 255, 256, 100]


MODEL_SECONDS = [6.0]


def count_ok(m, seen, ws):
    """prefix counts, single bits and whole words of one bit string must be realisable together"""
    by = {}
    for a in seen:
        key = AT.key[a]
        if key[0] == "P":
            d = by.setdefault(key[1], {0: 0})
            p, v = m.lin(key[2]), m.atom(a)
            if p < 0:
                if v != p:
                    return False
                continue
            if d.setdefault(p, v) != v:
                return False
    for c, d in list(by.items()):
        if c[0] in ("pad0", "pad1"):
            n, e = m.lin(c[2]), by.setdefault(c[1], {0: 0})
            for p, v in d.items():
                q, w = (p, v) if p <= n else (n, v - (p - n) if c[0] == "pad1" else v)
                if e.setdefault(q, w) != w:
                    return False
    for c, d in by.items():
        if c[0] in ("pad0", "pad1"):
            continue
        ps = sorted(d)
        bits = {p: v for (b, p), v in m.bvals.items() if b == c}
        for (b, i), w in ws.items():
            if b == c:
                for j in range(64):
                    bits[64 * i + j] = (w >> j) & 1
        for p, q in zip(ps, ps[1:]):
            n = d[q] - d[p]
            known = [v for x, v in bits.items() if p <= x < q]
            if n < sum(known) or n > (q - p) - (len(known) - sum(known)):
                return False
    return True


def apply_ok(m, seen, ws):
    """an uninterpreted callable gives equal results for equal arguments"""
    tab = {}
    for a in seen:
        key = AT.key[a]
        if key[0] == "apply" and all(isinstance(x, Lin) for x in key[2]):
            k = (key[1], tuple(m.lin(x) for x in key[2]))
            v = m.atom(a)
            if tab.setdefault(k, v) != v:
                return False
    for (c, i), w in ws.items():
        if c[0] == "zipmap":
            x, y = ws.get((c[2], i)), ws.get((c[3], i))
            if x is not None and y is not None and tab.setdefault((c[1], (x, y)), w) != w:
                return False
    return True


def find_model(E, st, facts=(), tries=400, hyp=None):
    """valuation of the base atoms satisfying every constraint of the state and the extra facts, or None"""
    facts = [prim(f) for f in facts]
    facts = [f for f in facts if f is not True]
    if any(f is False for f in facts):
        return None
    allf = list(st.cons) + [("ne", l) for l in st.nes] + facts
    seen = set()
    for f in allf:
        atoms_deep(f[1], seen)
    for t, v in st.bools.items():
        stack = [t]
        while stack:
            k = stack.pop()
            if isinstance(k, Lin):
                atoms_deep(k, seen)
            elif isinstance(k, tuple):
                stack.extend(k)
    base = [a for a in seen if AT.key[a][0] not in DERIVED]
    # facts attached to atoms (ranges, struct invariants) must hold too
    defs = []
    for a in list(seen):
        for f in AT.facts[a] or ():
            defs.append(f)
            atoms_deep(f[1], seen)
    base = sorted((a for a in seen if AT.key[a][0] not in DERIVED), key=lambda a: (AT.key[a][0] == "elt", a))
    for a in base:
        if AT.facts[a]:
            for f in AT.facts[a]:
                if f not in defs:
                    defs.append(f)
    ges = [f for f in allf if f[0] != "ne"]
    budget = [tries]
    stop = time.process_time() + MODEL_SECONDS[0]

    def full_check(m):
        try:
            for a in seen:
                x = m.atom(a)
                lo, hi = AT.lo[a], AT.hi[a]
                if lo is not None and x < lo or hi is not None and x > hi:
                    return False
            for k, l in allf + defs:
                x = m.lin(l)
                if k == "ge" and x < 0 or k == "eq" and x != 0 or k == "ne" and x == 0:
                    return False
            for a in seen:
                key = AT.key[a]
                if key[0] == "gb":
                    kk = (key[1], m.lin(key[2]))
                    v = m.atom(a)
                    if m.bvals.setdefault(kk, v) != v:
                        return False
            # words read from memory must agree with the bits assumed about them, and equal indices give equal words
            ws = {}
            for a in seen:
                key = AT.key[a]
                if key[0] == "elt":
                    i = m.lin(key[2])
                    w = m.atom(a)
                    if ws.setdefault((key[1], i), w) != w:
                        return False
            for (b, p), v in m.bvals.items():
                n, b = (b[1], b[2]) if b[0] == "bits" else (64, b)
                w = ws.get((b, p // n))
                if w is not None and ((w >> (p % n)) & 1) != v:
                    return False
            if not count_ok(m, seen, ws) or not apply_ok(m, seen, ws):
                return False
            if not all(f(m, seen) for f in E.model_checks):
                return False
            return hyp is None or hyp(m, ws)
        except (ValueError, KeyError, ZeroDivisionError, OverflowError, MemoryError):
            return False

    def least(a, lo, fs):
        lo = 0 if lo is None else lo

        def fits(v):
            return not E.infeasible_with_list(st, fs + [("ge", Lin(v, ((a, -1),)))])

        step = 1
        while not fits(lo + step):
            step *= 4
            if step > 1 << 40 or time.process_time() > stop:
                return None
        x, y = lo + step // 4, lo + step
        while x < y and time.process_time() < stop:
            mid = (x + y) // 2
            if fits(mid):
                y = mid
            else:
                x = mid + 1
        return y

    def rec(i, fixed, eqs):
        if budget[0] <= 0 or time.process_time() > stop:
            return None
        if i == len(base):
            budget[0] -= 1
            m = Model(fixed)
            return m if full_check(m) else None
        a = base[i]
        lo, hi = AT.lo[a], AT.hi[a]
        cands = []
        for s in SEEDS:
            if (lo is None or s >= lo) and (hi is None or s <= hi):
                cands.append(s)
        if hi is not None and hi not in cands:
            cands.append(hi)
        n = 0
        cands = cands + [None]
        for c in cands:
            if c is None:
                # no common value fits: the smallest one that does
                if n >= 2:
                    continue
                c = least(a, lo, facts + eqs)
                if c is None:
                    continue
            e = ("eq", Lin(-c, ((a, 1),)))
            if E.infeasible_with_list(st, facts + eqs + [e]):
                continue
            n += 1
            r = rec(i + 1, {**fixed, a: c}, eqs + [e])
            if r is not None:
                return r
            if budget[0] <= 0 or n >= 4:
                return None
        return None

    return rec(0, {}, [])


class Ctx:
    """analysis context for one program (one build configuration)"""

    def __init__(self, prog, name=""):
        self.p = prog
        self.name = name
        self.results = []
        self.stats = {"functions": 0, "paths": 0, "obligations": 0, "queries": 0}
        self.cache = {}

    def engine(self, **kw):
        E = Engine(self.p, **kw)
        E.bdom = Bits(E)
        E.axioms.append(E.bdom.p_axioms)
        E.ghosts = {"P": E.bdom.p_subst}
        E.peel = self.peel
        if self.sample is not None:
            E.sample = random.Random(self.sample)
            E.sample_width = (4, 12, 40)[self.sample % 3]
            E.sample_end = time.time() + self.sample_secs
        return E

    peel = None
    pins = None
    sample = None
    sample_secs = 0
    deadline = float("inf")
    debug = False
    tier = 'quick'

    def body(self, key):
        return self.p.bodies.get(key)


class Run:
    """all abstract paths of one function"""

    def __init__(self, ctx, key, E=None, pre=None, args=None, **kw):
        self.ctx = ctx
        self.key = key
        self.E = E or ctx.engine(**kw)
        self.B = self.E.bdom
        self.body = ctx.body(key)
        if self.body is None:
            raise KeyError(key)
        b = self.body
        self.st0 = State()
        self.args = []
        if callable(args):
            args = args(self.E)
        for i in range(b.argc):
            if args and i in args:
                self.args.append(args[i])
            else:
                self.args.append(self.E.sym(("arg", i), b.locals[i + 1]))
        for a in self.args:
            if a[0] == "ref":
                self.E.read(self.st0, a[1], a[2])
        st = self.st0
        self.sts = [st]
        if pre:
            for f in pre(self):
                nxt = []
                for s in self.sts:
                    nxt += self.E.assume(s, f)
                self.sts = nxt
        self.entry_atoms = set()
        for s in self.sts:
            for f in s.cons:
                atoms_deep(f[1], self.entry_atoms)
        for a in list(range(len(AT.key))):
            if AT.key[a][0] in ("arg", "fld", "len", "deref"):
                self.entry_atoms.add(a)
        for f in ctx.pins or ():
            nxt = []
            for s in self.sts:
                nxt += self.E.assume(s, f)
            self.sts = nxt
        self.outs = []
        for s in self.sts:
            self.outs += self.E.call_body(s, b, self.args, 0)
        ctx.stats["functions"] += 1
        ctx.stats["paths"] += len(self.outs)

    # -------- values
    def arg(self, i):
        return self.args[i]

    def int(self, i):
        return self.args[i][1]

    def pointee(self, i, st=None):
        a = self.args[i]
        return self.E.read(st or self.st0, a[1], a[2])

    def field(self, v, name):
        if v[0] == "sym":
            v = self.E.sym_struct(v[1], v[2])
        i = self.ctx.p.adt_field(v[1], name)
        if i is None:
            raise KeyError("field %s of %s" % (name, self.ctx.p.types[v[1]]["s"]))
        return v[3][i]

    # -------- obligations
    def res(self, what, status, detail="", site=None, pins=None):
        self.ctx.stats["obligations"] += 1
        self.ctx.results.append(Result(self.key, what, status, detail, site, pins))
        if status == "refuted" and self.ctx.peel is not None:
            raise Found()

    def pins_of(self, m):
        """the part of a valuation that describes scalar inputs: narrows the entry state of a second, exact analysis"""
        out = []
        for a, v in sorted(m.v.items()):
            if AT.key[a][0] in ("arg", "fld", "len", "deref", "ghost") and a in self.entry_atoms:
                out.append(("eq", Lin(-v, ((a, 1),))))
        return out

    def fail(self, what, st, facts=(), site=None, hyp=None):
        """an obligation that could not be proved: refuted if a concrete valuation of the path exists"""
        m = find_model(self.E, st, facts, hyp=hyp)
        imp = self.imprecise(st, facts)
        if m is None:
            self.res(what, "unknown", "no valuation found; path: " + self.path(st), site)
        elif imp:
            self.res(what, "weak", "valuation %s; imprecise: %s" % (self.showm(m), ", ".join(sorted(imp))[:300]), site, pins=self.pins_of(m))
        else:
            self.res(what, "refuted", self.showm(m), site)

    def imprecise(self, st, facts):
        seen = set()
        for f in list(st.cons) + list(facts):
            if isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], Lin):
                atoms_deep(f[1], seen)
        bad = set()
        for a in seen:
            k = AT.key[a]
            if k[0] in IMPRECISE:
                bad.add(k[0])
            else:
                stack = [x for x in k if isinstance(x, tuple)]
                while stack:
                    y = stack.pop()
                    if y and isinstance(y[0], str) and y[0] in IMPRECISE:
                        bad.add(y[0])
                    stack.extend(z for z in y if isinstance(z, tuple))
        for t in st.bools:
            stack = [t]
            while stack:
                y = stack.pop()
                if isinstance(y, tuple):
                    if y and isinstance(y[0], str) and y[0] in IMPRECISE:
                        bad.add(y[0])
                    stack.extend(z for z in y if isinstance(z, tuple))
        return bad

    def showm(self, m):
        out = []
        for a, v in sorted(m.v.items()):
            if AT.key[a][0] not in DERIVED:
                out.append("%s=%d" % (nice(AT.key[a]), v))
        return (self.note + "; " if self.note else "") + ", ".join(out)[:600]

    note = ""

    def path(self, st):
        return "; ".join("%s %s" % (k, show(l)) for k, l in st.cons)[:600]

    def prove(self, what, st, f, site=None):
        """f must hold in st"""
        f = prim(f)
        if self.E.entails(st, f):
            self.res(what, "proved", "", site)
            return True
        if f is False:
            self.fail(what, st, [], site)
            return False
        for mode in (1, 2):
            # other elimination orders lose less integrality
            MODE[0] = mode
            try:
                if self.E.entails(st, f):
                    self.res(what, "proved", "", site)
                    return True
            finally:
                MODE[0] = 0
        neg = cnot(f)
        for s in self.E.assume(st, neg):
            if self.E.dead(s):
                continue
            rs = self.E.refine_elts(s)
            if rs is not None:
                if not rs:
                    continue
                s = rs[0]
            self.fail(what, s, [], site)
            return False
        self.res(what, "proved", "", site)
        return True

    def no_panic(self, what="never panics", unless=None):
        """every abstract panic path must be infeasible, or lie within the documented condition `unless`"""
        ok = True
        n = 0
        for o in self.outs:
            if o.kind != "panic":
                continue
            n += 1
            sts = [o.st]
            if unless is not None:
                sts = []
                for s in self.E.assume(o.st, cnot(unless)):
                    sts.append(s)
            for s in sts:
                if self.E.dead(s):
                    continue
                rs = self.E.refine_elts(s)
                if rs is not None:
                    if not rs:
                        continue
                    s = rs[0]
                ok = False
                self.fail("%s (%s)" % (what, o.info[0]), s, [], o.info[1])
                break
        if ok:
            self.res(what, "proved", "%d panic sites excluded" % n)
        return ok

    def rets(self):
        return [o for o in self.outs if o.kind == "ret"]


def nice(k):
    if isinstance(k, Lin):
        return show(k)
    if isinstance(k, tuple):
        if k[0] == "arg":
            return "arg%d" % k[1]
        if k[0] == "deref":
            return "*" + nice(k[1])
        if k[0] == "fld":
            return "%s.%s" % (nice(k[1]), k[2])
        if k[0] == "len":
            return "len(%s)" % nice(k[1])
        if k[0] == "elt":
            return "%s[%s]" % (nice(k[1]), nice(k[2]))
        if k[0] == "init":
            return nice(k[1])
        return "(" + " ".join(nice(x) for x in k) + ")"
    return str(k)


class Rules:
    """base of the rule tables: f_<name> methods decide one function each"""

    prefix = ""

    def __init__(self, ctx):
        self.ctx = ctx

    keys = {}
    no_peel = False

    def key(self, name):
        return self.keys.get(name) or self.prefix + name

    def run(self, name, fn=None, confirm=None):
        """decide the obligations of one function; undecided ones are retried on exact loop unrollings, which can only
        confirm violations"""
        fn = fn or getattr(self, "f_" + name)
        key = self.ctx.p.find(self.key(name))
        ctx = self.ctx
        if key is None:
            ctx.results.append(Result(self.key(name), "the function exists", "refuted", "no function of this name in the crate"))
            return
        n0 = len(ctx.results)
        self.once(fn, key)
        mine = ctx.results[n0:]
        if all(r.status in ("proved", "refuted") for r in mine) or any(r.status == "refuted" for r in mine):
            return
        if self.no_peel:
            return
        tries = []
        for r in mine:
            if r.status == "weak" and r.pins and (8, r.pins, 40) not in tries:
                tries.append((8, r.pins, 40))
        tries = [t + (None,) for t in tries[:2]] + [(1, None, 50, None), (1, None, 60, 1), (3, None, 50, None), (3, None, 60, 2), (2, None, 60, 3)]
        tries = [t + (fn,) for t in tries]
        if confirm:
            tries.insert(0, (128, None, 100, None, confirm))
        for depth, pins, secs, sample, what in tries:
            ctx.peel = depth
            ctx.pins = pins
            ctx.sample, ctx.sample_secs = sample, 0.4 * secs
            st = dict(ctx.stats)
            n1 = len(ctx.results)
            try:
                self.once(what, key, secs)
            finally:
                ctx.peel = None
                ctx.pins = ctx.sample = None
                ctx.stats.update(st)
            conf = [r for r in ctx.results[n1:] if r.status == "refuted"]
            del ctx.results[n1:]
            if conf:
                whats = {r.what for r in conf}
                ctx.results[n0:] = [r for r in mine if r.what not in whats] + conf
                return

    time_limit = 300

    def once(self, fn, key, secs=None):
        secs = min(secs or self.time_limit, self.ctx.deadline - time.time())
        try:
            if secs < 1:
                raise Timeout()
            with limit(secs):
                fn(key)
        except Found:
            pass
        except Timeout:
            self.ctx.results.append(Result(key, "analysis ended early", "unknown", "time limit"))
        except Giveup as e:
            self.ctx.results.append(Result(key, "analysis gave up", "unknown", str(e)[:300]))
        except Exception as e:  # an unmodelled construct must never look like a verdict
            if self.ctx.debug:
                raise
            self.ctx.results.append(Result(key, "analysis failed", "unknown", "%s: %s" % (type(e).__name__, str(e)[:300])))
