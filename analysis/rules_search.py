"""Summaries of the searches for a super block, a block and a word. A summary stands for the call only where it has been
proved for the function's current body (in this run) and its precondition follows from the caller's state; otherwise the
body is inlined. A summary therefore never decides anything by itself, it only keeps the callers small."""
from lin import *
from eng import Giveup, prim, Outcome
from contracts import Run, Rules, Result
from rules_bitvec import BitVecRules, setup, ge, lt, eq
from rules_rsvec import setup_rs, RS, sel_cands

PROVED = {}
NAMES = ["search_super_block0", "search_super_block1", "search_block0", "search_block1", "search_word_in_block0", "search_word_in_block1"]


class SearchRules(BitVecRules):
    prefix = RS + "::"
    keys = {}
    no_peel = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)
        self.s = setup_rs(ctx.p)

    @staticmethod
    def names():
        return NAMES

    def run(self, name, fn=None):
        BitVecRules.run(self, name, lambda key: self.search(name, key))

    # ------------------------------------------------------------------ what a search is given and what it promises
    def kind(self, E, zero):
        def kind(p, c):
            n = E.bdom.P(None, c, p)
            return p.sub(n) if zero else n
        return kind

    def spec(self, E, zero, vec):
        c, n, l = self.s.parts(vec)
        pad = ("pad1" if zero else "pad0", c, l)
        ns, nb = vec[3][self.s.super_blocks][2], vec[3][self.s.blocks][2]
        tot = vec[3][self.s.rank0 if zero else self.s.rank1][1]
        kind = self.kind(E, zero)
        return c, l, pad, ns, nb, tot, kind

    def search(self, name, key):
        zero = name.endswith("0")
        what = name[7:-1]
        E = BitVecRules.engine(self)
        box = {}
        sel_cands(E, zero, lambda: box["t"])

        def pre(r):
            vec = r.pointee(0)
            c, l, pad, ns, nb, tot, kind = self.spec(E, zero, vec)
            if what == "super_block":
                R = r.int(2)
                box["t"] = (c, l, R)
                e = E.elem_cases(r.st0, vec[3][self.s.select_blocks], E.divc(R, 8192))
                if len(e) != 1:
                    raise Giveup("directory entry")
                # the entry's facts need the precondition, so it is read after assuming it
                self.late = lambda s: E.elem_cases(s, vec[3][self.s.select_blocks], E.divc(R, 8192))[0][1][3][0 if zero else 1]
                return [lt(R, tot)]
            if what == "block":
                S = atom(("ghost", "S"), 0, (1 << 50))
                R = r.int(1).add(kind(S.scale(8192), c))
                box["t"] = (c, l, R)
                box["S"] = S
                E.merge_extra.append(S)
                a = r.args[-1]
                E.write(r.st0, a[1], a[2], ("int", S.scale(16)))
                if len(r.args) == 4:
                    r.args[2] = ("int", S.scale(16))
                return [lt(S, ns), lt(R, kind(S.scale(8192).addc(8192), pad)), lt(R, tot)]
            b = r.int(2)
            R = r.int(1).add(kind(b.scale(512), c))
            box["t"] = (c, l, R)
            return [lt(b, nb), lt(R, kind(b.scale(512).addc(512), pad)), lt(R, tot)]

        if what == "super_block":
            # run from each state that satisfies the precondition, with the entry read in it
            r = LateRun(self, key, E, pre)
        else:
            r = Run(self.ctx, key, E=E, pre=pre)
        r.no_panic()
        vec = r.pointee(0)
        c, l, pad, ns, nb, tot, kind = self.spec(E, zero, vec)
        for o in r.rets():
            R = box["t"][2]
            if what == "super_block":
                for f in self.post_super(o.val[1], R, c, pad, ns, kind):
                    r.prove("finds the super block", o.st, f)
            elif what == "block":
                a = r.args[-1]
                b = E.read(o.st, a[1], a[2])[1]
                for f in self.post_block(b, box["S"], R, c, pad, nb, kind):
                    r.prove("finds the block", o.st, f)
            else:
                for f in self.post_word(o.val[1], r.int(2), R, c, l, kind):
                    r.prove("finds the bit", o.st, f)

    def post_super(self, s, R, c, pad, ns, kind):
        return [lt(s, ns), ge(R, kind(s.scale(8192), c)), lt(R, kind(s.scale(8192).addc(8192), pad))]

    def post_block(self, b, S, R, c, pad, nb, kind):
        return [ge(b, S.scale(16)), ge(S.scale(16).addc(15), b), lt(b, nb), ge(R, kind(b.scale(512), c)), lt(R, kind(b.scale(512).addc(512), pad))]

    def post_word(self, q, b, R, c, l, kind):
        return [ge(q, b.scale(512)), ge(b.scale(512).addc(511), q), lt(q, l), eq(kind(q, c), R), eq(kind(q.addc(1), c), R.addc(1))]

    # ------------------------------------------------------------------ use at a call site
    def proved(self, name):
        k = (id(self.ctx.p), name)
        if k not in PROVED:
            ctx = self.ctx
            n0 = len(ctx.results)
            if ctx.p.find(self.prefix + name) is None:
                PROVED[k] = False
            else:
                sub = SearchRules(ctx)
                sub.time_limit = 60
                sub.run(name)
                PROVED[k] = len(ctx.results) > n0 and all(r.status == "proved" for r in ctx.results[n0:])
                del ctx.results[n0:]
        return PROVED[k]

    def prepare(self, zero):
        """to be called before the caller's own analysis begins"""
        if not (self.ctx.peel or self.ctx.sample):
            for n in NAMES:
                if n.endswith("0" if zero else "1"):
                    self.proved(n)

    def install(self, E):
        if self.ctx.peel or self.ctx.sample:
            return
        keys = {}
        for n in NAMES:
            k = self.ctx.p.find(self.prefix + n)
            if k:
                keys[k] = n
                keys[self.prefix + n] = n
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            n = keys.get(callee.get("inst")) or keys.get(callee.get("rpath", callee["path"]))
            if n is not None:
                out = self.use(E, st, n, args, dty)
                if out is not None:
                    return out
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        E.on_call = on_call

    def use(self, E, st, name, args, dty):
        zero = name.endswith("0")
        what = name[7:-1]
        if args[0][0] != "ref":
            return None
        vec = E.read(st, args[0][1], args[0][2])
        if vec[0] == "ref":
            vec = E.read(st, vec[1], vec[2])
        if vec[0] != "agg":
            return None
        c, l, pad, ns, nb, tot, kind = self.spec(E, zero, vec)
        S = b = None
        if what == "super_block":
            if len(args) != 3:
                return None
            sb, R = args[1][1], args[2][1]
            pre = [lt(R, tot)]
            e = E.elem_cases(st, vec[3][self.s.select_blocks], E.divc(R, 8192))
            if len(e) != 1 or e[0][1][3][0 if zero else 1][1] != sb:
                return None
        elif what == "block":
            if len(args) not in (3, 4):
                return None
            a = args[-1]
            b = E.read(st, a[1], a[2])[1]
            S = self.s.quot(E, st, b)
            if all(x % 16 == 0 for _, x in b.t) and b.c % 16 == 0:
                S = Lin(b.c // 16, tuple((t, x // 16) for t, x in b.t))
            R = args[1][1].add(kind(S.scale(8192), c))
            pre = [eq(b, S.scale(16)), lt(S, ns), ge(S, K(0)), lt(R, kind(S.scale(8192).addc(8192), pad)), lt(R, tot), ge(args[1][1], K(0))]
            if len(args) == 4:
                pre.append(eq(args[2][1], b))
        else:
            if len(args) != 3:
                return None
            b = args[2][1]
            R = args[1][1].add(kind(b.scale(512), c))
            pre = [lt(b, nb), ge(b, K(0)), lt(R, kind(b.scale(512).addc(512), pad)), lt(R, tot), ge(args[1][1], K(0))]
        for f in pre:
            if not E.entails(st, prim(f)):
                if self.ctx.debug:
                    print("summary of", name, "not usable:", f[0], show(f[1])[:200])
                return None
        if not PROVED.get((id(self.ctx.p), name)):
            return None
        x = atom(E.freshterm("sum"), 0, (1 << 62))
        if what == "super_block":
            post = self.post_super(x, R, c, pad, ns, kind)
        elif what == "block":
            # the slot within the super block is what varies
            x = S.scale(16).add(atom(E.freshterm("sum"), 0, 15))
            post = self.post_block(x, S, R, c, pad, nb, kind)
        else:
            post = self.post_word(x, b, R, c, l, kind)
        sts = [st]
        for f in post:
            sts = [t for s in sts for t in E.assume(s, prim(f))]
        out = []
        for s in sts:
            if what == "block":
                E.write(s, args[-1][1], args[-1][2], ("int", x))
                out.append(Outcome("ret", s, ("agg", dty, 0, ())))
            else:
                out.append(Outcome("ret", s, ("int", x)))
        return out


class LateRun(Run):
    def __init__(self, rules, key, E, pre):
        self.rules = rules
        me = self

        def pre2(r):
            return pre(r)

        orig = E.call_body

        def call_body(st, b, args, depth):
            if depth == 0:
                args = list(args)
                args[1] = rules.late(st)
                me.args = args
            return orig(st, b, args, depth)

        E.call_body = call_body
        Run.__init__(self, rules.ctx, key, E=E, pre=pre2)
