"""Loading the driver's dump: bodies, types, items and control-flow helpers."""
import json
import re


class Body:
    def __init__(self, j):
        self.__dict__.update(j)
        self.n = len(self.bbs)
        self._loops = None
        self.varnames = {l: n for l, n in self.names}

    def succ(self, b):
        t = self.bbs[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def joins(self, b):
        """several branches meet in the block"""
        self.loops()
        return len(self.preds[b]) > 1

    def loops(self):
        """header -> set of blocks of the natural loop"""
        if self._loops is not None:
            return self._loops
        order, seen = [], set()
        stack = [(0, iter(self.succ(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        self.rpo = {b: i for i, b in enumerate(rpo)}
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ(b):
                preds[s].append(b)
        self.preds = preds
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        res = {}
        for b in rpo:
            for s in self.succ(b):
                if dom(s, b):
                    body = res.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(preds[x])
        self._loops = res
        self.reach = set(rpo)
        return res


    def live(self, b):
        """locals that may be read directly from block b on; self._always: locals whose address is taken"""
        if getattr(self, "_live", None) is None:
            self._live = self._liveness()
        return self._live[b]

    def _liveness(self):
        def isplace(x):
            return isinstance(x, list) and x and isinstance(x[0], int) and not isinstance(x[0], bool) and all(
                e == "*" or isinstance(e, list) and e and isinstance(e[0], str) for e in x[1:])

        def uses(x, out):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k != "k":
                        uses(v, out)
            elif isplace(x):
                out.add(x[0])
                for e in x[1:]:
                    if e != "*" and e[0] == "i" and len(e) > 1 and isinstance(e[1], int):
                        out.add(e[1])
            elif isinstance(x, list):
                for e in x:
                    uses(e, out)

        always = {0}
        use, kill = [], []
        for b in self.bbs:
            u, d = set(), set()
            for s in b["s"]:
                t = set()
                if s[0] == "=":
                    if s[2][0] in ("ref", "rawptr"):
                        p = s[2][2]
                        if "*" not in p[1:]:
                            always.add(p[0])
                    uses(s[2], t)
                    if len(s[1]) > 1:
                        uses(s[1], t)
                    u |= t - d
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                else:
                    uses(s[1:], t)
                    u |= t - d
            t = set()
            tm = b["t"]
            if tm[0] == "call":
                uses(tm[1], t)
                uses(tm[2], t)
                if len(tm[3]) > 1:
                    uses(tm[3], t)
            elif tm[0] in ("switch", "assert", "drop"):
                uses(tm[1], t)
            elif tm[0] not in ("goto", "return", "unreachable"):
                uses(tm, t)
            u |= t - d
            use.append(u)
            kill.append(d)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in range(self.n - 1, -1, -1):
                o = set()
                for x in self.succ(b):
                    o |= live[x]
                    tm = self.bbs[b]["t"]
                    if tm[0] == "call" and len(tm[3]) == 1:
                        o.discard(tm[3][0])
                n = use[b] | (o - kill[b])
                if n - live[b]:
                    live[b] |= n
                    ch = True
        self._always = always
        return live


class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j["types"]
        self.items = j["items"]
        self.adts = j["adts"]
        self.statics = {s["path"]: s for s in j["statics"]}
        self.statics_list = j["statics"]
        self.impls = j["impls"]
        self.d = j
        self.features = j["features"]
        self.bodies = {}
        for b in j["bodies"]:
            bo = Body(b)
            self.bodies.setdefault(bo.key, bo)
        self.fns = {}
        for it in self.items:
            if it["kind"] == "fn":
                self.fns.setdefault(it["path"], it)
        self.ty_by_str = {}
        for i, t in enumerate(self.types):
            self.ty_by_str.setdefault(t["s"], i)

    def t(self, i):
        return self.types[i]

    def tid(self, s):
        return self.ty_by_str.get(s)

    def adt_field(self, ty, name):
        for i, f in enumerate(self.types[ty]["variants"][0]["f"]):
            if f["n"] == name:
                return i
        return None

    def find(self, name):
        """key of a function given its path without turbofish arguments"""
        if name in self.bodies:
            return name
        if not hasattr(self, "_bare"):
            self._bare = {}
            for k in self.bodies:
                self._bare.setdefault(bare(k), k)
            import re

            for k in self.bodies:
                # an inherent impl outside the module of its type
                m = re.match(r".*?<impl ([\w:]+?)(?:<[^>]*>)?>::(\w+)", k)
                if m and " for " not in k.split(">::")[0]:
                    self._bare.setdefault(m.group(1) + "::" + m.group(2), k)
        return self._bare.get(name)


def bare(k):
    """path without ::<...> arguments"""
    out = []
    i = 0
    while i < len(k):
        if k.startswith("::<", i):
            d, j = 0, i + 2
            while j < len(k):
                if k[j] == "<":
                    d += 1
                elif k[j] == ">" and k[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            inner = k[i + 3 : j]
            if not inner.startswith("impl "):
                i = j + 1
                continue
        out.append(k[i])
        i += 1
    return "".join(out)
