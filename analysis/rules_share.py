"""What sharing a value relies on, decided on types and on the operations in the MIR: no state that changes behind a shared
reference, no global state, values that may go to and be used from other threads, and no code outside the checks of the
language except processor intrinsics."""
from contracts import Result, Rules

CELL = ("std::cell::UnsafeCell", "core::cell::UnsafeCell")


class ShareRules(Rules):
    def __init__(self, ctx):
        self.ctx = ctx

    @staticmethod
    def names():
        return ["types", "globals", "operations"]

    def run(self, name, fn=None):
        self.once(lambda key: getattr(self, "c_" + name)(), name)

    def res(self, fn, what, ok, detail="", site=None):
        r = Result(fn, what, "proved" if ok else "refuted", detail)
        r.site = site
        self.ctx.results.append(r)
        self.ctx.stats["obligations"] += 1

    # ------------------------------------------------------------------ types
    def parts(self, t, path, seen, out):
        """every cell and every raw pointer or function object of the crate's own, with the way to it"""
        p = self.ctx.p
        if t in seen:
            return
        seen.add(t)
        x = p.types[t]
        k = x["k"]
        if k == "adt":
            if x["path"] in CELL:
                out.append(("cell", path))
                return
            for v in x.get("variants", []):
                for f in v["f"]:
                    self.parts(f["t"], path + (f["n"],), seen, out)
            for a in x.get("args", []):
                if isinstance(a, int):
                    self.parts(a, path + ("<%s>" % p.types[a]["s"],), seen, out)
        elif k in ("ref", "ptr"):
            self.parts(x["to"], path, seen, out)
        elif k in ("slice", "array"):
            self.parts(x["to"], path + ("[]",), seen, out)
        elif k in ("tuple", "closure"):
            for y in x.get("ts", []):
                self.parts(y, path, seen, out)

    def c_types(self):
        p = self.ctx.p
        for a in p.d["adts"]:
            if not a["reachable"] and "Public" not in a["vis"]:
                continue
            site = "%s:%s" % (a["file"], a["line"])
            x = p.types[a["ty"]]
            generic = any(isinstance(y, int) and p.types[y]["k"] == "param" for y in x.get("args", []))
            auto = dict(map(tuple, a["auto"]))
            if not generic:
                for t in ("Send", "Sync"):
                    self.res(a["path"], "is %s" % t, auto.get(t, False), "" if auto.get(t) else "the type is not %s" % t, site)
            out = []
            self.parts(a["ty"], (), set(), out)
            cells = [".".join(w) for k, w in out if k == "cell"]
            self.res(a["path"], "no part can change behind a shared reference", not cells, "interior mutability in " + ", ".join(cells[:3]) if cells else "", site)

    # ------------------------------------------------------------------ global state
    def c_globals(self):
        p = self.ctx.p
        n = 0
        for s in p.d["statics"]:
            if s["kind"] != "static":
                continue
            n += 1
            out = []
            self.parts(s["t"], (), set(), out)
            bad = s["mut"] or s.get("tls") or not s.get("freeze", True) or any(k == "cell" for k, _ in out)
            self.res(s["path"], "global data is constant", not bad, "mutable static" if bad else "", "%s:%s" % (s["file"], s["line"]))
        for i in p.d["impls"]:
            if i["unsafe"] and not i["derived"]:
                self.res(i["self"], "no unsafe implementation of " + str(i["trait"]), False, "unsafe impl", "%s:%s" % (i["file"], i["line"]))
        self.res("the crate", "the globals are enumerated", True, "%d statics, %d impls" % (n, len(p.d["impls"])))

    # ------------------------------------------------------------------ operations
    def c_operations(self):
        p = self.ctx.p
        simd = self.ctx.name == "all-features"
        for b in p.d["bodies"]:
            if not b["local"]:
                continue
            bad = []
            locs = b["locals"]
            made = {}

            def places(o, line):
                if isinstance(o, list):
                    if o and isinstance(o[0], int) and not isinstance(o[0], bool) and len(o) > 1 and o[1] == "*" and o[0] < len(locs) and p.types[locs[o[0]]]["k"] == "ptr":
                        deref.append((o[0], line))
                    for y in o:
                        places(y, line)
                elif isinstance(o, dict):
                    for y in o.values():
                        places(y, line)

            deref = []
            calls = []
            for bb in b["bbs"]:
                for s in bb["s"]:
                    if s and s[0] == "=":
                        if len(s[1]) == 1:
                            made.setdefault(s[1][0], []).append(s[2])
                        places(s[1], s[-1])
                        places(s[2], s[-1])
                t = bb["t"]
                if t and t[0] == "call":
                    f = t[1].get("k", {}).get("fn") if isinstance(t[1], dict) else None
                    if f and f.get("unsafe"):
                        calls.append((f["path"], t[-1]))
                    if isinstance(t[3], list) and len(t[3]) == 1:
                        made.setdefault(t[3][0], []).append(["call"])
                    places(t[2], t[-1])
                    places(t[3], t[-1])
            for l, line in deref:
                # what Box turns into when it is dereferenced is a transmuted pointer
                if not made.get(l) or not all(r[0] == "cast" and "Transmute" in str(r[1:]) for r in made[l]):
                    bad.append(("raw pointer access", line))
            for f, line in calls:
                if f.startswith(("std::fmt::", "core::fmt::")):
                    continue
                arch = f.startswith(("std::arch::", "core::arch::"))
                inner = any(i.get("path") == f and i.get("unsafe") for i in p.d["items"])
                if arch and (simd or not any(w in f for w in ("load", "store", "gather", "scatter", "stream", "prefetch", "maskmov"))):
                    continue
                if inner:
                    continue  # its own body is looked at by itself
                bad.append(("unsafe call of " + f, line))
            self.res(b["key"], "no access outside the checks of the language", not bad, "; ".join(sorted({w for w, _ in bad}))[:300],
                     "%s:%s" % (b["file"], bad[0][1]) if bad else None)
