"""Serialisation and cloning. Every field of a data structure is written once under a name and a place, and read back from
that name and that place into the same field; a clone has every field cloned from the same field. The (de)serialiser is
abstract: its calls record what is written and hand out marked values."""
from lin import *
from eng import Giveup, Outcome
from contracts import Run, Rules, Result
from models import none, some
from rules_bitvec import BitVecRules, setup

PUBLIC = ["bit_vec::BitVec", "bit_vec::fast_rs_vec::RsVec", "bit_vec::sparse::SparseRSVec", "elias_fano::EliasFanoVec", "rmq::binary_rmq::BinaryRmq", "rmq::fast_rmq::FastRmq", "wavelet::WaveletMatrix", "trees::bp::BpTree<512>"]
LOG = ("O", ("serde",))


class SerdeRules(BitVecRules):
    keys = {}
    prefix = ""

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = setup(ctx.p)

    @staticmethod
    def names():
        return PUBLIC

    # ------------------------------------------------------------------ which types
    def impl(self, ty):
        """(serialize, {visitor method: key}, {field visitor method: key}) of a type"""
        ser = vis = None
        v, f = {}, {}
        base = ty.split("<")[0]
        for k in self.ctx.p.bodies:
            if k.split("<impl serde::Serialize for ")[-1].startswith((ty + ">::serialize::<",)) and "<impl serde::Serialize for " in k:
                ser = k
            m = k.split("<impl serde::Deserialize<'de> for ")
            if len(m) > 1 and m[-1].split(">::deserialize::")[0].split("<")[0] == base:
                for kind, out in (("__Visitor", v), ("__FieldVisitor", f)):
                    if "::deserialize::" + kind in m[-1] and "serde::de::Visitor<'_>>::" in m[-1]:
                        out[m[-1].split("serde::de::Visitor<'_>>::")[-1].split("::<")[0]] = k
        return ser, v, f

    def adt(self, ty):
        for i, t in enumerate(self.ctx.p.types):
            if t.get("k") == "adt" and t["s"] == ty and "variants" in t:
                return i, t
        raise Giveup("no type " + ty)

    def closure(self, ty):
        """the local types reachable through the fields"""
        out, todo = [], [ty]
        T = self.ctx.p.types
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            seen, inner = set(), [f["t"] for f in self.adt(x)[1]["variants"][0]["f"]]
            while inner:
                i = inner.pop()
                if i in seen:
                    continue
                seen.add(i)
                t = T[i]
                if t["k"] == "adt" and t.get("local"):
                    todo.append(t["s"])
                    continue
                inner += [y for y in t.get("args", []) if isinstance(y, int)] + ([t["to"]] if isinstance(t.get("to"), int) else []) + [y for y in t.get("ts", [])]
        return out

    def run(self, name, fn=None):
        ctx = self.ctx
        try:
            types = self.closure(name)
        except Giveup as e:
            ctx.results.append(Result(name, "the type exists", "unknown", str(e)))
            return
        for ty in types:
            ser, v, f = self.impl(ty)
            if ser is None or not v:
                if ser is None and not v and not any("<impl serde::" in k for k in ctx.p.bodies):
                    st = "refuted"
                else:
                    st = "unknown"
                ctx.results.append(Result(ty, "the type can be serialised", st, "no implementation of serialisation found"))
                continue
            self.once(lambda key: self.serde(key, ty, v, f), ser)
            clone = ctx.p.find("<%s as std::clone::Clone>::clone" % ty)
            if clone:
                self.once(lambda key: self.clone(key, ty), clone)

    # ------------------------------------------------------------------ the abstract (de)serialiser
    def machine(self, keys=()):
        E = self.engine()
        E.struct_inv = {}
        E.peel = len(keys) + 3
        E.peel_width = 4096
        T = E.T
        orig = E.on_call

        def ok(st, dty, v, var=0):
            return [Outcome("ret", st, ("agg", dty, var, (v,)))]

        def log(st, x):
            s = st.copy()
            s.mem[LOG] = ("slog", s.mem.get(LOG, ("slog", ()))[1] + (x,))
            return s

        def past(st):
            return st.mem.get(LOG, ("slog", ()))[1]

        def on_call(E, st, callee, args, dty, depth, body, line):
            p = callee["path"]
            if p == "std::ops::Try::branch" and args[0][0] == "agg" and T[args[0][1]].get("path") == "std::result::Result":
                if args[0][2] == 0:
                    return ok(st, dty, args[0][3][0])
                return ok(st, dty, ("residual",), 1)
            if p == "std::ops::FromResidual::from_residual" and args[0][0] == "residual":
                return ok(st, dty, ("error",), 1)
            if p.startswith("std::cmp::PartialEq::") or p.endswith("::eq"):
                vals = [a for a in args]
                for i, a in enumerate(vals):
                    n = 0
                    while a[0] == "ref" and n < 3:
                        a = E.read(st, a[1], a[2])
                        n += 1
                    vals[i] = a
                if len(vals) == 2 and all(a[0] == "str" and a[1][0] == "lit" for a in vals):
                    r = vals[0] == vals[1]
                    return [Outcome("ret", st, ("bool", r if not p.endswith("::ne") else not r))]
            if p in ("serde::Serializer::serialize_struct", "serde::Serializer::serialize_tuple_struct"):
                n = args[2][1].const() if args[2][0] == "int" else None
                return ok(log(st, ("begin", n)), dty, ("writer",))
            if p in ("serde::ser::SerializeStruct::serialize_field", "serde::ser::SerializeTupleStruct::serialize_field"):
                named = len(args) == 3
                if named and (args[1][0] != "str" or args[1][1][0] != "lit"):
                    raise Giveup("name of a field")
                return ok(log(st, ("field", args[1][1][1] if named else None, args[-1])), dty, ("agg", None, 0, ()))
            if p == "serde::ser::SerializeStruct::skip_field":
                return ok(st, dty, ("agg", None, 0, ()))
            if p in ("serde::ser::SerializeStruct::end", "serde::ser::SerializeTupleStruct::end"):
                return ok(st, dty, ("written",))
            if p == "serde::Serializer::serialize_newtype_struct":
                return ok(log(log(st, ("begin", 1)), ("field", None, args[-1])), dty, ("written",))
            if p.startswith("serde::ser") or p.startswith("serde::Serializer"):
                raise Giveup("serialisation by " + p)
            if p == "serde::de::SeqAccess::next_element":
                n = len(past(st))
                opt = T[dty]["args"][0]
                if n >= len(keys):
                    return ok(st, dty, none(opt))
                return ok(log(st, ("next",)), dty, some(opt, ("read", n)))
            if p == "serde::de::MapAccess::next_key":
                n = len(past(st))
                opt = T[dty]["args"][0]
                if n >= len(keys):
                    return ok(st, dty, none(opt))
                fty = T[opt]["args"][0]
                v = keys[n] if isinstance(keys[n], tuple) else ("agg", fty, keys[n], ())
                return ok(log(st, ("next",)), dty, some(opt, v))
            if p == "serde::de::MapAccess::next_value":
                return ok(st, dty, ("read", len(past(st)) - 1))
            if p == "serde::Deserialize::deserialize" and depth <= 2:
                return ok(st, dty, ("read", 0))
            if p.startswith("serde::__private") or p.startswith("serde::de::Error::"):
                t = T[dty]
                return ok(st, dty, ("error",), 1) if t.get("path") == "std::result::Result" else [Outcome("ret", st, ("error",))]
            if p == "std::default::Default::default":
                return [Outcome("ret", st, ("default",))]
            if p.startswith("serde::"):
                raise Giveup("deserialisation by " + p)
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        E.on_call = on_call
        return E

    def decided(self, key, what, good, detail=""):
        self.ctx.results.append(Result(key, what, "proved" if good else "refuted", detail))
        self.ctx.count_obligation() if hasattr(self.ctx, "count_obligation") else None

    def only(self, r, key):
        outs = [o for o in r.outs if not (o.kind == "ret" and o.val[0] == "agg" and r.E.T[o.val[1]].get("path") == "std::result::Result" and o.val[2] == 1)]
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Giveup("%d ways through the function" % len(outs))
        return outs[0]

    def serde(self, key, ty, v, f):
        fields = [x["n"] for x in self.adt(ty)[1]["variants"][0]["f"]]
        # what is written
        E = self.machine()
        r = Run(self.ctx, key, E=E)
        o = self.only(r, key)
        entries = o.st.mem.get(LOG, ("slog", ()))[1]
        if not entries or entries[0][0] != "begin" or o.val[0] != "agg" or o.val[3][0] != ("written",):
            raise Giveup("serialisation of another form")
        me = r.args[0]
        order, names = [], []
        for e in entries[1:]:
            x = e[2]
            n = 0
            while x[0] == "ref" and x[1] != me[1] and n < 4:
                x = E.read(o.st, x[1], x[2])
                n += 1
            rest = tuple(x[2])[len(tuple(me[2])):] if x[0] == "ref" and x[1] == me[1] else ()
            if len(rest) != 1 or rest[0][0] != "f":
                raise Giveup("a value which is not a field")
            order.append(rest[0][1])
            names.append(e[1])
        self.decided(key, "the announced number of fields is written", entries[0][1] in (len(order), None), "%s announced, %d written" % (entries[0][1], len(order)))
        self.decided(key, "no name is written twice", len(set(names)) == len(names) or names == [None], str(names))
        # what is read back
        for m in ("visit_seq", "visit_newtype_struct") if names == [None] else ("visit_seq", "visit_map"):
            if m not in v:
                raise Giveup("no " + m)
            keys = list(range(len(order)))
            if m == "visit_map":
                keys = [self.field(f, n) for n in names]
            E = self.machine(keys)
            r = Run(self.ctx, v[m], E=E)
            o = self.only(r, v[m])
            got = o.val[3][0] if o.val[0] == "agg" and o.val[2] == 0 else None
            if got is None or got[0] != "agg" or len(got[3]) != len(fields):
                raise Giveup("deserialisation of another form")
            for i, x in enumerate(got[3]):
                what = "field %s is restored from what was written for it (%s)" % (fields[i], "by position" if m == "visit_seq" else "by name" if m == "visit_map" else "as a whole")
                if x[0] == "read" and x[1] < len(order):
                    self.decided(v[m], what, order[x[1]] == i, "field %s is read from where %s was written" % (fields[i], fields[order[x[1]]]))
                elif x == ("default",) or (x[0] == "int" and x[1].const() is not None) or (x[0] == "vec" and x[2].const() == 0):
                    self.decided(v[m], what, False, "field %s is not restored but set to a fixed value" % fields[i])
                else:
                    self.ctx.results.append(Result(v[m], what, "unknown", "value of the field: %s" % str(x)[:100]))

    def field(self, f, name):
        """the field identifier a name is read as"""
        if "visit_str" not in f:
            raise Giveup("no names of fields")
        E = self.machine()

        def pre(r):
            r.args[1] = ("str", ("lit", name))
            return []

        r = Run(self.ctx, f["visit_str"], E=E, pre=pre)
        outs = [o for o in r.outs if o.kind == "ret"]
        if len(outs) != 1 or outs[0].val[0] != "agg" or outs[0].val[2] != 0:
            raise Giveup("field identifier")
        return outs[0].val[3][0]

    # ------------------------------------------------------------------ clones
    def clone(self, key, ty):
        fields = [x["n"] for x in self.adt(ty)[1]["variants"][0]["f"]]
        E = self.engine()
        E.struct_inv = {}
        orig = E.on_call

        def on_call(E, st, callee, args, dty, depth, body, line):
            if callee["path"] == "std::clone::Clone::clone" and args[0][0] == "ref":
                x = args[0]
                n = 0
                while True:
                    w = E.read(st, x[1], x[2])
                    if w[0] != "ref" or n > 3:
                        break
                    x, n = w, n + 1
                return [Outcome("ret", st, ("copy", x[1], tuple(x[2])))]
            return orig(E, st, callee, args, dty, depth, body, line) if orig else None

        E.on_call = on_call
        r = Run(self.ctx, key, E=E)
        me = r.args[0]
        src = E.read(r.st0, me[1], me[2])
        for o in r.rets():
            x = o.val
            if x == src:
                for n in fields:
                    self.decided(key, "field %s of the clone is the field's clone" % n, True)
                continue
            if x[0] != "agg" or len(x[3]) != len(fields):
                raise Giveup("clone of another form")
            for i, w in enumerate(x[3]):
                what = "field %s of the clone is the field's clone" % fields[i]
                if w[0] == "copy" and w[1] == me[1] and len(w[2]) == len(tuple(me[2])) + 1:
                    self.decided(key, what, w[2][-1][1] == i, "cloned from field %s" % fields[w[2][-1][1]])
                elif w == src[3][i]:
                    self.decided(key, what, True)
                elif w == ("default",) or (w[0] == "int" and w[1].const() is not None) or (w[0] == "vec" and w[2].const() == 0):
                    self.decided(key, what, False, "set to a fixed value")
                else:
                    self.ctx.results.append(Result(key, what, "unknown", "value of the field: %s" % str(w)[:100]))
