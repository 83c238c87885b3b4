use crate::json::J;
use rustc_abi::{FieldIdx, FieldsShape, Variants};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::VecDeque;

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ids: FxHashMap<Ty<'tcx>, usize>,
    ty_list: Vec<Ty<'tcx>>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    seen: FxHashSet<Instance<'tcx>>,
    env: TypingEnv<'tcx>,
    depth: usize,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

/// std functions whose bodies are never wanted (formatting, panicking, allocation internals)
fn skip_std(p: &str) -> bool {
    const SKIP: &[&str] = &[
        "::fmt::", "std::fmt", "core::fmt", "panicking", "::alloc::", "raw_vec", "std::io", "std::sync",
        "std::thread", "core::unicode", "core::str::", "std::string", "alloc::string", "std::collections",
        "std::backtrace", "serde_core", "mem_dbg", "std::rc", "std::env", "std::path", "std::ffi", "std::os", "core::slice::sort",
        "std::arch", "core::arch", "core::core_arch", "stdarch", "std::hash::", "core::hash::",
    ];
    SKIP.iter().any(|s| p.contains(s))
}

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let id = match self.ty_ids.get(&t) {
            Some(i) => *i,
            None => {
                let i = self.ty_list.len();
                self.ty_ids.insert(t, i);
                self.ty_list.push(t);
                i
            }
        };
        J::U(id as u128)
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let s = self.ty_str(t);
        let mut o = vec![("s", J::s(s))];
        let size = if t.has_param() || t.has_escaping_bound_vars() {
            None
        } else {
            self.tcx
                .layout_of(TypingEnv::fully_monomorphized().as_query_input(t))
                .ok()
                .map(|l| l.size.bytes())
        };
        if let Some(sz) = size {
            o.push(("size", J::U(sz as u128)));
        }
        match *t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("bits", J::U(i.bit_width().unwrap_or(64) as u128)));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("uint")));
                o.push(("bits", J::U(i.bit_width().unwrap_or(64) as u128)));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(path(self.tcx, def.did()))));
                o.push((
                    "kind",
                    J::s(if def.is_struct() { "struct" } else if def.is_enum() { "enum" } else { "union" }),
                ));
                o.push(("local", J::B(def.did().is_local())));
                let expand = def.did().is_local() || {
                    let p = path(self.tcx, def.did());
                    !(p.contains("::fmt::") || p.contains("raw_vec"))
                };
                let mut targs = vec![];
                for a in args.iter() {
                    if let Some(t) = a.as_type() {
                        targs.push(self.ty(t));
                    } else if let Some(c) = a.as_const() {
                        targs.push(J::s(format!("{}", c)));
                    }
                }
                o.push(("args", J::A(targs)));
                if expand {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            J::U(def.discriminant_for_variant(self.tcx, vi).val)
                        } else {
                            J::U(0)
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self
                                .tcx
                                .try_normalize_erasing_regions(self.env, ty::Unnormalized::new(ft))
                                .unwrap_or(ft);
                            let ft = self.tcx.erase_and_anonymize_regions(ft);
                            fs.push(J::O(vec![
                                ("n", J::s(f.name.as_str())),
                                ("t", self.ty(ft)),
                                ("vis", J::s(format!("{:?}", f.vis))),
                            ]));
                        }
                        vs.push(J::O(vec![("n", J::s(v.name.as_str())), ("d", discr), ("f", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::Ref(_, t2, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let j = self.ty(t2);
                o.push(("to", j));
            }
            ty::RawPtr(t2, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let j = self.ty(t2);
                o.push(("to", j));
            }
            ty::Slice(t2) => {
                o.push(("k", J::s("slice")));
                let j = self.ty(t2);
                o.push(("to", j));
            }
            ty::Array(t2, n) => {
                o.push(("k", J::s("array")));
                let j = self.ty(t2);
                o.push(("to", j));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", J::U(n as u128)));
                }
            }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Closure(did, args) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::s(path(self.tcx, did))));
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|t| self.ty(t)).collect();
                o.push(("ts", J::A(v)));
                let env = self.env;
                let inst = Instance::new_raw(did, args);
                self.enqueue(inst, env);
                o.push(("inst", J::s(self.key(inst))));
            }
            ty::FnDef(did, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("path", J::s(path(self.tcx, did))));
                let args = args.skip_binder();
                o.push(("callee", self.callee(did, args)));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            _ => o.push(("k", J::s("other"))),
        }
        J::O(o)
    }
    fn key(&self, i: Instance<'tcx>) -> String {
        let base = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args));
        match i.def {
            ty::InstanceKind::Item(_) => base,
            _ => {
                let k = format!("{:?}", i.def);
                let k = k.split('(').next().unwrap_or("").to_string();
                format!("{}#{}", base, k)
            }
        }
    }
    fn enqueue(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) {
        if !self.seen.insert(i) {
            return;
        }
        let d = self.depth + if i.def_id().is_local() { 0 } else { 1 };
        self.queue.push_back((i, env, d));
    }
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", J::s(path(tcx, did)))];
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                targs.push(self.ty(t));
            } else if let Some(c) = a.as_const() {
                targs.push(J::s(format!("{}", c)));
            }
        }
        o.push(("targs", J::A(targs)));
        if let Some(it) = tcx.intrinsic(did) {
            o.push(("intrinsic", J::s(it.name.as_str())));
        }
        o.push(("unsafe", J::B(matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(did).skip_binder().safety().is_safe())));
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            return J::O(o);
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, self.env, did, args_e) {
            Ok(Some(inst)) => {
                o.push(("inst", J::s(self.key(inst))));
                o.push(("rpath", J::s(path(tcx, inst.def_id()))));
                o.push(("local", J::B(inst.def_id().is_local())));
                if matches!(inst.def, ty::InstanceKind::Item(_)) || matches!(inst.def, ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..))) {
                    let env = self.env;
                    self.enqueue(inst, env);
                }
            }
            _ => {
                o.push(("unresolved", J::B(true)));
            }
        }
        J::O(o)
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::U(p.local.as_u32() as u128)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![J::s("f"), J::U(f.as_u32() as u128), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::U(l.as_u32() as u128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::U(offset as u128),
                    J::U(min_length as u128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::U(from as u128), J::U(to as u128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("d"), J::U(v.as_u32() as u128)]),
                other => J::A(vec![J::s("other"), J::s(format!("{:?}", other))]),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(&c.const_))]),
            Operand::RuntimeChecks(rc) => J::O(vec![("rt", J::s(format!("{:?}", rc)))]),
        }
    }
    fn constant(&mut self, c: &mir::Const<'tcx>) -> J {
        let t = c.ty();
        let mut o = vec![("t", self.ty(t))];
        if let ty::FnDef(did, args) = *t.kind() {
            let args = args.skip_binder();
            o.push(("fn", self.callee(did, args)));
            return J::O(o);
        }
        match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let j = self.const_value(v, t, 0);
                o.push(("v", j));
            }
            Err(_) => {
                o.push(("sym", J::s(format!("{:?}", c))));
            }
        }
        J::O(o)
    }
    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                if matches!(t.kind(), ty::Int(_)) {
                    J::I(size.sign_extend(bits))
                } else {
                    match t.kind() {
                        ty::Bool => J::B(bits != 0),
                        ty::Uint(_) | ty::Char => J::U(bits),
                        _ => J::O(vec![("bits", J::U(bits))]),
                    }
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                self.ptr_json(prov.alloc_id(), off.bytes(), t, None, depth)
            }
            ConstValue::Slice { alloc_id, meta } => self.ptr_json(alloc_id, 0, t, Some(meta), depth),
            ConstValue::Indirect { alloc_id, offset } => {
                let g = self.tcx.global_alloc(alloc_id);
                if let GlobalAlloc::Memory(a) = g {
                    self.read_mem(a.inner(), offset.bytes(), t, depth)
                } else {
                    J::O(vec![("opaque", J::s("indirect"))])
                }
            }
        }
    }
    fn ptr_json(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, meta: Option<u64>, depth: usize) -> J {
        let g = self.tcx.global_alloc(id);
        match g {
            GlobalAlloc::Static(d) => J::O(vec![("static", J::s(path(self.tcx, d)))]),
            GlobalAlloc::Function { instance } => {
                let env = self.env;
                self.enqueue(instance, env);
                J::O(vec![("fnptr", J::s(self.key(instance)))])
            }
            GlobalAlloc::Memory(a) => {
                let inner = match *t.kind() {
                    ty::Ref(_, t2, _) | ty::RawPtr(t2, _) => t2,
                    _ => return J::O(vec![("opaque", J::s("ptr"))]),
                };
                if depth > 6 {
                    return J::O(vec![("opaque", J::s("deep"))]);
                }
                match *inner.kind() {
                    ty::Str => {
                        let n = meta.unwrap_or(0) as usize;
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..off as usize + n);
                        J::O(vec![("str", J::s(String::from_utf8_lossy(b).to_string()))])
                    }
                    ty::Slice(et) => {
                        let n = meta.unwrap_or(0);
                        let sz = match self.tcx.layout_of(self.env.as_query_input(et)) {
                            Ok(l) => l.size.bytes(),
                            Err(_) => return J::O(vec![("opaque", J::s("slice"))]),
                        };
                        if n > 70000 {
                            return J::O(vec![("opaque", J::s("bigslice"))]);
                        }
                        let v = (0..n).map(|i| self.read_mem(a.inner(), off + i * sz, et, depth + 1)).collect();
                        J::O(vec![("ref", J::A(v))])
                    }
                    _ => {
                        let v = self.read_mem(a.inner(), off, inner, depth + 1);
                        J::O(vec![("ref", v)])
                    }
                }
            }
            _ => J::O(vec![("opaque", J::s("alloc"))]),
        }
    }
    fn read_mem(&mut self, a: &rustc_middle::mir::interpret::Allocation, off: u64, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 8 {
            return J::O(vec![("opaque", J::s("deep"))]);
        }
        let layout = match self.tcx.layout_of(self.env.as_query_input(t)) {
            Ok(l) => l,
            Err(_) => return J::O(vec![("opaque", J::s("layout"))]),
        };
        let size = layout.size.bytes();
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + size) as usize);
                let mut x: u128 = 0;
                for (i, y) in b.iter().enumerate() {
                    x |= (*y as u128) << (8 * i);
                }
                match *t.kind() {
                    ty::Bool => J::B(x != 0),
                    ty::Int(_) => J::I(layout.size.sign_extend(x)),
                    _ => J::U(x),
                }
            }
            ty::Ref(..) | ty::RawPtr(..) => {
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(8) };
                match a.read_scalar(&self.tcx, r, true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let meta = if size == 16 {
                            let r = AllocRange { start: rustc_abi::Size::from_bytes(off + 8), size: rustc_abi::Size::from_bytes(8) };
                            match a.read_scalar(&self.tcx, r, false) {
                                Ok(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64),
                                _ => None,
                            }
                        } else {
                            None
                        };
                        let (prov, o2) = p.into_raw_parts();
                        self.ptr_json(prov.alloc_id(), o2.bytes(), t, meta, depth + 1)
                    }
                    _ => J::O(vec![("opaque", J::s("ptr"))]),
                }
            }
            ty::Array(et, n) => {
                let n = match (n.try_to_target_usize(self.tcx), &layout.fields) {
                    (Some(n), _) => n,
                    (None, rustc_abi::FieldsShape::Array { count, .. }) => *count,
                    _ => return J::O(vec![("opaque", J::s("array"))]),
                };
                if n > 70000 {
                    return J::O(vec![("opaque", J::s("bigarray"))]);
                }
                let sz = match self.tcx.layout_of(self.env.as_query_input(et)) {
                    Ok(l) => l.size.bytes(),
                    Err(_) => return J::O(vec![("opaque", J::s("array"))]),
                };
                J::O(vec![("arr", J::A((0..n).map(|i| self.read_mem(a, off + i * sz, et, depth + 1)).collect()))])
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let fo = layout.fields.offset(i).bytes();
                    v.push(self.read_mem(a, off + fo, ft, depth + 1));
                }
                J::O(vec![("agg", J::A(v)), ("variant", J::U(0))])
            }
            ty::Adt(def, args) if def.is_struct() && matches!(layout.fields, FieldsShape::Arbitrary { .. }) && matches!(layout.variants, Variants::Single { .. }) => {
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    let ft = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(ft)).unwrap_or(ft);
                    let fo = layout.fields.offset(i).bytes();
                    v.push(self.read_mem(a, off + fo, ft, depth + 1));
                }
                J::O(vec![("agg", J::A(v)), ("variant", J::U(0))])
            }
            _ => {
                if a.provenance().ptrs().is_empty() {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + size) as usize);
                    let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                    J::O(vec![("bytes", J::s(hex))])
                } else {
                    J::O(vec![("opaque", J::s("mem"))])
                }
            }
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.operand(o)]),
            Rvalue::Repeat(o, n) => {
                let nn = n.try_to_target_usize(self.tcx).map(|x| J::U(x as u128)).unwrap_or(J::N);
                J::A(vec![J::s("repeat"), self.operand(o), nn])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![J::s("ref"), J::s(format!("{:?}", bk)), self.place(p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![J::s("rawptr"), J::s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let from = o.ty(&self.cur_locals(), self.tcx);
                let f = self.ty(from);
                J::A(vec![J::s("cast"), J::s(ks), self.operand(o), self.ty(*t), f])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&self.cur_locals(), self.tcx);
                let tj = self.ty(t);
                J::A(vec![J::s("bin"), J::s(format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1), tj])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&self.cur_locals(), self.tcx);
                let tj = self.ty(t);
                J::A(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(o), tj])
            }
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let mut kind = vec![];
                match &**k {
                    AggregateKind::Array(t) => {
                        kind.push(("k", J::s("array")));
                        kind.push(("t", self.ty(*t)));
                    }
                    AggregateKind::Tuple => kind.push(("k", J::s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        kind.push(("k", J::s("adt")));
                        kind.push(("path", J::s(path(self.tcx, *d))));
                        kind.push(("v", J::U(v.as_u32() as u128)));
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.erase_and_anonymize_regions(t);
                        kind.push(("t", self.ty(t)));
                        if let Some(a) = active {
                            kind.push(("active", J::U(a.as_u32() as u128)));
                        }
                    }
                    AggregateKind::Closure(d, args) => {
                        kind.push(("k", J::s("closure")));
                        kind.push(("path", J::s(path(self.tcx, *d))));
                        let inst = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*args));
                        let env = self.env;
                        self.enqueue(inst, env);
                        kind.push(("inst", J::s(self.key(inst))));
                    }
                    AggregateKind::RawPtr(t, _) => {
                        kind.push(("k", J::s("rawptr")));
                        kind.push(("t", self.ty(*t)));
                    }
                    _ => kind.push(("k", J::s("other"))),
                }
                let v = ops.iter().map(|o| self.operand(o)).collect();
                J::A(vec![J::s("agg"), J::O(kind), J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::O(vec![("c", self.place(p))])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(path(self.tcx, *d))]),
            other => J::A(vec![J::s("other"), J::s(format!("{:?}", other))]),
        }
    }
    fn cur_locals(&self) -> IndexLocals<'tcx> {
        unsafe { CUR.as_ref().map(|p| std::mem::transmute::<&IndexLocals<'static>, &IndexLocals<'tcx>>(p).clone()).unwrap() }
    }
    fn span(&self, s: Span) -> (String, usize) {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        (l.file.name.prefer_local_unconditionally().to_string(), l.line)
    }
    fn body(&mut self, inst: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let def = inst.def_id();
        let raw: &Body<'tcx> = match inst.def {
            ty::InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) {
                    return None;
                }
                if tcx.is_const_fn(d) || true {
                    tcx.instance_mir(inst.def)
                } else {
                    unreachable!()
                }
            }
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..)) => tcx.instance_mir(inst.def),
            _ => return None,
        };
        let body: Body<'tcx> = if tcx.is_const_generic_dummy() {
            unreachable!()
        } else {
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw.clone()))
        };
        let il = IndexLocals(std::sync::Arc::new(body.local_decls.clone()));
        unsafe { CUR = Some(std::mem::transmute::<IndexLocals<'tcx>, IndexLocals<'static>>(il)) };
        let (file, line) = self.span(tcx.def_span(def));
        let mut o = vec![
            ("key", J::s(self.key(inst))),
            ("path", J::s(path(tcx, def))),
            ("local", J::B(def.is_local())),
            ("crate", J::s(tcx.crate_name(def.krate).as_str())),
            ("file", J::s(file)),
            ("line", J::U(line as u128)),
            ("argc", J::U(body.arg_count as u128)),
            ("spread", body.spread_arg.map(|l| J::U(l.as_u32() as u128)).unwrap_or(J::N)),
        ];
        let locals = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        o.push(("locals", J::A(locals)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::U(p.local.as_u32() as u128), J::s(v.name.as_str())]));
                }
            }
        }
        o.push(("names", J::A(names)));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        st.push(J::A(vec![J::s("="), p, r, J::U(self.span(s.source_info.span).1 as u128)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![J::s("setd"), p, J::U(variant_index.as_u32() as u128)]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => {
                            let op = self.operand(op);
                            st.push(J::A(vec![J::s("assume"), op]));
                        }
                        _ => st.push(J::A(vec![J::s("cpnonovl")])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.span(t.source_info.span).1;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), J::U(target.as_u32() as u128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let d = self.operand(discr);
                    let ts = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::U(v), J::U(b.as_u32() as u128)]))
                        .collect();
                    let tj = self.ty(dt);
                    J::A(vec![J::s("switch"), d, J::A(ts), J::U(targets.otherwise().as_u32() as u128), tj])
                }
                TerminatorKind::Return => J::A(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    J::A(vec![J::s("drop"), p, J::U(target.as_u32() as u128)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    J::A(vec![
                        J::s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(|b| J::U(b.as_u32() as u128)).unwrap_or(J::N),
                        J::U(line as u128),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    J::A(vec![
                        J::s("assert"),
                        c,
                        J::B(*expected),
                        J::s(kind),
                        J::U(target.as_u32() as u128),
                        J::U(line as u128),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![J::s("goto"), J::U(real_target.as_u32() as u128)])
                }
                other => J::A(vec![J::s("other"), J::s(format!("{:?}", other))]),
            };
            bbs.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        o.push(("bbs", J::A(bbs)));
        unsafe { CUR = None };
        Some(J::O(o))
    }
}

#[derive(Clone)]
struct IndexLocals<'tcx>(std::sync::Arc<rustc_index::IndexVec<Local, LocalDecl<'tcx>>>);
impl<'tcx> HasLocalDecls<'tcx> for IndexLocals<'tcx> {
    fn local_decls(&self) -> &LocalDecls<'tcx> {
        self.0.as_slice()
    }
}
static mut CUR: Option<IndexLocals<'static>> = None;

trait Dummy {
    fn is_const_generic_dummy(&self) -> bool;
}
impl<'tcx> Dummy for TyCtxt<'tcx> {
    fn is_const_generic_dummy(&self) -> bool {
        false
    }
}

/// All instantiations we analyse for a local generic function: type parameters stay symbolic, boolean
/// const parameters take both values, integer const parameters take the documented default.
fn root_args<'tcx>(tcx: TyCtxt<'tcx>, def: DefId) -> Vec<GenericArgsRef<'tcx>> {
    let ident = ty::GenericArgs::identity_for_item(tcx, def);
    let mut acc: Vec<Vec<ty::GenericArg<'tcx>>> = vec![vec![]];
    for a in ident.iter() {
        let mut choices = vec![a];
        if let Some(c) = a.as_const() {
            if let ty::ConstKind::Param(p) = c.kind() {
                let pdef = tcx.generics_of(def).const_param(p, tcx).def_id;
                let pt = tcx.type_of(pdef).instantiate_identity().skip_norm_wip();
                choices = match pt.kind() {
                    ty::Bool => vec![
                        ty::Const::from_bool(tcx, false).into(),
                        ty::Const::from_bool(tcx, true).into(),
                    ],
                    ty::Uint(_) => vec![ty::Const::from_target_usize(tcx, 512).into()],
                    _ => vec![a],
                };
            }
        }
        let mut next = vec![];
        for pre in &acc {
            for c in &choices {
                let mut v = pre.clone();
                v.push(*c);
                next.push(v);
            }
        }
        acc = next;
    }
    acc.into_iter().map(|v| tcx.erase_and_anonymize_regions(tcx.mk_args(&v))).collect()
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut d = D {
        tcx,
        ty_ids: Default::default(),
        ty_list: vec![],
        queue: Default::default(),
        seen: Default::default(),
        env: TypingEnv::fully_monomorphized(),
        depth: 0,
    };
    let mut items = vec![];
    let mut statics = vec![];
    let mut impls = vec![];
    let mut adts = vec![];
    let ev = tcx.effective_visibilities(());
    let mut defs: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
    defs.sort_by_key(|x| x.local_def_index.as_u32());
    for ld in defs {
        let def = ld.to_def_id();
        let kind = tcx.def_kind(def);
        let (file, line) = d.span(tcx.def_span(def));
        let reach = ev.is_reachable(ld) || ev.is_exported(ld);
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let ii = Instance::new_raw(def, tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, def)));
                let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
                let (mut trait_path, mut self_ty, mut derived) = (J::N, J::N, false);
                let mut self_id = J::N;
                let mut has_self = false;
                if let Some(ai) = tcx.opt_associated_item(def) {
                    has_self = ai.is_method();
                    if let Some(imp) = tcx.impl_of_assoc(def) {
                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        let st = tcx.erase_and_anonymize_regions(st);
                        self_ty = J::s(d.ty_str(st));
                        self_id = d.ty(st);
                        if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            trait_path = J::s(with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path())));
                        }
                        derived = tcx.is_automatically_derived(imp);
                    }
                }
                let sigs = with_no_trimmed_paths!(format!("{}", sig));
                let mut insts = vec![];
                if tcx.is_mir_available(def) {
                    for args in root_args(tcx, def) {
                        let inst = Instance::new_raw(def, args);
                        d.env = if args.has_param() { TypingEnv::post_analysis(tcx, def) } else { TypingEnv::fully_monomorphized() };
                        insts.push(J::s(d.key(inst)));
                        let env = d.env;
                        d.enqueue(inst, env);
                    }
                }
                let _ = ii;
                items.push(J::O(vec![
                    ("kind", J::s("fn")),
                    ("path", J::s(path(tcx, def))),
                    ("name", J::s(tcx.item_name(def).as_str())),
                    ("vis", J::s(format!("{:?}", tcx.visibility(def)))),
                    ("reachable", J::B(reach)),
                    ("sig", J::s(sigs)),
                    ("unsafe", J::B(!sig.skip_binder().safety().is_safe())),
                    ("constfn", J::B(tcx.is_const_fn(def))),
                    ("trait", trait_path),
                    ("self_ty", self_ty),
                    ("self_id", self_id),
                    ("method", J::B(has_self)),
                    ("derived", J::B(derived)),
                    ("insts", J::A(insts)),
                    ("file", J::s(file)),
                    ("line", J::U(line as u128)),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                d.env = TypingEnv::post_analysis(tcx, def);
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let tid = d.ty(t);
                let at = auto_traits(tcx, def, t);
                let ad = tcx.adt_def(def);
                adts.push(J::O(vec![
                    ("path", J::s(path(tcx, def))),
                    ("ty", tid),
                    ("reachable", J::B(reach)),
                    ("vis", J::s(format!("{:?}", tcx.visibility(def)))),
                    ("repr", J::s(format!("{:?}", ad.repr().flags))),
                    ("auto", J::A(at.into_iter().map(|(n, b)| J::A(vec![J::s(n), J::B(b)])).collect())),
                    ("file", J::s(file)),
                    ("line", J::U(line as u128)),
                ]));
            }
            DefKind::Static { .. } => {
                d.env = TypingEnv::fully_monomorphized();
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let mutable = tcx.is_mutable_static(def);
                let v = match tcx.eval_static_initializer(def) {
                    Ok(a) => d.read_mem(a.inner(), 0, t, 0),
                    Err(_) => J::N,
                };
                statics.push(J::O(vec![
                    ("path", J::s(path(tcx, def))),
                    ("kind", J::s("static")),
                    ("mut", J::B(mutable)),
                    ("freeze", J::B(t.is_freeze(tcx, TypingEnv::fully_monomorphized()))),
                    ("tls", J::B(tcx.is_thread_local_static(def))),
                    ("t", d.ty(t)),
                    ("v", v),
                    ("reachable", J::B(reach)),
                    ("file", J::s(file)),
                    ("line", J::U(line as u128)),
                ]));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                d.env = TypingEnv::fully_monomorphized();
                if tcx.generics_of(def).requires_monomorphization(tcx) {
                    continue;
                }
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let v = match tcx.const_eval_poly(def) {
                    Ok(v) => d.const_value(v, t, 0),
                    Err(_) => J::N,
                };
                statics.push(J::O(vec![
                    ("path", J::s(path(tcx, def))),
                    ("kind", J::s("const")),
                    ("mut", J::B(false)),
                    ("t", d.ty(t)),
                    ("v", v),
                    ("reachable", J::B(reach)),
                    ("file", J::s(file)),
                    ("line", J::U(line as u128)),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let st = tcx.erase_and_anonymize_regions(st);
                let tr = if of_trait {
                    let tr = tcx.impl_opt_trait_ref(def).unwrap().instantiate_identity().skip_norm_wip();
                    J::s(with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path())))
                } else {
                    J::N
                };
                impls.push(J::O(vec![
                    ("self", J::s(d.ty_str(st))),
                    ("trait", tr),
                    ("unsafe", J::B(of_trait && !tcx.impl_trait_header(def).safety.is_safe())),
                    ("derived", J::B(tcx.is_automatically_derived(def))),
                    ("file", J::s(file)),
                    ("line", J::U(line as u128)),
                ]));
            }
            DefKind::Trait | DefKind::TyAlias | DefKind::Mod | DefKind::Macro(_) => {
                items.push(J::O(vec![
                    ("kind", J::s(format!("{:?}", kind))),
                    ("path", J::s(path(tcx, def))),
                    ("reachable", J::B(reach)),
                ]));
            }
            _ => {}
        }
    }
    // bodies
    let mut out = String::new();
    out.push_str("{\"bodies\":[");
    let mut first = true;
    let mut n_skipped = 0usize;
    let mut missing = vec![];
    while let Some((inst, env, depth)) = d.queue.pop_front() {
        let p = path(tcx, inst.def_id());
        if !inst.def_id().is_local() && (depth > 12 || skip_std(&p)) {
            n_skipped += 1;
            continue;
        }
        d.env = env;
        d.depth = depth;
        if !d.env_ok(inst) {
            n_skipped += 1;
            continue;
        }
        match d.body(inst) {
            Some(j) => {
                if !first {
                    out.push_str(",\n");
                }
                first = false;
                j.write(&mut out);
            }
            None => missing.push(J::s(p)),
        }
    }
    out.push_str("],\n\"types\":[");
    let mut i = 0;
    d.depth = 99;
    while i < d.ty_list.len() {
        let t = d.ty_list[i];
        d.env = TypingEnv::fully_monomorphized();
        let j = d.ty_json(t);
        if i > 0 {
            out.push_str(",\n");
        }
        j.write(&mut out);
        i += 1;
    }
    out.push_str("],\n");
    let rest = J::O(vec![
        ("items", J::A(items)),
        ("adts", J::A(adts)),
        ("statics", J::A(statics)),
        ("impls", J::A(impls)),
        ("missing", J::A(missing)),
        ("skipped", J::U(n_skipped as u128)),
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).as_str())),
        (
            "features",
            J::A(
                tcx.sess
                    .config
                    .iter()
                    .map(|(a, b)| J::s(format!("{}={}", a, b.map(|s| s.to_string()).unwrap_or_default())))
                    .collect(),
            ),
        ),
        ("overflow_checks", J::B(tcx.sess.overflow_checks())),
    ]);
    let mut s = String::new();
    rest.write(&mut s);
    out.push_str(&s[1..]);
    out
}

impl<'tcx> D<'tcx> {
    fn env_ok(&self, _i: Instance<'tcx>) -> bool {
        true
    }
}

fn auto_traits<'tcx>(tcx: TyCtxt<'tcx>, def: DefId, t: Ty<'tcx>) -> Vec<(String, bool)> {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let mut v = vec![];
    let env = TypingEnv::post_analysis(tcx, def);
    let (infcx, param_env) = tcx.infer_ctxt().build_with_typing_env(env);
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let unpin = tcx.lang_items().unpin_trait();
    let uw = tcx.get_diagnostic_item(rustc_span::Symbol::intern("unwind_safe_trait"));
    let ruw = tcx.get_diagnostic_item(rustc_span::Symbol::intern("ref_unwind_safe_trait"));
    for (n, d) in [("Send", send), ("Sync", sync), ("Unpin", unpin), ("UnwindSafe", uw), ("RefUnwindSafe", ruw)] {
        if let Some(d) = d {
            let r = infcx.type_implements_trait(d, [t], param_env);
            v.push((n.to_string(), r.must_apply_modulo_regions()));
        }
    }
    v.push(("Freeze".to_string(), t.is_freeze(tcx, env)));
    v.push(("NeedsDropLocal".to_string(), tcx.adt_def(def).destructor(tcx).is_some()));
    let _ = FieldIdx::from_u32(0);
    v
}
