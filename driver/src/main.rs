//! MIR exporter.  Runs as RUSTC_WORKSPACE_WRAPPER; for the crate named in
//! ZV_CRATE it writes, as JSON, every monomorphic MIR body reachable from the
//! crate's functions (plus generic public functions at fixed instantiations).
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArg, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv,
};
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: Vec<Instance<'tcx>>,
    inst_meta: Vec<(Instance<'tcx>, bool)>,
    deny: Vec<String>,
    cur_locals: Vec<Ty<'tcx>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn inst_name(&self, i: Instance<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", i))
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        let id = self.insts.len();
        self.insts.insert(i, id);
        let p = self.path(i.def_id());
        let denied = self.deny.iter().any(|d| p.starts_with(d.as_str()));
        self.inst_meta.push((i, !denied));
        self.queue.push(i);
        id
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&x) = self.tys.get(&t) {
            return x;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[id] = s;
        id
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let name = with_no_trimmed_paths!(format!("{}", t));
        let (size, align) = if t.has_param() || t.has_escaping_bound_vars() {
            (-1i64, -1i64)
        } else {
            match tcx.layout_of(self.env.as_query_input(t)) {
                Ok(l) if l.is_sized() => (l.size.bytes() as i64, l.align.abi.bytes() as i64),
                _ => (-1, -1),
            }
        };
        let head = format!("\"n\":{},\"size\":{},\"align\":{}", js(&name), size, align);
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"s\":1,\"b\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"int\",\"s\":0,\"b\":{}", i.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("\"k\":\"float\",\"b\":{}", f.bit_width()),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Slice(e) => {
                let e = self.ty(*e);
                format!("\"k\":\"slice\",\"e\":{}", e)
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                let e = self.ty(*e);
                format!("\"k\":\"array\",\"e\":{},\"len\":{}", e, n)
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                format!("\"k\":\"ref\",\"e\":{},\"m\":{}", e, m.is_mut() as u8)
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", e, m.is_mut() as u8)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"f\":[{}]", v.join(","))
            }
            ty::Adt(def, args) => {
                let mut vs = vec![];
                let discrs: Vec<i128> = if def.is_enum() {
                    def.discriminants(tcx)
                        .map(|(_, d)| {
                            let (sz, signed) = d.ty.int_size_and_signed(tcx);
                            if signed {
                                sz.sign_extend(d.val) as i128
                            } else {
                                d.val as i128
                            }
                        })
                        .collect()
                } else {
                    vec![0; def.variants().len()]
                };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx
                            .try_normalize_erasing_regions(self.env, ft)
                            .unwrap_or_else(|_| tcx.types.unit);
                        let fid = if ft.has_param() { 0 } else { self.ty(ft) };
                        fs.push(format!("[{},{}]", js(f.name.as_str()), fid));
                    }
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                        js(v.name.as_str()),
                        discrs.get(vi.index()).copied().unwrap_or(0),
                        fs.join(",")
                    ));
                }
                let ga: Vec<String> =
                    args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>();
                let mut dropi = String::new();
                if let Some(dt) = def.destructor(tcx) {
                    if dt.did.is_local() {
                        let inst = Instance::new_raw(dt.did, args);
                        let i = self.inst(inst);
                        dropi = format!(",\"dropi\":{}", i);
                    }
                }
                format!(
                    "\"k\":\"adt\",\"p\":{},\"local\":{},\"ak\":{},\"v\":[{}],\"ga\":[{}]{}",
                    js(&self.path(def.did())),
                    def.did().is_local() as u8,
                    js(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                    vs.join(","),
                    ga.join(","),
                    dropi
                )
            }
            ty::FnDef(d, args) => match args.no_bound_vars() {
                Some(a) => {
                    let c = self.callee_def(*d, a);
                    format!("\"k\":\"fndef\",\"c\":{}", c)
                }
                None => "\"k\":\"other\"".to_string(),
            },
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Closure(d, args) => {
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                let inst = Instance::new_raw(*d, args);
                let i = self.inst(inst);
                format!("\"k\":\"closure\",\"inst\":{},\"f\":[{}]", i, ups.join(","))
            }
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{{},{}}}", head, body)
    }

    fn callee_def(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => match i.def {
                InstanceKind::Virtual(d, _) => {
                    format!("{{\"virt\":{}}}", js(&self.path(d)))
                }
                InstanceKind::Intrinsic(d) => {
                    let n = tcx.item_name(d);
                    let ga: Vec<String> =
                        i.args.types().map(|t| self.ty(t).to_string()).collect();
                    let ca: Vec<String> = i
                        .args
                        .consts()
                        .map(|c| {
                            c.try_to_target_usize(tcx)
                                .map(|x| x.to_string())
                                .unwrap_or("null".into())
                        })
                        .collect();
                    // an intrinsic with a fallback body also gets an instance
                    format!(
                        "{{\"intr\":{},\"ga\":[{}],\"ca\":[{}]}}",
                        js(n.as_str()),
                        ga.join(","),
                        ca.join(",")
                    )
                }
                _ => {
                    // remember the trait method through which it was named
                    let id = self.inst(i);
                    format!("{{\"i\":{},\"via\":{}}}", id, js(&self.path(d)))
                }
            },
            _ => format!("{{\"unres\":{}}}", js(&self.path(d))),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"x\":\"deep\"}".into();
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = self.scalar_of(v, t);
                match sc {
                    Some(Scalar::Int(i)) => {
                        let val: i128 = if let ty::Int(_) = t.kind() {
                            i.to_int(i.size())
                        } else {
                            i.to_bits(i.size()) as i128
                        };
                        format!("{}", val)
                    }
                    _ => "{\"x\":\"ptrint\"}".into(),
                }
            }
            ty::Float(_) => {
                let sc = self.scalar_of(v, t);
                match sc {
                    Some(Scalar::Int(i)) => {
                        let b = i.to_bits(i.size());
                        let f = if i.size().bytes() == 4 {
                            f32::from_bits(b as u32) as f64
                        } else {
                            f64::from_bits(b as u64)
                        };
                        format!("{{\"f\":{:e}}}", f)
                    }
                    _ => "{\"x\":\"float\"}".into(),
                }
            }
            ty::FnDef(..) => {
                let id = self.ty(t);
                format!("{{\"fn\":{}}}", id)
            }
            ty::FnPtr(..) => match self.scalar_of(v, t) {
                Some(Scalar::Ptr(p, _)) => {
                    match tcx.global_alloc(p.provenance.alloc_id()) {
                        GlobalAlloc::Function { instance, .. } => {
                            let i = self.inst(instance);
                            format!("{{\"fp\":{}}}", i)
                        }
                        _ => "{\"x\":\"fnptr\"}".into(),
                    }
                }
                _ => "{\"x\":\"fnptr\"}".into(),
            },
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                match e.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(b)));
                        }
                        return "{\"x\":\"str\"}".into();
                    }
                    ty::Slice(el) => {
                        let (aid, off, len) = match v {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0, meta),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let a = match tcx.global_alloc(alloc_id) {
                                    GlobalAlloc::Memory(m) => m,
                                    _ => return "{\"x\":\"slice\"}".into(),
                                };
                                let a = a.inner();
                                let ps = tcx.data_layout.pointer_size();
                                let p = a.read_scalar(
                                    &tcx,
                                    rustc_middle::mir::interpret::alloc_range(offset, ps),
                                    true,
                                );
                                let l = a.read_scalar(
                                    &tcx,
                                    rustc_middle::mir::interpret::alloc_range(offset + ps, ps),
                                    false,
                                );
                                match (p, l) {
                                    (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) => {
                                        let (prov, off) = p.into_raw_parts();
                                        (prov.alloc_id(), off.bytes(), l.to_bits(l.size()) as u64)
                                    }
                                    (_, Ok(Scalar::Int(l))) => {
                                        return format!(
                                            "{{\"slice\":[],\"len\":{}}}",
                                            l.to_bits(l.size())
                                        )
                                    }
                                    _ => return "{\"x\":\"slice\"}".into(),
                                }
                            }
                            _ => return "{\"x\":\"slice\"}".into(),
                        };
                        if len > 8192 {
                            return format!("{{\"x\":\"big\",\"len\":{}}}", len);
                        }
                        let es = match tcx.layout_of(self.env.as_query_input(*el)) {
                            Ok(l) => l.size.bytes(),
                            _ => return "{\"x\":\"slice\"}".into(),
                        };
                        let mut o = vec![];
                        for i in 0..len {
                            o.push(self.cval(
                                ConstValue::Indirect {
                                    alloc_id: aid,
                                    offset: rustc_abi::Size::from_bytes(off + i * es),
                                },
                                *el,
                                depth + 1,
                            ));
                        }
                        let et = self.ty(*el);
                        return format!("{{\"slice\":[{}],\"ety\":{}}}", o.join(","), et);
                    }
                    _ => {}
                }
                match self.scalar_of(v, t) {
                    Some(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        let et = if e.has_param() { 0 } else { self.ty(*e) };
                        match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Memory(_) => {
                                let inner = self.cval(
                                    ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off },
                                    *e,
                                    depth + 1,
                                );
                                format!("{{\"ref\":{},\"ety\":{}}}", inner, et)
                            }
                            GlobalAlloc::Static(d) => {
                                format!("{{\"static\":{},\"ety\":{}}}", js(&self.path(d)), et)
                            }
                            _ => "{\"x\":\"ptr\"}".into(),
                        }
                    }
                    Some(Scalar::Int(i)) => format!("{{\"addr\":{}}}", i.to_bits(i.size())),
                    None => "{\"x\":\"ptr\"}".into(),
                }
            }
            ty::Array(_, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(1 << 40);
                if n > 8192 {
                    return "{\"x\":\"big\"}".into();
                }
                self.destr(v, t, depth)
            }
            ty::Adt(d, _) if d.is_union() => "{\"x\":\"union\"}".into(),
            ty::Adt(..) | ty::Tuple(..) => self.destr(v, t, depth),
            ty::Closure(..) => "{\"agg\":[],\"var\":0}".into(),
            _ => "{\"x\":\"other\"}".into(),
        }
    }

    fn destr(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let mut o = vec![];
                for (fv, ft) in d.fields.iter() {
                    o.push(self.cval(*fv, *ft, depth + 1));
                }
                format!(
                    "{{\"agg\":[{}],\"var\":{}}}",
                    o.join(","),
                    d.variant.map(|x| x.index()).unwrap_or(0)
                )
            }
            None => "{\"x\":\"agg\"}".into(),
        }
    }

    fn scalar_of(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<Scalar> {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(s) => Some(s),
            ConstValue::Indirect { alloc_id, offset } => {
                let a = match tcx.global_alloc(alloc_id) {
                    GlobalAlloc::Memory(m) => m,
                    _ => return None,
                };
                let l = tcx.layout_of(self.env.as_query_input(t)).ok()?;
                let isptr = matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..));
                a.inner()
                    .read_scalar(
                        &tcx,
                        rustc_middle::mir::interpret::alloc_range(offset, l.size),
                        isptr,
                    )
                    .ok()
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &Const<'tcx>) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("[\"c\",{},{{\"fn\":{}}}]", tid, tid);
        }
        let mut name = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                name = format!(",{}", js(&self.path(u.def)));
            }
        }
        let v = match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => "{\"x\":\"uneval\"}".into(),
        };
        format!("[\"c\",{},{}{}]", tid, v, name)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = vec![];
        for e in p.projection.iter() {
            o.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.index(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end as u8)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.index()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.index(), o.join(","))
    }

    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            _ => {
                let d = format!("{:?}", o);
                format!("[\"rt\",{}]", js(&d))
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"rep\",{},{}]", self.op(o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }) as u8, self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", m.is_mut() as u8, self.place(p))
            }
            Rvalue::RawPtr(k, p) => {
                format!("[\"raw\",{},{}]", (format!("{:?}", k).contains("Mut")) as u8, self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let mut extra = String::new();
                let ot = self.op_ty(o);
                if let CastKind::PointerCoercion(pc, _) = k {
                    use rustc_middle::ty::adjustment::PointerCoercion as PC;
                    match pc {
                        PC::ReifyFnPointer(..) => {
                            if let Some(ty::FnDef(d, a)) = ot.map(|t| *t.kind()) {
                                if let Some(a) = a.no_bound_vars() {
                                    if let Some(i) =
                                        Instance::resolve_for_fn_ptr(self.tcx, self.env, d, a)
                                    {
                                        let id = self.inst(i);
                                        extra = format!(",{}", id);
                                    }
                                }
                            }
                        }
                        PC::ClosureFnPointer(..) => {
                            if let Some(ty::Closure(d, a)) = ot.map(|t| *t.kind()) {
                                let i = Instance::resolve_closure(
                                    self.tcx,
                                    d,
                                    a,
                                    ty::ClosureKind::FnOnce,
                                );
                                let id = self.inst(i);
                                extra = format!(",{}", id);
                            }
                        }
                        _ => {}
                    }
                }
                let kn = format!("{:?}", k);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}{}]", js(&kn), self.op(o), t, extra)
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ops.0), self.op(&ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"array\",{}]", t)
                    }
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, fi) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a);
                        let t = self
                            .tcx
                            .try_normalize_erasing_regions(self.env, t)
                            .unwrap_or(self.tcx.types.unit);
                        let t = self.ty(t);
                        format!(
                            "[\"adt\",{},{},{}]",
                            t,
                            v.index(),
                            fi.map(|f| f.index() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        let t = self.ty(t);
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, m) => {
                        let t = self.ty(*t);
                        format!("[\"rawptr\",{},{}]", t, m.is_mut() as u8)
                    }
                    _ => "[\"?\"]".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                format!("[\"agg\",{},[{}]]", kk, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            _ => "[\"?\"]".to_string(),
        }
    }

    fn op_ty(&self, o: &Operand<'tcx>) -> Option<Ty<'tcx>> {
        match o {
            Operand::Constant(c) => Some(c.const_.ty()),
            Operand::Copy(p) | Operand::Move(p) if p.projection.is_empty() => {
                Some(self.cur_locals.get(p.local.index())?.clone())
            }
            _ => None,
        }
    }

    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }

    fn body(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) {
                    return None;
                }
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {}
            }
            InstanceKind::Intrinsic(_)
            | InstanceKind::LlvmIntrinsic(_)
            | InstanceKind::Virtual(..) => return None,
            InstanceKind::Shim(_) => {}
        }
        let body = tcx.instance_mir(inst.def).clone();
        let body = inst
            .try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                EarlyBinder::bind(tcx, body),
            )
            .ok()?;
        let tysv: Vec<Ty<'tcx>> = body.local_decls.iter().map(|l| l.ty).collect();
        self.cur_locals = tysv;
        let locals: Vec<String> =
            body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.index(), js(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let (_, ln) = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[\"sd\",{},{},{}]",
                            self.place(place),
                            variant_index.index(),
                            ln
                        ));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            st.push(format!("[\"assume\",{}]", self.op(o)))
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => st.push(format!(
                            "[\"cpynon\",{},{},{},{}]",
                            self.op(&c.src),
                            self.op(&c.dst),
                            self.op(&c.count),
                            ln
                        )),
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let (file, ln) = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", v, t.index()))
                        .collect();
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        self.op(discr),
                        v.join(","),
                        targets.otherwise().index(),
                        ln
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(..) => {
                    "[\"resume\"]".to_string()
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.index(), pt)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => match a.no_bound_vars() {
                                Some(a) => self.callee_def(*d, a),
                                None => "{\"unres\":\"binder\"}".into(),
                            },
                            _ => format!("{{\"ptr\":{}}}", self.op(func)),
                        },
                        _ => format!("{{\"ptr\":{}}}", self.op(func)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{},{}]",
                        f,
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.index() as i64).unwrap_or(-1),
                        ln,
                        js(&file)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.op(len), self.op(index))
                        }
                        AssertKind::Overflow(b, x, y) => {
                            format!("[\"overflow\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
                        }
                        AssertKind::OverflowNeg(x) => format!("[\"overflowneg\",{}]", self.op(x)),
                        AssertKind::DivisionByZero(x) => format!("[\"divzero\",{}]", self.op(x)),
                        AssertKind::RemainderByZero(x) => format!("[\"remzero\",{}]", self.op(x)),
                        o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.op(cond),
                        *expected as u8,
                        m,
                        target.index(),
                        ln,
                        js(&file)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::InlineAsm { targets, .. } => format!(
                    "[\"asm\",{}]",
                    targets.first().map(|t| t.index() as i64).unwrap_or(-1)
                ),
                o => format!("[\"?\",{}]", js(&format!("{:?}", o))),
            };
            blocks.push(format!(
                "{{\"s\":[{}],\"t\":{},\"c\":{}}}",
                st.join(","),
                t,
                bb.is_cleanup as u8
            ));
        }
        let sa = body.spread_arg.map(|l| l.index() as i64).unwrap_or(-1);
        Some(format!(
            "\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"bb\":[{}]",
            body.arg_count,
            sa,
            locals.join(","),
            names.join(","),
            blocks.join(",")
        ))
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let want = std::env::var("ZV_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return rustc_driver::Compilation::Continue;
        }
        let out = std::env::var("ZV_OUT").expect("ZV_OUT");
        let deny = std::env::var("ZV_DENY").unwrap_or_default();
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            ty_out: vec![],
            insts: HashMap::new(),
            queue: vec![],
            inst_meta: vec![],
            deny: deny.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            cur_locals: vec![],
        };
        cx.ty(tcx.types.unit);
        let mut generic = vec![];
        let mut statics = vec![];
        let mut unsafe_impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    let g = tcx.generics_of(d);
                    let needs = g.requires_monomorphization(tcx);
                    if !needs {
                        cx.inst(Instance::mono(tcx, d));
                    } else {
                        // one type parameter bounded by AsRef<Path>: instantiate with &str
                        let name = cx.path(d);
                        let own: Vec<_> = g.own_params.iter().collect();
                        let vis = tcx.effective_visibilities(()).is_reachable(d.expect_local());
                        generic.push(format!("{{\"p\":{},\"pub\":{}}}", js(&name), vis as u8));
                        if vis && g.parent_count == 0 || (vis && tcx.generics_of(d).parent.map(|p| !tcx.generics_of(p).requires_monomorphization(tcx)).unwrap_or(true)) {
                            let mut ok = true;
                            let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                                ty::GenericParamDefKind::Lifetime => {
                                    GenericArg::from(tcx.lifetimes.re_erased)
                                }
                                ty::GenericParamDefKind::Type { .. } => {
                                    GenericArg::from(Ty::new_imm_ref(
                                        tcx,
                                        tcx.lifetimes.re_erased,
                                        tcx.types.str_,
                                    ))
                                }
                                ty::GenericParamDefKind::Const { .. } => {
                                    ok = false;
                                    GenericArg::from(tcx.types.unit)
                                }
                            });
                            if ok && !own.is_empty()
                            {
                                cx.inst(Instance::new_raw(d, args));
                            }
                        }
                    }
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let freeze = t.is_freeze(tcx, cx.env);
                    statics.push(format!(
                        "{{\"p\":{},\"mut\":{},\"freeze\":{}}}",
                        js(&cx.path(d)),
                        mutability.is_mut() as u8,
                        freeze as u8
                    ));
                }
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_header(d);
                    if h.safety.is_unsafe() {
                        unsafe_impls.push(js(&with_no_trimmed_paths!(format!("{:?}", h.trait_ref))));
                    }
                }
                _ => {}
            }
        }
        let mut fns: Vec<(usize, String)> = vec![];
        while let Some(i) = cx.queue.pop() {
            let id = cx.insts[&i];
            let (_, want_body) = cx.inst_meta[id];
            let d = i.def_id();
            let name = cx.inst_name(i);
            let path = cx.path(d);
            let kr = tcx.crate_name(d.krate).to_string();
            let local = d.is_local();
            let kind = format!("{:?}", i.def);
            let kind = kind.split('(').next().unwrap().to_string();
            let shim = if let InstanceKind::Shim(s) = i.def { format!("{:?}", s) } else { String::new() };
            let shim = shim.split(|c| c == '(' || c == '{').next().unwrap().trim().to_string();
            let dk = tcx.def_kind(d);
            let isfn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let feats: Vec<String> = if isfn && !matches!(i.def, InstanceKind::Shim(_)) || isfn {
                tcx.codegen_fn_attrs(d)
                    .target_features
                    .iter()
                    .map(|f| js(f.name.as_str()))
                    .collect()
            } else {
                vec![]
            };
            let uns = if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let s = tcx.fn_sig(d).skip_binder();
                s.skip_binder().safety().is_unsafe()
            } else {
                false
            };
            let vis = if matches!(dk, DefKind::Fn | DefKind::AssocFn) && local {
                tcx.effective_visibilities(()).is_reachable(d.expect_local())
            } else {
                false
            };
            let cst = matches!(dk, DefKind::Fn | DefKind::AssocFn) && tcx.is_const_fn(d);
            let ga: Vec<String> = i.args.types().map(|t| cx.ty(t).to_string()).collect();
            let ca: Vec<String> = i
                .args
                .consts()
                .map(|c| {
                    c.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or_else(|| {
                        match c.try_to_leaf() { Some(s) => format!("{}", s.to_bits(s.size())), None => "null".into() }
                    })
                })
                .collect();
            let parent = if dk == DefKind::Closure {
                js(&cx.path(tcx.typeck_root_def_id(d)))
            } else {
                "null".into()
            };
            let asf = if dk == DefKind::AssocFn {
                // impl self type, for methods
                let p = tcx.parent(d);
                match tcx.def_kind(p) {
                    DefKind::Impl { .. } => {
                        let t = tcx.type_of(p).skip_binder();
                        js(&with_no_trimmed_paths!(format!("{}", t)))
                    }
                    _ => "null".into(),
                }
            } else {
                "null".into()
            };
            let (file, ln) = cx.line(tcx.def_span(d));
            let b = if want_body || local { cx.body(i) } else { None };
            let lint = if let InstanceKind::LlvmIntrinsic(_) = i.def { "1" } else { "0" };
            fns.push((
                id,
                format!(
                    "{{\"id\":{},\"n\":{},\"p\":{},\"cr\":{},\"local\":{},\"kind\":{},\"shim\":{},\"llvm\":{},\"feat\":[{}],\"unsafe\":{},\"pub\":{},\"const\":{},\"ga\":[{}],\"ca\":[{}],\"parent\":{},\"self\":{},\"file\":{},\"line\":{}{}{}}}",
                    id,
                    js(&name),
                    js(&path),
                    js(&kr),
                    local as u8,
                    js(&kind),
                    js(&shim),
                    lint,
                    feats.join(","),
                    uns as u8,
                    vis as u8,
                    cst as u8,
                    ga.join(","),
                    ca.join(","),
                    parent,
                    asf,
                    js(&file),
                    ln,
                    if b.is_some() { "," } else { "" },
                    b.unwrap_or_default()
                ),
            ));
        }
        fns.sort();
        let mut s = String::new();
        s.push_str("{\"fns\":[\n");
        s.push_str(&fns.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n"));
        s.push_str("\n],\"tys\":[\n");
        s.push_str(&cx.ty_out.join(",\n"));
        let _ = write!(
            s,
            "\n],\"generic\":[{}],\"statics\":[{}],\"unsafe_impls\":[{}]}}",
            generic.join(","),
            statics.join(","),
            unsafe_impls.join(",")
        );
        std::fs::write(&out, s).expect("write");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the real rustc as argv[1]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
