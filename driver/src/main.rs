// MIR extraction driver: runs as RUSTC_WORKSPACE_WRAPPER, type-checks the crate
// with the real build flags and writes its monomorphic MIR (plus the reachable
// library functions that the analyzer does not model natively) as JSON.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_hir;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

/// unsafe blocks written in the crate itself
struct Unsafe<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    out: Vec<String>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let sm = self.tcx.sess.source_map();
            if !b.span.in_external_macro(sm) {
                self.out.push(sm.span_to_diagnostic_string(b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn join<T: AsRef<str>>(v: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(x.as_ref());
    }
    s.push(']');
    s
}

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance, usize>,
    queue: Vec<Instance>,
    allocs: HashMap<String, usize>,
    alloc_out: Vec<String>,
    models: HashMap<String, FnDef>,
    stop: Vec<String>,
    keep: Vec<String>,
    virts: Vec<(FnDef, GenericArgs)>,
}

impl Cx {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&n) = self.insts.get(&i) {
            return n;
        }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.queue.push(i);
        n
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("[{}]", n),
                    Err(_) => "[-1]".to_string(),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        join(&v)
    }

    fn resolve(&mut self, def: FnDef, args: &GenericArgs) -> String {
        let path = def.name();
        if let Some(m) = self.models.get(&path).copied() {
            // same type parameters in the same order; lifetimes dropped
            let targs: Vec<GenericArgKind> = args
                .0
                .iter()
                .filter(|a| !matches!(a, GenericArgKind::Lifetime(_)))
                .cloned()
                .collect();
            if let Ok(i) = Instance::resolve(m, &GenericArgs(targs)) {
                let n = self.inst(i);
                return format!("\"inst\":{},\"model\":true", n);
            }
        }
        match Instance::resolve(def, args) {
            Ok(i) => match i.kind {
                InstanceKind::Virtual { idx } => {
                    self.virts.push((def, args.clone()));
                    format!("\"virt\":{}", idx)
                }
                InstanceKind::Intrinsic => {
                    let nm = i.intrinsic_name().unwrap_or_default();
                    let n = self.inst(i);
                    format!("\"intr\":{},\"inst\":{}", esc(&nm), n)
                }
                _ => {
                    // a model may also stand for one resolved implementation
                    if let Some(m) = self.models.get(&i.def.name()).copied() {
                        let targs: Vec<GenericArgKind> = i
                            .args()
                            .0
                            .iter()
                            .filter(|a| !matches!(a, GenericArgKind::Lifetime(_)))
                            .cloned()
                            .collect();
                        if let Ok(mi) = Instance::resolve(m, &GenericArgs(targs)) {
                            let n = self.inst(mi);
                            return format!("\"inst\":{},\"model\":true", n);
                        }
                    }
                    let n = self.inst(i);
                    format!("\"inst\":{}", n)
                }
            },
            Err(_) => "\"unresolved\":true".into(),
        }
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&n) = self.tys.get(&t) {
            return n;
        }
        let n = self.ty_out.len();
        self.tys.insert(t, n);
        self.ty_out.push(String::new());
        let name = format!("{}", t);
        let mut s = String::new();
        let lay = match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(..))
            | TyKind::RigidTy(RigidTy::Tuple(..))
            | TyKind::RigidTy(RigidTy::Array(..))
            | TyKind::RigidTy(RigidTy::Closure(..))
            | TyKind::RigidTy(RigidTy::Uint(..))
            | TyKind::RigidTy(RigidTy::Int(..))
            | TyKind::RigidTy(RigidTy::Bool)
            | TyKind::RigidTy(RigidTy::Char)
            | TyKind::RigidTy(RigidTy::Ref(..))
            | TyKind::RigidTy(RigidTy::RawPtr(..)) => t.layout().ok().map(|l| l.shape()),
            _ => None,
        };
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => s.push_str("\"k\":\"bool\""),
                RigidTy::Char => s.push_str("\"k\":\"char\""),
                RigidTy::Int(i) => {
                    let _ = write!(s, "\"k\":\"int\",\"s\":1,\"w\":{}", i.num_bytes() * 8);
                }
                RigidTy::Uint(i) => {
                    let _ = write!(s, "\"k\":\"int\",\"s\":0,\"w\":{}", i.num_bytes() * 8);
                }
                RigidTy::Float(_) => s.push_str("\"k\":\"float\""),
                RigidTy::Str => s.push_str("\"k\":\"str\""),
                RigidTy::Never => s.push_str("\"k\":\"never\""),
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    let _ = write!(s, "\"k\":\"slice\",\"e\":{}", e);
                }
                RigidTy::Array(e, c) => {
                    let e = self.ty(e);
                    let _ = write!(
                        s,
                        "\"k\":\"array\",\"e\":{},\"n\":{}",
                        e,
                        c.eval_target_usize().unwrap_or(0)
                    );
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    let _ = write!(s, "\"k\":\"ref\",\"e\":{},\"m\":{}", e, (m == Mutability::Mut) as u8);
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    let _ = write!(s, "\"k\":\"ptr\",\"e\":{},\"m\":{}", e, (m == Mutability::Mut) as u8);
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect();
                    let _ = write!(s, "\"k\":\"tuple\",\"f\":{}", join(&v));
                }
                RigidTy::Adt(def, args) => {
                    let a = self.args(&args);
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = self.ty(f.ty_with_args(&args));
                            fs.push(format!("[{},{}]", esc(&f.name.to_string()), ft));
                        }
                        let d = if kind == "enum" {
                            // the value is given as bits of its type
                            let d = def.discriminant_for_variant(v.idx());
                            let bits = match d.ty.kind() {
                                TyKind::RigidTy(RigidTy::Int(i)) => i.num_bytes() * 8,
                                _ => 128,
                            };
                            let up = 128 - bits as u32;
                            if up == 0 { d.val as i128 } else { ((d.val << up) as i128) >> up }
                        } else {
                            0
                        };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(&v.name()), d, join(&fs)));
                    }
                    let _ = write!(
                        s,
                        "\"k\":\"adt\",\"a\":\"{}\",\"p\":{},\"g\":{},\"box\":{},\"v\":{},\"local\":{}",
                        kind,
                        esc(&def.name()),
                        a,
                        def.is_box() as u8,
                        join(&vs),
                        def.krate().is_local as u8
                    );
                }
                RigidTy::FnDef(def, args) => {
                    let a = self.args(&args);
                    let r = self.resolve(def, &args);
                    let unsafe_ = {
                        let sig = def.fn_sig().skip_binder();
                        format!("{:?}", sig.safety) == "Unsafe"
                    };
                    let _ = write!(
                        s,
                        "\"k\":\"fndef\",\"p\":{},\"g\":{},\"unsafe\":{},{}",
                        esc(&def.name()),
                        a,
                        unsafe_ as u8,
                        r
                    );
                }
                RigidTy::FnPtr(sig) => {
                    let sig = sig.skip_binder();
                    let o = self.ty(sig.output());
                    let _ = write!(s, "\"k\":\"fnptr\",\"out\":{}", o);
                }
                RigidTy::Closure(def, args) => {
                    // upvar tuple is the last type argument
                    let ups = match args.0.last() {
                        Some(GenericArgKind::Type(u)) => match u.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(ts)) => ts,
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    let v: Vec<String> = ups.iter().map(|x| self.ty(*x).to_string()).collect();
                    let mut insts = vec![];
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        match Instance::resolve_closure(def, &args, k) {
                            Ok(i) => insts.push(self.inst(i).to_string()),
                            Err(_) => insts.push("-1".into()),
                        }
                    }
                    let _ = write!(
                        s,
                        "\"k\":\"closure\",\"p\":{},\"f\":{},\"insts\":{}",
                        esc(&def.name()),
                        join(&v),
                        join(&insts)
                    );
                }
                RigidTy::Dynamic(preds, _) => {
                    let mut nm = String::new();
                    for p in preds {
                        if let ExistentialPredicate::Trait(t) = p.skip_binder() {
                            nm = t.def_id.name();
                        }
                    }
                    let _ = write!(s, "\"k\":\"dyn\",\"p\":{}", esc(&nm));
                }
                RigidTy::Pat(b, _) => {
                    let b = self.ty(b);
                    let _ = write!(s, "\"k\":\"pat\",\"e\":{}", b);
                }
                _ => s.push_str("\"k\":\"other\""),
            },
            _ => s.push_str("\"k\":\"other\""),
        }
        let _ = write!(s, ",\"n_\":{}", esc(&name));
        if let Some(l) = lay {
            let _ = write!(s, ",\"sz\":{}", l.size.bits() / 8);
            match &l.fields {
                FieldsShape::Arbitrary { offsets } => {
                    let v: Vec<String> = offsets.iter().map(|o| (o.bits() / 8).to_string()).collect();
                    let _ = write!(s, ",\"off\":{}", join(&v));
                }
                _ => {}
            }
            match &l.variants {
                VariantsShape::Single { index } => {
                    let _ = write!(s, ",\"single\":{}", index.to_index());
                }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let tsz = {
                        use rustc_public::abi::Scalar;
                        let p = match tag {
                            Scalar::Initialized { value, .. } => *value,
                            Scalar::Union { value } => *value,
                        };
                        p.size(&rustc_public::target::MachineInfo::target()).bits() / 8
                    };
                    let toff = match &l.fields {
                        FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bits() / 8,
                        _ => 0,
                    };
                    let mut vs = vec![];
                    for v in variants {
                        let o: Vec<String> = v.offsets.iter().map(|o| (o.bits() / 8).to_string()).collect();
                        vs.push(join(&o));
                    }
                    let enc = match tag_encoding {
                        TagEncoding::Direct => "\"direct\"".to_string(),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                            "[{},{},{},{}]",
                            untagged_variant.to_index(),
                            niche_variants.start().to_index(),
                            niche_variants.end().to_index(),
                            niche_start
                        ),
                    };
                    let _ = write!(
                        s,
                        ",\"tag\":{{\"off\":{},\"sz\":{},\"enc\":{},\"v\":{}}}",
                        toff,
                        tsz,
                        enc,
                        join(&vs)
                    );
                }
                _ => {}
            }
        }
        self.ty_out[n] = format!("{{{}}}", s);
        n
    }

    fn alloc(&mut self, a: &Allocation) -> String {
        let mut b = String::with_capacity(a.bytes.len() * 2);
        for x in &a.bytes {
            match x {
                Some(v) => {
                    let _ = write!(b, "{:02x}", v);
                }
                None => b.push_str("__"),
            }
        }
        let mut ps = vec![];
        for (off, p) in &a.provenance.ptrs {
            let id = self.galloc(p.0);
            ps.push(format!("[{},{}]", off, id));
        }
        format!("{{\"b\":\"{}\",\"p\":{}}}", b, join(&ps))
    }

    fn galloc(&mut self, id: rustc_public::mir::alloc::AllocId) -> usize {
        let key = format!("{:?}", id);
        if let Some(&n) = self.allocs.get(&key) {
            return n;
        }
        let n = self.alloc_out.len();
        self.allocs.insert(key, n);
        self.alloc_out.push(String::new());
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => {
                let x = self.alloc(&a);
                format!("{{\"k\":\"mem\",\"a\":{}}}", x)
            }
            GlobalAlloc::Function(i) => {
                let x = self.inst(i);
                format!("{{\"k\":\"fn\",\"inst\":{}}}", x)
            }
            GlobalAlloc::Static(d) => {
                let init = d.eval_initializer().ok().map(|a| self.alloc(&a)).unwrap_or("null".into());
                format!("{{\"k\":\"static\",\"p\":{},\"a\":{}}}", esc(&d.name()), init)
            }
            GlobalAlloc::VTable(t, _) => {
                let x = self.ty(t);
                format!("{{\"k\":\"vtable\",\"t\":{}}}", x)
            }
            GlobalAlloc::TypeId { ty } => {
                let x = self.ty(ty);
                format!("{{\"k\":\"typeid\",\"t\":{}}}", x)
            }
        };
        self.alloc_out[n] = s;
        n
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let x = self.alloc(a);
                format!("{{\"t\":{},\"a\":{}}}", t, x)
            }
            ConstantKind::ZeroSized => format!("{{\"t\":{},\"z\":1}}", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let x = self.alloc(a);
                    format!("{{\"t\":{},\"a\":{}}}", t, x)
                }
                _ => match tc.eval_target_usize() {
                    Ok(v) => format!("{{\"t\":{},\"u\":{}}}", t, v),
                    Err(_) => format!("{{\"t\":{},\"x\":{}}}", t, esc(&format!("{:?}", tc))),
                },
            },
            k => format!("{{\"t\":{},\"x\":{}}}", t, esc(&format!("{:?}", k))),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return p.local.to_string();
        }
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, *from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, *from_end as u8)
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".into(),
            });
        }
        join(&v)
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"r\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", (*k == RawPtrKind::Mut) as u8, self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.op(x)).collect();
                let h = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, active) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!(
                            "[\"adt\",{},{},{}]",
                            t,
                            v.to_index(),
                            active.map(|x| x as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, m) => {
                        format!("[\"rawptr\",{},{}]", self.ty(*t), (*m == Mutability::Mut) as u8)
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", h, join(&o))
            }
            Rvalue::BinaryOp(b, x, y) => {
                let (x, y) = (self.op(x), self.op(y));
                format!("[\"bin\",\"{:?}\",{},{}]", b, x, y)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let (x, y) = (self.op(x), self.op(y));
                format!("[\"chk\",\"{:?}\",{},{}]", b, x, y)
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Cast(k, o, t) => {
                let extra = match (k, o) {
                    (
                        CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)),
                        Operand::Constant(c),
                    ) => match c.const_.ty().kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve_for_fn_ptr(d, &a) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "-1".into(),
                        },
                        _ => "-1".into(),
                    },
                    _ => "-1".into(),
                };
                let o = self.op(o);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), o, self.ty(*t), extra)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!(
                "[\"ref\",{},{}]",
                matches!(b, BorrowKind::Mut { .. }) as u8,
                self.place(p)
            ),
            Rvalue::Repeat(o, c) => {
                let o = self.op(o);
                format!("[\"repeat\",{},{}]", o, c.eval_target_usize().unwrap_or(0))
            }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", (*m == Mutability::Mut) as u8, self.place(p))
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("[{},{}]", esc(&s.get_filename().to_string()), l.start_line)
    }

    fn body(&mut self, b: &Body) -> String {
        let mut loc = vec![];
        for l in b.locals() {
            loc.push(self.ty(l.ty).to_string());
        }
        let mut bs = vec![];
        for blk in &b.blocks {
            let mut st = vec![];
            for s in &blk.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rv(r);
                        st.push(format!("[\"=\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"setd\",{},{}]", p, variant_index.to_index()));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        st.push("[\"copy_nonoverlapping\"]".into())
                    }
                    _ => {}
                }
            }
            let line = blk.terminator.source_info.span.get_lines().start_line;
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr);
                    let br: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{}]", o, join(&br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!("[\"drop\",{},{}]", p, target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a: Vec<String> = args.iter().map(|x| self.op(x)).collect();
                    let d = self.place(destination);
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        join(&a),
                        d,
                        target.map(|x| x as i64).unwrap_or(-1),
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertMessage::Overflow(o, _, _) => format!("Overflow({:?})", o),
                        AssertMessage::OverflowNeg(_) => "OverflowNeg".into(),
                        AssertMessage::DivisionByZero(_) => "DivisionByZero".into(),
                        AssertMessage::RemainderByZero(_) => "RemainderByZero".into(),
                        _ => "UbCheck".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, *expected as u8, esc(&m), target, line)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bs.push(format!("[{},{}]", join(&st), t));
        }
        let mut dbg = vec![];
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    dbg.push(format!("[{},{}]", esc(&d.name.to_string()), p.local));
                }
            }
        }
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":{},\"bb\":{},\"dbg\":{},\"span\":{}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            join(&loc),
            join(&bs),
            join(&dbg),
            self.span(&b.span)
        )
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Cx::default();
    for l in std::env::var("MIRDUMP_STOP").unwrap_or_default().split(';') {
        if let Some(k) = l.strip_prefix('!') {
            cx.keep.push(k.to_string());
        } else if !l.is_empty() {
            cx.stop.push(l.to_string());
        }
    }
    // library model functions: fn names encode the replaced path via #[doc] markers
    // in a side table "path=modelfn;..."
    let mut by_name: HashMap<String, FnDef> = HashMap::new();
    for c in rustc_public::find_crates("verif_models") {
        for f in c.fn_defs() {
            by_name.insert(f.trimmed_name(), f);
        }
    }
    for l in std::env::var("MIRDUMP_MODELS").unwrap_or_default().split(';') {
        if let Some((p, m)) = l.split_once('=') {
            if let Some(f) = by_name.get(m) {
                cx.models.insert(p.to_string(), *f);
            } else {
                eprintln!("mirdump: no model fn {}", m);
            }
        }
    }
    let mut roots = vec![];
    let mut generic = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) {
            continue;
        }
        if it.requires_monomorphization() {
            generic.push(esc(&it.name()));
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let n = cx.inst(i);
            roots.push(n.to_string());
        }
    }
    let mut fns: Vec<(usize, String)> = vec![];
    // implementations that calls through a trait object of a local trait can reach
    let mut devirt = vec![];
    let mut vdone = 0;
    let mut vseen = std::collections::HashSet::new();
    let mut concrete = vec![];
    for im in rustc_public::all_trait_impls() {
        if im.krate().is_local {
            let t = im.trait_impl();
            let st = t.value.self_ty();
            if let TyKind::RigidTy(RigidTy::Adt(_, a)) = st.kind() {
                if a.0.is_empty() {
                    concrete.push((t.value.def_id.name(), st));
                }
            }
        }
    }
    loop {
        if cx.queue.is_empty() {
            while vdone < cx.virts.len() {
                let (def, args) = cx.virts[vdone].clone();
                vdone += 1;
                let tr = match args.0.get(0) {
                    Some(GenericArgKind::Type(t)) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Dynamic(preds, _)) => preds.iter().find_map(|p| match &p.value {
                            rustc_public::ty::ExistentialPredicate::Trait(t) => Some(t.def_id.name()),
                            _ => None,
                        }),
                        _ => None,
                    },
                    _ => None,
                };
                let tr = match tr {
                    Some(t) => t,
                    None => continue,
                };
                for (t, st) in concrete.clone() {
                    if t != tr || !vseen.insert((def.name(), st)) {
                        continue;
                    }
                    let mut a = args.clone();
                    a.0[0] = GenericArgKind::Type(st);
                    if let Ok(i) = Instance::resolve(def, &a) {
                        if !matches!(i.kind, InstanceKind::Virtual { .. }) {
                            let n = cx.inst(i);
                            let ty = cx.ty(st);
                            devirt.push(format!("[{},{},{}]", esc(&def.name()), ty, n));
                        }
                    }
                }
            }
        }
        let i = match cx.queue.pop() {
            Some(i) => i,
            None => break,
        };
        let n = cx.insts[&i];
        let path = i.def.name();
        let name = i.name();
        let krate = i.def.krate();
        let local = krate.is_local;
        let mut s = format!(
            "\"id\":{},\"p\":{},\"n\":{},\"local\":{},\"crate\":{},\"kind\":{}",
            n,
            esc(&path),
            esc(&name),
            local as u8,
            esc(&krate.name),
            esc(&format!("{:?}", i.kind))
        );
        let a = cx.args(&i.args());
        let _ = write!(s, ",\"g\":{}", a);
        let stopped = !local
            && (cx.stop.iter().any(|x| path.starts_with(x.as_str()) || (x.starts_with('*') && path.contains(&x[1..])))
                && !cx.keep.iter().any(|x| path.starts_with(x.as_str())));
        let dbg_impl = local && (path.contains("as std::fmt::Debug>") || path.contains("Debug for"));
        if let Some(nm) = i.intrinsic_name() {
            let _ = write!(s, ",\"intr\":{}", esc(&nm));
        }
        if !stopped && !dbg_impl && i.kind != InstanceKind::Intrinsic {
            if let Some(b) = i.body() {
                let b = cx.body(&b);
                let _ = write!(s, ",{}", b);
            } else if let Ok(a) = i.fn_abi() {
                let t = cx.ty(a.ret.ty);
                let _ = write!(s, ",\"ret\":{}", t);
            }
        } else {
            if let (true, Ok(a)) = (i.kind != InstanceKind::Intrinsic, i.fn_abi()) {
                let t = cx.ty(a.ret.ty);
                let _ = write!(s, ",\"ret\":{}", t);
            }
            s.push_str(",\"stopped\":1");
        }
        if matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) {
            // declared signature output type
            if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = i.ty().kind() {
                let sig = d.fn_sig().skip_binder();
                let _ = write!(s, ",\"unsafe\":{}", (format!("{:?}", sig.safety) == "Unsafe") as u8);
            }
        }
        fns.push((n, format!("{{{}}}", s)));
    }
    fns.sort_by_key(|x| x.0);
    let mut drops = vec![];
    let mut impls = vec![];
    for im in rustc_public::all_trait_impls() {
        if im.krate().is_local {
            let t = im.trait_impl();
            let tr = t.value.def_id.name();
            let st = format!("{}", t.value.self_ty());
            if tr.ends_with("::Drop") {
                drops.push(esc(&st));
            }
            impls.push(format!("[{},{}]", esc(&tr), esc(&st)));
        }
    }
    let mut uv = Unsafe { tcx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut uv);
    let unsafes: Vec<String> = uv.out.iter().map(|x| esc(x)).collect();
    let mut statics = vec![];
    for st in rustc_public::local_crate().statics() {
        statics.push(format!("[{},{},{}]", esc(&st.name()), esc(&format!("{}", st.ty())), cx.span(&st.span())));
    }
    let mut adts = vec![];
    for ad in rustc_public::local_crate().adts() {
        if ad.generics_of().params.iter().all(|p| matches!(p.kind, GenericParamDefKind::Lifetime)) {
            let t = ad.ty();
            let n = cx.ty(t);
            adts.push(format!("[{},{}]", esc(&ad.name()), n));
        }
    }
    // adt types may have queued nothing new that needs bodies
    let mut o = String::new();
    o.push_str("{\"types\":[\n");
    o.push_str(&cx.ty_out.join(",\n"));
    o.push_str("],\n\"allocs\":[\n");
    o.push_str(&cx.alloc_out.join(",\n"));
    o.push_str("],\n\"fns\":[\n");
    o.push_str(&fns.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(",\n"));
    let _ = write!(
        o,
        "],\n\"roots\":{},\n\"generic\":{},\n\"drops\":{},\n\"impls\":{},\n\"statics\":{},\n\"unsafe\":{},\n\"devirt\":{},\n\"adts\":{}}}\n",
        join(&roots),
        join(&generic),
        join(&drops),
        join(&impls),
        join(&statics),
        join(&unsafes),
        join(&devirt),
        join(&adts)
    );
    std::fs::write(&out, o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(0);
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
        && !args.iter().any(|a| a == "--test");
    if !is_target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    if let Ok(m) = std::env::var("MIRDUMP_MODELS_LIB") {
        args.push("--extern".into());
        args.push(format!("force:verif_models={}", m));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    args.push("-Zunstable-options".into());
    let r = rustc_public::run_with_tcx!(&args, |tcx| dump(tcx));
    match r {
        Ok(_) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(101);
        }
    }
}
