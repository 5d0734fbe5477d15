// mirdump: a rustc driver that prints, as JSON, the monomorphic MIR of every
// harness function (local functions named h_*) and of everything reachable
// from them: the code under verification, the standard library functions it
// calls and the drop glue. Nothing is rewritten: the output is rustc's own MIR
// with names, types and layouts resolved.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::*;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, f: F) -> String {
    format!("[{}]", it.into_iter().map(f).collect::<Vec<_>>().join(","))
}

struct D {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    inst_out: Vec<String>,
    allocs: HashMap<String, usize>,
    alloc_out: Vec<String>,
    stop: Vec<String>,
}

impl D {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[i] = s;
        i
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let mut o = format!("{{\"n\":{}", q(&format!("{}", t)));
        let kind = t.kind();
        let shape = t.layout().ok().map(|l| l.shape());
        if let Some(sh) = &shape {
            let _ = write!(o, ",\"size\":{},\"align\":{},\"unsized\":{}", sh.size.bytes(), sh.abi_align, sh.is_unsized());
            match &sh.fields {
                FieldsShape::Arbitrary { offsets } => {
                    let _ = write!(o, ",\"offs\":{}", list(offsets.iter(), |s| s.bytes().to_string()));
                }
                FieldsShape::Union(n) => {
                    let _ = write!(o, ",\"offs\":{}", list(0..n.get(), |_| "0".to_string()));
                }
                _ => {}
            }
            match &sh.variants {
                VariantsShape::Empty => {}
                VariantsShape::Single { index } => {
                    let _ = write!(o, ",\"single\":{}", index.to_index());
                }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let off = match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                        _ => 0,
                    };
                    let (prim, _) = match tag {
                        Scalar::Initialized { value, .. } => (value.clone(), 0),
                        Scalar::Union { value } => (value.clone(), 0),
                    };
                    let w = match prim {
                        Primitive::Int { length, .. } => length.bits(),
                        _ => 64,
                    };
                    let _ = write!(o, ",\"tag\":{{\"off\":{},\"w\":{}", off, w);
                    if let TagEncoding::Niche { untagged_variant, niche_variants, niche_start } = tag_encoding {
                        let _ = write!(
                            o,
                            ",\"niche\":true,\"untagged\":{},\"start\":{},\"end\":{},\"nstart\":\"{}\"",
                            untagged_variant.to_index(),
                            niche_variants.start().to_index(),
                            niche_variants.end().to_index(),
                            niche_start
                        );
                    }
                    let vs = list(variants.iter(), |v| list(v.offsets.iter(), |s| s.bytes().to_string()));
                    let _ = write!(o, "}},\"voffs\":{}", vs);
                }
            }
        }
        match kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push_str(",\"k\":\"bool\""),
                RigidTy::Char => o.push_str(",\"k\":\"char\""),
                RigidTy::Int(it) => {
                    let _ = write!(o, ",\"k\":\"int\",\"s\":true,\"w\":{}", it.num_bytes() * 8);
                }
                RigidTy::Uint(it) => {
                    let _ = write!(o, ",\"k\":\"int\",\"w\":{}", it.num_bytes() * 8);
                }
                RigidTy::Float(_) => {
                    let _ = write!(o, ",\"k\":\"float\",\"w\":{}", shape.as_ref().map(|s| s.size.bits()).unwrap_or(0));
                }
                RigidTy::Adt(def, args) => {
                    let k = match def.kind() {
                        AdtKind::Struct => "struct",
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                    };
                    let _ = write!(o, ",\"k\":\"{}\",\"adt\":{}", k, q(&def.name()));
                    if def.kind() == AdtKind::Enum {
                        let n = def.num_variants();
                        let ds = list(0..n, |i| {
                            format!("\"{}\"", def.discriminant_for_variant(VariantIdx::to_val(i)).val)
                        });
                        let names = list(def.variants(), |v| q(&v.name()));
                        let _ = write!(o, ",\"discrs\":{},\"vnames\":{}", ds, names);
                    }
                    if def.kind() != AdtKind::Enum {
                        if let Some(v) = def.variant(VariantIdx::to_val(0)) {
                            let fs: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(&args)).collect();
                            let l = list(fs, |f| self.ty(f).to_string());
                            let _ = write!(o, ",\"fields\":{}", l);
                        }
                    } else {
                        let mut vs = vec![];
                        for v in def.variants() {
                            let fs: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(&args)).collect();
                            vs.push(list(fs, |f| self.ty(f).to_string()));
                        }
                        let _ = write!(o, ",\"vfields\":[{}]", vs.join(","));
                    }
                }
                RigidTy::Str => o.push_str(",\"k\":\"str\""),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"array\",\"elem\":{},\"len\":{}", e, n.eval_target_usize().unwrap_or(0));
                }
                RigidTy::Pat(e, _) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"pat\",\"elem\":{}", e);
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"slice\",\"elem\":{}", e);
                }
                RigidTy::RawPtr(e, _) | RigidTy::Ref(_, e, _) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"ptr\",\"elem\":{}", e);
                }
                RigidTy::FnDef(def, args) => {
                    o.push_str(",\"k\":\"fndef\"");
                    if let Ok(i) = Instance::resolve_for_fn_ptr(def, &args) {
                        let i = self.inst(i);
                        let _ = write!(o, ",\"inst\":{}", i);
                    }
                }
                RigidTy::FnPtr(_) => o.push_str(",\"k\":\"fnptr\""),
                RigidTy::Closure(..) => o.push_str(",\"k\":\"closure\""),
                RigidTy::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
                RigidTy::Never => o.push_str(",\"k\":\"never\""),
                RigidTy::Tuple(ts) => {
                    let l = list(ts, |x| self.ty(x).to_string());
                    let _ = write!(o, ",\"k\":\"tuple\",\"fields\":{}", l);
                }
                _ => o.push_str(",\"k\":\"other\""),
            },
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        o
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&k) = self.insts.get(&i) {
            return k;
        }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        k
    }

    fn alloc_id(&mut self, id: AllocId) -> usize {
        let key = format!("{:?}", id);
        if let Some(&k) = self.allocs.get(&key) {
            return k;
        }
        let k = self.alloc_out.len();
        self.allocs.insert(key, k);
        self.alloc_out.push(String::new());
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
            GlobalAlloc::Memory(a) => self.alloc_json(&a, ""),
            GlobalAlloc::Static(s) => {
                let n = s.name();
                match s.eval_initializer() {
                    Ok(a) => self.alloc_json(&a, &format!(",\"static\":{}", q(&n))),
                    Err(_) => format!("{{\"static\":{},\"extern\":true}}", q(&n)),
                }
            }
            g @ GlobalAlloc::VTable(..) => {
                let vid = g.vtable_allocation();
                let tyname = if let GlobalAlloc::VTable(t, _) = &g { format!("{}", t) } else { String::new() };
                match vid {
                    Some(v) => match GlobalAlloc::from(v) {
                        GlobalAlloc::Memory(a) => self.alloc_json(&a, &format!(",\"vtable\":{}", q(&tyname))),
                        _ => "{\"opaque\":true}".to_string(),
                    },
                    None => "{\"opaque\":true}".to_string(),
                }
            }
            GlobalAlloc::TypeId { ty } => format!("{{\"opaque\":true,\"typeid\":{}}}", q(&format!("{}", ty))),
        };
        self.alloc_out[k] = s;
        k
    }

    fn alloc_json(&mut self, a: &Allocation, extra: &str) -> String {
        let mut hex = String::new();
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{:02x}", b);
                }
                None => hex.push_str("__"),
            }
        }
        let ptrs: Vec<(usize, AllocId)> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
        let ps = list(ptrs, |(o, p)| format!("[{},{}]", o, self.alloc_id(p)));
        format!(
            "{{\"b\":\"{}\",\"p\":{},\"align\":{},\"mut\":{}{}}}",
            hex,
            ps,
            a.align,
            a.mutability == Mutability::Mut,
            extra
        )
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = self.alloc_json(a, "");
                format!("[\"k\",{},{}]", t, a)
            }
            ConstantKind::ZeroSized => format!("[\"k\",{},null]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let a = self.alloc_json(a, "");
                    format!("[\"k\",{},{}]", t, a)
                }
                TyConstKind::ZSTValue(_) => format!("[\"k\",{},null]", t),
                other => format!("[\"bad\",{}]", q(&format!("{:?}", other))),
            },
            other => format!("[\"bad\",{}]", q(&format!("{:?}", other))),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = list(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "[\"*\"]".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
        });
        format!("[{},{}]", p.local, pr)
    }

    fn operand(&mut self, op: &Operand) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        let rt = match r.ty(locals) {
            Ok(t) => self.ty(t) as i64,
            Err(_) => -1,
        };
        let body = match r {
            Rvalue::AddressOf(_, p) | Rvalue::Ref(_, _, p) | Rvalue::Reborrow(_, _, p) if !matches!(r, Rvalue::Reborrow(..)) => {
                format!("\"ref\",{}", self.place(p))
            }
            Rvalue::Reborrow(_, _, p) => format!("\"use\",[\"c\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("\"use\",[\"c\",{}]", self.place(p)),
            Rvalue::Use(o, _) => format!("\"use\",{}", self.operand(o)),
            Rvalue::Aggregate(k, ops) => {
                let os = list(ops.iter(), |o| self.operand(o));
                match k {
                    AggregateKind::Adt(_, v, _, _, f) => format!(
                        "\"agg\",{},{},{}",
                        v.to_index(),
                        f.map(|x| x as i64).unwrap_or(-1),
                        os
                    ),
                    AggregateKind::RawPtr(..) => format!("\"mkptr\",{}", os),
                    AggregateKind::Array(_) => format!("\"arr\",{}", os),
                    _ => format!("\"agg\",0,-1,{}", os),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let t2 = y.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("\"bin\",\"{:?}\",{},{},{},{}", b, self.operand(x), self.operand(y), t, t2)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let t2 = y.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("\"cbin\",\"{:?}\",{},{},{},{}", b, self.operand(x), self.operand(y), t, t2)
            }
            Rvalue::UnaryOp(u, x) => {
                let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("\"un\",\"{:?}\",{},{}", u, self.operand(x), t)
            }
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(locals).unwrap();
                let from = self.ty(ot);
                let to = self.ty(*t);
                let mut kind = format!("{:?}", k);
                let mut extra = "null".to_string();
                match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                        kind = "Unsize".into();
                        extra = self.unsize(ot, *t);
                    }
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        kind = "Reify".into();
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        kind = "ClosureFn".into();
                        if let TyKind::RigidTy(RigidTy::Closure(def, args)) = ot.kind() {
                            if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                                extra = self.inst(i).to_string();
                            }
                        }
                    }
                    CastKind::PointerCoercion(_) => kind = "PtrToPtr".into(),
                    _ => {}
                }
                format!("\"cast\",\"{}\",{},{},{},{}", kind, self.operand(o), from, to, extra)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).unwrap();
                format!("\"discr\",{},{}", self.place(p), self.ty(t))
            }
            Rvalue::Len(p) => format!("\"len\",{}", self.place(p)),
            Rvalue::Repeat(o, n) => format!("\"repeat\",{},{}", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(_) => "\"tls\"".to_string(),
            _ => "\"bad\"".to_string(),
        };
        format!("[{},{}]", rt, body)
    }

    // metadata of an unsizing coercion from pointer-like type a to b
    fn unsize(&mut self, a: Ty, b: Ty) -> String {
        let (mut x, mut y) = (pointee(a), pointee(b));
        // structs holding the pointer (Box, Rc, ...) are peeled by the caller's layout
        loop {
            match (x.map(|t| t.kind()), y.map(|t| t.kind())) {
                (Some(TyKind::RigidTy(RigidTy::Array(_, n))), Some(TyKind::RigidTy(RigidTy::Slice(_)))) => {
                    return format!("{{\"len\":{}}}", n.eval_target_usize().unwrap_or(0));
                }
                (Some(TyKind::RigidTy(RigidTy::Dynamic(p1, _))), Some(TyKind::RigidTy(RigidTy::Dynamic(p2, _)))) => {
                    let main = |ps: &Vec<Binder<ExistentialPredicate>>| ps.iter().find_map(|p| match &p.value {
                        ExistentialPredicate::Trait(t) => Some(format!("{:?}", t.def_id)),
                        _ => None,
                    });
                    if main(&p1) != main(&p2) {
                        return "null".to_string();
                    }
                    return "{\"keep\":true}".to_string();
                }
                (Some(_), Some(TyKind::RigidTy(RigidTy::Dynamic(preds, _)))) => {
                    let tr = preds.iter().find_map(|p| match &p.value {
                        ExistentialPredicate::Trait(t) => Some(Binder { value: t.clone(), bound_vars: p.bound_vars.clone() }),
                        _ => None,
                    });
                    let g = GlobalAlloc::VTable(x.unwrap(), tr);
                    return match g.vtable_allocation() {
                        Some(v) => {
                            let k = self.alloc_id(v);
                            format!("{{\"vt\":{},\"of\":{}}}", k, self.ty(x.unwrap()))
                        }
                        None => "null".to_string(),
                    };
                }
                (Some(TyKind::RigidTy(RigidTy::Adt(d1, a1))), Some(TyKind::RigidTy(RigidTy::Adt(d2, a2)))) if d1 == d2 => {
                    let f1 = d1.variant(VariantIdx::to_val(0)).and_then(|v| v.fields().last().map(|f| f.ty_with_args(&a1)));
                    let f2 = d2.variant(VariantIdx::to_val(0)).and_then(|v| v.fields().last().map(|f| f.ty_with_args(&a2)));
                    x = f1;
                    y = f2;
                }
                _ => return "null".to_string(),
            }
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let ls = list(locals.iter(), |l| self.ty(l.ty).to_string());
        let mut bl = vec![];
        for blk in &b.blocks {
            let mut ss = vec![];
            for st in &blk.statements {
                match &st.kind {
                    StatementKind::Assign(p, r) => {
                        let s = format!("[\"=\",{},{}]", self.place(p), self.rvalue(r, &locals));
                        ss.push(s);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&locals).unwrap();
                        ss.push(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index(), self.ty(t)));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        ss.push(format!("[\"assume\",{}]", self.operand(o)))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let t = c.src.ty(&locals).unwrap();
                        let t = pointee(t).unwrap();
                        ss.push(format!(
                            "[\"cno\",{},{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count),
                            self.ty(t)
                        ))
                    }
                    _ => {}
                }
            }
            let li = blk.terminator.source_info.span.get_lines().start_line;
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let bs = list(targets.branches(), |(v, t)| format!("[\"{}\",{}]", v, t));
                    format!("[\"sw\",{},{},{}]", self.operand(discr), bs, targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).unwrap();
                    let i = Instance::resolve_drop_in_place(t);
                    let k = if i.is_empty_shim() { -1 } else { self.inst(i) as i64 };
                    format!("[\"drop\",{},{},{},{}]", self.place(place), k, target, self.ty(t))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals).unwrap();
                    let f = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(def, ga)) => match Instance::resolve(def, &ga) {
                            Ok(i) => {
                                if i.kind == InstanceKind::Shim && i.is_empty_shim() {
                                    "[\"nop\"]".to_string()
                                } else {
                                    format!("[\"fn\",{}]", self.inst(i))
                                }
                            }
                            Err(_) => format!("[\"bad\",{}]", q(&format!("{}", fty))),
                        },
                        _ => format!("[\"op\",{}]", self.operand(func)),
                    };
                    let tys = list(args.iter(), |o| o.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1).to_string());
                    let os = list(args.iter(), |o| self.operand(o));
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        os,
                        tys,
                        self.place(destination),
                        target.map(|x| x as i64).unwrap_or(-1),
                        li
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = msg.description().unwrap_or("assertion");
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, q(m), target, li)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bl.push(format!("{{\"s\":[{}],\"t\":{}}}", ss.join(","), t));
        }
        format!(
            "\"args\":{},\"spread\":{},\"locals\":{},\"blocks\":[{}],\"span\":{}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            ls,
            bl.join(",\n"),
            q(&b.span.diagnostic())
        )
    }

    fn emit_inst(&mut self, k: usize) {
        let i = self.inst_list[k];
        let name = i.name();
        let mut o = format!("{{\"n\":{},\"kind\":{}", q(&name), q(&format!("{:?}", i.kind)));
        if i.kind == InstanceKind::Item {
            let _ = write!(o, ",\"sym\":{}", q(&i.mangled_name()));
            let _ = write!(o, ",\"foreign\":{}", i.is_foreign_item());
        }
        if let Some(n) = i.intrinsic_name() {
            let _ = write!(o, ",\"intr\":{}", q(&n));
        }
        let targs: Vec<Ty> = i.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).collect();
        let l = list(targs, |t| self.ty(t).to_string());
        let _ = write!(o, ",\"targs\":{}", l);
        let dyn_glue = i.kind == InstanceKind::Shim
            && i.args().0.iter().any(|a| matches!(a, GenericArgKind::Type(t) if t.kind().is_trait()))
            && name.contains("drop_in_place");
        let is_virtual = matches!(i.kind, InstanceKind::Virtual { .. }) || dyn_glue;
        if let InstanceKind::Virtual { idx } = i.kind {
            let _ = write!(o, ",\"vidx\":{}", idx);
        }
        let stop = self.stop.iter().any(|p| name.starts_with(p.as_str()));
        if !stop && !is_virtual && !i.is_foreign_item() && (i.kind == InstanceKind::Shim || i.has_body()) {
            if let Some(b) = i.body() {
                let s = self.body(&b);
                o.push(',');
                o.push_str(&s);
            }
        }
        o.push('}');
        while self.inst_out.len() <= k {
            self.inst_out.push(String::new());
        }
        self.inst_out[k] = o;
    }
}

fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::RawPtr(e, _)) | TyKind::RigidTy(RigidTy::Ref(_, e, _)) => Some(e),
        TyKind::RigidTy(RigidTy::Adt(def, args)) => {
            // Box, NonNull, Unique, ...: follow the first pointer-like field
            let v = def.variant(VariantIdx::to_val(0))?;
            for f in v.fields() {
                let ft = f.ty_with_args(&args);
                if let Some(p) = pointee(ft) {
                    return Some(p);
                }
            }
            None
        }
        TyKind::RigidTy(RigidTy::Pat(e, _)) => pointee(e),
        _ => None,
    }
}

fn analyze() -> ControlFlow<()> {
    let stop = std::env::var("MIRDUMP_STOP").unwrap_or_default();
    let mut d = D {
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        inst_out: vec![],
        allocs: HashMap::new(),
        alloc_out: vec![],
        stop: stop.split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };
    let mut entries = vec![];
    for it in rustc_public::all_local_items() {
        if it.kind() != ItemKind::Fn {
            continue;
        }
        let n = it.name();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if !["h_", "k_", "pre_", "con_", "m_"].iter().any(|p| last.starts_with(p)) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let k = d.inst(i);
            entries.push(format!("{}:{}", q(&last), k));
        }
    }
    let mut k = 0;
    while k < d.inst_list.len() {
        d.emit_inst(k);
        k += 1;
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let s = format!(
        "{{\"entries\":{{{}}},\n\"types\":[{}],\n\"insts\":[{}],\n\"allocs\":[{}]}}\n",
        entries.join(","),
        d.ty_out.join(",\n"),
        d.inst_out.join(",\n"),
        d.alloc_out.join(",\n")
    );
    std::fs::write(out, s).unwrap();
    ControlFlow::Break(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = rustc_public::run!(&args, analyze);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}
