//! mirdump: prints, as JSON, the monomorphised MIR of everything reachable from
//! the library's functions, with types, resolved callees, evaluated constants,
//! public visibility and auto-trait facts.  It only inspects; nothing of the
//! analysed crate is ever executed (constants are evaluated by rustc itself).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_infer;
extern crate rustc_public_bridge;

use rustc_middle::ty as rty;
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::*;
use rustc_public::{CompilerError as CErr, CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_middle::ty::print::PrintTraitRefExt;
use std::collections::{HashMap, HashSet, VecDeque};
use std::io::Write;
use std::ops::ControlFlow;

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn u(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('"');
                    o.push_str(k);
                    o.push_str("\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    queue: VecDeque<Instance>,
    seen: HashMap<Instance, usize>,
    names: Vec<Instance>,
    skip: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> J {
        J::I(self.ty_id(t) as i128)
    }
    fn ty_id(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::N);
        let name = format!("{}", internal(self.tcx, t));
        let mut o = vec![("name", s(name))];
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            o.push(("size", J::I(sh.size.bytes() as i128)));
        }
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(x) => {
                    o.push(("k", s("int")));
                    o.push(("bits", u(x.num_bytes() * 8)));
                    o.push(("signed", J::B(true)));
                }
                RigidTy::Uint(x) => {
                    o.push(("k", s("int")));
                    o.push(("bits", u(x.num_bytes() * 8)));
                    o.push(("signed", J::B(false)));
                }
                RigidTy::Float(f) => {
                    o.push(("k", s("float")));
                    o.push(("f", s(format!("{:?}", f))));
                }
                RigidTy::Adt(d, args) => {
                    o.push(("k", s("adt")));
                    o.push(("adt", s(d.name())));
                    o.push(("akind", s(format!("{:?}", d.kind()))));
                    let mut ta = vec![];
                    for a in &args.0 {
                        if let GenericArgKind::Type(x) = a {
                            ta.push(self.ty(*x));
                        }
                    }
                    o.push(("args", J::A(ta)));
                    let mut vs = vec![];
                    for v in d.variants() {
                        let fs: Vec<J> = v
                            .fields()
                            .iter()
                            .map(|f| J::A(vec![s(&f.name), self.ty(f.ty_with_args(&args))]))
                            .collect();
                        let di = if d.kind().is_enum() {
                            J::I(d.discriminant_for_variant(v.idx()).val as i128)
                        } else {
                            J::I(0)
                        };
                        vs.push(J::O(vec![("name", s(v.name())), ("discr", di), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Array(e, n) => {
                    o.push(("k", s("array")));
                    o.push(("elem", self.ty(e)));
                    o.push(("n", n.eval_target_usize().map(|x| J::I(x as i128)).unwrap_or(J::N)));
                }
                RigidTy::Slice(e) => {
                    o.push(("k", s("slice")));
                    o.push(("elem", self.ty(e)));
                }
                RigidTy::RawPtr(e, m) => {
                    o.push(("k", s("ptr")));
                    o.push(("elem", self.ty(e)));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::Ref(_, e, m) => {
                    o.push(("k", s("ref")));
                    o.push(("elem", self.ty(e)));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::FnDef(d, args) => {
                    o.push(("k", s("fndef")));
                    o.push(("fn", s(d.name())));
                    if let Ok(i) = Instance::resolve(d, &args) {
                        o.push(("inst", self.inst(i)));
                    }
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Closure(d, args) => {
                    o.push(("k", s("closure")));
                    o.push(("fn", s(d.name())));
                    // upvar types
                    let it = internal(self.tcx, t);
                    if let rty::TyKind::Closure(_, ca) = it.kind() {
                        let mut ups = vec![];
                        for x in ca.as_closure().upvar_tys() {
                            let st = stable(x);
                            ups.push(self.ty(st));
                        }
                        o.push(("upvars", J::A(ups)));
                    }
                    if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnOnce) {
                        let _ = i;
                    }
                }
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Tuple(v) => {
                    o.push(("k", s("tuple")));
                    let e = v.iter().map(|x| self.ty(*x)).collect();
                    o.push(("elems", J::A(e)));
                }
                RigidTy::Pat(t, _) => {
                    o.push(("k", s("pat")));
                    o.push(("elem", self.ty(t)));
                }
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[id] = J::O(o);
        id
    }
    fn inst(&mut self, i: Instance) -> J {
        if let Some(k) = self.seen.get(&i) {
            return u(*k);
        }
        let id = self.names.len();
        self.seen.insert(i, id);
        self.names.push(i);
        self.queue.push_back(i);
        u(id)
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        if depth > 8 {
            return J::O(vec![("top", J::N)]);
        }
        let size = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
        let rd = |off: usize, n: usize| -> Option<u128> {
            if n > 16 || off + n > a.bytes.len() {
                return None;
            }
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | (a.bytes[off + i]? as u128);
            }
            Some(v)
        };
        let ptr = |off: usize| a.provenance.ptrs.iter().find(|p| p.0 == off).map(|p| p.1 .0);
        let top = || J::O(vec![("top", J::N)]);
        let TyKind::RigidTy(r) = t.kind() else { return top() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match rd(off, size) {
                // u128 may exceed i128
                Some(v) if v <= i128::MAX as u128 => J::O(vec![("i", J::I(v as i128))]),
                Some(v) => J::O(vec![("ibig", s(v))]),
                None => top(),
            },
            RigidTy::Int(_) => match rd(off, size) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    J::O(vec![("i", J::I(((v << sh) as i128) >> sh))])
                }
                None => top(),
            },
            RigidTy::Float(_) => match rd(off, size) {
                Some(v) => J::O(vec![("fbits", J::I(v as i128)), ("fsize", u(size))]),
                None => top(),
            },
            RigidTy::Tuple(es) => {
                let FieldsShape::Arbitrary { offsets } = t.layout().unwrap().shape().fields else { return J::O(vec![("agg", J::A(vec![]))]) };
                let v = es.iter().enumerate().map(|(i, e)| self.decode(a, off + offsets[i].bytes(), *e, depth + 1)).collect();
                J::O(vec![("agg", J::A(v))])
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().unwrap().shape().size.bytes();
                if n > 4096 {
                    return top();
                }
                let v = (0..n).map(|i| self.decode(a, off + i * es, e, depth + 1)).collect();
                J::O(vec![("arr", J::A(v))])
            }
            RigidTy::Adt(d, args) => {
                if d.kind().is_union() {
                    return top();
                }
                let sh = t.layout().unwrap().shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return top(),
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                            _ => vec![],
                        };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                            rustc_public::abi::Scalar::Union { value } => *value,
                        };
                        let n = match prim {
                            rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                            rustc_public::abi::Primitive::Pointer(_) => 8,
                            _ => return top(),
                        };
                        let isptr = ptr(off + toff).is_some();
                        let Some(tv) = rd(off + toff, n) else { return top() };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let m = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                match d.variants().iter().find(|v| d.discriminant_for_variant(v.idx()).val & m == tv) {
                                    Some(v) => v.idx().to_index(),
                                    None => return top(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let m = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                let rel = tv.wrapping_sub(*niche_start) & m;
                                let (a0, b0) = (niche_variants.start().to_index() as u128, niche_variants.end().to_index() as u128);
                                if !isptr && rel <= b0 - a0 {
                                    (a0 + rel) as usize
                                } else {
                                    untagged_variant.to_index()
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let vs = d.variants();
                let fs = vs[vi].fields();
                let mut out = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    if i < offs.len() {
                        out.push(self.decode(a, off + offs[i], ft, depth + 1));
                    } else {
                        out.push(top());
                    }
                }
                J::O(vec![("var", u(vi)), ("agg", J::A(out))])
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some(p) = ptr(off) else {
                    if let Some(v) = rd(off, 8) {
                        return J::O(vec![("addr", s(v))]);
                    }
                    return top();
                };
                let inner_off = rd(off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(p) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = rd(off + 8, 8).unwrap_or(0) as usize;
                            let b: Vec<u8> = (inner_off..inner_off + n).filter_map(|i| m.bytes.get(i).copied().flatten()).collect();
                            J::O(vec![("str", s(String::from_utf8_lossy(&b)))])
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = rd(off + 8, 8).unwrap_or(0) as usize;
                            let es = el.layout().unwrap().shape().size.bytes();
                            if n > 4096 {
                                return top();
                            }
                            let v = (0..n).map(|i| self.decode(&m, inner_off + i * es, el, depth + 1)).collect();
                            J::O(vec![("ref", J::O(vec![("arr", J::A(v))])), ("slice", J::B(true))])
                        }
                        _ => {
                            let d = self.decode(&m, inner_off, e, depth + 1);
                            J::O(vec![("ref", d)])
                        }
                    },
                    GlobalAlloc::Static(sd) => J::O(vec![("static", s(sd.name()))]),
                    GlobalAlloc::Function(i) => {
                        let x = self.inst(i);
                        J::O(vec![("fnref", x)])
                    }
                    _ => top(),
                }
            }
            RigidTy::FnPtr(_) => match ptr(off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => {
                    let x = self.inst(i);
                    J::O(vec![("fnref", x)])
                }
                _ => top(),
            },
            RigidTy::FnDef(..) | RigidTy::Closure(..) => J::O(vec![("zst", J::N)]),
            RigidTy::Pat(b, _) => self.decode(a, off, b, depth),
            _ => top(),
        }
    }

    fn cnst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let tj = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::ZeroSized => J::O(vec![("zst", J::N)]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                _ => J::O(vec![("zst", J::N)]),
            },
            _ => J::O(vec![("top", J::N)]),
        };
        J::A(vec![s("const"), tj, v])
    }
    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => self.cnst(&c.const_),
            Operand::RuntimeChecks(RuntimeChecks::OverflowChecks) => J::A(vec![s("rtcheck"), s("overflow")]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rtcheck"), s("ub")]),
        }
    }
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![u(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => J::A(vec![s("f"), u(*i), self.ty(*t)]),
                ProjectionElem::Index(l) => J::A(vec![s("idx"), u(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("cidx"), u(*offset as usize), u(*min_length as usize), J::B(*from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), u(*from as usize), u(*to as usize), J::B(*from_end)]),
                ProjectionElem::Downcast(v) => J::A(vec![s("as"), u(v.to_index())]),
                ProjectionElem::OpaqueCast(_) => s("ocast"),
            });
        }
        J::A(v)
    }
    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p)])]),
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), s(if matches!(bk, BorrowKind::Mut { .. }) { "mut" } else { "shr" }), self.place(p)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), s(if *m == Mutability::Mut { "mut" } else { "shr" }), self.place(p)]),
            Rvalue::AddressOf(k, p) => J::A(vec![s("addr"), s(if matches!(k, RawPtrKind::Mut) { "mut" } else { "const" }), self.place(p)]),
            Rvalue::BinaryOp(op, a, b) => J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(a), self.operand(b)]),
            Rvalue::CheckedBinaryOp(op, a, b) => J::A(vec![s("cbin"), s(format!("{:?}", op)), self.operand(a), self.operand(b)]),
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(a)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.operand(o), n.eval_target_usize().map(|x| J::I(x as i128)).unwrap_or(J::N)]),
            Rvalue::Cast(k, o, t) => {
                let mut v = vec![s("cast"), s(format!("{:?}", k)), self.operand(o), self.ty(*t)];
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) = k {
                    if let Operand::Constant(c) = o {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.ty().kind() {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                v.push(self.inst(i));
                            }
                        }
                    }
                }
                J::A(v)
            }
            Rvalue::Aggregate(k, os) => {
                let ops: Vec<J> = os.iter().map(|o| self.operand(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        J::A(vec![s("adt"), self.ty(t), u(v.to_index()), f.map(u).unwrap_or(J::N)])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        J::A(vec![s("closure"), self.ty(t)])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), self.ty(*t)]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kk, J::A(ops)])
            }
            Rvalue::ThreadLocalRef(i) => J::A(vec![s("tls"), s(i.name())]),
        }
    }
    fn line(&self, sp: &Span) -> J {
        u(sp.get_lines().start_line)
    }
    fn body(&mut self, b: &Body) -> Vec<(&'static str, J)> {
        let locals: Vec<J> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(J::A(vec![u(l), s(&v.name)]));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut sts = vec![];
            for st in &bb.statements {
                let l = self.line(&st.source_info.span);
                match &st.kind {
                    StatementKind::Assign(p, r) => sts.push(J::A(vec![s("="), self.place(p), self.rvalue(r), l])),
                    StatementKind::SetDiscriminant { place, variant_index } => sts.push(J::A(vec![s("setd"), self.place(place), u(variant_index.to_index()), l])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => sts.push(J::A(vec![s("cpy"), self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), l])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => sts.push(J::A(vec![s("assume"), self.operand(o), l])),
                    StatementKind::StorageDead(x) => sts.push(J::A(vec![s("dead"), u(*x)])),
                    StatementKind::StorageLive(x) => sts.push(J::A(vec![s("live"), u(*x)])),
                    _ => {}
                }
            }
            let l = self.line(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), u(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => J::A(vec![
                    s("switch"),
                    self.operand(discr),
                    J::A(targets.branches().map(|(v, t)| J::A(vec![if v <= i128::MAX as u128 { J::I(v as i128) } else { s(v) }, u(t)])).collect()),
                    u(targets.otherwise()),
                    l,
                ]),
                TerminatorKind::Resume => J::A(vec![s("resume")]),
                TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).ok();
                    let tt = match t {
                        Some(t) => self.ty(t),
                        None => J::N,
                    };
                    let mut gl = J::N;
                    if let Some(t) = t {
                        let i = Instance::resolve_drop_in_place(t);
                        // only user-written drops in the analysed crate matter
                        let nm = format!("{}", internal(self.tcx, t));
                        let _ = (&i, nm);
                        gl = J::B(i.is_empty_shim());
                    }
                    J::A(vec![s("drop"), self.place(place), u(*target), tt, gl, l])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut callee = J::N;
                    if let Operand::Constant(c) = func {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.ty().kind() {
                            let mut o = vec![("def", s(d.name()))];
                            let ta: Vec<J> = a.0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }).collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
                            o.push(("targs", J::A(ta)));
                            match Instance::resolve(d, &a) {
                                Ok(i) => {
                                    o.push(("inst", self.inst(i)));
                                }
                                Err(_) => o.push(("unresolved", J::B(true))),
                            }
                            callee = J::O(o);
                        }
                    }
                    if let J::N = callee {
                        let t = func.ty(b.locals()).ok();
                        let tt = t.map(|t| self.ty(t)).unwrap_or(J::N);
                        callee = J::O(vec![("dyn", self.operand(func)), ("ty", tt)]);
                    }
                    let a: Vec<J> = args.iter().map(|o| self.operand(o)).collect();
                    J::A(vec![s("call"), callee, J::A(a), self.place(destination), target.map(u).unwrap_or(J::N), l])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split(|c| c == '(' || c == ' ' || c == '{').next().unwrap_or("").to_string();
                    let extra = match msg {
                        AssertMessage::Overflow(op, _, _) => format!("{:?}", op),
                        _ => String::new(),
                    };
                    let mut v = vec![s("assert"), self.operand(cond), J::B(*expected), s(m), s(extra), u(*target), l];
                    if let AssertMessage::BoundsCheck { len, index } = msg {
                        v.push(self.operand(len));
                        v.push(self.operand(index));
                    }
                    J::A(v)
                }
                TerminatorKind::InlineAsm { destination, .. } => J::A(vec![s("asm"), destination.map(u).unwrap_or(J::N)]),
            };
            blocks.push(J::A(vec![J::A(sts), t]));
        }
        let spread = b.spread_arg().map(u).unwrap_or(J::N);
        vec![
            ("argc", u(b.arg_locals().len())),
            ("spread", spread),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("file", s(b.span.get_filename())),
            ("line", self.line(&b.span)),
        ]
    }
}

fn roots<'tcx>(tcx: TyCtxt<'tcx>, cx: &mut Cx<'tcx>, cand_names: &[String]) -> J {
    use rustc_hir::def::DefKind;
    let ev = tcx.effective_visibilities(());
    // candidate types for generic parameters: primitive integers and the
    // crate's own non-generic / single-parameter types instantiated with them
    let prims = [tcx.types.u32, tcx.types.u64, tcx.types.usize];
    let mut cands: Vec<rty::Ty<'tcx>> = prims.to_vec();
    let mut all_adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
            all_adts.push(id.to_def_id());
        }
    }
    for pass in 0..1 {
        let snapshot = cands.clone();
        for d in &all_adts {
            let nm = tcx.item_name(*d).to_string();
            if !cand_names.is_empty() && !cand_names.contains(&nm) {
                continue;
            }
            let g = tcx.generics_of(*d);
            let tps: Vec<_> = g.own_params.iter().filter(|p| matches!(p.kind, rty::GenericParamDefKind::Type { .. })).collect();
            if tps.len() == 0 {
                if pass == 0 {
                    cands.push(tcx.type_of(*d).instantiate_identity().skip_norm_wip());
                }
                continue;
            }
            let base: Vec<_> = if pass == 0 { prims.to_vec() } else { snapshot.clone() };
            let combos: Vec<Vec<rty::Ty<'tcx>>> = match tps.len() {
                1 => base.iter().map(|t| vec![*t]).collect(),
                2 => {
                    let mut v = vec![];
                    for a in &base {
                        for b in &base {
                            v.push(vec![*a, *b]);
                        }
                    }
                    v
                }
                _ => vec![],
            };
            for c in combos {
                let mut it = c.into_iter();
                let args = rty::GenericArgs::for_item(tcx, *d, |p, _| match p.kind {
                    rty::GenericParamDefKind::Type { .. } => it.next().unwrap().into(),
                    rty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => panic!("const param"),
                });
                let preds = tcx.clauses_of(*d).instantiate(tcx, args).into_iter().map(|(p, _)| p.skip_norm_wip()).collect::<Vec<_>>();
                if holds(tcx, preds) {
                    let t = rty::Ty::new_adt(tcx, tcx.adt_def(*d), args);
                    if !cands.contains(&t) {
                        cands.push(t);
                    }
                }
            }
        }
    }
    cands.push(rty::Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, tcx.types.str_));
    let mut out = vec![];
    let mut generic = vec![];
    for id in tcx.mir_keys(()) {
        let d = id.to_def_id();
        let k = tcx.def_kind(d);
        if !matches!(k, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        // test code is not compiled here; skip trait declarations without Self
        let g = tcx.generics_of(d);
        let mut tps: Vec<rty::GenericParamDef> = vec![];
        let mut cur = Some(g);
        while let Some(gg) = cur {
            for p in gg.own_params.iter() {
                if matches!(p.kind, rty::GenericParamDefKind::Type { .. }) {
                    tps.push(p.clone());
                }
            }
            cur = gg.parent.map(|p| tcx.generics_of(p));
        }
        tps.sort_by_key(|p| p.index);
        // public through visibility, or through a trait implementation
        let mut vis = ev.is_reachable(*id);
        let mut trait_name = J::N;
        let mut self_ty = J::N;
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            self_ty = s(format!("{}", st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                trait_name = s(format!("{}", tr.instantiate_identity().skip_norm_wip().print_only_trait_path()));
                vis = match st.ty_adt_def() {
                    Some(ad) => ad.did().as_local().map(|l| ev.is_reachable(l)).unwrap_or(true),
                    None => true,
                };
            }
        }
        let path = tcx.def_path_str(d);
        let combos: Vec<Vec<rty::Ty<'tcx>>> = match tps.len() {
            0 => vec![vec![]],
            1 => cands.iter().map(|t| vec![*t]).collect(),
            2 => {
                let mut v = vec![];
                for a in &cands {
                    for b in &cands {
                        v.push(vec![*a, *b]);
                    }
                }
                v
            }
            3 => {
                let mut v = vec![];
                for a in &cands {
                    for b in &cands {
                        for c in &cands {
                            v.push(vec![*a, *b, *c]);
                        }
                    }
                }
                v
            }
            _ => vec![],
        };
        let mut n = 0;
        for c in combos {
            let args = rty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                rty::GenericParamDefKind::Type { .. } => {
                    let pos = tps.iter().position(|q| q.index == p.index).unwrap();
                    c[pos].into()
                }
                rty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => panic!("const param"),
            });
            let preds = tcx.clauses_of(d).instantiate(tcx, args).into_iter().map(|(p, _)| p.skip_norm_wip()).collect::<Vec<_>>();
            if !tps.is_empty() && !holds(tcx, preds) {
                continue;
            }
            let Ok(Some(i)) = rty::Instance::try_resolve(tcx, rty::TypingEnv::fully_monomorphized(), d, args) else { continue };
            if i.def_id() != d {
                continue;
            }
            let si: Instance = stable(i);
            let ij = cx.inst(si);
            let targs: Vec<J> = c.iter().map(|t| s(format!("{}", t))).collect();
            out.push(J::O(vec![
                ("path", s(&path)),
                ("inst", ij),
                ("pub", J::B(vis)),
                ("trait", match &trait_name { J::S(x) => s(x), _ => J::N }),
                ("self", match &self_ty { J::S(x) => s(x), _ => J::N }),
                ("name", s(tcx.item_name(d))),
                ("targs", J::A(targs)),
                ("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())),
            ]));
            n += 1;
        }
        if n == 0 {
            generic.push(J::O(vec![("path", s(&path)), ("pub", J::B(vis))]));
        }
    }
    J::O(vec![("roots", J::A(out)), ("uninstantiated", J::A(generic))])
}

fn holds<'tcx>(tcx: TyCtxt<'tcx>, preds: Vec<rty::Clause<'tcx>>) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_infer::traits::{Obligation, ObligationCause};
    use rustc_trait_selection::traits::ObligationCtxt;
    use rustc_middle::ty::TypeVisitableExt;
    let infcx = tcx.infer_ctxt().ignoring_regions().build(rty::TypingMode::PostAnalysis);
    let ocx = ObligationCtxt::new(&infcx);
    for p in preds {
        let p = tcx.erase_and_anonymize_regions(p);
        if p.has_param() {
            return false;
        }
        ocx.register_obligation(Obligation::new(tcx, ObligationCause::dummy(), rty::ParamEnv::empty(), p));
    }
    ocx.evaluate_obligations_error_on_ambiguity().has_errors() == false
}

fn auto_traits<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    use rustc_hir::def::DefKind;
    let ev = tcx.effective_visibilities(());
    let mut out = vec![];
    let send = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send")).unwrap();
    let sync = tcx.lang_items().sync_trait().unwrap();
    for id in tcx.hir_crate_items(()).definitions() {
        if !matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
            continue;
        }
        let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
        let env = tcx.param_env(id);
        let chk = |tr| {
            use rustc_infer::infer::TyCtxtInferExt;
            use rustc_trait_selection::infer::InferCtxtExt;
            let infcx = tcx.infer_ctxt().build(rty::TypingMode::PostAnalysis);
            infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
        };
        out.push(J::O(vec![
            ("path", s(tcx.def_path_str(id))),
            ("pub", J::B(ev.is_reachable(id))),
            ("send", J::B(chk(send))),
            ("sync", J::B(chk(sync))),
            ("copy", J::B(chk(tcx.lang_items().copy_trait().unwrap()))),
        ]));
    }
    J::A(out)
}

fn go(tcx: TyCtxt<'_>, outp: String, skip: Vec<String>, cand: Vec<String>) -> ControlFlow<()> {
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], queue: VecDeque::new(), seen: HashMap::new(), names: vec![], skip };
    let r = roots(tcx, &mut cx, &cand);
    let at = auto_traits(tcx);
    let mut f = std::io::BufWriter::new(std::fs::File::create(&outp).unwrap());
    let local = rustc_public::local_crate().name.to_string();
    let mut fns: Vec<(usize, J)> = vec![];
    let mut seen_body = HashSet::new();
    while let Some(i) = cx.queue.pop_front() {
        let id = cx.seen[&i];
        if !seen_body.insert(id) {
            continue;
        }
        let name = i.name().to_string();
        let krate = i.def.krate().name.to_string();
        let defname = i.def.name().to_string();
        let mut o = vec![("name", s(&name)), ("def", s(&defname)), ("crate", s(&krate)), ("kind", s(format!("{:?}", i.kind)))];
        if let Some(n) = i.intrinsic_name() {
            o.push(("intr", s(n)));
        }
        let is_local = krate == local;
        let skipped = !is_local && cx.skip.iter().any(|p| defname.starts_with(p.as_str()));
        if !skipped && !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) {
            if let Some(b) = i.body() {
                let bo = cx.body(&b);
                o.extend(bo);
            }
        } else if let InstanceKind::Intrinsic = i.kind {
        }
        fns.push((id, J::O(o)));
    }
    fns.sort_by_key(|x| x.0);
    let mut st = String::new();
    st.push_str("{\"api\":");
    r.w(&mut st);
    st.push_str(",\"auto\":");
    at.w(&mut st);
    st.push_str(",\"fns\":");
    J::A(fns.into_iter().map(|x| x.1).collect()).w(&mut st);
    st.push_str(",\"types\":");
    let tys = std::mem::take(&mut cx.ty_out);
    J::A(tys).w(&mut st);
    st.push('}');
    f.write_all(st.as_bytes()).unwrap();
    ControlFlow::Break(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let outp = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let skip = std::env::var("MIRDUMP_SKIP").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
    let cand = std::env::var("MIRDUMP_CAND").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
    args[0] = "rustc".to_string();
    let r = run_with_tcx!(&args, |tcx| go(tcx, outp, skip, cand));
    match r {
        Err(CErr::Interrupted(())) => {}
        Ok(()) => {}
        Err(e) => {
            eprintln!("mirdump: compiler failed: {:?}", e);
            std::process::exit(3);
        }
    }
}
