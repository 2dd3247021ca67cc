// mirdump: a rustc wrapper that, for the crates named in MIRDUMP_CRATES, writes the
// monomorphised MIR of everything reachable from the crate's own functions as JSON.
// For every other crate it behaves exactly like rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, s) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}

const FOLLOW: &[&str] = &[
    "av_metrics", "av_metrics_decoders", "av_metrics_tool", "v_frame", "itertools", "lab", "core", "std",
    "alloc", "num_traits", "y4m", "either", "serde", "serde_core", "serde_json",
];

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    fns: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    local: String,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let name = q(&format!("{}", t));
        let kind = t.kind();
        let s = match kind.rigid() {
            Some(RigidTy::Bool) => r#""k":"bool""#.to_string(),
            Some(RigidTy::Char) => r#""k":"char""#.to_string(),
            Some(RigidTy::Int(i)) => {
                format!(r#""k":"int","w":{},"s":1"#, i.num_bytes() * 8)
            }
            Some(RigidTy::Uint(i)) => {
                format!(r#""k":"int","w":{},"s":0"#, i.num_bytes() * 8)
            }
            Some(RigidTy::Float(f)) => {
                let w = match f {
                    FloatTy::F16 => 16,
                    FloatTy::F32 => 32,
                    FloatTy::F64 => 64,
                    FloatTy::F128 => 128,
                };
                format!(r#""k":"float","w":{w}"#)
            }
            Some(RigidTy::Str) => r#""k":"str""#.to_string(),
            Some(RigidTy::Never) => r#""k":"never""#.to_string(),
            Some(RigidTy::Array(e, n)) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#""k":"array","e":{},"n":{n}"#, self.ty(*e))
            }
            Some(RigidTy::Slice(e)) => format!(r#""k":"slice","e":{}"#, self.ty(*e)),
            Some(RigidTy::RawPtr(e, m)) => {
                format!(r#""k":"ptr","e":{},"m":{}"#, self.ty(*e), (*m == Mutability::Mut) as u8)
            }
            Some(RigidTy::Ref(_, e, m)) => {
                format!(r#""k":"ref","e":{},"m":{}"#, self.ty(*e), (*m == Mutability::Mut) as u8)
            }
            Some(RigidTy::Tuple(ts)) => {
                format!(r#""k":"tuple","f":{}"#, list(ts.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>()))
            }
            Some(RigidTy::FnDef(d, a)) => {
                let f = self.fn_ref(*d, a);
                format!(r#""k":"fndef","fn":{f}"#)
            }
            Some(RigidTy::FnPtr(_)) => r#""k":"fnptr""#.to_string(),
            Some(RigidTy::Dynamic(..)) => r#""k":"dyn""#.to_string(),
            Some(RigidTy::Closure(d, a)) => {
                let n = a.0.len();
                let ups = match &a.0[n - 1] {
                    GenericArgKind::Type(t) => match t.kind().rigid() {
                        Some(RigidTy::Tuple(ts)) => ts.clone(),
                        _ => vec![],
                    },
                    _ => vec![],
                };
                let kind = match &a.0[n - 3] {
                    GenericArgKind::Type(t) => match t.kind().rigid() {
                        Some(RigidTy::Int(IntTy::I8)) => ClosureKind::Fn,
                        Some(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    },
                    _ => ClosureKind::FnOnce,
                };
                let f = match Instance::resolve_closure(*d, a, kind.clone()) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                format!(
                    r#""k":"closure","def":{},"fn":{f},"ck":{},"f":{}"#,
                    q(&d.name()),
                    q(&format!("{kind:?}")),
                    list(ups.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>())
                )
            }
            Some(RigidTy::Adt(d, a)) => {
                let args = a.0.iter().map(|x| match x {
                    GenericArgKind::Type(t) => self.ty(*t).to_string(),
                    GenericArgKind::Const(c) => {
                        c.eval_target_usize().map(|x| format!(r#"{{"c":{x}}}"#)).unwrap_or("null".into())
                    }
                    _ => "null".into(),
                });
                let args = list(args.collect::<Vec<_>>());
                let mut vs = vec![];
                for v in d.variants() {
                    let disc = if d.kind().is_enum() {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    let fs = v
                        .fields()
                        .iter()
                        .map(|f| format!("[{},{}]", q(&f.name), self.ty(f.ty_with_args(a))))
                        .collect::<Vec<_>>();
                    vs.push(format!(r#"{{"n":{},"d":{disc},"f":{}}}"#, q(&v.name()), list(fs)));
                }
                let k = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                format!(
                    r#""k":"adt","ak":"{k}","def":{},"simd":{},"a":{args},"v":{}"#,
                    q(&d.name()),
                    d.is_simd() as u8,
                    list(vs)
                )
            }
            _ => r#""k":"other""#.to_string(),
        };
        let size = t
            .layout()
            .ok()
            .map(|l| l.shape())
            .filter(|s| s.is_sized())
            .map(|s| s.size.bytes().to_string())
            .unwrap_or("null".into());
        self.ty_out[i] = format!(r#"{{"name":{name},"size":{size},{s}}}"#);
        i
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.fns.get(&i) {
            return *k;
        }
        let k = self.fns.len();
        self.fns.insert(i, k);
        self.queue.push_back((k, i));
        k
    }

    fn fn_ref(&mut self, d: FnDef, a: &GenericArgs) -> String {
        match Instance::resolve(d, a) {
            Ok(i) => self.inst(i).to_string(),
            Err(_) => q(&d.name()),
        }
    }

    // ---- constants
    fn uint(b: &[Option<u8>]) -> Option<u128> {
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            v |= ((*x)? as u128) << (8 * i);
        }
        Some(v)
    }
    fn prov(a: &Allocation, off: usize) -> Option<AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }
    fn raw(b: &[Option<u8>]) -> String {
        let mut s = String::new();
        for x in b.iter().take(64) {
            match x {
                Some(x) => {
                    let _ = write!(s, "{x:02x}");
                }
                None => s.push_str("__"),
            }
        }
        format!(r#"{{"raw":"{s}"}}"#)
    }
    fn val(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let Ok(lay) = t.layout() else { return r#"{"raw":"?"}"#.into() };
        let shape = lay.shape();
        let size = shape.size.bytes();
        if off + size > a.bytes.len() || depth > 12 {
            return r#"{"raw":"?"}"#.into();
        }
        let bytes = &a.bytes[off..off + size];
        let kind = t.kind();
        match kind.rigid() {
            Some(RigidTy::Bool) => match Self::uint(bytes) {
                Some(v) => format!(r#"{{"b":{}}}"#, v != 0),
                None => Self::raw(bytes),
            },
            Some(RigidTy::Char) | Some(RigidTy::Uint(_)) => match Self::uint(bytes) {
                Some(v) => format!(r#"{{"i":"{v}"}}"#),
                None => Self::raw(bytes),
            },
            Some(RigidTy::Int(_)) => match Self::uint(bytes) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    let v = if size == 0 { 0 } else { ((v << sh) as i128) >> sh };
                    format!(r#"{{"i":"{v}"}}"#)
                }
                None => Self::raw(bytes),
            },
            Some(RigidTy::Float(_)) => match Self::uint(bytes) {
                Some(v) => format!(r#"{{"f":"{v}","w":{}}}"#, size * 8),
                None => Self::raw(bytes),
            },
            Some(RigidTy::Tuple(ts)) => {
                let offs = match &shape.fields {
                    FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>(),
                    _ => vec![],
                };
                let fs = ts
                    .iter()
                    .zip(offs)
                    .map(|(t, o)| self.val(a, off + o, *t, depth + 1))
                    .collect::<Vec<_>>();
                format!(r#"{{"agg":{},"v":0}}"#, list(fs))
            }
            Some(RigidTy::Array(e, n)) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 {
                    return format!(r#"{{"bigarr":{n}}}"#);
                }
                let vs = (0..n).map(|i| self.val(a, off + i * es, *e, depth + 1)).collect::<Vec<_>>();
                format!(r#"{{"arr":{}}}"#, list(vs))
            }
            Some(RigidTy::Ref(_, e, _)) | Some(RigidTy::RawPtr(e, _)) => {
                let Some(p) = Self::prov(a, off) else { return Self::raw(bytes) };
                let base = Self::uint(&bytes[..8]).unwrap_or(0) as usize;
                match GlobalAlloc::from(p) {
                    GlobalAlloc::Memory(m) => match e.kind().rigid() {
                        Some(RigidTy::Str) => {
                            let n = Self::uint(&bytes[8..16]).unwrap_or(0) as usize;
                            let raw: Vec<u8> = m.bytes[base..base + n].iter().map(|b| b.unwrap_or(0)).collect();
                            format!(r#"{{"s":{}}}"#, q(&String::from_utf8_lossy(&raw)))
                        }
                        Some(RigidTy::Slice(el)) => {
                            let n = Self::uint(&bytes[8..16]).unwrap_or(0) as usize;
                            let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            if n > 4096 {
                                return format!(r#"{{"bigarr":{n}}}"#);
                            }
                            let vs =
                                (0..n).map(|i| self.val(&m, base + i * es, *el, depth + 1)).collect::<Vec<_>>();
                            format!(r#"{{"ref":{{"arr":{}}}}}"#, list(vs))
                        }
                        Some(RigidTy::Dynamic(..)) => format!(r#"{{"dynref":1}}"#),
                        _ => format!(r#"{{"ref":{}}}"#, self.val(&m, base, *e, depth + 1)),
                    },
                    GlobalAlloc::Static(s) => format!(r#"{{"static":{}}}"#, q(&s.name())),
                    GlobalAlloc::Function(i) => format!(r#"{{"fn":{}}}"#, self.inst(i)),
                    _ => Self::raw(bytes),
                }
            }
            Some(RigidTy::FnPtr(_)) => {
                if let Some(p) = Self::prov(a, off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p) {
                        return format!(r#"{{"fn":{}}}"#, self.inst(i));
                    }
                }
                Self::raw(bytes)
            }
            Some(RigidTy::Adt(d, ga)) => {
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tw = match tag {
                            Scalar::Initialized { value: Primitive::Int { length, .. }, .. }
                            | Scalar::Union { value: Primitive::Int { length, .. } } => length.bits() / 8,
                            _ => 8,
                        };
                        let mut found = None;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                for w in [tw] {
                                    if off + toff + w > a.bytes.len() {
                                        break;
                                    }
                                    if let Some(v) = Self::uint(&a.bytes[off + toff..off + toff + w]) {
                                        for vd in d.variants() {
                                            if d.discriminant_for_variant(vd.idx()).val
                                                & (u128::MAX >> (128 - 8 * w as u32))
                                                == v
                                            {
                                                found = Some(vd.idx().to_index());
                                            }
                                        }
                                        if found.is_some() {
                                            break;
                                        }
                                    }
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if Self::prov(a, off + toff).is_some() {
                                    found = Some(untagged_variant.to_index());
                                } else {
                                    for w in [tw] {
                                        if toff + w > size {
                                            continue;
                                        }
                                        if let Some(v) = Self::uint(&a.bytes[off + toff..off + toff + w]) {
                                            let m = u128::MAX >> (128 - 8 * w as u32);
                                            let rel = v.wrapping_sub(*niche_start) & m;
                                            let n = (niche_variants.end().to_index()
                                                - niche_variants.start().to_index())
                                                as u128;
                                            found = Some(if rel <= n {
                                                niche_variants.start().to_index() + rel as usize
                                            } else {
                                                untagged_variant.to_index()
                                            });
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                        let Some(vi) = found else { return Self::raw(bytes) };
                        let offs = variants
                            .get(vi)
                            .map(|v| v.offsets.iter().map(|o| o.bytes()).collect())
                            .unwrap_or_default();
                        (vi, offs)
                    }
                    _ => return Self::raw(bytes),
                };
                let Some(vd) = d.variants().into_iter().nth(vi) else { return Self::raw(bytes) };
                if d.kind().is_union() {
                    return Self::raw(bytes);
                }
                let fs = vd
                    .fields()
                    .iter()
                    .zip(offs)
                    .map(|(f, o)| {
                        let ft = f.ty_with_args(ga);
                        self.val(a, off + o, ft, depth + 1)
                    })
                    .collect::<Vec<_>>();
                format!(r#"{{"agg":{},"v":{vi}}}"#, list(fs))
            }
            Some(RigidTy::FnDef(..)) | Some(RigidTy::Closure(..)) => r#"{"zst":1}"#.into(),
            _ => Self::raw(bytes),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let k = t.kind();
        if let Some((d, a)) = k.fn_def() {
            let f = self.fn_ref(d, a);
            return format!(r#"["k",{ti},{{"fn":{f}}}]"#);
        }
        let v = match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.val(&a, 0, t, 0)
            }
            ConstantKind::ZeroSized => r#"{"zst":1}"#.to_string(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => {
                    let (t2, a) = (*t2, a.clone());
                    self.val(&a, 0, t2, 0)
                }
                _ => r#"{"raw":"ty"}"#.into(),
            },
            _ => r#"{"raw":"uneval"}"#.into(),
        };
        format!(r#"["k",{ti},{v}]"#)
    }

    // ---- bodies
    fn place(&mut self, p: &Place) -> String {
        let pr = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => r#"["*"]"#.to_string(),
                ProjectionElem::Field(i, t) => format!(r#"["f",{i},{}]"#, self.ty(*t)),
                ProjectionElem::Index(l) => format!(r#"["i",{l}]"#),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!(r#"["c",{offset},{min_length},{}]"#, *from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!(r#"["s",{from},{to},{}]"#, *from_end as u8)
                }
                ProjectionElem::Downcast(v) => format!(r#"["v",{}]"#, v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!(r#"["o",{}]"#, self.ty(*t)),
            })
            .collect::<Vec<_>>();
        format!("[{},{}]", p.local, list(pr))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["cp",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["mv",{}]"#, self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!(r#"["rt",{}]"#, q(&format!("{r:?}"))),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String {
        list(v.iter().map(|o| self.op(o)).collect::<Vec<_>>())
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!(r#"["addr",{}]"#, self.place(p)),
            Rvalue::Ref(_, k, p) => {
                format!(r#"["ref",{},{}]"#, matches!(k, BorrowKind::Mut { .. }) as u8, self.place(p))
            }
            Rvalue::Reborrow(_, _, p) => format!(r#"["reborrow",{}]"#, self.place(p)),
            Rvalue::Aggregate(k, v) => {
                let ops = self.ops(v);
                let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                match k {
                    AggregateKind::Array(_) => format!(r#"["agg","array",0,{ops},{t}]"#),
                    AggregateKind::Tuple => format!(r#"["agg","tuple",0,{ops},{t}]"#),
                    AggregateKind::Adt(_, vi, _, _, f) => format!(
                        r#"["agg","adt",{},{ops},{t},{}]"#,
                        vi.to_index(),
                        f.map(|x| x.to_string()).unwrap_or("null".into())
                    ),
                    AggregateKind::Closure(..) => format!(r#"["agg","closure",0,{ops},{t}]"#),
                    AggregateKind::RawPtr(..) => format!(r#"["agg","rawptr",0,{ops},{t}]"#),
                    _ => format!(r#"["agg","other",0,{ops},{t}]"#),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(r#"["bin",{},{},{},{t}]"#, q(&format!("{b:?}")), self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(r#"["cbin",{},{},{},{t}]"#, q(&format!("{b:?}")), self.op(x), self.op(y))
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let ks = match k {
                    CastKind::PointerCoercion(c) => format!("{c:?}"),
                    k => format!("{k:?}"),
                };
                format!(r#"["cast",{},{},{},{from}]"#, q(&ks), self.op(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",["cp",{}]]"#, self.place(p)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::Len(p) => format!(r#"["len",{}]"#, self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(r#"["repeat",{},{n},{t}]"#, self.op(o))
            }
            Rvalue::ThreadLocalRef(i) => format!(r#"["tls",{}]"#, q(&i.name())),
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(r#"["un",{},{},{t}]"#, q(&format!("{u:?}")), self.op(o))
            }
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.op(o)),
        }
    }
    fn uw(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            UnwindAction::Continue => "\"continue\"".into(),
            UnwindAction::Unreachable => "\"unreachable\"".into(),
            UnwindAction::Terminate => "\"terminate\"".into(),
        }
    }
    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        let line = t.source_info.span.get_lines().start_line;
        match &t.kind {
            TerminatorKind::Goto { target } => format!(r#"["goto",{target}]"#),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br = targets.branches().map(|(v, b)| format!(r#"["{v}",{b}]"#)).collect::<Vec<_>>();
                let ty = discr.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(r#"["switch",{},{},{},{ty},{line}]"#, self.op(discr), list(br), targets.otherwise())
            }
            TerminatorKind::Resume => r#"["resume"]"#.into(),
            TerminatorKind::Abort => r#"["abort"]"#.into(),
            TerminatorKind::Return => r#"["return"]"#.into(),
            TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
            TerminatorKind::Drop { place, target, unwind } => {
                let ty = place.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!(r#"["drop",{},{target},{},{ty}]"#, self.place(place), Self::uw(unwind))
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let tg = target.map(|x| x.to_string()).unwrap_or("null".into());
                format!(
                    r#"["call",{},{},{},{tg},{},{line}]"#,
                    self.op(func),
                    self.ops(args),
                    self.place(destination),
                    Self::uw(unwind)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let (k, ops) = match msg {
                    AssertMessage::BoundsCheck { len, index } => ("bounds".to_string(), vec![len.clone(), index.clone()]),
                    AssertMessage::Overflow(b, x, y) => (format!("overflow:{b:?}"), vec![x.clone(), y.clone()]),
                    AssertMessage::OverflowNeg(x) => ("overflow:Neg".into(), vec![x.clone()]),
                    AssertMessage::DivisionByZero(x) => ("div0".into(), vec![x.clone()]),
                    AssertMessage::RemainderByZero(x) => ("rem0".into(), vec![x.clone()]),
                    m => (format!("{m:?}"), vec![]),
                };
                format!(
                    r#"["assert",{},{},{},{},{target},{},{line}]"#,
                    self.op(cond),
                    *expected as u8,
                    q(&k),
                    self.ops(&ops),
                    Self::uw(unwind)
                )
            }
            TerminatorKind::InlineAsm { destination, .. } => {
                format!(r#"["asm",{}]"#, destination.map(|x| x.to_string()).unwrap_or("null".into()))
            }
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let ls = list(locals.iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rv(r, &locals);
                        st.push(format!(r#"["=",{p},{r}]"#));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(r#"["setd",{},{}]"#, self.place(place), variant_index.to_index()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!(r#"["dead",{l}]"#)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(format!(
                            r#"["copy",{},{},{}]"#,
                            self.op(&c.src),
                            self.op(&c.dst),
                            self.op(&c.count)
                        ));
                    }
                    _ => {}
                }
            }
            let t = self.term(&bb.terminator, &locals);
            blocks.push(format!("[{},{t}]", list(st)));
        }
        let names = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| format!("[{l},{}]", q(&v.name))))
            .collect::<Vec<_>>();
        format!(
            r#""nargs":{},"locals":{ls},"spread":{},"vars":{},"blocks":{}"#,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            list(names),
            list(blocks)
        )
    }
}

fn follow(cx: &Cx, i: &Instance) -> bool {
    let krate = CrateDef::krate(&i.def).name;
    if krate == cx.local {
        return true;
    }
    if !FOLLOW.contains(&krate.as_str()) {
        return false;
    }
    let n = i.name();
    if n.contains("::fmt::") || n.contains("::panicking::") || n.contains("core::fmt") {
        return false;
    }
    true
}

fn dump() -> ControlFlow<()> {
    let local = rustc_public::local_crate();
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_out: vec![],
        fns: HashMap::new(),
        queue: VecDeque::new(),
        local: local.name.clone(),
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if let Ok(i) = Instance::try_from(it) {
            if matches!(it.kind(), rustc_public::ItemKind::Fn) && it.has_body() {
                let k = cx.inst(i);
                roots.push(format!("[{},{k}]", q(&CrateItem::name(&it))));
            }
        }
    }
    let mut out: Vec<(usize, String)> = vec![];
    while let Some((k, i)) = cx.queue.pop_front() {
        let name = i.name();
        let def = i.def.name();
        let krate = CrateDef::krate(&i.def).name;
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let args = i
            .args()
            .0
            .iter()
            .map(|x| match x {
                GenericArgKind::Type(t) => cx.ty(*t).to_string(),
                GenericArgKind::Const(c) => {
                    c.eval_target_usize().map(|x| format!(r#"{{"c":{x}}}"#)).unwrap_or("null".into())
                }
                _ => "null".into(),
            })
            .collect::<Vec<_>>();
        let intr = i.intrinsic_name().map(|s| q(&s)).unwrap_or("null".into());
        let sp = i.def.span();
        let (file, line) = (sp.get_filename(), sp.get_lines().start_line);
        let mut s = format!(
            r#"{{"name":{},"def":{},"crate":{},"kind":"{kind}","intr":{intr},"args":{},"file":{},"line":{line}"#,
            q(&name),
            q(&def),
            q(&krate),
            list(args),
            q(&file)
        );
        if kind != "virtual" && kind != "llvm" && follow(&cx, &i) && (kind != "intrinsic" || i.has_body()) {
            let body = if kind == "shim" || i.has_body() { i.body() } else { None };
            if let Some(b) = body {
                s.push(',');
                s.push_str(&cx.body(&b));
            }
        }
        s.push('}');
        out.push((k, s));
    }
    out.sort_by_key(|x| x.0);
    let path = std::env::var("MIRDUMP_OUT").unwrap();
    let json = format!(
        "{{\"crate\":{},\"roots\":{},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n]}}\n",
        q(&cx.local),
        list(roots),
        cx.ty_out.join(",\n"),
        out.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n")
    );
    std::fs::write(format!("{path}/{}.json", cx.local), json).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // args[0] is now the path of the real rustc
    let names = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned();
    let wanted = krate.is_some_and(|k| names.split(',').any(|n| n == k))
        && !args.iter().any(|a| a == "--test" || a.contains("build_script"));
    if wanted {
        match run!(&args, dump) {
            Ok(()) => {}
            Err(e) => {
                eprintln!("mirdump: {e:?}");
                std::process::exit(1);
            }
        }
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}
