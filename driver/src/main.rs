//! Fact extractor: a rustc driver that dumps the monomorphic MIR of the crate under analysis (and of
//! the small library combinators it calls) as JSON. Used as RUSTC_WRAPPER; every other crate is passed
//! to the real compiler untouched.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::{rustc_internal, CrateDef, CrateDefType, ItemKind};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

// Library modules whose (small, safe, monomorphic) bodies are dumped so that the analysis can look
// through them instead of modelling them: (crate, path prefix).
const INLINE: &[(&str, &str)] = &[
    ("core", "::option::"),
    ("core", "::result::"),
    ("core", "::convert::"),
    ("core", "::ops::control_flow::"),
    ("core", "::ops::try_trait::"),
    ("core", "::ops::function::"),
    ("core", "::cmp::"),
    ("core", "::bool::"),
    ("core", "::borrow::"),
    ("core", "::default::"),
    ("core", "::clone::"),
    ("core", "::mem::drop"),
    ("core", "::tuple::"),
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ix: HashMap<Ty, usize>,
    queue: VecDeque<Instance>,
    keys: HashMap<Instance, usize>,
    insts: Vec<Instance>,
    statics: BTreeMap<String, String>,
    local_cache: HashMap<Ty, bool>,
}

fn span_json(sp: &Span) -> String {
    let l = sp.get_lines();
    format!("[{},{},{}]", esc(&sp.get_filename()), l.start_line, l.start_col)
}

impl<'tcx> Cx<'tcx> {
    fn is_local_def(&self, d: &impl CrateDef) -> bool {
        d.krate().is_local
    }

    fn inst_def_local(&self, i: &Instance) -> bool {
        use rustc_middle::ty::InstanceKind as K;
        let inst = rustc_internal::internal(self.tcx, *i);
        match inst.def {
            K::Item(d) => d.is_local(),
            other => other.def_id().is_local(),
        }
    }

    // Does the type mention a type, closure or function of the analysed crate?
    fn ty_local(&mut self, t: Ty) -> bool {
        if let Some(b) = self.local_cache.get(&t) {
            return *b;
        }
        self.local_cache.insert(t, false);
        let r = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Adt(d, a) => self.is_local_def(&d) || self.args_local(&a),
                RigidTy::Array(t, _) | RigidTy::Slice(t) | RigidTy::RawPtr(t, _) | RigidTy::Ref(_, t, _) => {
                    self.ty_local(t)
                }
                RigidTy::FnDef(d, a) => self.is_local_def(&d) || self.args_local(&a),
                RigidTy::Closure(d, a) => self.is_local_def(&d) || self.args_local(&a),
                RigidTy::Tuple(ts) => ts.iter().any(|t| self.ty_local(*t)),
                RigidTy::Dynamic(..) | RigidTy::FnPtr(_) => false,
                _ => false,
            },
            _ => false,
        };
        self.local_cache.insert(t, r);
        r
    }

    fn args_local(&mut self, a: &GenericArgs) -> bool {
        let v: Vec<Ty> = a.0.iter().filter_map(|k| k.ty().copied()).collect();
        v.into_iter().any(|t| self.ty_local(t))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.type_ix.get(&t) {
            return *i;
        }
        let ix = self.types.len();
        self.type_ix.insert(t, ix);
        self.types.push(String::new());
        let name = format!("{}", rustc_internal::internal(self.tcx, t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n)
                }
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"mut\":{},\"e\":{}", m == Mutability::Mut, self.ty(e))
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"mut\":{},\"e\":{}", m == Mutability::Mut, self.ty(e))
                }
                RigidTy::Tuple(ts) => {
                    let v = arr(ts.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>());
                    format!("\"k\":\"tuple\",\"es\":{}", v)
                }
                RigidTy::FnDef(d, a) => {
                    let inst = Instance::resolve(d, &a).ok();
                    let i = match inst {
                        Some(i) => self.inst(i).to_string(),
                        None => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"def\":{},\"inst\":{}", esc(&d.name()), i)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                RigidTy::Closure(d, a) => {
                    let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                    let name = d.name();
                    let direct = {
                        // The closure body itself (by its natural kind).
                        let it = rustc_internal::internal(self.tcx, t);
                        let kind = match it.kind() {
                            rustc_middle::ty::TyKind::Closure(_, args) => args.as_closure().kind(),
                            _ => unreachable!(),
                        };
                        let k = match kind {
                            rustc_middle::ty::ClosureKind::Fn => ClosureKind::Fn,
                            rustc_middle::ty::ClosureKind::FnMut => ClosureKind::FnMut,
                            rustc_middle::ty::ClosureKind::FnOnce => ClosureKind::FnOnce,
                        };
                        Instance::resolve_closure(d, &a, k).ok()
                    };
                    let _ = inst;
                    let i = match direct {
                        Some(i) => self.inst(i).to_string(),
                        None => "null".into(),
                    };
                    let ups = {
                        let it = rustc_internal::internal(self.tcx, t);
                        match it.kind() {
                            rustc_middle::ty::TyKind::Closure(_, args) => args
                                .as_closure()
                                .upvar_tys()
                                .iter()
                                .map(|u| rustc_internal::stable(u))
                                .collect::<Vec<Ty>>(),
                            _ => vec![],
                        }
                    };
                    let ups = arr(ups.into_iter().map(|u| self.ty(u).to_string()).collect::<Vec<_>>());
                    format!("\"k\":\"closure\",\"def\":{},\"inst\":{},\"ups\":{}", esc(&name), i, ups)
                }
                RigidTy::Adt(d, a) => {
                    let mut vs = vec![];
                    for v in d.variants() {
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let fty = f.ty_with_args(&a);
                                format!("[{},{}]", esc(&f.name.to_string()), self.ty(fty))
                            })
                            .collect();
                        let dv = if d.kind().is_enum() {
                            format!("{}", d.discriminant_for_variant(v.idx()).val)
                        } else {
                            "0".into()
                        };
                        vs.push(format!("[{},{},{}]", esc(&v.name()), arr(fs), dv));
                    }
                    let targs = arr(a.0.iter().filter_map(|k| k.ty().copied()).collect::<Vec<_>>().into_iter()
                        .map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                    format!(
                        "\"k\":\"adt\",\"adt\":{},\"kind\":{},\"local\":{},\"box\":{},\"args\":{},\"vars\":{}",
                        esc(&d.name()),
                        esc(&format!("{}", d.kind())),
                        self.is_local_def(&d),
                        d.is_box(),
                        targs,
                        arr(vs)
                    )
                }
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"alias\"".to_string(),
        };
        self.types[ix] = format!("{{\"n\":{},{}}}", esc(&name), body);
        ix
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.keys.get(&i) {
            return *k;
        }
        let k = self.insts.len();
        self.keys.insert(i, k);
        self.insts.push(i);
        self.queue.push_back(i);
        k
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = arr(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "[\"*\"]".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
        }).collect::<Vec<_>>());
        format!("[{},{}]", p.local, pr)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = self.constant(&c.const_);
                format!("[\"k\",{},{}]", v, ti)
            }
            Operand::RuntimeChecks(k) => format!("[\"rc\",{}]", esc(&format!("{:?}", k))),
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(c.ty()),
            ConstantKind::Allocated(a) => self.decode(a, 0, c.ty(), 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => match tc.eval_target_usize() {
                    Ok(n) => format!("[\"int\",{}]", n),
                    Err(_) => "[\"?\"]".into(),
                },
            },
            _ => "[\"?\"]".into(),
        }
    }

    fn zst(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(..)) => "[\"fn\"]".into(),
            TyKind::RigidTy(RigidTy::Closure(..)) => "[\"closure\"]".into(),
            TyKind::RigidTy(RigidTy::Tuple(ref v)) if v.is_empty() => "[\"unit\"]".into(),
            _ => "[\"zst\"]".into(),
        }
    }

    fn read_uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in 0..n {
            let b = (*a.bytes.get(off + i)?)?;
            v |= (b as u128) << (8 * i);
        }
        Some(v)
    }

    fn prov_at(a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| GlobalAlloc::from(p.0))
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 8 {
            return "[\"?\"]".into();
        }
        let q = || "[\"?\"]".to_string();
        let size = match t.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return q(),
        };
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match Self::read_uint(a, off, 1) {
                    Some(v) => format!("[\"bool\",{}]", v),
                    None => q(),
                },
                RigidTy::Char => match Self::read_uint(a, off, 4) {
                    Some(v) => format!("[\"char\",{}]", v),
                    None => q(),
                },
                RigidTy::Uint(_) => match Self::read_uint(a, off, size) {
                    Some(v) => format!("[\"int\",{}]", v),
                    None => q(),
                },
                RigidTy::Int(_) => match Self::read_uint(a, off, size) {
                    Some(v) => {
                        let bits = size * 8;
                        let s = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                            (v as i128) - (1i128 << bits)
                        } else {
                            v as i128
                        };
                        format!("[\"int\",{}]", s)
                    }
                    None => q(),
                },
                RigidTy::Float(_) => "[\"float\"]".into(),
                RigidTy::FnDef(..) | RigidTy::Closure(..) if size == 0 => self.zst(t),
                RigidTy::FnPtr(_) => match Self::prov_at(a, off) {
                    Some(GlobalAlloc::Function(i)) => format!("[\"fnptr\",{}]", self.inst(i)),
                    _ => q(),
                },
                RigidTy::Tuple(ts) => {
                    let l = t.layout().unwrap().shape();
                    let offs = match l.fields {
                        FieldsShape::Arbitrary { offsets } => offsets,
                        FieldsShape::Primitive => vec![],
                        _ => return q(),
                    };
                    if ts.is_empty() {
                        return "[\"unit\"]".into();
                    }
                    let v = ts.iter().enumerate()
                        .map(|(i, ft)| self.decode(a, off + offs[i].bytes(), *ft, depth + 1))
                        .collect::<Vec<_>>();
                    format!("[\"tup\",{}]", arr(v))
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let es = match e.layout() {
                        Ok(l) => l.shape().size.bytes(),
                        Err(_) => return q(),
                    };
                    if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = e.kind() {
                        let bs: Option<Vec<String>> =
                            (0..n).map(|i| Self::read_uint(a, off + i, 1).map(|b| b.to_string())).collect();
                        return match bs {
                            Some(b) => format!("[\"bytes\",{}]", arr(b)),
                            None => q(),
                        };
                    }
                    if n > 256 {
                        return q();
                    }
                    let v = (0..n).map(|i| self.decode(a, off + i * es, e, depth + 1)).collect::<Vec<_>>();
                    format!("[\"arr\",{}]", arr(v))
                }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => self.decode_ptr(a, off, e, size, depth),
                RigidTy::Adt(d, args) => self.decode_adt(a, off, t, d, &args, depth),
                _ => q(),
            },
            _ => q(),
        }
    }

    fn decode_ptr(&mut self, a: &Allocation, off: usize, e: Ty, size: usize, depth: usize) -> String {
        let q = || "[\"?\"]".to_string();
        let ga = match Self::prov_at(a, off) {
            Some(g) => g,
            None => {
                return match Self::read_uint(a, off, 8) {
                    Some(v) => format!("[\"addr\",{}]", v),
                    None => q(),
                }
            }
        };
        let base = match Self::read_uint(a, off, 8) {
            Some(v) => v as usize,
            None => return q(),
        };
        match ga {
            GlobalAlloc::Memory(m) => match e.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let len = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                    let bytes: Option<Vec<u8>> =
                        (0..len).map(|i| Self::read_uint(&m, base + i, 1).map(|b| b as u8)).collect();
                    match bytes.map(String::from_utf8) {
                        Some(Ok(s)) => format!("[\"str\",{}]", esc(&s)),
                        _ => q(),
                    }
                }
                TyKind::RigidTy(RigidTy::Slice(el)) => {
                    let len = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                    if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = el.kind() {
                        let bs: Option<Vec<String>> = (0..len)
                            .map(|i| Self::read_uint(&m, base + i, 1).map(|b| b.to_string()))
                            .collect();
                        return match bs {
                            Some(b) => format!("[\"ref\",[\"bytes\",{}]]", arr(b)),
                            None => q(),
                        };
                    }
                    let es = match el.layout() {
                        Ok(l) => l.shape().size.bytes(),
                        Err(_) => return q(),
                    };
                    if len > 256 {
                        return q();
                    }
                    let v = (0..len).map(|i| self.decode(&m, base + i * es, el, depth + 1)).collect::<Vec<_>>();
                    format!("[\"ref\",[\"arr\",{}]]", arr(v))
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => q(),
                _ => {
                    let _ = size;
                    format!("[\"ref\",{}]", self.decode(&m, base, e, depth + 1))
                }
            },
            GlobalAlloc::Static(s) => format!("[\"static\",{}]", self.stat(&s)),
            GlobalAlloc::Function(i) => format!("[\"fnptr\",{}]", self.inst(i)),
            _ => q(),
        }
    }

    fn stat(&mut self, s: &StaticDef) -> String {
        let n = s.name().to_string();
        if !self.statics.contains_key(&n) {
            self.statics.insert(n.clone(), String::new());
            let t = self.ty(s.ty());
            self.statics.insert(n.clone(), format!("{{\"t\":{},\"local\":{}}}", t, self.is_local_def(s)));
        }
        esc(&n)
    }

    fn decode_adt(&mut self, a: &Allocation, off: usize, t: Ty, d: AdtDef, args: &GenericArgs, depth: usize) -> String {
        let q = || "[\"?\"]".to_string();
        if d.kind().is_union() {
            return q();
        }
        let ti = self.ty(t);
        let shape = t.layout().unwrap().shape();
        let (vi, offs): (usize, Vec<usize>) = match shape.variants {
            VariantsShape::Empty => return q(),
            VariantsShape::Single { index } => {
                let offs = match shape.fields {
                    FieldsShape::Arbitrary { ref offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                    _ => vec![],
                };
                (index.to_index(), offs)
            }
            VariantsShape::Multiple { ref tag, ref tag_encoding, tag_field, ref variants } => {
                let tag_off = match shape.fields {
                    FieldsShape::Arbitrary { ref offsets } => offsets[tag_field].bytes(),
                    _ => 0,
                };
                let prim = match tag {
                    rustc_public::abi::Scalar::Initialized { value, .. } => value.clone(),
                    rustc_public::abi::Scalar::Union { value } => value.clone(),
                };
                let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                let vi = if Self::prov_at(a, off + tag_off).is_some() {
                    match tag_encoding {
                        TagEncoding::Niche { untagged_variant, .. } => untagged_variant.to_index(),
                        _ => return q(),
                    }
                } else {
                    let tv = match Self::read_uint(a, off + tag_off, tsz) {
                        Some(v) => v,
                        None => return q(),
                    };
                    match tag_encoding {
                        TagEncoding::Direct => {
                            let mut found = None;
                            for v in d.variants() {
                                let dv = d.discriminant_for_variant(v.idx()).val;
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                if dv & mask == tv {
                                    found = Some(v.idx().to_index());
                                }
                            }
                            match found {
                                Some(v) => v,
                                None => return q(),
                            }
                        }
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                            let rel = tv.wrapping_sub(*niche_start) & mask;
                            let s = niche_variants.start().to_index() as u128;
                            let e = niche_variants.end().to_index() as u128;
                            if rel <= e - s {
                                (s + rel) as usize
                            } else {
                                untagged_variant.to_index()
                            }
                        }
                    }
                };
                let offs = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                (vi, offs)
            }
        };
        let v = d.variants()[vi];
        let fs: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(args)).collect();
        let mut out = vec![];
        for (i, ft) in fs.into_iter().enumerate() {
            let o = match offs.get(i) {
                Some(o) => *o,
                None => return q(),
            };
            out.push(self.decode(a, off + o, ft, depth + 1));
        }
        format!("[\"adt\",{},{},{}]", ti, vi, arr(out))
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", *m == Mutability::Mut, self.place(p)),
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(o)),
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a), self.operand(b))
            }
            Rvalue::Cast(k, o, t) => {
                // An unsizing cast to a trait object makes the methods of the source reachable.
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t))
            }
            Rvalue::Aggregate(k, os) => {
                let ops = arr(os.iter().map(|o| self.operand(o)).collect::<Vec<_>>());
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",[\"array\",{}],{}]", self.ty(*t), ops),
                    AggregateKind::Tuple => format!("[\"agg\",[\"tuple\"],{}]", ops),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        let f = match f {
                            Some(i) => i.to_string(),
                            None => "null".into(),
                        };
                        format!("[\"agg\",[\"adt\",{},{},{}],{}]", self.ty(t), v.to_index(), f, ops)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"agg\",[\"closure\",{}],{}]", self.ty(t), ops)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",[\"rawptr\"],{}]", ops),
                    _ => format!("[\"agg\",[\"other\"],{}]", ops),
                }
            }
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            _ => "null".into(),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = arr(b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let names = arr(b.var_debug_info.iter().filter_map(|v| {
            v.local().map(|l| format!("[{},{}]", l, esc(&v.name.to_string())))
        }).collect::<Vec<_>>());
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = span_json(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), sp))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index(), sp))
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        st.push(format!("[\"copy_nonoverlapping\",{}]", sp))
                    }
                    _ => {}
                }
            }
            let sp = span_json(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = arr(targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect::<Vec<_>>());
                    format!("[\"switch\",{},{},{}]", self.operand(discr), br, targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(b.locals()).unwrap();
                    let di = Instance::resolve_drop_in_place(t);
                    let k = if di.is_empty_shim() { "null".to_string() } else { self.inst(di).to_string() };
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place), target, self.ty(t), k, Self::unwind(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fty = func.ty(b.locals()).unwrap();
                    let callee = self.callee(fty);
                    let fop = self.operand(func);
                    let a = arr(args.iter().map(|o| self.operand(o)).collect::<Vec<_>>());
                    let tg = match target {
                        Some(t) => t.to_string(),
                        None => "null".into(),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        callee, fop, a, self.place(destination), tg, Self::unwind(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds", vec![self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(_, x, y) => ("overflow", vec![self.operand(x), self.operand(y)]),
                        AssertMessage::OverflowNeg(x) => ("overflow_neg", vec![self.operand(x)]),
                        AssertMessage::DivisionByZero(x) => ("div0", vec![self.operand(x)]),
                        AssertMessage::RemainderByZero(x) => ("rem0", vec![self.operand(x)]),
                        _ => ("other", vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, esc(k), arr(ops), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[{},{},{}]", arr(st), t, sp));
        }
        let spread = match b.spread_arg() {
            Some(l) => l.to_string(),
            None => "null".into(),
        };
        format!(
            "\"locals\":{},\"argc\":{},\"names\":{},\"spread\":{},\"span\":{},\"blocks\":{}",
            locals, b.arg_locals().len(), names, spread, span_json(&b.span), arr(blocks)
        )
    }

    // Describes what a call to a value of this type reaches.
    fn callee(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                let inst = Instance::resolve(d, &a).ok();
                let (k, virt) = match inst {
                    Some(i) => {
                        let v = matches!(i.kind, InstanceKind::Virtual { .. });
                        (self.inst(i).to_string(), v)
                    }
                    None => ("null".into(), false),
                };
                let targs = arr(a.0.iter().filter_map(|k| k.ty().copied()).collect::<Vec<_>>().into_iter()
                    .map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                format!("{{\"def\":{},\"inst\":{},\"virt\":{},\"targs\":{}}}", esc(&d.name()), k, virt, targs)
            }
            _ => format!("{{\"def\":null,\"inst\":null,\"virt\":false,\"targs\":[],\"fty\":{}}}", self.ty(t)),
        }
    }

    fn inlinable(&self, krate: &str, path: &str) -> bool {
        INLINE.iter().any(|(k, p)| krate == *k && path.starts_with(p))
    }

    // The local items (and nothing else) reachable from a body that is not dumped.
    fn edges(&mut self, b: &Body) -> (Vec<usize>, bool) {
        let mut out = vec![];
        let mut dynamic = false;
        for bb in &b.blocks {
            for s in &bb.statements {
                if let StatementKind::Assign(_, Rvalue::Cast(CastKind::PointerCoercion(_), o, _)) = &s.kind {
                    if let Ok(t) = o.ty(b.locals()) {
                        match t.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                    if self.relevant(&i) {
                                        out.push(self.inst(i));
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            match &bb.terminator.kind {
                TerminatorKind::Call { func, .. } => {
                    if let Ok(t) = func.ty(b.locals()) {
                        match t.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                                if let Ok(i) = Instance::resolve(d, &a) {
                                    if matches!(i.kind, InstanceKind::Virtual { .. }) {
                                        dynamic = true;
                                    } else if self.relevant(&i) {
                                        out.push(self.inst(i));
                                    }
                                }
                            }
                            _ => dynamic = true,
                        }
                    }
                }
                TerminatorKind::Drop { place, .. } => {
                    if let Ok(t) = place.ty(b.locals()) {
                        let i = Instance::resolve_drop_in_place(t);
                        if !i.is_empty_shim() && self.relevant(&i) {
                            out.push(self.inst(i));
                        }
                    }
                }
                _ => {}
            }
        }
        out.sort();
        out.dedup();
        (out, dynamic)
    }

    fn relevant(&mut self, i: &Instance) -> bool {
        if self.inst_def_local(i) {
            return true;
        }
        let a = i.args();
        self.args_local(&a)
    }
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ix: HashMap::new(),
        queue: VecDeque::new(),
        keys: HashMap::new(),
        insts: vec![],
        statics: BTreeMap::new(),
        local_cache: HashMap::new(),
    };
    let mut items = vec![];
    let ev = tcx.effective_visibilities(());
    for it in rustc_public::all_local_items() {
        let did = rustc_internal::internal(tcx, it.def_id());
        let public = did.as_local().map(|l| ev.is_reachable(l)).unwrap_or(false);
        let exported = did.as_local().map(|l| ev.is_exported(l)).unwrap_or(false);
        let generic = it.requires_monomorphization();
        let kind = match it.kind() {
            ItemKind::Fn => "fn",
            ItemKind::Static => "static",
            ItemKind::Const => "const",
            ItemKind::Ctor(_) => "ctor",
        };
        let mut inst = "null".to_string();
        if kind == "fn" && !generic {
            if let Ok(i) = Instance::try_from(it) {
                inst = cx.inst(i).to_string();
            }
        }
        if kind == "static" {
            let t = cx.ty(it.ty());
            cx.statics.insert(it.name().to_string(), format!("{{\"t\":{},\"local\":true}}", t));
        }
        // Impl information: the trait implemented, if any, and whether the item comes from a derive.
        let ldid = did;
        let (tr, derived) = match tcx.opt_associated_item(ldid).and_then(|a| a.impl_container(tcx)) {
            Some(imp) => (
                tcx.impl_opt_trait_ref(imp).map(|t| format!("{}", t.instantiate_identity().skip_norm_wip())).unwrap_or_default(),
                tcx.is_automatically_derived(imp),
            ),
            None => (String::new(), false),
        };
        let is_unsafe = if kind == "fn" && tcx.def_kind(did).is_fn_like() && !tcx.is_closure_like(did) {
            format!("{:?}", tcx.fn_sig(did).skip_binder().safety()) == "Unsafe"
        } else { false };
        items.push(format!(
            "{{\"name\":{},\"kind\":{},\"public\":{},\"exported\":{},\"generic\":{},\"inst\":{},\"span\":{},\"trait\":{},\"derived\":{},\"unsafe\":{}}}",
            esc(&it.name()), esc(kind), public, exported, generic, inst, span_json(&it.span()), esc(&tr), derived, is_unsafe
        ));
    }
    // Unsafe blocks, ADT definitions with visibilities.
    let mut adts = vec![];
    for d in rustc_public::local_crate().adts() {
        let did = rustc_internal::internal(tcx, d.def_id());
        let public = did.as_local().map(|l| ev.is_reachable(l)).unwrap_or(false);
        let ad = tcx.adt_def(did);
        let mut fs = vec![];
        for v in ad.variants() {
            for f in v.fields.iter() {
                let vis = tcx.visibility(f.did);
                let reach = f.did.as_local().map(|l| ev.is_reachable(l)).unwrap_or(false);
                fs.push(format!(
                    "[{},{},{},{}]",
                    esc(v.name.as_str()), esc(f.name.as_str()), vis.is_public(), reach
                ));
            }
        }
        let t = cx.ty(d.ty());
        // Auto traits.
        adts.push(format!(
            "{{\"name\":{},\"t\":{},\"public\":{},\"fields\":{},\"span\":{}}}",
            esc(&d.name()), t, public, arr(fs), span_json(&d.span())
        ));
    }
    let mut fns: Vec<String> = vec![];
    let mut done: HashSet<usize> = HashSet::new();
    while let Some(i) = cx.queue.pop_front() {
        let k = cx.keys[&i];
        if !done.insert(k) {
            continue;
        }
        let local = cx.inst_def_local(&i);
        let name = i.name().to_string();
        let intern = rustc_internal::internal(tcx, i);
        let def_name = tcx.def_path_str(intern.def_id());
        let dp = tcx.def_path(intern.def_id()).to_string_no_crate_verbose();
        let kr = tcx.crate_name(intern.def_id().krate).to_string();
        let kind = format!("{:?}", intern.def).split('(').next().unwrap_or("").to_string();
        let shim = i.kind == InstanceKind::Shim;
        let foreign = i.is_foreign_item();
        let dump = local || cx.inlinable(&kr, &dp) || (shim && cx.relevant(&i) && kind != "DropGlue");
        let head = format!(
            "\"id\":{},\"name\":{},\"def\":{},\"path\":{},\"krate\":{},\"kind\":{},\"local\":{},\"foreign\":{}",
            k, esc(&name), esc(&def_name), esc(&dp), esc(&kr), esc(&kind), local, foreign
        );
        let targs = i.args();
        let targs = arr(targs.0.iter().filter_map(|k| k.ty().copied()).collect::<Vec<_>>().into_iter()
            .map(|t| cx.ty(t).to_string()).collect::<Vec<_>>());
        let muts = match i.ty().kind().fn_sig() {
            Some(sig) => arr(sig.skip_binder().inputs().iter().map(|t| match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut)) | TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)) => "1".to_string(),
                TyKind::RigidTy(RigidTy::Ref(..)) => "0".to_string(),
                _ => "2".to_string(),
            })),
            None => "null".to_string(),
        };
        let head = format!("{},\"targs\":{},\"muts\":{}", head, targs, muts);
        let body = if matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) && i.has_body() { i.body() } else { None };
        match body {
            Some(b) if dump => {
                let s = cx.body(&b);
                fns.push(format!("{{{},\"dumped\":true,{}}}", head, s));
            }
            Some(b) if cx.relevant(&i) || local => {
                let (e, d) = cx.edges(&b);
                fns.push(format!(
                    "{{{},\"dumped\":false,\"edges\":{},\"dyn\":{}}}",
                    head, arr(e.iter().map(|x| x.to_string())), d
                ));
            }
            _ => fns.push(format!("{{{},\"dumped\":false,\"edges\":[],\"dyn\":false}}", head)),
        }
    }
    // Unsafe code in the crate: blocks found in THIR are gone here, so report unsafe blocks by HIR walk.
    let mut unsafes: Vec<String> = vec![];
    {
        use rustc_internal::internal;
        let _ = internal::<rustc_public::DefId>;
        struct V<'a, 'tcx> {
            tcx: TyCtxt<'tcx>,
            out: &'a mut Vec<String>,
            owner: String,
        }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
            fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                    if format!("{:?}", src).contains("UserProvided") {
                        let sp: Span = rustc_internal::stable(b.span);
                        self.out.push(format!(
                            "[{},{},{}]",
                            esc(&self.owner), span_json(&sp), b.span.from_expansion()
                        ));
                    }
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        for ld in tcx.hir_body_owners() {
            let body = tcx.hir_body_owned_by(ld);
            let mut v = V { tcx, out: &mut unsafes, owner: tcx.def_path_str(ld.to_def_id()) };
            rustc_hir::intravisit::Visitor::visit_body(&mut v, body);
        }
    }
    let mut impls: Vec<String> = vec![];
    for (tr, is) in tcx.all_local_trait_impls(()) {
        for i in is {
            let t = tcx.impl_trait_ref(i.to_def_id()).instantiate_identity().skip_norm_wip();
            impls.push(format!(
                "[{},{},{},{}]",
                esc(&tcx.def_path_str(*tr)),
                esc(&format!("{}", t.self_ty())),
                esc(&format!("{}", t)),
                tcx.is_automatically_derived(i.to_def_id())
            ));
        }
    }
    let statics = cx.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    let out = format!(
        "{{\"items\":{},\n\"adts\":{},\n\"statics\":{{{}}},\n\"unsafe_blocks\":{},\n\"impls\":{},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n]}}\n",
        arr(items), arr(adts), statics, arr(unsafes), arr(impls), cx.types.join(",\n"), fns.join(",\n")
    );
    let path = std::env::var("OVER_FACTS_OUT").expect("OVER_FACTS_OUT");
    std::fs::write(&path, out).expect("write facts");
    ControlFlow::Continue(())
}

extern crate rustc_hir;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc.
    let real = args.get(1).cloned().unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "over")
        && !args.iter().any(|a| a == "--test");
    if !is_target {
        let st = std::process::Command::new(&real).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    args.remove(0);
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("--cap-lints=allow".into());
    // The uses of the macros, compiled for the analysis only.
    if std::env::var_os("OVER_NO_USES").is_none() {
        args.push("--cfg=over_verif".into());
    }
    let r = run_with_tcx!(&args, |tcx| analyze(tcx));
    match r {
        Ok(_) => {}
        Err(e) => {
            eprintln!("over-facts: {:?}", e);
            std::process::exit(101);
        }
    }
}
