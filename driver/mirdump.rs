//! mirdump: a rustc driver that compiles the crate exactly as cargo asks and, after
//! analysis, writes the monomorphised MIR of every function reachable from the crate's
//! own items (plus requested generic instantiations) as JSON.
//! It is run as RUSTC_WORKSPACE_WRAPPER, so it sees the real source of /repo.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<T>(v: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for x in v {
        if !first { o.push(','); }
        first = false;
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct Dump {
    tyids: HashMap<Ty, usize>,
    types: BTreeMap<usize, String>,
    tyq: VecDeque<Ty>,
    fns: BTreeMap<String, String>,
    fnq: VecDeque<Instance>,
    seen: HashMap<String, ()>,
    allocs: HashMap<u64, ()>,
    alloc_out: Vec<String>,
    stop: Vec<String>,
    next_def: Option<(FnDef, GenericArgs)>,
    iters: Vec<Ty>,
    nexts: BTreeMap<usize, String>,
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyids.get(&t) { return *i; }
        let i = self.tyids.len();
        self.tyids.insert(t, i);
        self.tyq.push_back(t);
        i
    }
    fn inst(&mut self, i: Instance) -> String {
        let m = i.mangled_name().to_string();
        if !self.seen.contains_key(&m) {
            self.seen.insert(m.clone(), ());
            self.fnq.push_back(i);
        }
        m
    }
    fn drain(&mut self) {
        loop {
            if let Some(t) = self.tyq.pop_front() {
                let id = self.tyids[&t];
                let s = self.emit_ty(t);
                self.types.insert(id, s);
            } else if let Some(i) = self.fnq.pop_front() {
                let m = i.mangled_name().to_string();
                let s = self.emit_fn(i);
                self.fns.insert(m, s);
            } else if let (true, Some((nd, na))) = (!self.iters.is_empty(), self.next_def.clone()) {
                // make `Iterator::next` available for every iterator type on which an iterator
                // method is called (the engine's models of `collect` etc. pull items with it)
                for t in std::mem::take(&mut self.iters) {
                    let id = self.ty(t);
                    if self.nexts.contains_key(&id) { continue; }
                    let a = GenericArgs(na.0.iter().map(|g| match g { GenericArgKind::Type(_) => GenericArgKind::Type(t), o => o.clone() }).collect());
                    if let Ok(i) = Instance::resolve(nd, &a) { let m = self.inst(i); self.nexts.insert(id, m); }
                }
            } else {
                break;
            }
        }
    }
    fn note_iter(&mut self, d: FnDef, a: &GenericArgs) {
        let n = d.name().to_string();
        if n == "std::iter::Iterator::next" && self.next_def.is_none() { self.next_def = Some((d, a.clone())); }
        let tys: Vec<Ty> = a.0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None }).collect();
        if n.starts_with("pathfinding::") {
            for t in &tys {
                if let TyKind::RigidTy(RigidTy::Adt(ad, _)) = t.kind() {
                    if ad.name().to_string().starts_with("std::iter::") { self.iters.push(*t); }
                }
            }
        } else if n.starts_with("std::iter::Iterator::") {
            if let Some(t) = tys.first() { self.iters.push(*t); }
        } else if n.starts_with("std::iter::Extend") || n.starts_with("std::iter::FromIterator") || n.starts_with("std::iter::Sum") || n.starts_with("std::iter::Product") {
            if let Some(t) = tys.last() {
                if let TyKind::RigidTy(RigidTy::Adt(ad, _)) = t.kind() {
                    let an = ad.name().to_string();
                    if an.starts_with("std::iter::") || an.contains("::Iter") || an.contains("IntoIter") { self.iters.push(*t); }
                }
            }
        }
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<_> = a.0.clone();
        arr(v, |g| match g {
            GenericArgKind::Lifetime(_) => "null".into(),
            GenericArgKind::Type(t) => self.ty(t).to_string(),
            GenericArgKind::Const(c) => match c.eval_target_usize() {
                Ok(n) => format!("{{\"c\":{n}}}"),
                Err(_) => "{\"c\":null}".into(),
            },
        })
    }
    fn emit_ty(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let disp = js(&format!("{t}"));
        let body = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"f\":{}", js(&format!("{f:?}"))),
                RigidTy::Adt(def, args) => {
                    let k = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let ga = self.gargs(args);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs = v.fields();
                        let fss = arr(fs, |f| {
                            let ft = f.ty_with_args(args);
                            let id = self.ty(ft);
                            format!("[{},{}]", js(&f.name), id)
                        });
                        let discr = if def.kind() == AdtKind::Enum { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", js(&v.name()), discr, fss));
                    }
                    format!("\"k\":\"adt\",\"adt\":\"{k}\",\"name\":{},\"crate\":{},\"args\":{},\"variants\":[{}]", js(&def.name()), js(&def.krate().name), ga, vs.join(","))
                }
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => format!("\"k\":\"array\",\"elem\":{},\"len\":{}", self.ty(*e), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(*e)),
                RigidTy::RawPtr(e, _) => format!("\"k\":\"ptr\",\"elem\":{}", self.ty(*e)),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"elem\":{},\"mut\":{}", self.ty(*e), *m == Mutability::Mut),
                RigidTy::Tuple(ts) => { let ts = ts.clone(); format!("\"k\":\"tuple\",\"elems\":{}", arr(ts, |t| self.ty(t).to_string())) }
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::FnDef(d, a) => {
                    let sym = match Instance::resolve(*d, a) { Ok(i) => js(&self.inst(i)), Err(_) => "null".into() };
                    format!("\"k\":\"fndef\",\"name\":{},\"sym\":{}", js(&d.name()), sym)
                }
                RigidTy::Closure(d, a) => {
                    let n = a.0.len();
                    let up = match &a.0[n - 1] { GenericArgKind::Type(t) => self.ty(*t).to_string(), _ => "null".into() };
                    let kd = match &a.0[n - 3] { GenericArgKind::Type(t) => format!("{t}"), _ => String::new() };
                    let (kk, ck) = match kd.as_str() { "i8" => ("Fn", ClosureKind::Fn), "i16" => ("FnMut", ClosureKind::FnMut), _ => ("FnOnce", ClosureKind::FnOnce) };
                    let sym = match Instance::resolve_closure(*d, a, ck) { Ok(i) => js(&self.inst(i)), Err(_) => "null".into() };
                    format!("\"k\":\"closure\",\"name\":{},\"kind\":\"{kk}\",\"upvars\":{},\"sym\":{}", js(&d.name()), up, sym)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Pat(t, _) => format!("\"k\":\"pat\",\"elem\":{}", self.ty(*t)),
                other => format!("\"k\":\"other\",\"dbg\":{}", js(&format!("{other:?}").chars().take(80).collect::<String>())),
            },
            other => format!("\"k\":\"nonrigid\",\"dbg\":{}", js(&format!("{other:?}").chars().take(80).collect::<String>())),
        };
        let lay = self.layout(t);
        format!("{{\"d\":{disp},{body}{lay}}}")
    }
    fn layout(&mut self, t: Ty) -> String {
        use rustc_public::abi::*;
        if !matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(..) | RigidTy::Tuple(..) | RigidTy::Array(..) | RigidTy::Closure(..))) { return String::new(); }
        let Ok(l) = t.layout() else { return String::new() };
        let sh = l.shape();
        if sh.is_unsized() { return String::new(); }
        let offs = |f: &FieldsShape| match f {
            FieldsShape::Arbitrary { offsets } => arr(offsets.iter(), |o| o.bytes().to_string()),
            FieldsShape::Array { stride, .. } => format!("{}", stride.bytes()),
            _ => "[0]".into(),
        };
        let v = match &sh.variants {
            VariantsShape::Empty => "\"empty\"".to_string(),
            VariantsShape::Single { index } => format!("{}", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let tagoff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                let (prim, lo) = match tag { Scalar::Initialized { value, valid_range } => (format!("{value:?}"), valid_range.start), Scalar::Union { value } => (format!("{value:?}"), 0) };
                let tsz = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => match value { Primitive::Int { length, .. } => match length { IntegerLength::I8 => 1, IntegerLength::I16 => 2, IntegerLength::I32 => 4, IntegerLength::I64 => 8, IntegerLength::I128 => 16 }, _ => 8 } };
                let _ = (prim, lo);
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!("[{},{},{},{}]", untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start),
                };
                format!("{{\"tagoff\":{tagoff},\"tagsize\":{tsz},\"enc\":{enc},\"vs\":{}}}", arr(variants.iter(), |v| arr(v.offsets.iter(), |o| o.bytes().to_string())))
            }
        };
        format!(",\"lay\":{{\"size\":{},\"offs\":{},\"var\":{}}}", sh.size.bytes(), offs(&sh.fields), v)
    }
    fn place(&mut self, p: &Place) -> String {
        let pr = p.projection.clone();
        let projs = arr(pr, |e| match e {
            ProjectionElem::Deref => "[\"deref\"]".into(),
            ProjectionElem::Field(i, t) => format!("[\"field\",{i},{}]", self.ty(t)),
            ProjectionElem::Index(l) => format!("[\"index\",{l}]"),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cidx\",{offset},{min_length},{from_end}]"),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{from},{to},{from_end}]"),
            ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"opaque\",{}]", self.ty(t)),
        });
        format!("[{},{}]", p.local, projs)
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        // bytes: null for uninit
        let bytes = arr(a.bytes.iter(), |b| match b { Some(x) => x.to_string(), None => "null".into() });
        let ptrs: Vec<_> = a.provenance.ptrs.clone();
        let prov = arr(ptrs, |(o, p)| {
            let id = format!("{:?}", p.0);
            let idn: u64 = id.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
            if !self.allocs.contains_key(&idn) {
                self.allocs.insert(idn, ());
                let s = match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(m) => {
                        let s = self.alloc(&m);
                        format!("{{\"k\":\"mem\",\"a\":{s}}}")
                    }
                    GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"sym\":{}}}", js(&self.inst(i))),
                    GlobalAlloc::VTable(t, _) => format!("{{\"k\":\"vtable\",\"ty\":{}}}", self.ty(t)),
                    GlobalAlloc::Static(s) => format!("{{\"k\":\"static\",\"name\":{}}}", js(&s.name())),
                    _ => "{\"k\":\"other\"}".into(),
                };
                self.alloc_out.push(format!("\"{idn}\":{s}"));
            }
            format!("[{o},{idn}]")
        });
        format!("{{\"bytes\":{bytes},\"prov\":{prov}}}")
    }
    fn constant(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::ZeroSized => format!("[\"const\",{t},\"zst\"]"),
            ConstantKind::Allocated(a) => { let s = self.alloc(a); format!("[\"const\",{t},\"alloc\",{s}]") }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let s = self.alloc(a); format!("[\"const\",{t},\"alloc\",{s}]") }
                TyConstKind::ZSTValue(_) => format!("[\"const\",{t},\"zst\"]"),
                _ => format!("[\"const\",{t},\"unk\"]"),
            },
            _ => format!("[\"const\",{t},\"unk\"]"),
        }
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rtcheck\",{}]", js(&format!("{r:?}"))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addrof\",{},{}]", *k == RawPtrKind::Mut, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                let ops = ops.clone();
                format!("[\"agg\",{kk},{}]", arr(ops, |o| self.operand(&o)))
            }
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{op:?}\",{},{}]", self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{op:?}\",{},{}]", self.operand(a), self.operand(b)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", js(&format!("{k:?}")), self.operand(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", matches!(b, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{op:?}\",{}]", self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }
    fn emit_fn(&mut self, i: Instance) -> String {
        let name = i.name().to_string();
        let dname = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let kind = format!("{:?}", i.kind);
        let args = { let a = i.args(); self.gargs(&a) };
        let span = i.def.span().diagnostic();
        let mut o = format!("{{\"name\":{},\"def\":{},\"crate\":{},\"kind\":{},\"args\":{},\"span\":{}", js(&name), js(&dname), js(&krate), js(&kind), args, js(&span));
        if let Some(n) = i.intrinsic_name() { let _ = write!(o, ",\"intrinsic\":{}", js(&n)); }
        let stop = self.stop.iter().any(|p| dname.starts_with(p.as_str()) || name.starts_with(p.as_str()));
        if !stop && i.kind != InstanceKind::Intrinsic && !matches!(i.kind, InstanceKind::Virtual { .. }) && i.has_body() {
            if let Some(b) = i.body() {
                let locals = b.locals().to_vec();
                let ls = arr(locals.iter(), |l| self.ty(l.ty).to_string());
                let argc = b.arg_locals().len();
                let mut names = vec![];
                for v in &b.var_debug_info {
                    if let VarDebugInfoContents::Place(p) = &v.value {
                        let ps = self.place(p);
                        names.push(format!("[{},{}]", js(&v.name), ps));
                    }
                }
                let mut bbs = vec![];
                for bb in &b.blocks {
                    let mut ss = vec![];
                    for s in &bb.statements {
                        match &s.kind {
                            StatementKind::Assign(p, r) => { let ps = self.place(p); let rs = self.rvalue(r); ss.push(format!("[\"=\",{ps},{rs}]")); }
                            StatementKind::SetDiscriminant { place, variant_index } => { let ps = self.place(place); ss.push(format!("[\"setd\",{ps},{}]", variant_index.to_index())); }
                            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let os = self.operand(o); ss.push(format!("[\"assume\",{os}]")); }
                            StatementKind::Intrinsic(_) => ss.push("[\"copynonoverlapping\"]".into()),
                            _ => {}
                        }
                    }
                    let t = match &bb.terminator.kind {
                        TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                        TerminatorKind::SwitchInt { discr, targets } => {
                            let br: Vec<_> = targets.branches().collect();
                            format!("[\"switch\",{},{},{}]", self.operand(discr), arr(br, |(v, t)| format!("[{v},{t}]")), targets.otherwise())
                        }
                        TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                        TerminatorKind::Return => "[\"return\"]".into(),
                        TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                        TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{target}]", self.place(place)),
                        TerminatorKind::Call { func, args, destination, target, .. } => {
                            let fty = func.ty(&locals).unwrap();
                            let fs = match fty.kind() {
                                TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                                    Ok(ii) => { self.note_iter(d, &a); let m = self.inst(ii); format!("[\"sym\",{},{}]", js(&m), js(&d.name())) }
                                    Err(_) => format!("[\"unres\",{}]", js(&d.name())),
                                },
                                _ => format!("[\"dynop\",{}]", self.operand(func)),
                            };
                            let aa = args.clone();
                            let ass = arr(aa, |x| self.operand(&x));
                            format!("[\"call\",{fs},{ass},{},{}]", self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()))
                        }
                        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                            let m = match msg { AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(), m => m.description().map(|s| s.to_string()).unwrap_or("assert".into()) };
                            format!("[\"assert\",{},{expected},{},{target}]", self.operand(cond), js(&m))
                        }
                        TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                    };
                    let line = bb.terminator.source_info.span.get_lines().start_line;
                    bbs.push(format!("[[{}],{t},{line}]", ss.join(",")));
                }
                let spread = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
                let _ = write!(o, ",\"argc\":{argc},\"spread\":{spread},\"locals\":{ls},\"names\":[{}],\"blocks\":[{}]", names.join(","), bbs.join(",\n"));
            }
        }
        o.push('}');
        o
    }
}

fn find_local_ty(name: &str) -> Option<Ty> {
    if name == "f64" { return Some(Ty::from_rigid_kind(RigidTy::Float(FloatTy::F64))); }
    rustc_public::local_crate().adts().into_iter().find(|a| { let n = a.name().to_string(); n == name || n.ends_with(&format!("::{name}")) }).map(|a| a.ty())
}

fn analyze(out: String) -> ControlFlow<(), ()> {
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP").unwrap_or_default().split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut d = Dump { tyids: HashMap::new(), types: BTreeMap::new(), tyq: VecDeque::new(), fns: BTreeMap::new(), fnq: VecDeque::new(), seen: HashMap::new(), allocs: HashMap::new(), alloc_out: vec![], stop, next_def: None, iters: vec![], nexts: BTreeMap::new() };
    let mut items = vec![];
    let generic_args: Vec<String> = std::env::var("MIRDUMP_GENERICS").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue; }
        if !it.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(it) { let m = d.inst(i); items.push(format!("[{},{}]", js(&it.name()), js(&m))); }
        } else {
            // one-type-parameter generics: instantiated only as requested (function=type)
            if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = it.ty().kind() {
                let slots = args.0.iter().filter(|a| matches!(a, GenericArgKind::Type(_))).count();
                for spec in &generic_args {
                    let Some((fname, tn)) = spec.split_once('=') else { continue };
                    if slots != 1 || !it.name().ends_with(fname) { continue; }
                    let Some(ty) = find_local_ty(tn) else { continue };
                    let na: Vec<_> = args.0.iter().map(|a| match a { GenericArgKind::Type(_) => GenericArgKind::Type(ty), o => o.clone() }).collect();
                    if let Ok(i) = Instance::resolve(def, &GenericArgs(na)) { let m = d.inst(i); items.push(format!("[{},{}]", js(&format!("{}<{tn}>", it.name())), js(&m))); }
                }
            }
        }
    }
    d.drain();
    let mut o = String::from("{\"items\":[");
    o.push_str(&items.join(",\n"));
    o.push_str("],\n\"nexts\":{");
    o.push_str(&d.nexts.iter().map(|(k, v)| format!("\"{k}\":{}", js(v))).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"types\":{");
    o.push_str(&d.types.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",\n"));
    o.push_str("},\n\"fns\":{");
    o.push_str(&d.fns.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",\n"));
    o.push_str("},\n\"allocs\":{");
    o.push_str(&d.alloc_out.join(",\n"));
    o.push_str("}}\n");
    std::fs::write(out, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate) && !args.iter().any(|a| a == "--test");
    if let (Some(out), true) = (out, is_target) {
        args.extend(["-Zmir-opt-level=0".to_string(), "-Zalways-encode-mir".into(), "-Zmir-enable-passes=-CheckAlignment,-CheckNull".into(), "-Awarnings".into()]);
        let r = run!(&args, || analyze(out));
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    } else {
        let r = run!(&args, || -> ControlFlow<(), ()> { ControlFlow::Continue(()) });
        std::process::exit(if matches!(r, Ok(_) | Err(rustc_public::CompilerError::Skipped)) { 0 } else { 1 });
    }
}
