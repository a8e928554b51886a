// MIR exporter: a rustc driver that writes, for the crate being checked, every
// function body (monomorphised where possible) together with the resolved callees,
// types, ADT tables and decoded constants, as one JSON object per line.
// It decides nothing; the analyses in /verif/engine read this dump.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_span;

use rustc_middle::ty::{self as rty, TyCtxt as RTyCtxt};
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::rustc_internal::internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, DefId};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

struct Cx<'tcx> {
    tcx: RTyCtxt<'tcx>,
    out: std::io::BufWriter<std::fs::File>,
    tys: HashMap<Ty, usize>,
    adts: HashSet<DefId>,
    adt_queue: Vec<AdtDef>,
    seen: HashSet<String>,
    queue: VecDeque<Instance>,
    crates: Vec<String>,
    prefixes: Vec<String>,
    /// the generic item whose body is being written, whose bounds its calls are resolved under
    cur: Option<rustc_span::def_id::DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn emit(&mut self, s: &str) {
        self.out.write_all(s.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
    }

    // Canonical path of a definition: crate name + definition path, with impl
    // blocks replaced by their self type / trait so that it does not depend on
    // positions, re-exports or the crate being compiled.
    fn rpath(&self, did: rustc_span::def_id::DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(did);
        let parent = match key.parent {
            Some(p) => rustc_span::def_id::DefId { index: p, ..did },
            None => return tcx.crate_name(did.krate).to_string(),
        };
        use rustc_hir::definitions::DefPathData;
        match key.disambiguated_data.data {
            DefPathData::Impl => {
                let selfty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let st = self.rty(selfty);
                match tcx.impl_opt_trait_ref(did) {
                    Some(tr) => {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let args: Vec<String> = tr.args.iter().skip(1).filter_map(|a| a.as_type()).map(|t| self.rty(t)).collect();
                        let targs = if args.is_empty() { String::new() } else { format!("<{}>", args.join(",")) };
                        format!("<{} as {}{}>", st, self.rpath(tr.def_id), targs)
                    }
                    None => format!("<{}>", st),
                }
            }
            DefPathData::Ctor => self.rpath(parent),
            DefPathData::Closure => format!("{}::{{closure#{}}}", self.rpath(parent), key.disambiguated_data.disambiguator),
            d => {
                let n = match d.get_opt_name() {
                    Some(n) => n.to_string(),
                    None => format!("{{{:?}#{}}}", d, key.disambiguated_data.disambiguator),
                };
                format!("{}::{}", self.rpath(parent), n)
            }
        }
    }

    fn rty(&self, t: rty::Ty<'tcx>) -> String {
        match t.kind() {
            rty::TyKind::Adt(d, args) => {
                let a: Vec<String> = args.iter().filter_map(|a| a.as_type().map(|t| self.rty(t)).or_else(|| a.as_const().map(|c| format!("{}", c)))).collect();
                if a.is_empty() {
                    self.rpath(d.did())
                } else {
                    format!("{}<{}>", self.rpath(d.did()), a.join(","))
                }
            }
            rty::TyKind::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.rty(*t)),
            rty::TyKind::Slice(t) => format!("[{}]", self.rty(*t)),
            rty::TyKind::Array(t, n) => format!("[{};{}]", self.rty(*t), n),
            rty::TyKind::Tuple(ts) => format!("({})", ts.iter().map(|t| self.rty(t)).collect::<Vec<_>>().join(",")),
            rty::TyKind::Closure(d, _) => format!("closure:{}", self.rpath(*d)),
            rty::TyKind::FnDef(d, _) => format!("fn:{}", self.rpath(*d)),
            rty::TyKind::Dynamic(..) => "dyn".to_string(),
            rty::TyKind::RawPtr(t, m) => format!("*{}{}", if m.is_mut() { "mut " } else { "const " }, self.rty(*t)),
            _ => format!("{}", t),
        }
    }

    fn path(&self, d: DefId) -> String {
        self.rpath(internal(self.tcx, d))
    }

    fn ga(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in &args.0 {
            match a {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => "{\"c\":null}".to_string(),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        let rs = self.rty(internal(self.tcx, t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(n) => format!("\"k\":\"int\",\"n\":{},\"s\":1", n.num_bytes() * 8),
                RigidTy::Uint(n) => format!("\"k\":\"int\",\"n\":{},\"s\":0", n.num_bytes() * 8),
                RigidTy::Adt(d, args) => {
                    self.adt(d);
                    let a = self.ga(&args);
                    format!("\"k\":\"adt\",\"d\":{},\"a\":{}", esc(&self.path(d.def_id())), a)
                }
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(t, n) => format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(t), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
                RigidTy::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(t)),
                RigidTy::RawPtr(t, m) => format!("\"k\":\"ptr\",\"t\":{},\"m\":{}", self.ty(t), (m == Mutability::Mut) as u8),
                RigidTy::Ref(_, t, m) => format!("\"k\":\"ref\",\"t\":{},\"m\":{}", self.ty(t), (m == Mutability::Mut) as u8),
                RigidTy::FnDef(d, args) => {
                    let a = self.ga(&args);
                    let res = self.resolve(d, &args);
                    format!("\"k\":\"fn\",\"d\":{},\"a\":{},\"r\":{}", esc(&self.path(d.def_id())), a, res)
                }
                RigidTy::Closure(d, args) => {
                    let key = self.closure(d, &args);
                    format!("\"k\":\"closure\",\"d\":{},\"r\":{}", esc(&self.path(d.def_id())), esc(&key))
                }
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"a\":[{}]", v.join(","))
                }
                _ => "\"k\":\"other\"".into(),
            },
            TyKind::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(&p.name)),
            _ => "\"k\":\"alias\"".into(),
        };
        self.emit(&format!("{{\"T\":{},\"s\":{},{}}}", i, esc(&rs), body));
        i
    }

    fn adt(&mut self, d: AdtDef) {
        if self.adts.insert(d.def_id()) {
            self.adt_queue.push(d);
        }
    }

    fn flush_adts(&mut self) {
        while let Some(d) = self.adt_queue.pop() {
            let mut vs = vec![];
            let is_enum = d.kind() == AdtKind::Enum;
            for v in d.variants() {
                let discr = if is_enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                let mut fs = vec![];
                for f in v.fields() {
                    let t = self.ty(f.ty());
                    fs.push(format!("[{},{}]", esc(&f.name), t));
                }
                vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name()), discr, fs.join(",")));
            }
            let p = self.path(d.def_id());
            let sp = self.span(d.span());
            self.emit(&format!("{{\"A\":{},\"kind\":{},\"v\":[{}],\"sp\":{}}}", esc(&p), esc(&format!("{}", d.kind())), vs.join(","), sp));
        }
    }

    fn inst_key(&self, i: &Instance) -> String {
        let ri = internal(self.tcx, *i);
        let did = ri.def_id();
        let a: Vec<String> = ri.args.iter().filter_map(|a| a.as_type().map(|t| self.rty(t)).or_else(|| a.as_const().map(|c| format!("{}", c)))).collect();
        let shim = match ri.def {
            rty::InstanceKind::Item(_) => "",
            _ => "#shim",
        };
        // closures: the parent's generic args are enough to tell instances apart
        let args = if self.tcx.is_closure_like(did) {
            let n = self.tcx.generics_of(self.tcx.typeck_root_def_id(did)).count();
            ri.args.iter().take(n).filter_map(|a| a.as_type()).map(|t| self.rty(t)).collect::<Vec<_>>()
        } else {
            a
        };
        let g = if args.is_empty() { String::new() } else { format!("::<{}>", args.join(",")) };
        format!("{}{}{}", self.rpath(did), g, shim)
    }

    fn wanted(&self, key_path: &str, krate: &str) -> bool {
        if self.crates.iter().any(|c| c == krate) {
            return true;
        }
        self.prefixes.iter().any(|p| key_path.contains(p.as_str()))
    }

    fn enqueue(&mut self, i: Instance) -> String {
        let key = self.inst_key(&i);
        if self.seen.contains(&key) {
            return key;
        }
        let ri = internal(self.tcx, i);
        let did = ri.def_id();
        let krate = self.tcx.crate_name(did.krate).to_string();
        let p = self.rpath(did);
        if matches!(ri.def, rty::InstanceKind::Item(_)) && self.wanted(&p, &krate) && i.has_body() {
            self.seen.insert(key.clone());
            self.queue.push_back(i);
        }
        key
    }

    fn resolve(&mut self, d: FnDef, args: &GenericArgs) -> String {
        let tcx = self.tcx;
        let rd = internal(tcx, d.def_id());
        let ra = internal(tcx, args);
        use rustc_middle::ty::TypeVisitableExt;
        if ra.has_param() {
            // polymorphic body: try to resolve anyway
            return match rty::Instance::try_resolve(tcx, rty::TypingEnv::post_analysis(tcx, self.cur.unwrap_or(rd)), rd, ra) {
                Ok(Some(i)) => {
                    let a: Vec<String> = i.args.iter().filter_map(|a| a.as_type()).map(|t| self.rty(t)).collect();
                    let g = if a.is_empty() { String::new() } else { format!("::<{}>", a.join(",")) };
                    esc(&format!("{}{}", self.rpath(i.def_id()), g))
                }
                _ => "null".into(),
            };
        }
        match Instance::resolve(d, args) {
            Ok(i) => esc(&self.enqueue(i)),
            Err(_) => "null".into(),
        }
    }

    fn closure(&mut self, d: ClosureDef, args: &GenericArgs) -> String {
        let tcx = self.tcx;
        let rd = internal(tcx, d.def_id());
        let ra = internal(tcx, args);
        use rustc_middle::ty::TypeVisitableExt;
        let ri = rty::Instance::new_raw(rd, ra);
        if ra.has_param() {
            return self.rpath(rd);
        }
        let i: Instance = rustc_public::rustc_internal::stable(ri);
        self.enqueue(i)
    }

    fn span(&self, s: Span) -> String {
        // outermost expansion site: where the user wrote it
        let rs: rustc_span::Span = internal(self.tcx, s);
        let sm = self.tcx.sess.source_map();
        let s0 = rs.source_callsite();
        let lo = sm.lookup_char_pos(s0.lo());
        let name = lo.file.name.prefer_local_unconditionally().to_string();
        format!("[{},{},{}]", esc(&name), lo.line, rs.from_expansion() as u8)
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<String> {
        if depth > 8 {
            return None;
        }
        let size = t.layout().ok()?.shape().size.bytes();
        let k = t.kind();
        let r = k.rigid()?.clone();
        let rd_uint = |o: usize, n: usize| -> Option<u128> { a.read_partial_uint(o..o + n).ok() };
        match r {
            RigidTy::Bool => Some(format!("{{\"b\":{}}}", rd_uint(off, 1)?)),
            RigidTy::Char => Some(format!("{{\"ch\":{}}}", rd_uint(off, 4)?)),
            RigidTy::Uint(_) => Some(format!("{{\"i\":{}}}", rd_uint(off, size)?)),
            RigidTy::Int(_) => {
                let u = rd_uint(off, size)?;
                let sh = 128 - 8 * size as u32;
                let v = ((u << sh) as i128) >> sh;
                Some(format!("{{\"i\":{}}}", v))
            }
            RigidTy::Array(et, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let es = et.layout().ok()?.shape().size.bytes();
                if matches!(et.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) {
                    let mut b = vec![];
                    for i in 0..n {
                        b.push(rd_uint(off + i, 1)? as u8);
                    }
                    return Some(format!("{{\"x\":{}}}", esc(&hex(&b))));
                }
                if n > 512 {
                    return None;
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(a, off + i * es, et, depth + 1)?);
                }
                Some(format!("{{\"arr\":[{}]}}", v.join(",")))
            }
            RigidTy::Ref(_, it, _) | RigidTy::RawPtr(it, _) => {
                let ptr = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
                let inner_off = rd_uint(off, 8)? as usize;
                let ga = GlobalAlloc::from(ptr.1.0);
                let mem = match ga {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(s) => s.eval_initializer().ok()?,
                    _ => return None,
                };
                match it.kind().rigid()? {
                    RigidTy::Str => {
                        let len = rd_uint(off + 8, 8)? as usize;
                        let mut b = vec![];
                        for i in 0..len {
                            b.push(mem.read_partial_uint(inner_off + i..inner_off + i + 1).ok()? as u8);
                        }
                        Some(format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b))))
                    }
                    RigidTy::Slice(et) => {
                        let len = rd_uint(off + 8, 8)? as usize;
                        let at = Ty::try_new_array(*et, len as u64).ok()?;
                        let v = self.decode(&mem, inner_off, at, depth + 1)?;
                        Some(format!("{{\"ref\":{}}}", v))
                    }
                    RigidTy::Dynamic(..) => None,
                    _ => {
                        let v = self.decode(&mem, inner_off, it, depth + 1)?;
                        Some(format!("{{\"ref\":{}}}", v))
                    }
                }
            }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let offs = match sh.fields {
                    FieldsShape::Arbitrary { offsets } => offsets,
                    _ => vec![],
                };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    v.push(self.decode(a, off + offs[i].bytes(), *ft, depth + 1)?);
                }
                Some(format!("{{\"tup\":[{}]}}", v.join(",")))
            }
            RigidTy::Adt(d, args) => {
                let sh = t.layout().ok()?.shape();
                let tid = self.ty(t);
                match d.kind() {
                    AdtKind::Struct => {
                        let offs = match sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets,
                            _ => return None,
                        };
                        let mut v = vec![];
                        for (i, f) in d.variants()[0].fields().iter().enumerate() {
                            let ft = f.ty_with_args(&args);
                            v.push(self.decode(a, off + offs[i].bytes(), ft, depth + 1)?);
                        }
                        Some(format!("{{\"adt\":{},\"v\":0,\"f\":[{}]}}", tid, v.join(",")))
                    }
                    AdtKind::Enum => {
                        let (vi, offs): (usize, Vec<usize>) = match sh.variants {
                            VariantsShape::Single { index } => {
                                let offs = match sh.fields {
                                    FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                                    _ => vec![],
                                };
                                (internal(self.tcx, index).as_usize(), offs)
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = match &sh.fields {
                                    FieldsShape::Arbitrary { offsets } => offsets[tag_field].bytes(),
                                    _ => 0,
                                };
                                let mi = rustc_public::target::MachineInfo::target();
                                let tsz = match tag {
                                    rustc_public::abi::Scalar::Initialized { value, .. } => value.size(&mi).bytes(),
                                    rustc_public::abi::Scalar::Union { value } => value.size(&mi).bytes(),
                                };
                                let tv = rd_uint(off + toff, tsz)?;
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => d.variants().iter().position(|v| {
                                        let dv = d.discriminant_for_variant(v.idx()).val;
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        dv & m == tv
                                    })?,
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        let lo = internal(self.tcx, *niche_variants.start()).as_usize();
                                        let hi = internal(self.tcx, *niche_variants.end()).as_usize();
                                        let rel = tv.wrapping_sub(niche_start) & m;
                                        if rel <= (hi - lo) as u128 {
                                            lo + rel as usize
                                        } else {
                                            internal(self.tcx, untagged_variant).as_usize()
                                        }
                                    }
                                };
                                let offs = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                                (vi, offs)
                            }
                            _ => return None,
                        };
                        let mut v = vec![];
                        for (i, f) in d.variants()[vi].fields().iter().enumerate() {
                            let ft = f.ty_with_args(&args);
                            v.push(self.decode(a, off + offs[i], ft, depth + 1)?);
                        }
                        Some(format!("{{\"adt\":{},\"v\":{},\"f\":[{}]}}", tid, vi, v.join(",")))
                    }
                    _ => None,
                }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => Some(format!("{{\"z\":{}}}", self.ty(t))),
            _ => None,
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0).unwrap_or_else(|| "{\"?\":1}".into()),
            ConstantKind::ZeroSized => match t.kind().rigid() {
                Some(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct => {
                    let n = d.variants()[0].fields().len();
                    if n == 0 { format!("{{\"adt\":{},\"v\":0,\"f\":[]}}", tid) } else { format!("{{\"z\":{}}}", tid) }
                }
                Some(RigidTy::Tuple(ts)) if ts.is_empty() => "{\"tup\":[]}".into(),
                _ => format!("{{\"z\":{}}}", tid),
            },
            ConstantKind::Unevaluated(u) => {
                format!("{{\"u\":{},\"p\":{}}}", esc(&self.path(u.def.def_id())), u.promoted.map(|p| p.to_string()).unwrap_or("null".into()))
            }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"i\":{}}}", n),
                Err(_) => "{\"?\":2}".into(),
            },
            ConstantKind::Param(_) => "{\"?\":3}".into(),
        };
        format!("[{},{}]", tid, v)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, *from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, *from_end as u8),
                ProjectionElem::Downcast(vi) => format!("[\"d\",{}]", internal(self.tcx, *vi).as_usize()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }

    fn ops(&mut self, o: &[Operand]) -> String {
        let v: Vec<String> = o.iter().map(|x| self.op(x)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"ref\",{},{}]", (k.to_mutable_lossy() == Mutability::Mut) as u8, self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", (k.to_mutable_lossy() == Mutability::Mut) as u8, self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reb\",{},{}]", (*m == Mutability::Mut) as u8, self.place(p)),
            Rvalue::Aggregate(k, os) => {
                let o = self.ops(os);
                match k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",0,{}]", o),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,{}]", o),
                    AggregateKind::Adt(d, vi, args, _, uf) => {
                        let t = d.ty_with_args(args);
                        let tid = self.ty(t);
                        format!("[\"agg\",{},{},{},{}]", tid, internal(self.tcx, *vi).as_usize(), o, uf.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        let tid = self.ty(t);
                        format!("[\"agg\",{},0,{}]", tid, o)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",0,{}]", o),
                    _ => format!("[\"agg\",\"other\",0,{}]", o),
                }
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, x, t) => {
                let ks = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::Transmute => "transmute".to_string(),
                    CastKind::PtrToPtr => "ptr".to_string(),
                    CastKind::PointerCoercion(c) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", esc(&ks), self.op(x), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(x, n) => format!("[\"rep\",{},{}]", self.op(x), n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Use(x, _) => format!("[\"use\",{}]", self.op(x)),
        }
    }

    fn body(&mut self, key: &str, def: &str, targs: &str, local: bool, poly: bool, b: &Body) {
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let rv = self.rvalue(r);
                        let l = self.line(s.source_info.span);
                        st.push(format!("[{},{},{}]", self.place(p), rv, l))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[{},[\"setd\",{}],0]", self.place(place), internal(self.tcx, *variant_index).as_usize()))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push("[[0,[]],[\"memcpy\"],0]".into()),
                    _ => {}
                }
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},[{}],{}]", self.op(discr), v.join(","), targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, ga)) => {
                                let a = self.ga(&ga);
                                let r = self.resolve(d, &ga);
                                format!("{{\"d\":{},\"a\":{},\"r\":{}}}", esc(&self.path(d.def_id())), a, r)
                            }
                            _ => format!("{{\"op\":{}}}", self.op(func)),
                        },
                        _ => format!("{{\"op\":{}}}", self.op(func)),
                    };
                    let a = self.ops(args);
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{}]", f, a, d, target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.op(len), self.op(index)),
                        AssertMessage::Overflow(o, _, _) => format!("[\"ovf\",\"{:?}\"]", o),
                        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "[\"div0\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), *expected as u8, target, m)
                }
                TerminatorKind::InlineAsm { .. } => "[\"abort\"]".into(),
            };
            let l = self.line(bb.terminator.source_info.span);
            blocks.push(format!("[[{}],{},{}]", st.join(","), t, l));
        }
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name)));
            }
        }
        let sp = self.span(b.span);
        let s = format!(
            "{{\"F\":{},\"def\":{},\"targs\":{},\"local\":{},\"poly\":{},\"argc\":{},\"spread\":{},\"sp\":{},\"locals\":[{}],\"names\":[{}],\"bb\":[{}]}}",
            esc(key), esc(def), targs, local, poly, b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), sp, locals.join(","), names.join(","), blocks.join(",")
        );
        self.emit(&s);
        self.flush_adts();
    }

    fn line(&self, s: Span) -> usize {
        let rs: rustc_span::Span = internal(self.tcx, s);
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(rs.source_callsite().lo()).line
    }
}

fn dump<'tcx>(tcx: RTyCtxt<'tcx>, dir: &str) {
    let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    let tmp = format!("{}/.{}.{}.tmp", dir, krate, std::process::id());
    let f = std::fs::File::create(&tmp).unwrap();
    let split = |k: &str| std::env::var(k).unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect::<Vec<_>>();
    let mut crates = split("NTT_DUMP_CRATES");
    crates.push(krate.clone());
    let mut cx = Cx {
        tcx,
        out: std::io::BufWriter::new(f),
        tys: HashMap::new(),
        adts: HashSet::new(),
        adt_queue: vec![],
        seen: HashSet::new(),
        queue: VecDeque::new(),
        crates,
        prefixes: split("NTT_DUMP_PREFIXES"),
        cur: None,
    };
    cx.emit(&format!("{{\"C\":{}}}", esc(&krate)));
    use rustc_middle::ty::TypeVisitableExt;
    // roots: every non-generic local fn, monomorphised; generic ones as polymorphic bodies
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        let rd = internal(tcx, item.def_id());
        if tcx.is_closure_like(rd) {
            continue;
        }
        let ident = rty::GenericArgs::identity_for_item(tcx, rd);
        let generic = ident.has_param();
        if !generic && !item.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(item) {
                cx.enqueue(i);
            }
        } else if let Some(b) = item.body() {
            let p = cx.rpath(rd);
            cx.cur = Some(rd);
            cx.body(&format!("{}#poly", p), &p, "[]", true, true, &b);
            cx.cur = None;
        }
    }
    // every local ADT
    for d in rustc_public::local_crate().adts() {
        cx.adt(d);
    }
    cx.flush_adts();
    // local consts and statics that evaluate without generic arguments
    while let Some(i) = cx.queue.pop_front() {
        let key = cx.inst_key(&i);
        let ri = internal(tcx, i);
        let did = ri.def_id();
        let p = cx.rpath(did);
        if let Some(b) = i.body() {
            let ga = i.args();
            let a = cx.ga(&ga);
            cx.body(&key, &p, &a, did.is_local(), false, &b);
        }
    }
    cx.flush_adts();
    cx.emit("{\"end\":1}");
    cx.out.flush().unwrap();
    drop(cx);
    std::fs::rename(&tmp, format!("{}/{}.jsonl", dir, krate)).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.sh")) {
        args.remove(1);
    }
    let dir = std::env::var("NTT_DUMP_DIR").unwrap_or_default();
    let res = run_with_tcx!(&args, |tcx: RTyCtxt<'_>| {
        if !dir.is_empty() {
            dump(tcx, &dir);
        }
        ControlFlow::<(), ()>::Continue(())
    });
    match res {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
