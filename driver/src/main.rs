//! MIR dumper used by every check in /verif.
//!
//! Acts as a `RUSTC_WRAPPER`: argv[1] is the real rustc. For the crates named
//! in MIRDUMP_CRATES the type-checked program is dumped (types, ADTs, trait
//! impls, drop-elaborated MIR bodies with resolved callees and evaluated
//! constants) as one JSON file per crate into MIRDUMP_OUT. All other crates
//! are compiled by the same compiler, unchanged.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    adt_pending: Vec<DefId>,
    adt_seen: HashSet<DefId>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut out = Vec::new();
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                out.push(self.ty(t).to_string());
            } else if let Some(c) = a.as_const() {
                out.push(js(&with_no_trimmed_paths!(format!("{c}"))));
            }
        }
        arr(out)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, id);
        let s = with_no_trimmed_paths!(t.to_string());
        let body = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => "\"k\":\"prim\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                let did = def.did();
                if self.adt_seen.insert(did) {
                    self.adt_pending.push(did);
                }
                let a = self.args(args);
                format!("\"k\":\"adt\",\"def\":{},\"args\":{}", js(&self.path(did)), a)
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = with_no_trimmed_paths!(format!("{n}"));
                format!("\"k\":\"array\",\"t\":{e},\"n\":{}", js(&n))
            }
            ty::Slice(e) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*e)),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"t\":{},\"mut\":{}", self.ty(*e), m.is_mut()),
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"t\":{},\"mut\":{}", self.ty(*e), m.is_mut()),
            ty::FnDef(d, a) => {
                let did: DefId = (*d).into();
                let a = self.args(a.skip_binder());
                format!("\"k\":\"fndef\",\"def\":{},\"key\":{},\"args\":{}", js(&self.path(did)), js(&self.key(did)), a)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Closure(d, a) => {
                let did: DefId = (*d).into();
                let ca = a.as_closure();
                let up: Vec<String> = ca.upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"closure\",\"def\":{},\"key\":{},\"upvars\":{}", js(&self.path(did)), js(&self.key(did)), arr(up))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"ts\":{}", arr(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{},\"idx\":{}", js(p.name.as_str()), p.index),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[id] = format!("{{\"s\":{},{}}}", js(&s), body);
        id
    }
    fn drain_adts(&mut self) {
        while let Some(did) = self.adt_pending.pop() {
            let def = self.tcx.adt_def(did);
            let ident = ty::GenericArgs::identity_for_item(self.tcx, did);
            let mut vs = Vec::new();
            let discrs: HashMap<_, _> = if def.is_enum() { def.discriminants(self.tcx).map(|(i, d)| (i, d.val)).collect() } else { HashMap::new() };
            for (i, v) in def.variants().iter_enumerated() {
                let mut fs = Vec::new();
                for f in v.fields.iter() {
                    // Only descend into local / small types: keep the type string for all.
                    let t = f.ty(self.tcx, ident).skip_norm_wip();
                    let tid = if did.is_local() || def.is_enum() { self.ty(t) as i64 } else { -1 };
                    fs.push(format!("{{\"name\":{},\"ty\":{},\"s\":{}}}", js(f.name.as_str()), tid, js(&with_no_trimmed_paths!(t.to_string()))));
                }
                vs.push(format!(
                    "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                    js(v.name.as_str()),
                    discrs.get(&i).map(|d| d.to_string()).unwrap_or("null".into()),
                    arr(fs)
                ));
            }
            let s = format!(
                "{{\"def\":{},\"key\":{},\"local\":{},\"kind\":{},\"variants\":{},\"generics\":{}}}",
                js(&self.path(did)),
                js(&self.key(did)),
                did.is_local(),
                js(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }),
                arr(vs),
                arr(self.tcx.generics_of(did).own_params.iter().map(|p| js(p.name.as_str())))
            );
            self.adts.insert(did, s);
        }
    }
    fn span(&self, sp: Span) -> String {
        // Outermost expansion site: a macro-generated construct is reported
        // where it is written in the source file.
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        js(&format!("{}:{}", f, lo.line))
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut projs = Vec::new();
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, fty) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variants().get(v).and_then(|v| v.fields.get(f)).map(|f| f.name.to_string()).unwrap_or(f.as_usize().to_string())
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let t = self.ty(fty);
                    format!("[\"field\",{},{},{}]", f.as_usize(), js(&name), t)
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cindex\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|n| n.to_string()).unwrap_or_else(|| match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    });
                    format!("[\"downcast\",{},{}]", v.as_usize(), js(&name))
                }
                _ => "[\"other\"]".to_string(),
            };
            projs.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("{{\"l\":{},\"p\":{},\"t\":{}}}", p.local.as_usize(), arr(projs), self.ty(pty.ty))
    }
    fn fnref(&mut self, env: TypingEnv<'tcx>, did: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let (tr, tritem) = match tcx.trait_of_assoc(did) {
            Some(t) => (js(&self.path(t)), true),
            None => ("null".into(), false),
        };
        let mut resolved = "null".to_string();
        if tritem {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, args) {
                if let ty::InstanceKind::Item(rd) = inst.def {
                    let a = self.args(inst.args);
                    // default (provided) trait methods resolve to the trait item itself
                    resolved = format!("{{\"def\":{},\"key\":{},\"args\":{},\"provided\":{}}}", js(&self.path(rd)), js(&self.key(rd)), a, tcx.trait_of_assoc(rd).is_some());
                } else {
                    resolved = format!("{{\"def\":{},\"key\":{},\"args\":[],\"shim\":true}}", js(&format!("{:?}", inst.def)), js("shim"));
                }
            }
        }
        let a = self.args(args);
        format!(
            "{{\"def\":{},\"key\":{},\"name\":{},\"args\":{},\"trait\":{},\"res\":{},\"unsafe\":{}}}",
            js(&self.path(did)),
            js(&self.key(did)),
            js(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()),
            a,
            tr,
            resolved,
            tcx.fn_sig(did).skip_binder().safety().is_unsafe()
        )
    }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut extra = String::new();
        if let ty::FnDef(d, a) = t.kind() {
            let did: DefId = (*d).into();
            let f = self.fnref(env, did, a.skip_binder());
            return format!("{{\"k\":\"const\",\"t\":{tid},\"fn\":{f}}}");
        }
        let mut promoted = None;
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                promoted = Some(p);
                let _ = write!(extra, ",\"promoted\":{}", p.as_usize());
                let _ = write!(extra, ",\"pkey\":{}", js(&self.key(u.def)));
            } else {
                let _ = write!(extra, ",\"item\":{},\"ikey\":{}", js(&self.path(u.def)), js(&self.key(u.def)));
                let a = self.args(u.args);
                let _ = write!(extra, ",\"iargs\":{a}");
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            let _ = write!(extra, ",\"tyconst\":{}", js(&with_no_trimmed_paths!(format!("{ct}"))));
        }
        if promoted.is_none() {
            if let Some(si) = c.const_.try_eval_scalar_int(tcx, env) {
                let bits = si.to_bits(si.size());
                let v = if t.is_signed() {
                    let sz = si.size().bits();
                    let sh = 128 - sz;
                    (((bits << sh) as i128) >> sh).to_string()
                } else {
                    bits.to_string()
                };
                let _ = write!(extra, ",\"int\":{v}");
            } else if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                let is_bytes = match t.kind() {
                    ty::Ref(_, i, _) => match i.kind() { ty::Str => true, ty::Slice(e) => *e == tcx.types.u8, _ => false },
                    _ => false,
                };
                if let Some(b) = if is_bytes { v.try_get_slice_bytes_for_diagnostics(tcx) } else { None } {
                    let _ = write!(extra, ",\"bytes\":{}", arr(b.iter().map(|b| b.to_string())));
                } else if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                    // &'static [u8; N], &'static T
                    let (prov, off) = p.into_raw_parts();
                    if let Some(ga) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        match ga {
                            mir::interpret::GlobalAlloc::Memory(al) => {
                                let al = al.inner();
                                if al.size().bytes() <= 4096 && al.provenance().ptrs().is_empty() {
                                    let b = al.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..al.len());
                                    let _ = write!(extra, ",\"mem\":{}", arr(b.iter().map(|b| b.to_string())));
                                }
                            }
                            mir::interpret::GlobalAlloc::Static(d) => {
                                let _ = write!(extra, ",\"static\":{}", js(&self.key(d)));
                                if let Ok(al) = tcx.eval_static_initializer(d) {
                                    let al = al.inner();
                                    if al.size().bytes() <= 4096 && al.provenance().ptrs().is_empty() {
                                        let b = al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len());
                                        let _ = write!(extra, ",\"mem\":{}", arr(b.iter().map(|b| b.to_string())));
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        let s = with_no_trimmed_paths!(format!("{}", c.const_));
        format!("{{\"k\":\"const\",\"t\":{tid},\"s\":{}{extra}}}", js(&s))
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"pl\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"pl\":{}}}", self.place(body, *p)),
            Operand::Constant(c) => self.constant(env, c),
            Operand::RuntimeChecks(r) => format!("{{\"k\":\"rtcheck\",\"s\":{}}}", js(&format!("{r:?}"))),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(body, env, o);
                format!("{{\"k\":\"repeat\",\"o\":{o},\"n\":{}}}", js(&with_no_trimmed_paths!(format!("{n}"))))
            }
            Rvalue::Ref(_, bk, p) => format!("{{\"k\":\"ref\",\"mut\":{},\"pl\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(body, *p)),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"rawptr\",\"pl\":{}}}", self.place(body, *p)),
            Rvalue::Cast(ck, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let f = self.ty(from);
                let o = self.operand(body, env, o);
                format!("{{\"k\":\"cast\",\"ck\":{},\"o\":{o},\"from\":{f},\"to\":{}}}", js(&format!("{ck:?}")), self.ty(*t))
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(body, env, &ab.0);
                let b = self.operand(body, env, &ab.1);
                let t = ab.0.ty(&body.local_decls, self.tcx);
                format!("{{\"k\":\"bin\",\"op\":{},\"a\":{a},\"b\":{b},\"t\":{}}}", js(&format!("{op:?}")), self.ty(t))
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let o = self.operand(body, env, o);
                format!("{{\"k\":\"un\",\"op\":{},\"o\":{o},\"t\":{}}}", js(&format!("{op:?}")), self.ty(t))
            }
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"pl\":{}}}", self.place(body, *p)),
            Rvalue::Aggregate(ak, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kind = match &**ak {
                    AggregateKind::Array(t) => format!("\"ak\":\"array\",\"t\":{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, a, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        if self.adt_seen.insert(*d) {
                            self.adt_pending.push(*d);
                        }
                        let var = def.variant(*v);
                        let fields = arr(var.fields.iter().map(|f| js(f.name.as_str())));
                        let args = self.args(a);
                        format!(
                            "\"ak\":\"adt\",\"def\":{},\"v\":{},\"vn\":{},\"fields\":{},\"args\":{},\"enum\":{},\"union\":{}",
                            js(&self.path(*d)),
                            v.as_usize(),
                            js(var.name.as_str()),
                            fields,
                            args,
                            def.is_enum(),
                            active.is_some()
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        format!("\"ak\":\"closure\",\"def\":{},\"key\":{},\"t\":{}", js(&self.path(*d)), js(&self.key(*d)), self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => "\"ak\":\"rawptr\"".to_string(),
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{kind},\"ops\":{}}}", arr(ops))
            }
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"pl\":{}}}}}", self.place(body, *p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"pl\":{}}}}}", self.place(body, *p)),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{r:?}"))),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(body, p);
                names.push(format!("[{},{}]", js(v.name.as_str()), pl));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in bb.statements.iter() {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(body, b.0);
                        let rv = self.rvalue(body, env, &b.1);
                        st.push(format!("{{\"pl\":{pl},\"rv\":{rv},\"sp\":{sp}}}"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(body, **place);
                        st.push(format!("{{\"setdiscr\":{},\"pl\":{pl},\"sp\":{sp}}}", variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::Assume(o) = &**i {
                            let o = self.operand(body, env, o);
                            st.push(format!("{{\"assume\":{o},\"sp\":{sp}}}"));
                        } else {
                            st.push(format!("{{\"intrinsic\":{},\"sp\":{sp}}}", js(&format!("{i:?}"))));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let signed = dt.is_signed();
                    let size = match dt.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64),
                        _ => 0,
                    };
                    let dtid = self.ty(dt);
                    let d = self.operand(body, env, discr);
                    let vals: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = if signed && size > 0 && size < 128 {
                                let sh = 128 - size;
                                (((v << sh) as i128) >> sh).to_string()
                            } else if signed {
                                (v as i128).to_string()
                            } else {
                                v.to_string()
                            };
                            format!("[{},{}]", vs, b.as_usize())
                        })
                        .collect();
                    format!("{{\"k\":\"switch\",\"d\":{d},\"t\":{dtid},\"vals\":{},\"else\":{}", arr(vals), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "{\"k\":\"return\"".into(),
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"terminate\"".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pl = self.place(body, *place);
                    format!("{{\"k\":\"drop\",\"pl\":{pl},\"to\":{}", target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    let d = self.place(body, *destination);
                    format!("{{\"k\":\"call\",\"f\":{f},\"a\":{},\"d\":{d},\"to\":{}", arr(a), target.map(|t| t.as_usize() as i64).unwrap_or(-1))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, env, cond);
                    let (mk, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.operand(body, env, len), self.operand(body, env, index)]),
                        AssertKind::Overflow(op, a, b) => (format!("Overflow{op:?}"), vec![self.operand(body, env, a), self.operand(body, env, b)]),
                        AssertKind::OverflowNeg(a) => ("OverflowNeg".into(), vec![self.operand(body, env, a)]),
                        AssertKind::DivisionByZero(a) => ("DivZero".into(), vec![self.operand(body, env, a)]),
                        AssertKind::RemainderByZero(a) => ("RemZero".into(), vec![self.operand(body, env, a)]),
                        _ => ("Other".into(), vec![]),
                    };
                    format!("{{\"k\":\"assert\",\"c\":{c},\"exp\":{expected},\"msg\":{},\"ops\":{},\"to\":{}", js(&mk), arr(ops), target.as_usize())
                }
                _ => format!("{{\"k\":\"other\",\"s\":{}", js(&format!("{:?}", t.kind))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{ts},\"sp\":{sp}}},\"cl\":{}}}", arr(st), bb.is_cleanup));
        }
        format!("\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}", body.arg_count, arr(locals), arr(names), arr(blocks))
    }
    fn item(&mut self, ld: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let env = TypingEnv::post_analysis(tcx, did);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if !is_fn {
            return None;
        }
        let steal = tcx.mir_drops_elaborated_and_const_checked(ld);
        let b = if steal.is_stolen() { self.body(tcx.optimized_mir(did), env) } else { let g = steal.borrow(); let g: &Body<'tcx> = &g; self.body(g, env) };
        let proms = tcx.promoted_mir(did);
        let ps: Vec<String> = proms.iter().map(|p| format!("{{{}}}", self.body(p, env))).collect();
        let parent = tcx.parent(did);
        let mut implinfo = "null".to_string();
        let mut traitinfo = "null".to_string();
        if kind == DefKind::AssocFn {
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let sid = self.ty(st);
                let tr = if of_trait { js(&self.path(tcx.impl_trait_ref(parent).skip_binder().def_id)) } else { "null".into() };
                let gens: Vec<String> = tcx.generics_of(parent).own_params.iter().map(|p| js(p.name.as_str())).collect();
                implinfo = format!("{{\"key\":{},\"trait\":{tr},\"self\":{sid},\"generics\":{}}}", js(&self.key(parent)), arr(gens));
            } else if tcx.def_kind(parent) == DefKind::Trait {
                traitinfo = js(&self.path(parent));
            }
        }
        let vis = if kind == DefKind::Closure { "closure".to_string() } else { format!("{:?}", tcx.visibility(did)) };
        let reach = tcx.effective_visibilities(()).is_reachable(ld);
        let gens = tcx.generics_of(did);
        let mut all = Vec::new();
        for i in 0..gens.count() {
            let p = gens.param_at(i, tcx);
            if matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                continue;
            }
            all.push(format!("[{},{}]", js(p.name.as_str()), p.index));
        }
        let preds: Vec<String> = if kind == DefKind::Closure { vec![] } else {
            tcx.clauses_of(did).instantiate_identity(tcx).clauses.iter().map(|p| js(&with_no_trimmed_paths!(format!("{:?}", p)))).collect()
        };
        let is_unsafe = kind != DefKind::Closure && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        let modname = self.key(tcx.parent_module_from_def_id(ld).to_def_id());
        Some(format!(
            "{{\"key\":{},\"path\":{},\"name\":{},\"kind\":{},\"impl\":{implinfo},\"trait\":{traitinfo},\"vis\":{},\"reach\":{reach},\"generics\":{},\"preds\":{},\"unsafe\":{is_unsafe},\"module\":{},\"parent\":{},\"sp\":{},\"promoted\":{},{b}}}",
            js(&self.key(did)),
            js(&self.path(did)),
            js(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or("closure".into()).as_str()),
            js(&format!("{kind:?}")),
            js(&vis),
            arr(all),
            arr(preds),
            js(&modname),
            js(&self.key(parent)),
            self.span(tcx.def_span(did)),
            arr(ps)
        ))
    }
    fn impls(&mut self) -> String {
        let tcx = self.tcx;
        let mut out = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let sid = self.ty(st);
                let (tr, trs, uns) = if of_trait {
                    let r = tcx.impl_trait_ref(did).skip_binder();
                    let h = tcx.impl_trait_header(did);
                    (js(&self.path(r.def_id)), js(&with_no_trimmed_paths!(r.to_string())), h.safety.is_unsafe())
                } else {
                    ("null".into(), "null".into(), false)
                };
                let items: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|i| {
                        let ty = if i.is_type() {
                            let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                            self.ty(t).to_string()
                        } else { "null".into() };
                        let val = if matches!(i.kind, ty::AssocKind::Const { .. }) && tcx.generics_of(did).count() == 0 {
                            match tcx.const_eval_poly(i.def_id).ok().and_then(|v| v.try_to_scalar_int()) {
                                Some(si) => si.to_bits(si.size()).to_string(),
                                None => "null".into(),
                            }
                        } else { "null".into() };
                        format!("{{\"name\":{},\"key\":{},\"ty\":{ty},\"val\":{val}}}", js(i.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()), js(&self.key(i.def_id)))
                    })
                    .collect();
                let gens: Vec<String> = tcx.generics_of(did).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| format!("[{},{}]", js(p.name.as_str()), p.index)).collect();
                let preds: Vec<String> = tcx.clauses_of(did).instantiate_identity(tcx).clauses.iter().map(|p| js(&with_no_trimmed_paths!(format!("{:?}", p)))).collect();
                out.push(format!(
                    "{{\"key\":{},\"trait\":{tr},\"traitref\":{trs},\"self\":{sid},\"unsafe\":{uns},\"items\":{},\"generics\":{},\"preds\":{},\"sp\":{}}}",
                    js(&self.key(did)),
                    arr(items),
                    arr(gens),
                    arr(preds),
                    self.span(tcx.def_span(did))
                ));
            }
        }
        arr(out)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let mut d = D { tcx, types: vec![], tymap: HashMap::new(), adts: HashMap::new(), adt_pending: vec![], adt_seen: HashSet::new() };
        let mut bodies = Vec::new();
        for ld in tcx.hir_body_owners() {
            if let Some(s) = d.item(ld) {
                bodies.push(s);
            }
        }
        let impls = d.impls();
        d.drain_adts();
        let mut adts: Vec<String> = d.adts.values().cloned().collect();
        adts.sort();
        let s = format!(
            "{{\"crate\":{},\"types\":{},\"adts\":{},\"impls\":{},\"bodies\":{}}}",
            js(&name),
            arr(d.types.iter().cloned()),
            arr(adts),
            impls,
            arr(bodies)
        );
        std::fs::write(format!("{out}/{name}.json"), s).expect("write dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER protocol: argv[1] is the path of the real rustc.
    if args.len() > 1 && !args[1].starts_with('-') && std::path::Path::new(&args[1]).file_name().map(|f| f.to_string_lossy().starts_with("rustc")).unwrap_or(false) {
        args.remove(1);
    }
    let want: Vec<String> = std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let cname = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    if want.iter().any(|w| *w == cname) {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
    }
}
