// MIR/type-table exporter: compiles one crate with the nightly compiler and writes
// everything the analyses need (generic MIR, impl table, predicates, items) as JSON.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct C {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    calls: bool,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn pid(&self, d: DefId) -> String {
        // unique and stable inside one dump
        let krate = self.tcx.crate_name(d.krate);
        format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn id(&self, d: DefId) -> String {
        esc(&self.pid(d))
    }
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s2 = s.source_callsite();
        let lo = sm.lookup_char_pos(s2.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        esc(&format!("{}:{}", f, lo.line))
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> String {
        arr(a
            .iter()
            .filter_map(|g| match g.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t)),
                GenericArgKind::Const(c) => Some(self.cst(c)),
                _ => None,
            })
            .collect())
    }
    fn cst(&self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return format!("{{\"k\":\"constval\",\"v\":{}}}", v);
        }
        format!("{{\"k\":\"const\",\"s\":{}}}", esc(&format!("{:?}", c)))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Bool | ty::Char | ty::Str | ty::Never | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", esc(&format!("{}", t)))
            }
            ty::Adt(d, a) => format!(
                "{{\"k\":\"adt\",\"d\":{},\"p\":{},\"a\":{}}}",
                self.id(d.did()),
                esc(&self.path(d.did())),
                self.args(a)
            ),
            ty::Array(t, c) => format!("{{\"k\":\"array\",\"t\":{},\"len\":{}}}", self.ty(t), self.cst(c)),
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(t)),
            ty::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), self.ty(t)),
            ty::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), self.ty(t)),
            ty::Tuple(ts) => {
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(ts.iter().map(|t| self.ty(t)).collect()))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{},\"i\":{}}}", esc(p.name.as_str()), p.index),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                format!(
                    "{{\"k\":\"fndef\",\"d\":{},\"p\":{},\"a\":{}{}}}",
                    self.id(d),
                    esc(&self.path(d)),
                    self.args(a),
                    self.fninfo(d)
                )
            }
            ty::Closure(d, a) => format!(
                "{{\"k\":\"closure\",\"d\":{},\"a\":{},\"up\":{},\"kind\":{}}}",
                self.id(d),
                arr(a.as_closure().parent_args().iter().filter_map(|g| match g.kind() {
                    GenericArgKind::Type(t) => Some(self.ty(t)),
                    GenericArgKind::Const(c) => Some(self.cst(c)),
                    _ => None,
                }).collect()),
                arr(a.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect()),
                esc(&format!("{:?}", a.as_closure().kind_ty().to_opt_closure_kind()))
            ),
            ty::Alias(_, al) => match al.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    let d: DefId = def_id.into();
                    format!(
                        "{{\"k\":\"proj\",\"d\":{},\"tr\":{},\"n\":{},\"a\":{}}}",
                        self.id(d),
                        esc(&self.path(self.tcx.parent(d))),
                        esc(self.tcx.item_name(d).as_str()),
                        self.args(al.args)
                    )
                }
                _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", t))),
            },
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&format!("{:?}", t))),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", esc(&format!("{:?}", t))),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", t))),
        }
    }
    // extra information about a function definition: owning trait / impl and item name
    fn fninfo(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let mut s = String::new();
        if let Some(n) = tcx.opt_item_name(d) {
            write!(s, ",\"n\":{}", esc(n.as_str())).unwrap();
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            write!(s, ",\"trait\":{}", esc(&self.path(t))).unwrap();
        }
        if let Some(i) = tcx.impl_of_assoc(d) {
            write!(s, ",\"impl\":{}", self.id(i)).unwrap();
            if d.is_local() == false {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                write!(s, ",\"implself\":{}", self.ty(st)).unwrap();
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let p = tcx.parent(d);
            let p = if matches!(tcx.def_kind(p), DefKind::Variant) { p } else { p };
            write!(s, ",\"ctor\":{}", self.id(p)).unwrap();
        }
        let uns = if tcx.is_closure_like(d) { false } else { tcx.fn_sig(d).skip_binder().safety().is_unsafe() };
        write!(s, ",\"unsafe\":{}", uns).unwrap();
        s
    }
    fn place(&self, p: &Place<'tcx>) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"dc\",{},{}]",
                    v.as_u32(),
                    esc(&n.map(|s| s.to_string()).unwrap_or_default())
                ),
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            })
            .collect();
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_u32(), arr(pr))
    }
    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if off + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }
    fn constant(&self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.ty();
        let tys = self.ty(t);
        let mut extra = String::new();
        match *c {
            Const::Val(v, _) => match v {
                ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    if let ty::Int(_) = t.kind() {
                        let sz = i.size().bits();
                        let v = if sz < 128 && (bits >> (sz - 1)) & 1 == 1 { (bits as i128) - (1i128 << sz) } else { bits as i128 };
                        write!(extra, ",\"v\":{}", v).unwrap();
                    } else {
                        write!(extra, ",\"v\":{}", bits).unwrap();
                    }
                }
                ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                    // reference to constant memory (byte arrays and the like)
                    let (prov, off) = p.prov_and_relative_offset();
                    if let mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) {
                        let o = off.bytes() as usize;
                        let l = a.inner().len();
                        if let Some(b) = self.alloc_bytes(prov.alloc_id(), o, l - o) {
                            let bs: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            write!(extra, ",\"bytes\":[{}]", bs.join(",")).unwrap();
                        }
                    }
                }
                ConstValue::ZeroSized => write!(extra, ",\"zst\":true").unwrap(),
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, meta as usize) {
                        match std::str::from_utf8(&b) {
                            Ok(s) => write!(extra, ",\"str\":{}", esc(s)).unwrap(),
                            Err(_) => {
                                let bs: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                write!(extra, ",\"bytes\":[{}]", bs.join(",")).unwrap();
                            }
                        }
                    }
                }
                ConstValue::Indirect { .. } => write!(extra, ",\"indirect\":true").unwrap(),
            },
            Const::Unevaluated(u, _) => {
                write!(
                    extra,
                    ",\"uneval\":{},\"uargs\":{},\"promoted\":{}",
                    self.id(u.def),
                    self.args(u.args),
                    u.promoted.map(|p| p.as_u32() as i64).unwrap_or(-1)
                )
                .unwrap();
                if let Some(p) = u.promoted.is_none().then_some(()) {
                    if let Some(b) = c.try_eval_bits(self.tcx, env) {
                        write!(extra, ",\"v\":{}", b).unwrap();
                    }
                }
            }
            Const::Ty(_, cc) => {
                if let Some(b) = c.try_eval_bits(self.tcx, env) {
                    write!(extra, ",\"v\":{}", b).unwrap();
                } else {
                    write!(extra, ",\"tyconst\":{}", self.cst(cc)).unwrap();
                }
            }
        }
        format!("{{\"o\":\"const\",\"ty\":{}{}}}", tys, extra)
    }
    fn operand(&self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"pl\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"pl\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_, env),
            Operand::RuntimeChecks(r) => format!("{{\"o\":\"rtcheck\",\"s\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn rvalue(&self, b: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"x\":{}}}", self.operand(o, env)),
            Rvalue::Repeat(o, c) => {
                format!("{{\"r\":\"repeat\",\"x\":{},\"n\":{}}}", self.operand(o, env), self.cst(*c))
            }
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"m\":{},\"pl\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"r\":\"reborrow\",\"m\":{},\"pl\":{}}}", m.is_mut(), self.place(p))
            }
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"rawptr\",\"s\":{},\"pl\":{}}}", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"c\":{},\"x\":{},\"ty\":{},\"xt\":{}}}",
                esc(&format!("{:?}", k)),
                self.operand(o, env),
                self.ty(*t),
                self.ty(o.ty(&b.local_decls, self.tcx))
            ),
            Rvalue::BinaryOp(op, xy) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"x\":{},\"y\":{},\"xt\":{}}}",
                esc(&format!("{:?}", op)),
                self.operand(&xy.0, env),
                self.operand(&xy.1, env),
                self.ty(xy.0.ty(&b.local_decls, self.tcx))
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("{{\"r\":\"un\",\"op\":{},\"x\":{}}}", esc(&format!("{:?}", op)), self.operand(o, env))
            }
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"pl\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"x\":{{\"o\":\"copy\",\"pl\":{}}}}}", self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let xs = arr(ops.iter().map(|o| self.operand(o, env)).collect());
                let kk = match **k {
                    AggregateKind::Array(t) => format!("\"k\":\"array\",\"t\":{}", self.ty(t)),
                    AggregateKind::Tuple => "\"k\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let ad = self.tcx.adt_def(d);
                        format!(
                            "\"k\":\"adt\",\"d\":{},\"p\":{},\"v\":{},\"vn\":{},\"a\":{},\"af\":{}",
                            self.id(d),
                            esc(&self.path(d)),
                            v.as_u32(),
                            esc(ad.variant(v).name.as_str()),
                            self.args(a),
                            af.map(|f| f.as_u32() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a) => format!(
                        "\"k\":\"closure\",\"d\":{},\"a\":{}",
                        self.id(d),
                        arr(a.as_closure().parent_args().iter().filter_map(|g| match g.kind() {
                            GenericArgKind::Type(t) => Some(self.ty(t)),
                            GenericArgKind::Const(c) => Some(self.cst(c)),
                            _ => None,
                        }).collect())
                    ),
                    AggregateKind::RawPtr(t, _) => format!("\"k\":\"rawptr\",\"t\":{}", self.ty(t)),
                    _ => "\"k\":\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"xs\":{}}}", kk, xs)
            }
            other => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "\"continue\"".into(),
            UnwindAction::Unreachable => "\"unreachable\"".into(),
            UnwindAction::Terminate(_) => "\"terminate\"".into(),
            UnwindAction::Cleanup(b) => format!("{}", b.as_u32()),
        }
    }
    fn resolve(&self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        if let ty::FnDef(d, a) = *t.kind() {
            let a = a.skip_binder();
            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, d, a) {
                let d2 = i.def.def_id();
                return format!(
                    "{{\"d\":{},\"p\":{},\"a\":{},\"local\":{}{}}}",
                    self.id(d2),
                    esc(&self.path(d2)),
                    self.args(i.args),
                    d2.is_local(),
                    self.fninfo(d2)
                );
            }
        }
        "null".into()
    }
    /// call graph from one function through every crate whose MIR is available, with the generic
    /// arguments of each call substituted: a path to the allocator, and the functions without a body
    fn heap(&self, root: DefId) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, root);
        let args = ty::GenericArgs::identity_for_item(tcx, root);
        let start = Instance { def: ty::InstanceKind::Item(root), args };
        let mut seen: HashMap<Instance<'tcx>, Option<Instance<'tcx>>> = HashMap::new();
        let mut todo = std::collections::VecDeque::new();
        seen.insert(start, None);
        todo.push_back(start);
        let mut found: Option<Instance<'tcx>> = None;
        let mut leaves: std::collections::BTreeSet<String> = Default::default();
        let mut crates: std::collections::BTreeSet<String> = Default::default();
        let mut cut = false;
        while let Some(i) = todo.pop_front() {
            if seen.len() > 20000 {
                cut = true;
                break;
            }
            let d = i.def_id();
            let kn = tcx.crate_name(d.krate).to_string();
            crates.insert(kn.clone());
            let nm = self.pid(d);
            if nm.contains("__rust_alloc") || nm.contains("__rust_realloc") || nm.starts_with("alloc::boxed::box_new")
                || nm.starts_with("alloc::alloc::exchange_malloc")
            {
                found = Some(i);
                break;
            }
            let body = match i.def {
                ty::InstanceKind::Item(d) => {
                    if !tcx.is_mir_available(d) || tcx.is_foreign_item(d) || tcx.intrinsic(d).is_some() {
                        if kn != "core" {
                            leaves.insert(nm);
                        }
                        continue;
                    }
                    tcx.instance_mir(i.def)
                }
                ty::InstanceKind::Virtual(..) | ty::InstanceKind::Intrinsic(..) => continue,
                _ => tcx.instance_mir(i.def),
            };
            // blocks reached without unwinding
            let mut bs = vec![false; body.basic_blocks.len()];
            let mut st = vec![START_BLOCK];
            while let Some(b) = st.pop() {
                if bs[b.as_usize()] {
                    continue;
                }
                bs[b.as_usize()] = true;
                let t = body.basic_blocks[b].terminator();
                for s in t.successors() {
                    if !body.basic_blocks[s].is_cleanup {
                        st.push(s);
                    }
                }
                let fty = match &t.kind {
                    TerminatorKind::Call { func, target: Some(_), .. } => func.ty(body, tcx),
                    TerminatorKind::TailCall { func, .. } => func.ty(body, tcx),
                    _ => continue,
                };
                let Ok(fty) = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, fty)) else {
                    continue;
                };
                if let ty::FnDef(d, a) = *fty.kind() {
                    let a = a.skip_binder();
                    if let Ok(Some(j)) = Instance::try_resolve(tcx, env, d, a) {
                        if !seen.contains_key(&j) {
                            seen.insert(j, Some(i));
                            todo.push_back(j);
                        }
                    }
                }
            }
        }
        let path = match found {
            None => "null".to_string(),
            Some(f) => {
                let mut v = vec![];
                let mut c = Some(f);
                while let Some(x) = c {
                    v.push(esc(&self.path(x.def_id())));
                    c = seen[&x];
                }
                v.reverse();
                arr(v)
            }
        };
        format!(
            "{{\"path\":{},\"nobody\":{},\"crates\":{},\"cut\":{},\"n\":{}}}",
            path,
            arr(leaves.iter().map(|x| esc(x)).collect()),
            arr(crates.iter().map(|x| esc(x)).collect()),
            cut,
            seen.len()
        )
    }
    fn terminator(&self, t: &Terminator<'tcx>, env: TypingEnv<'tcx>) -> String {
        let sp = self.span(t.source_info.span);
        let body = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ts: Vec<String> =
                    targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                format!(
                    "\"t\":\"switch\",\"x\":{},\"cases\":{},\"else\":{}",
                    self.operand(discr, env),
                    arr(ts),
                    targets.otherwise().as_u32()
                )
            }
            TerminatorKind::UnwindResume => "\"t\":\"resume\"".into(),
            TerminatorKind::UnwindTerminate(_) => "\"t\":\"abort\"".into(),
            TerminatorKind::Return => "\"t\":\"return\"".into(),
            TerminatorKind::Unreachable => "\"t\":\"unreachable\"".into(),
            TerminatorKind::Drop { place, target, unwind, replace, .. } => format!(
                "\"t\":\"drop\",\"pl\":{},\"to\":{},\"unwind\":{},\"replace\":{}",
                self.place(place),
                target.as_u32(),
                self.unwind(unwind),
                replace
            ),
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let res = match func {
                    Operand::Constant(c) => self.resolve(c.const_.ty(), env),
                    _ => "null".into(),
                };
                format!(
                    "\"t\":\"call\",\"f\":{},\"args\":{},\"dest\":{},\"to\":{},\"unwind\":{},\"res\":{}",
                    self.operand(func, env),
                    arr(args.iter().map(|a| self.operand(&a.node, env)).collect()),
                    self.place(destination),
                    target.map(|b| b.as_u32() as i64).unwrap_or(-1),
                    self.unwind(unwind),
                    res
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                use rustc_middle::mir::AssertKind::*;
                let kind = match &**msg {
                    BoundsCheck { len, index } => format!(
                        "[\"bounds\",{},{}]",
                        self.operand(len, env),
                        self.operand(index, env)
                    ),
                    Overflow(op, a, b) => format!(
                        "[\"overflow\",{},{},{}]",
                        esc(&format!("{:?}", op)),
                        self.operand(a, env),
                        self.operand(b, env)
                    ),
                    OverflowNeg(_) => "[\"overflowneg\"]".into(),
                    DivisionByZero(_) => "[\"divzero\"]".into(),
                    RemainderByZero(_) => "[\"remzero\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                format!(
                    "\"t\":\"assert\",\"x\":{},\"exp\":{},\"kind\":{},\"to\":{},\"unwind\":{}",
                    self.operand(cond, env),
                    expected,
                    kind,
                    target.as_u32(),
                    self.unwind(unwind)
                )
            }
            other => format!("\"t\":\"other\",\"s\":{}", esc(&format!("{:?}", other))),
        };
        format!("{{{},\"sp\":{}}}", body, sp)
    }
    fn body(&self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let locals: Vec<String> = b
            .local_decls
            .iter()
            .map(|l| format!("{{\"ty\":{},\"m\":{}}}", self.ty(l.ty), l.mutability.is_mut()))
            .collect();
        let names: Vec<String> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) => {
                    Some(format!("[{},{}]", esc(v.name.as_str()), self.place(p)))
                }
                _ => None,
            })
            .collect();
        let blocks: Vec<String> = b
            .basic_blocks
            .iter()
            .map(|bb| {
                let st: Vec<String> = bb
                    .statements
                    .iter()
                    .filter_map(|s| match &s.kind {
                        StatementKind::Assign(a) => Some(format!(
                            "{{\"s\":\"assign\",\"pl\":{},\"rv\":{},\"sp\":{}}}",
                            self.place(&a.0),
                            self.rvalue(b, &a.1, env),
                            self.span(s.source_info.span)
                        )),
                        StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                            "{{\"s\":\"setdiscr\",\"pl\":{},\"v\":{}}}",
                            self.place(place),
                            variant_index.as_u32()
                        )),
                        StatementKind::StorageDead(l) => {
                            Some(format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_u32()))
                        }
                        StatementKind::StorageLive(l) => {
                            Some(format!("{{\"s\":\"live\",\"l\":{}}}", l.as_u32()))
                        }
                        StatementKind::Intrinsic(i) => {
                            Some(format!("{{\"s\":\"intrinsic\",\"x\":{}}}", esc(&format!("{:?}", i))))
                        }
                        _ => None,
                    })
                    .collect();
                format!(
                    "{{\"cleanup\":{},\"st\":{},\"term\":{}}}",
                    bb.is_cleanup,
                    arr(st),
                    self.terminator(bb.terminator(), env)
                )
            })
            .collect();
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}",
            b.arg_count,
            b.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1),
            arr(locals),
            arr(names),
            arr(blocks)
        )
    }
    fn generics(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => v.push(format!("[{},{}]", esc(p.name.as_str()), p.index)),
            }
        }
        arr(v)
    }
    fn preds(&self, d: DefId) -> String {
        let ps = self.tcx.clauses_of(d).instantiate_identity(self.tcx);
        let mut v = vec![];
        for p in ps.clauses.iter() {
            let p = p.skip_norm_wip();
            match p.kind().skip_binder() {
                ty::ClauseKind::Trait(t) => v.push(format!(
                    "{{\"c\":\"trait\",\"tr\":{},\"a\":{}}}",
                    esc(&self.path(t.trait_ref.def_id)),
                    self.args(t.trait_ref.args)
                )),
                ty::ClauseKind::Projection(pp) => {
                    let al = pp.projection_term; let aldid: DefId = al.expect_projection_def_id().into();
                    let rhs = match pp.term.kind() {
                        ty::TermKind::Ty(t) => self.ty(t),
                        ty::TermKind::Const(c) => self.cst(c),
                    };
                    v.push(format!(
                        "{{\"c\":\"proj\",\"d\":{},\"tr\":{},\"n\":{},\"a\":{},\"ty\":{}}}",
                        self.id(aldid),
                        esc(&self.path(self.tcx.parent(aldid))),
                        esc(self.tcx.item_name(aldid).as_str()),
                        self.args(al.args),
                        rhs
                    ));
                }
                _ => {}
            }
        }
        arr(v)
    }
    fn vis(&self, d: DefId) -> String {
        let v = self.tcx.visibility(d);
        esc(if v.is_public() { "pub" } else { "restricted" })
    }
    fn run(&self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        for l in tcx.mir_keys(()).iter() {
            let d = l.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !is_fn && !matches!(kind, DefKind::Ctor(..)) {
                continue;
            }
            if matches!(kind, DefKind::Ctor(..)) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let b = tcx.optimized_mir(d);
            let mut s = String::new();
            write!(s, "{{\"id\":{},\"path\":{},\"kind\":{}", self.id(d), esc(&self.path(d)), esc(&format!("{:?}", kind))).unwrap();
            write!(s, ",\"sp\":{}", self.span(tcx.def_span(d))).unwrap();
            let root = tcx.typeck_root_def_id(d);
            write!(s, ",\"root\":{}", self.id(root)).unwrap();
            write!(s, ",\"generics\":{},\"preds\":{}", self.generics(root), self.preds(root)).unwrap();
            if kind != DefKind::Closure {
                write!(s, "{}", self.fninfo(d)).unwrap();
                write!(s, ",\"vis\":{}", self.vis(d)).unwrap();
                let ev = tcx.effective_visibilities(());
                write!(s, ",\"reach\":{}", ev.is_reachable(*l)).unwrap();
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                write!(
                    s,
                    ",\"inputs\":{},\"output\":{}",
                    arr(sig.inputs().iter().map(|t| self.ty(*t)).collect()),
                    self.ty(sig.output())
                )
                .unwrap();
                let names: Vec<String> = tcx
                    .fn_arg_idents(d)
                    .iter()
                    .map(|i| esc(&i.map(|i| i.to_string()).unwrap_or_default()))
                    .collect();
                write!(s, ",\"argn\":{}", arr(names)).unwrap();
                if self.calls {
                    write!(s, ",\"heap\":{}", self.heap(d)).unwrap();
                }
            }
            let pr = tcx.promoted_mir(d);
            let prs: Vec<String> = pr.iter().map(|b| self.body(b, env)).collect();
            write!(s, ",\"promoted\":{}", arr(prs)).unwrap();
            write!(s, ",\"body\":{}}}", self.body(b, env)).unwrap();
            fns.push(s);
        }
        // impls, adts, traits, aliases
        let mut impls = vec![];
        let mut adts = vec![];
        let mut traits = vec![];
        let mut aliases = vec![];
        let ev = tcx.effective_visibilities(());
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut s = String::new();
                    write!(s, "{{\"id\":{},\"self\":{},\"generics\":{},\"preds\":{},\"sp\":{}", self.id(d), self.ty(st), self.generics(d), self.preds(d), self.span(tcx.def_span(d))).unwrap();
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        write!(s, ",\"trait\":{},\"targs\":{}", esc(&self.path(tr.def_id)), self.args(tr.args)).unwrap();
                        let h = tcx.impl_trait_header(d);
                        write!(s, ",\"neg\":{},\"unsafe\":{}", matches!(h.polarity, ty::ImplPolarity::Negative), h.safety.is_unsafe()).unwrap();
                    }
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let mut e = format!("{{\"n\":{},\"d\":{},\"kind\":{}", esc(it.name().as_str()), self.id(it.def_id), esc(&format!("{:?}", it.tag())));
                        if matches!(it.tag(), ty::AssocTag::Type) {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            write!(e, ",\"ty\":{}", self.ty(t)).unwrap();
                        }
                        e.push('}');
                        items.push(e);
                    }
                    write!(s, ",\"items\":{}", arr(items)).unwrap();
                    write!(s, ",\"derived\":{}}}", tcx.is_automatically_derived(d)).unwrap();
                    impls.push(s);
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let vs: Vec<String> = ad
                        .variants()
                        .iter()
                        .map(|v| {
                            let fs: Vec<String> = v
                                .fields
                                .iter()
                                .map(|f| {
                                    format!(
                                        "{{\"n\":{},\"ty\":{},\"vis\":{}}}",
                                        esc(f.name.as_str()),
                                        self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                        self.vis(f.did)
                                    )
                                })
                                .collect();
                            format!("{{\"n\":{},\"fields\":{}}}", esc(v.name.as_str()), arr(fs))
                        })
                        .collect();
                    adts.push(format!(
                        "{{\"id\":{},\"path\":{},\"generics\":{},\"variants\":{},\"vis\":{},\"reach\":{},\"sp\":{}}}",
                        self.id(d), esc(&self.path(d)), self.generics(d), arr(vs), self.vis(d), ev.is_reachable(l), self.span(tcx.def_span(d))
                    ));
                }
                DefKind::Trait => {
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|it| format!("{{\"n\":{},\"d\":{},\"kind\":{},\"default\":{}}}", esc(it.name().as_str()), self.id(it.def_id), esc(&format!("{:?}", it.tag())), it.defaultness(tcx).has_value()))
                        .collect();
                    traits.push(format!(
                        "{{\"id\":{},\"path\":{},\"unsafe\":{},\"vis\":{},\"reach\":{},\"items\":{},\"preds\":{}}}",
                        self.id(d), esc(&self.path(d)), tcx.trait_def(d).safety.is_unsafe(), self.vis(d), ev.is_reachable(l), arr(items), self.preds(d)
                    ));
                }
                DefKind::TyAlias => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    aliases.push(format!("{{\"id\":{},\"path\":{},\"ty\":{},\"vis\":{}}}", self.id(d), esc(&self.path(d)), self.ty(t), self.vis(d)));
                }
                _ => {}
            }
        }
        // what the public modules export, and the exported macros
        let mut exports = vec![];
        for l in tcx.hir_crate_items(()).definitions().chain(std::iter::once(rustc_hir::def_id::CRATE_DEF_ID)) {
            let d = l.to_def_id();
            if tcx.def_kind(d) != DefKind::Mod {
                continue;
            }
            for ch in tcx.module_children_local(l).iter() {
                let tgt = match ch.res.opt_def_id() {
                    Some(x) => self.path(x),
                    None => "?".into(),
                };
                let kind = match ch.res.opt_def_id() {
                    Some(x) => format!("{:?}", tcx.def_kind(x)),
                    None => "?".into(),
                };
                exports.push(format!(
                    "{{\"mod\":{},\"reach\":{},\"n\":{},\"kind\":{},\"to\":{},\"pub\":{}}}",
                    esc(&self.path(d)), ev.is_reachable(l), esc(ch.ident.name.as_str()), esc(&kind), esc(&tgt), ch.vis.is_public()
                ));
            }
        }
        let mut macros = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let it = tcx.hir_item(id);
            if let rustc_hir::ItemKind::Macro(id, _, _) = it.kind {
                let d = it.owner_id.to_def_id();
                let body = tcx.sess.source_map().span_to_snippet(it.span).unwrap_or_default();
                macros.push(format!(
                    "{{\"n\":{},\"pub\":{},\"body\":{}}}",
                    esc(id.name.as_str()), tcx.visibility(d).is_public(), esc(&body)
                ));
            }
        }
        let mut via = vec![];
        for c in tcx.crates(()).iter() {
            if let Some(x) = tcx.extern_crate(*c) {
                via.push(format!("[{},{}]", esc(tcx.crate_name(*c).as_str()), esc(tcx.crate_name(x.dependency_of).as_str())));
            }
        }
        let mut crates = vec![];
        for c in tcx.crates(()).iter() {
            crates.push(esc(tcx.crate_name(*c).as_str()));
        }
        format!(
            "{{\"crate\":{},\"debug_assertions\":{},\"overflow_checks\":{},\"crates\":{},\"via\":{},\"exports\":{},\"macros\":{},\"fns\":{},\"impls\":{},\"adts\":{},\"traits\":{},\"aliases\":{}}}\n",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()),
            tcx.sess.opts.debug_assertions,
            tcx.sess.overflow_checks(),
            arr(crates),
            arr(via),
            arr(exports),
            arr(macros),
            arr(fns).replace("},{\"id\"", "},\n{\"id\""),
            arr(impls),
            arr(adts),
            arr(traits),
            arr(aliases)
        )
    }
}

impl Callbacks for C {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let s = D { tcx, calls: std::env::var("MIRDUMP_CALLS").is_ok() }.run();
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    // used as RUSTC_WRAPPER: argv = [mirdump, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let mut name = None;
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = Some(args[i + 1].clone());
        }
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "rowcol".into());
    let code = rustc_driver_impl::catch_with_exit_code(|| match (&out, &name) {
        (Some(o), Some(n)) if *n == want => {
            let mut cb = C { out: o.clone() };
            rustc_driver_impl::compiler_entrypoint(&args, &mut cb)
        }
        _ => rustc_driver_impl::compiler_entrypoint(&args, &mut Plain),
    });
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
