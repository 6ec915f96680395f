//! Facts extractor: a rustc driver which writes the resolved, type-checked
//! program (items, impls, types, drop-elaborated MIR, evaluated constants)
//! of the crate being compiled as JSON.  It takes no decision.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TyKind, TypingEnv};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write as _;

struct Cb {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, f: F) -> String {
    let v: Vec<String> = it.into_iter().map(f).collect();
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: RefCell<VecDeque<DefId>>,
    seen: RefCell<BTreeSet<String>>,
    adts: RefCell<BTreeMap<String, DefId>>,
    types: RefCell<BTreeMap<String, usize>>,
    tlist: RefCell<Vec<String>>,
}

impl<'tcx> D<'tcx> {
    fn key(&self, d: DefId) -> String {
        let cr = self.tcx.crate_name(d.krate);
        format!("{}{}", cr, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    /// printed path; for the local crate it starts with `crate::`
    fn nice(&self, d: DefId) -> String {
        let s = ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)));
        s
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        format!("[{},{}]", esc(&f), loc.line)
    }
    fn gargs(&self, args: ty::GenericArgsRef<'tcx>) -> String {
        self.gslice(args)
    }
    fn gslice(&self, args: &[ty::GenericArg<'tcx>]) -> String {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(self.cst(c)),
                _ => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn cst(&self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("[\"cparam\",{}]", esc(p.name.as_str())),
            ty::ConstKind::Value(v) => {
                if let Some(s) = v.try_to_leaf() {
                    let signed = matches!(v.ty.kind(), TyKind::Int(_));
                    if s.size().bits() == 0 {
                        return "[\"cval\",\"0\"]".into();
                    }
                    if signed {
                        return format!("[\"cval\",\"{}\"]", s.to_int(s.size()));
                    }
                    return format!("[\"cval\",\"{}\"]", s.to_bits(s.size()));
                }
                format!("[\"cval\",{}]", esc(&format!("{:?}", v)))
            }
            _ => format!("[\"cother\",{}]", esc(&format!("{:?}", c))),
        }
    }
    /// interned type: index in the crate's type table
    fn ty(&self, t: Ty<'tcx>) -> String {
        let s = self.ty_s(t);
        let mut m = self.types.borrow_mut();
        if let Some(i) = m.get(&s) {
            return i.to_string();
        }
        let i = m.len();
        m.insert(s.clone(), i);
        self.tlist.borrow_mut().push(s);
        i.to_string()
    }
    fn ty_s(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Bool => "[\"prim\",\"bool\"]".into(),
            TyKind::Char => "[\"prim\",\"char\"]".into(),
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Str | TyKind::Never => {
                format!("[\"prim\",{}]", esc(&t.to_string()))
            }
            TyKind::Adt(a, args) => {
                let k = self.key(a.did());
                self.adts.borrow_mut().entry(k.clone()).or_insert(a.did());
                format!("[\"adt\",{},{}]", esc(&k), self.gargs(args))
            }
            TyKind::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            TyKind::Ref(_, t, m) => format!("[\"ref\",{},{}]", m.is_mut(), self.ty(*t)),
            TyKind::RawPtr(t, m) => format!("[\"ptr\",{},{}]", m.is_mut(), self.ty(*t)),
            TyKind::Tuple(ts) => format!("[\"tuple\",{}]", list(ts.iter(), |t| self.ty(t))),
            TyKind::Array(t, n) => format!("[\"array\",{},{}]", self.ty(*t), self.cst(*n)),
            TyKind::Slice(t) => format!("[\"slice\",{}]", self.ty(*t)),
            TyKind::Closure(d, args) => {
                let a = args.as_closure();
                format!("[\"closure\",{},{}]", esc(&self.key(*d)), self.gslice(a.parent_args()))
            }
            TyKind::FnDef(d, args) => {
                let args = args.skip_binder();
                format!("[\"fndef\",{},{}]", esc(&self.key(*d)), self.gargs(args))
            }
            TyKind::Alias(_, a) => {
                let d: DefId = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                format!("[\"alias\",{},{}]", esc(&self.key(d)), self.gargs(a.args))
            }
            _ => format!("[\"other\",{}]", esc(&self.tystr(t))),
        }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(t.to_string()))
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.as_usize()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, i) => format!("[\"d\",{}]", i.as_usize()),
                _ => "\"?\"".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }

    fn enqueue(&self, d: DefId) {
        if d.is_local() {
            return;
        }
        let cr = self.tcx.crate_name(d.krate);
        let cr = cr.as_str();
        let path = self.tcx.def_path(d).to_string_no_crate_verbose();
        let ok = match cr {
            "core" => path.starts_with("::option") || path.starts_with("::result")
                || path.starts_with("::ops::control_flow") || path.starts_with("::bool") || path.starts_with("::ops::function"),
            "either" => true,
            "mpstthree" => true,
            _ => false,
        };
        if ok {
            self.queue.borrow_mut().push_back(d);
        }
    }

    fn fnref(&self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut res = String::from("null");
        let args = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, args) {
                match i.def {
                    ty::InstanceKind::Item(rd) => {
                        self.enqueue(rd);
                        res = format!("[\"item\",{},{}]", esc(&self.key(rd)), self.gargs(i.args));
                    }
                    ty::InstanceKind::Virtual(..) => res = "[\"virtual\"]".into(),
                    other => res = format!("[\"shim\",{}]", esc(&format!("{:?}", other).chars().take(60).collect::<String>())),
                }
            }
        }
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => esc(&self.nice(t)),
            None => "null".into(),
        };
        format!(
            "[\"fn\",{},{},{},{},{}]",
            esc(&self.key(d)),
            esc(&self.nice(d)),
            tr,
            self.gargs(args),
            res
        )
    }

    fn bytes_of_ptr(&self, s: mir::interpret::Scalar, len: Option<u64>) -> Option<Vec<u8>> {
        let p = s.to_pointer(&self.tcx);
        let (prov, off) = p.into_raw_parts();
        let prov = prov?;
        match self.tcx.try_get_global_alloc(prov.alloc_id())? {
            mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let n = a.len();
                let st = off.bytes_usize();
                let en = match len {
                    Some(l) => st + l as usize,
                    None => n,
                };
                if en > n {
                    return None;
                }
                if !a.provenance().ptrs().is_empty() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(st..en).to_vec())
            }
            _ => None,
        }
    }

    fn cval(&self, cv: ConstValue, t: Ty<'tcx>) -> String {
        let ts = self.ty(t);
        match cv {
            ConstValue::ZeroSized => format!("[\"zst\",{}]", ts),
            ConstValue::Scalar(s) => {
                if let mir::interpret::Scalar::Int(i) = s {
                    if matches!(t.kind(), TyKind::Int(_)) {
                        return format!("[\"int\",\"{}\",{}]", i.to_int(i.size()), ts);
                    }
                    return format!("[\"int\",\"{}\",{}]", i.to_bits(i.size()), ts);
                }
                if let TyKind::Ref(_, inner, _) = t.kind() {
                    if let TyKind::Array(e, _) = inner.kind() {
                        if matches!(e.kind(), TyKind::Uint(ty::UintTy::U8)) {
                            if let Some(b) = self.bytes_of_ptr(s, None) {
                                return format!("[\"bytes\",{},{}]", list(b, |x| x.to_string()), ts);
                            }
                        }
                    }
                }
                {
                    let p = s.to_pointer(&self.tcx);
                    if let (Some(prov), _) = p.into_raw_parts() {
                        match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(mir::interpret::GlobalAlloc::Static(d)) => {
                                return format!("[\"static\",{},{}]", esc(&self.key(d)), ts);
                            }
                            Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                                // nested: array of &str etc.
                                let a = a.inner();
                                return format!("[\"alloc\",{},{}]", a.len(), ts);
                            }
                            _ => {}
                        }
                    }
                }
                format!("[\"ptrconst\",{}]", ts)
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    if let Ok(s) = std::str::from_utf8(b) {
                        if matches!(t.kind(), TyKind::Ref(_, i, _) if matches!(i.kind(), TyKind::Str)) {
                            return format!("[\"str\",{}]", esc(s));
                        }
                    }
                    return format!("[\"bytes\",{},{}]", list(b, |x| x.to_string()), ts);
                }
                format!("[\"slice\",{}]", ts)
            }
            ConstValue::Indirect { .. } => format!("[\"indirect\",{}]", ts),
        }
    }

    fn constant(&self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let t = c.ty();
        if let TyKind::FnDef(d, args) = t.kind() {
            return self.fnref(env, *d, args.skip_binder());
        }
        match c {
            Const::Ty(_, ct) => {
                if let ty::ConstKind::Param(p) = ct.kind() {
                    return format!("[\"cparam\",{},{}]", esc(p.name.as_str()), self.ty(t));
                }
                match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                    Ok(v) => self.cval(v, t),
                    Err(_) => format!("[\"cother\",{}]", self.ty(t)),
                }
            }
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    return format!(
                        "[\"promoted\",{},{},{},{}]",
                        esc(&self.key(u.def)),
                        p.as_usize(),
                        self.gargs(u.args),
                        self.ty(t)
                    );
                }
                match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                    Ok(v) => {
                        let s = self.cval(v, t);
                        if s.starts_with("[\"indirect") || s.starts_with("[\"alloc") || s.starts_with("[\"ptrconst") || s.starts_with("[\"slice") {
                            return format!("[\"constitem\",{},{},{}]", esc(&self.key(u.def)), self.gargs(u.args), self.ty(t));
                        }
                        s
                    }
                    Err(_) => format!("[\"constitem\",{},{},{}]", esc(&self.key(u.def)), self.gargs(u.args), self.ty(t)),
                }
            }
            Const::Val(v, _) => self.cval(*v, t),
        }
    }

    fn operand(&self, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(env, &c.const_)),
            _ => "[\"rtc\"]".into(),
        }
    }

    fn rvalue(&self, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(env, o)),
            Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", self.operand(env, o), self.cst(*c)),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.key(*d))),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{:?}", k)),
                self.operand(env, o),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(b, x) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", b)),
                self.operand(env, &x.0),
                self.operand(env, &x.1)
            ),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.operand(env, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let kd = self.key(*d);
                        self.adts.borrow_mut().entry(kd.clone()).or_insert(*d);
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            esc(&kd),
                            v.as_usize(),
                            self.gargs(a),
                            f.map(|f| f.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        format!("[\"closure\",{},{}]", esc(&self.key(*d)), self.gslice(a.as_closure().parent_args()))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, list(ops.iter(), |o| self.operand(env, o)))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            _ => "[\"other\"]".into(),
        }
    }

    fn body(&self, env: TypingEnv<'tcx>, b: &Body<'tcx>) -> String {
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut s = String::new();
        let _ = write!(s, "{{\"argc\":{},\"spread\":{},\"locals\":[", b.arg_count,
            b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()));
        for (i, l) in b.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                s.push(',');
            }
            let n = names.get(&i.as_usize()).map(|n| esc(n)).unwrap_or("null".into());
            let _ = write!(s, "[{},{}]", self.ty(l.ty), n);
        }
        s.push_str("],\"blocks\":[");
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                s.push(',');
            }
            if bb.is_cleanup {
                s.push_str("null");
                continue;
            }
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        st.push(format!("[\"=\",{},{}]", self.place(&a.0), self.rvalue(env, &a.1)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = list(targets.iter(), |(v, t)| format!("[\"{}\",{}]", v, t.as_usize()));
                    format!(
                        "[\"switch\",{},{},{}]",
                        self.operand(env, discr),
                        v,
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "[\"call\",{},{},{},{},{}]",
                    self.operand(env, func),
                    list(args.iter(), |a| self.operand(env, &a.node)),
                    self.place(destination),
                    target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                    ln
                ),
                TerminatorKind::TailCall { func, args, .. } => format!(
                    "[\"tailcall\",{},{},{}]",
                    self.operand(env, func),
                    list(args.iter(), |a| self.operand(env, &a.node)),
                    ln
                ),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},{},\"{}\",{}]",
                        self.operand(env, cond),
                        expected,
                        target.as_usize(),
                        m,
                        ln
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                k => format!("[\"other\",{}]", esc(&format!("{:?}", k).chars().take(60).collect::<String>())),
            };
            let _ = write!(s, "[[{}],{}]", st.join(","), ts);
        }
        s.push_str("]}");
        s
    }

    fn generics(&self, d: DefId) -> String {
        let mut v = vec![];
        let mut chain = vec![];
        let mut cur = Some(d);
        while let Some(c) = cur {
            let g = self.tcx.generics_of(c);
            chain.push(g);
            cur = g.parent;
        }
        for g in chain.iter().rev() {
            for p in g.own_params.iter() {
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    ty::GenericParamDefKind::Type { .. } | ty::GenericParamDefKind::Const { .. } => {
                        v.push(p.name.to_string())
                    }
                }
            }
        }
        list(v, |x| esc(&x))
    }

    fn func(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let k = tcx.def_kind(d);
        let mut s = String::new();
        let _ = write!(s, "{{\"nice\":{},\"name\":{},\"kind\":\"{:?}\",\"span\":{}", esc(&self.nice(d)),
            esc(&tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default()), k, self.span(tcx.def_span(d)));
        let closure = tcx.is_closure_like(d);
        let gd = if closure { tcx.typeck_root_def_id(d) } else { d };
        let _ = write!(s, ",\"generics\":{}", self.generics(gd));
        if let Some(i) = tcx.impl_of_assoc(d) {
            let _ = write!(s, ",\"impl\":{}", esc(&self.key(i)));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.nice(t)));
        }
        if let DefKind::AssocFn = k {
            if let Some(t) = tcx.trait_item_of(d) {
                let _ = write!(s, ",\"trait_item\":{}", esc(&self.nice(t)));
            }
        }
        if matches!(k, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder().skip_binder();
            let _ = write!(
                s,
                ",\"vis\":{},\"unsafe\":{},\"inputs\":{},\"output\":{}",
                tcx.visibility(d).is_public(),
                sig.safety().is_unsafe(),
                list(sig.inputs().iter(), |t| self.ty(*t)),
                self.ty(sig.output())
            );
        }
        if closure {
            if let TyKind::Closure(_, a) = tcx.type_of(d).skip_binder().kind() {
                let c = a.as_closure();
                let _ = write!(s, ",\"upvars\":{},\"ckind\":\"{:?}\"", list(c.upvar_tys().iter(), |t| self.ty(t)), c.kind());
            }
        }
        let has = match k {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.is_mir_available(d),
            _ => false,
        };
        if has {
            let env = TypingEnv::post_analysis(tcx, gd);
            let b = tcx.optimized_mir(d);
            let _ = write!(s, ",\"body\":{}", self.body(env, b));
            let ps = tcx.promoted_mir(d);
            let _ = write!(s, ",\"promoted\":{}", list(ps.iter(), |p| self.body(env, p)));
        } else if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) && d.is_local() {
            let env = TypingEnv::post_analysis(tcx, d);
            if !matches!(k, DefKind::AssocConst { .. }) || tcx.impl_of_assoc(d).is_some() {
                let b = tcx.mir_for_ctfe(d);
                let _ = write!(s, ",\"body\":{}", self.body(env, b));
                let ps = tcx.promoted_mir(d);
                let _ = write!(s, ",\"promoted\":{}", list(ps.iter(), |p| self.body(env, p)));
            }
        }
        s.push('}');
        s
    }

    fn imp(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let mut s = String::new();
        let _ = write!(s, "{{\"span\":{},\"generics\":{},\"self\":{}", self.span(tcx.def_span(d)), self.generics(d),
            self.ty(tcx.type_of(d).skip_binder()));
        if tcx.impl_opt_trait_ref(d).is_some() {
            let tr = tcx.impl_trait_ref(d).skip_binder();
            let _ = write!(
                s,
                ",\"trait\":{},\"targs\":{},\"polarity\":\"{:?}\",\"unsafe\":{}",
                esc(&self.nice(tr.def_id)),
                self.gargs(tr.args),
                tcx.impl_polarity(d),
                tcx.impl_trait_header(d).safety.is_unsafe()
            );
        }
        let preds = tcx.clauses_of(d);
        let mut ps = vec![];
        for (c, _) in preds.clauses.iter() {
            ps.push(esc(&ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(c.to_string()))));
        }
        let _ = write!(s, ",\"preds\":[{}]", ps.join(","));
        let mut at = vec![];
        let mut items = vec![];
        for it in tcx.associated_items(d).in_definition_order() {
            match it.kind {
                ty::AssocKind::Type { .. } => {
                    at.push(format!("{}:{}", esc(it.name().as_str()), self.ty(tcx.type_of(it.def_id).skip_binder())));
                }
                _ => items.push(self.key(it.def_id)),
            }
        }
        let _ = write!(s, ",\"types\":{{{}}},\"items\":{}}}", at.join(","), list(items, |x| esc(&x)));
        s
    }

    fn adt(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut s = String::new();
        let _ = write!(s, "{{\"nice\":{},\"span\":{},\"generics\":{},\"kind\":\"{}\",\"local\":{},\"variants\":[", esc(&self.nice(d)),
            if d.is_local() { self.span(tcx.def_span(d)) } else { "null".into() }, self.generics(d),
            if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" }, d.is_local());
        let discr: BTreeMap<usize, String> = if a.is_enum() {
            a.discriminants(tcx).map(|(i, x)| (i.as_usize(), x.val.to_string())).collect()
        } else {
            BTreeMap::new()
        };
        for (i, v) in a.variants().iter_enumerated() {
            if i.as_usize() > 0 {
                s.push(',');
            }
            let fs = list(v.fields.iter(), |f| {
                let t = if d.is_local() { self.ty(tcx.type_of(f.did).skip_binder()) } else { "null".into() };
                format!("[{},{},{}]", esc(f.name.as_str()), f.vis.is_public(), t)
            });
            let _ = write!(s, "[{},\"{}\",{}]", esc(v.name.as_str()), discr.get(&i.as_usize()).cloned().unwrap_or("0".into()), fs);
        }
        s.push_str("]}");
        s
    }
}

struct Unsafe<'a, 'tcx> {
    d: &'a D<'tcx>,
    out: Vec<String>,
}
impl<'a, 'tcx> Visitor<'tcx> for Unsafe<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.d.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let owner = self.d.tcx.hir_enclosing_body_owner(b.hir_id);
            self.out.push(format!("[{},{}]", esc(&self.d.key(owner.to_def_id())), self.d.span(b.span)));
        }
        intravisit::walk_block(self, b);
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let d = D {
            tcx,
            queue: Default::default(),
            seen: Default::default(),
            adts: Default::default(),
            types: Default::default(),
            tlist: Default::default(),
        };
        let mut fns: Vec<String> = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut ids: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        ids.extend(tcx.hir_body_owners());
        for id in ids {
            let id: LocalDefId = id;
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let k = d.key(did);
                    if d.seen.borrow_mut().insert(k.clone()) {
                        fns.push(format!("{}:{}", esc(&k), d.func(did)));
                    }
                }
                DefKind::Impl { .. } => impls.push(format!("{}:{}", esc(&d.key(did)), d.imp(did))),
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    d.adts.borrow_mut().entry(d.key(did)).or_insert(did);
                }
                DefKind::Trait => traits.push(format!("{}:[{},{}]", esc(&d.key(did)), esc(&d.nice(did)),
                    list(tcx.associated_items(did).in_definition_order(), |i| esc(&d.key(i.def_id))))),
                _ => {}
            }
        }
        let externs = std::env::var("VERIF_EXTERN").is_ok();
        if externs {
            loop {
                let n = d.queue.borrow_mut().pop_front();
                let Some(n) = n else { break };
                let k = d.key(n);
                if !d.seen.borrow_mut().insert(k.clone()) {
                    continue;
                }
                fns.push(format!("{}:{}", esc(&k), d.func(n)));
            }
        }
        let mut u = Unsafe { d: &d, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut u);
        let uns = u.out.join(",");
        // ADTs may mention further ADTs: iterate to a fixpoint
        let mut done: BTreeMap<String, String> = BTreeMap::new();
        loop {
            let todo: Vec<(String, DefId)> =
                d.adts.borrow().iter().filter(|(k, _)| !done.contains_key(*k)).map(|(k, v)| (k.clone(), *v)).collect();
            if todo.is_empty() {
                break;
            }
            for (k, v) in todo {
                let s = d.adt(v);
                done.insert(k, s);
            }
        }
        let adts: Vec<String> = done.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let out = format!(
            "{{\"crate\":{},\"fns\":{{{}}},\n\"impls\":{{{}}},\n\"traits\":{{{}}},\n\"unsafe\":[{}],\n\"adts\":{{{}}},\n\"types\":[{}]}}",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            fns.join(",\n"),
            impls.join(",\n"),
            traits.join(",\n"),
            uns,
            adts.join(",\n"),
            d.tlist.borrow().join(",")
        );
        std::fs::write(&self.out, out).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let name = std::env::var("CARGO_CRATE_NAME").unwrap_or_default();
    let want = std::env::var("VERIF_CRATES").unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    let dump = !test && want.split(',').any(|c| c == name && !c.is_empty());
    if dump {
        args.push("-Zmir-opt-level=0".into());
        args.push("--cap-lints=allow".into());
        let out = format!("{}/{}.json", std::env::var("VERIF_OUT").unwrap(), name);
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
        eprintln!("cannot run {}: {e}", args[0]);
        std::process::exit(101);
    }
}
