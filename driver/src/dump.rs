use crate::json::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_span::Span;
use std::collections::HashMap;

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adt_seen: HashMap<DefId, ()>,
    env: TypingEnv<'tcx>,
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    // Clone all bodies before any query steals them.
    let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
    for o in &owners {
        let kind = tcx.def_kind(*o);
        if matches!(kind, DefKind::AnonConst) { continue; }
        let b = tcx.mir_built(*o).borrow().clone();
        bodies.push((*o, b));
    }
    let mut d = D { tcx, types: vec![], type_ix: HashMap::new(), adts: vec![], adt_seen: HashMap::new(),
        env: TypingEnv::fully_monomorphized() };
    let fns: Vec<J> = bodies.iter().map(|(o, b)| d.body(*o, b)).collect();
    let items: Vec<J> = d.items();
    let impls: Vec<J> = d.impls();
    let top = J::Obj(vec![
        ("crate", s(krate.clone())),
        ("bodies", J::Arr(fns)),
        ("items", J::Arr(items)),
        ("impls", J::Arr(impls)),
        ("types", J::Arr(std::mem::take(&mut d.types))),
        ("adts", J::Arr(std::mem::take(&mut d.adts))),
    ]);
    let mut out = String::new();
    top.write(&mut out);
    let _ = std::fs::create_dir_all(dir);
    let tmp = format!("{}/{}.{}.tmp", dir, krate, std::process::id());
    std::fs::write(&tmp, out).unwrap();
    std::fs::rename(&tmp, format!("{}/{}.json", dir, krate)).unwrap();
}

impl<'tcx> D<'tcx> {
    fn key(&self, def: DefId) -> String {
        let c = self.tcx.crate_name(def.krate).to_string();
        format!("{}{}", c, self.tcx.def_path(def).to_string_no_crate_verbose())
    }
    fn path(&self, def: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(def))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn args(&mut self, a: &[ty::GenericArg<'tcx>]) -> J {
        let v: Vec<J> = a.iter().filter_map(|g| {
            if let Some(t) = g.as_type() { Some(J::Obj(vec![("t", n(self.ty(t) as i128))])) }
            else if let Some(c) = g.as_const() { Some(self.tyconst(c)) }
            else { None }
        }).collect();
        J::Arr(v)
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => J::Obj(vec![("cp", s(p.name.to_string()))]),
            ty::ConstKind::Value(v) => {
                match v.try_to_leaf() {
                    Some(l) => J::Obj(vec![("cv", n(l.to_bits_unchecked() as i128))]),
                    None => J::Obj(vec![("cx", s(format!("{:?}", c)))]),
                }
            }
            _ => {
                // anonymous constants such as array lengths
                let mc = mir::Const::Ty(self.tcx.types.usize, c);
                match mc.try_eval_bits(self.tcx, self.env) {
                    Some(b) => J::Obj(vec![("cv", n(b as i128))]),
                    None => J::Obj(vec![("cx", s(format!("{:?}", c)))]),
                }
            }
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ix.get(&t) { return *i; }
        let ix = self.types.len();
        self.types.push(J::Null);
        self.type_ix.insert(t, ix);
        let text = with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Adt(def, a) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("key", s(self.key(def.did()))));
                let aa = self.args(a);
                o.push(("args", aa));
                self.adt(*def);
            }
            ty::Array(e, len) => {
                o.push(("k", s("array")));
                let i = self.ty(*e);
                o.push(("e", n(i as i128)));
                let l = self.tyconst(*len);
                o.push(("len", l));
            }
            ty::Slice(e) => { o.push(("k", s("slice"))); let i = self.ty(*e); o.push(("e", n(i as i128))); }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr"))); let i = self.ty(*e); o.push(("e", n(i as i128)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref"))); let i = self.ty(*e); o.push(("e", n(i as i128)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| n(self.ty(x) as i128)).collect();
                o.push(("ts", J::Arr(v)));
            }
            ty::FnDef(def, a) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path((*def).into()))));
                o.push(("key", s(self.key((*def).into()))));
                let a = a.skip_binder();
                let aa = self.args(a);
                o.push(("args", aa));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(def, a) => {
                o.push(("k", s("closure")));
                o.push(("key", s(self.key((*def).into()))));
                let aa = self.args(a.as_closure().parent_args());
                o.push(("args", aa));
                let ups: Vec<J> = a.as_closure().upvar_tys().iter().map(|x| n(self.ty(x) as i128)).collect();
                o.push(("upvars", J::Arr(ups)));
            }
            ty::Coroutine(def, a) => {
                o.push(("k", s("coroutine")));
                o.push(("key", s(self.key((*def).into()))));
                let aa = self.args(a.as_coroutine().parent_args());
                o.push(("args", aa));
                let ups: Vec<J> = a.as_coroutine().upvar_tys().iter().map(|x| n(self.ty(x) as i128)).collect();
                o.push(("upvars", J::Arr(ups)));
            }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.to_string()))); }
            ty::Alias(_, a) => {
                o.push(("k", s("alias")));
                o.push(("dbg", s(format!("{:?}", a.kind))));
                let aa = self.args(a.args);
                o.push(("args", aa));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        o.push(("s", s(text)));
        self.types[ix] = J::Obj(o);
        ix
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adt_seen.contains_key(&def.did()) { return; }
        self.adt_seen.insert(def.did(), ());
        let mut vs = vec![];
        let discrs: Vec<(u128, usize)> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(i, d)| (d.val, i.as_usize())).collect()
        } else { vec![(0, 0)] };
        let local = def.did().krate == LOCAL_CRATE || self.tcx.crate_name(def.did().krate).as_str().starts_with("jester");
        for (i, v) in def.variants().iter().enumerate() {
            let d = discrs.iter().find(|x| x.1 == i).map(|x| x.0).unwrap_or(i as u128);
            let mut fields = vec![];
            for f in v.fields.iter() {
                let mut fo = vec![("name", s(f.name.to_string())), ("pub", J::Bool(f.vis.is_public()))];
                if local {
                    let raw = self.tcx.type_of(f.did).instantiate_identity();
                    let env = TypingEnv::non_body_analysis(self.tcx, def.did());
                    let fty = self.tcx.try_normalize_erasing_regions(env, raw.clone()).unwrap_or_else(|_| raw.skip_norm_wip());
                    fo.push(("ty", n(self.ty(fty) as i128)));
                }
                fields.push(J::Obj(fo));
            }
            vs.push(J::Obj(vec![("name", s(v.name.to_string())), ("d", n(d as i128)), ("fields", J::Arr(fields))]));
        }
        let gens: Vec<J> = ty::GenericArgs::identity_for_item(self.tcx, def.did()).iter().filter_map(|g| {
            if let Some(t) = g.as_type() { Some(s(t.to_string())) } else if let Some(c) = g.as_const() { Some(s(format!("{}", c))) } else { None } }).collect();
        let a = J::Obj(vec![("key", s(self.key(def.did()))), ("path", s(self.path(def.did()))),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("generics", J::Arr(gens)), ("variants", J::Arr(vs))]);
        self.adts.push(a);
    }
    fn generics(&mut self, def: DefId) -> J {
        let def = if self.tcx.is_closure_like(def) { self.tcx.typeck_root_def_id(def) } else { def };
        let v: Vec<J> = ty::GenericArgs::identity_for_item(self.tcx, def).iter().filter_map(|g| {
            if let Some(t) = g.as_type() { Some(s(t.to_string())) }
            else if let Some(c) = g.as_const() { Some(s(format!("{}", c))) }
            else { None }
        }).collect();
        J::Arr(v)
    }
    fn body(&mut self, o: LocalDefId, b: &Body<'tcx>) -> J {
        let def = o.to_def_id();
        self.env = TypingEnv::non_body_analysis(self.tcx, self.tcx.typeck_root_def_id(def));
        let kind = format!("{:?}", self.tcx.def_kind(def));
        let coroutine = self.tcx.is_coroutine(def);
        let locals: Vec<J> = b.local_decls.iter().map(|l| n(self.ty(l.ty) as i128)).collect();
        let mut names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(arr([n(p.local.as_usize() as i128), s(v.name.to_string())]));
                }
            }
        }
        let blocks: Vec<J> = b.basic_blocks.iter().map(|bb| {
            let st: Vec<J> = bb.statements.iter().filter_map(|x| self.stmt(x)).collect();
            let t = self.term(bb.terminator(), b);
            J::Obj(vec![("s", J::Arr(st)), ("t", t), ("c", J::Bool(bb.is_cleanup))])
        }).collect();
        let g = self.generics(def);
        let parent = self.tcx.opt_parent(def).map(|p| s(self.key(p))).unwrap_or(J::Null);
        J::Obj(vec![
            ("key", s(self.key(def))), ("path", s(self.path(def))), ("kind", s(kind)),
            ("coroutine", J::Bool(coroutine)), ("parent", parent),
            ("generics", g), ("argc", n(b.arg_count as i128)), ("locals", J::Arr(locals)),
            ("names", J::Arr(names)), ("blocks", J::Arr(blocks)), ("span", self.span(b.span)),
            ("spread", b.spread_arg.map(|l| n(l.as_usize() as i128)).unwrap_or(J::Null)),
        ])
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let pr: Vec<J> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => s("*"),
            ProjectionElem::Field(f, t) => arr([s("f"), n(f.as_usize() as i128), n(self.ty(t) as i128)]),
            ProjectionElem::Index(l) => arr([s("i"), n(l.as_usize() as i128)]),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                arr([s("ci"), n(offset as i128), n(min_length as i128), J::Bool(from_end)]),
            ProjectionElem::Subslice { from, to, from_end } =>
                arr([s("ss"), n(from as i128), n(to as i128), J::Bool(from_end)]),
            ProjectionElem::Downcast(nm, v) => arr([s("d"), n(v.as_usize() as i128), nm.map(|x| s(x.to_string())).unwrap_or(J::Null)]),
            other => arr([s("?"), s(format!("{:?}", other))]),
        }).collect();
        arr([n(p.local.as_usize() as i128), J::Arr(pr)])
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => arr([s("cp"), self.place(p)]),
            Operand::Move(p) => arr([s("mv"), self.place(p)]),
            Operand::Constant(c) => arr([s("c"), self.constant(c)]),
            other => arr([s("?"), s(format!("{:?}", other))]),
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = vec![("ty", n(ti as i128))];
        if let ty::FnDef(def, a) = t.kind() {
            let a = a.skip_binder();
            let f = self.callee((*def).into(), a);
            o.push(("fn", f));
            return J::Obj(o);
        }
        match c.const_ {
            mir::Const::Ty(_, ct) => { let v = self.tyconst(ct); o.push(("tc", v)); }
            mir::Const::Unevaluated(u, _) => {
                o.push(("item", s(self.key(u.def))));
                o.push(("path", s(self.path(u.def))));
                let aa = self.args(u.args);
                o.push(("args", aa));
                if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                    if let Some(b) = c.const_.try_eval_bits(self.tcx, self.env) { o.push(("bits", big(b))); }
                }
            }
            mir::Const::Val(v, _) => {
                if let Some(b) = v.try_to_scalar_int() {
                    o.push(("bits", big(b.to_bits_unchecked())));
                } else if let (true, Some(b)) = (matches!(t.peel_refs().kind(), ty::Str | ty::Slice(_)), if matches!(t.peel_refs().kind(), ty::Str | ty::Slice(_)) { v.try_get_slice_bytes_for_diagnostics(self.tcx) } else { None }) {
                    match t.peel_refs().kind() {
                        ty::Str => o.push(("str", s(String::from_utf8_lossy(b).to_string()))),
                        _ => o.push(("bytes", arr(b.iter().map(|x| n(*x))))),
                    }
                } else if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    let aid = p.provenance.alloc_id();
                    use rustc_middle::mir::interpret::GlobalAlloc;
                    match self.tcx.try_get_global_alloc(aid) {
                        Some(GlobalAlloc::Static(d)) => o.push(("static", s(self.key(d)))),
                        Some(GlobalAlloc::Memory(m)) => {
                            let m = m.inner();
                            let len = m.len();
                            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                            o.push(("mem", arr(b.iter().map(|x| n(*x)))));
                        }
                        _ => o.push(("dbg", s(format!("{:?}", v)))),
                    }
                } else if let ConstValue::ZeroSized = v {
                    o.push(("zst", J::Bool(true)));
                } else {
                    o.push(("dbg", s(format!("{:?}", v))));
                }
            }
        }
        J::Obj(o)
    }
    fn callee(&mut self, def: DefId, a: GenericArgsRef<'tcx>) -> J {
        let mut o = vec![("key", s(self.key(def))), ("path", s(self.path(def)))];
        let aa = self.args(a);
        o.push(("args", aa));
        if let Some(tr) = self.tcx.trait_of_assoc(def) {
            o.push(("trait", s(self.path(tr))));
            o.push(("name", s(self.tcx.item_name(def).to_string())));
        } else if let Some(im) = self.tcx.impl_of_assoc(def) {
            let st = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self", n(self.ty(st) as i128)));
            o.push(("name", s(self.tcx.item_name(def).to_string())));
        }
        if matches!(self.tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, self.env, def, a) {
                if let ty::InstanceKind::Item(rd) = inst.def {
                    if rd != def {
                        let ra = self.args(inst.args);
                        o.push(("rkey", s(self.key(rd))));
                        o.push(("rpath", s(self.path(rd))));
                        o.push(("rargs", ra));
                    }
                }
            }
            if self.tcx.fn_sig(def).skip_binder().safety() == rustc_hir::Safety::Unsafe { o.push(("unsafe", J::Bool(true))); }
        }
        J::Obj(o)
    }
    fn stmt(&mut self, st: &Statement<'tcx>) -> Option<J> {
        let sp = self.span(st.source_info.span);
        Some(match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = r { return None; }
                let pl = self.place(p);
                let rv = self.rvalue(r);
                arr([s("="), pl, rv, sp])
            }
            StatementKind::SetDiscriminant { place, variant_index } =>
                arr([s("sd"), self.place(place), n(variant_index.as_usize() as i128), sp]),
            StatementKind::Intrinsic(i) => arr([s("intr"), s(format!("{:?}", i)), sp]),
            StatementKind::StorageDead(l) => arr([s("dead"), n(l.as_usize() as i128)]),
            _ => return None,
        })
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => arr([s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => { let a = self.operand(o); let l = self.tyconst(*c); arr([s("rep"), a, l]) }
            Rvalue::Ref(_, k, p) => arr([s("ref"), self.place(p), J::Bool(matches!(k, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(_, p) => arr([s("raw"), self.place(p)]),
            Rvalue::Cast(k, o, t) => { let a = self.operand(o); let src = self.opty(o); arr([s("cast"), s(format!("{:?}", k)), a, n(self.ty(*t) as i128), src]) }
            Rvalue::BinaryOp(op, b) => { let x = self.operand(&b.0); let y = self.operand(&b.1); arr([s("bin"), s(format!("{:?}", op)), x, y]) }
            Rvalue::UnaryOp(op, o) => { let x = self.operand(o); arr([s("un"), s(format!("{:?}", op)), x]) }
            Rvalue::Discriminant(p) => arr([s("disc"), self.place(p)]),
            Rvalue::CopyForDeref(p) => { let x = self.place(p); arr([s("use"), arr([s("cp"), x])]) }
            Rvalue::ThreadLocalRef(d) => arr([s("tls"), s(self.key(*d))]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => arr([s("array"), n(self.ty(*t) as i128)]),
                    AggregateKind::Tuple => arr([s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let aa = self.args(a);
                        arr([s("adt"), s(self.key(*d)), n(v.as_usize() as i128), aa, f.map(|x| n(x.as_usize() as i128)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, a) => { let aa = self.args(a.as_closure().parent_args()); arr([s("closure"), s(self.key(*d)), aa]) }
                    AggregateKind::Coroutine(d, a) => { let aa = self.args(a.as_coroutine().parent_args()); arr([s("coroutine"), s(self.key(*d)), aa]) }
                    other => arr([s("?"), s(format!("{:?}", other))]),
                };
                let v: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                arr([s("agg"), kk, J::Arr(v)])
            }
            other => arr([s("?"), s(format!("{:?}", other))]),
        }
    }
    fn opty(&mut self, _o: &Operand<'tcx>) -> J { J::Null }
    fn term(&mut self, t: &Terminator<'tcx>, _b: &Body<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => arr([s("goto"), n(target.as_usize() as i128)]),
            TerminatorKind::FalseEdge { real_target, .. } => arr([s("goto"), n(real_target.as_usize() as i128)]),
            TerminatorKind::FalseUnwind { real_target, .. } => arr([s("goto"), n(real_target.as_usize() as i128)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dd = self.operand(discr);
                let v: Vec<J> = targets.iter().map(|(x, bb)| arr([big(x), n(bb.as_usize() as i128)])).collect();
                arr([s("sw"), dd, J::Arr(v), n(targets.otherwise().as_usize() as i128), sp])
            }
            TerminatorKind::Return => arr([s("ret"), sp]),
            TerminatorKind::Unreachable => arr([s("unreach")]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => arr([s("resume")]),
            TerminatorKind::Drop { place, target, .. } => arr([s("drop"), self.place(place), n(target.as_usize() as i128), sp]),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.operand(func);
                let v: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                let dst = self.place(destination);
                arr([s("call"), f, J::Arr(v), dst, target.map(|x| n(x.as_usize() as i128)).unwrap_or(J::Null), sp])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(cond);
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow Neg".to_string(),
                    AssertKind::DivisionByZero(_) => "div by zero".to_string(),
                    AssertKind::RemainderByZero(_) => "rem by zero".to_string(),
                    other => format!("{:?}", other).split(' ').next().unwrap_or("").to_string(),
                };
                arr([s("assert"), c, J::Bool(*expected), s(m), n(target.as_usize() as i128), sp])
            }
            TerminatorKind::Yield { resume, value, resume_arg, .. } => { let v = self.operand(value); arr([s("yield"), v, n(resume.as_usize() as i128), self.place(resume_arg), sp]) }
            other => arr([s("?"), s(format!("{:?}", other)), sp]),
        }
    }
    fn items(&mut self) -> Vec<J> {
        let mut v = vec![];
        let ids: Vec<LocalDefId> = self.tcx.hir_crate_items(()).definitions().collect();
        for id in ids {
            let def = id.to_def_id();
            let kind = self.tcx.def_kind(def);
            let mut o = vec![("key", s(self.key(def))), ("path", s(self.path(def))), ("kind", s(format!("{:?}", kind))),
                ("span", self.span(self.tcx.def_span(def)))];
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = self.tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
                    let sig = sig.skip_binder();
                    let ins: Vec<J> = sig.inputs().iter().map(|t| n(self.ty(*t) as i128)).collect();
                    o.push(("inputs", J::Arr(ins)));
                    o.push(("output", n(self.ty(sig.output()) as i128)));
                    o.push(("unsafe", J::Bool(sig.safety() == rustc_hir::Safety::Unsafe)));
                    let preds = self.tcx.clauses_of(def).instantiate_identity(self.tcx);
                    let ps: Vec<J> = preds.clauses.iter().map(|p| s(with_no_trimmed_paths!(format!("{:?}", p)))).collect();
                    o.push(("preds", J::Arr(ps)));
                    o.push(("pub", J::Bool(self.tcx.effective_visibilities(()).is_reachable(id))));
                    o.push(("has_body", J::Bool(self.tcx.hir_maybe_body_owned_by(id).is_some())));
                    if let Some(im) = self.tcx.impl_of_assoc(def) { o.push(("impl", s(self.key(im)))); }
                    if let Some(tr) = self.tcx.trait_of_assoc(def) { o.push(("of_trait", s(self.path(tr)))); }
                    if self.tcx.opt_parent(def).is_some() { o.push(("name", s(self.tcx.item_name(def).to_string()))); }
                    v.push(J::Obj(o));
                }
                DefKind::Struct | DefKind::Enum => {
                    self.adt(self.tcx.adt_def(def));
                    o.push(("pub", J::Bool(self.tcx.effective_visibilities(()).is_reachable(id))));
                    v.push(J::Obj(o));
                }
                DefKind::Trait => {
                    let its: Vec<J> = self.tcx.associated_items(def).in_definition_order().map(|a|
                        arr([s(a.opt_name().map(|x| x.to_string()).unwrap_or_default()), s(self.key(a.def_id)), J::Bool(a.defaultness(self.tcx).has_value())])).collect();
                    o.push(("items", J::Arr(its)));
                    let g = self.generics(def);
                    o.push(("generics", g));
                    v.push(J::Obj(o));
                }
                DefKind::Static { mutability, .. } => {
                    o.push(("kind", s("Static")));
                    o.push(("mut", J::Bool(mutability.is_mut())));
                    let t = self.tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    o.push(("ty", n(self.ty(t) as i128)));
                    v.push(J::Obj(o));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => v.push(J::Obj(o)),
                _ => {}
            }
        }
        v
    }
    fn impls(&mut self) -> Vec<J> {
        let mut v = vec![];
        let ids: Vec<LocalDefId> = self.tcx.hir_crate_items(()).definitions().collect();
        for id in ids {
            let def = id.to_def_id();
            if !matches!(self.tcx.def_kind(def), DefKind::Impl { .. }) { continue; }
            let st = self.tcx.type_of(def).instantiate_identity().skip_norm_wip();
            let mut o = vec![("key", s(self.key(def))), ("span", self.span(self.tcx.def_span(def)))];
            o.push(("self", n(self.ty(st) as i128)));
            let g = self.generics(def);
            o.push(("generics", g));
            if let Some(tr) = self.tcx.impl_opt_trait_ref(def) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(self.path(tr.def_id))));
                let aa = self.args(tr.args);
                o.push(("trait_args", aa));
            }
            let its: Vec<J> = self.tcx.associated_items(def).in_definition_order().map(|a|
                arr([s(a.opt_name().map(|x| x.to_string()).unwrap_or_default()), s(self.key(a.def_id)),
                    s(format!("{:?}", a.kind).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()),
                    if self.tcx.def_kind(a.def_id) == DefKind::AssocTy { let t = self.tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip(); n(self.ty(t) as i128) } else { J::Null }])).collect();
            o.push(("items", J::Arr(its)));
            let preds = self.tcx.clauses_of(def).instantiate_identity(self.tcx);
            let ps: Vec<J> = preds.clauses.iter().map(|p| s(with_no_trimmed_paths!(format!("{:?}", p)))).collect();
            o.push(("preds", J::Arr(ps)));
            v.push(J::Obj(o));
        }
        v
    }
}
fn big(b: u128) -> J { if b <= i64::MAX as u128 { J::Num(b as i128) } else { J::Str(b.to_string()) } }
