//! Dumps the monomorphic MIR reachable from `root_*` functions and `table_*` statics of the crate
//! being compiled, with layouts and constants, plus answers to trait queries (`query_*` functions),
//! as one JSON file (path in MIRDUMP_OUT). Nothing is executed: constants come from const-eval.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate serde_json;

use std::collections::{HashMap, VecDeque};

use rustc_abi::{FieldsShape, TagEncoding, Variants};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_forced_trimmed_paths, with_no_trimmed_paths};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use serde_json::{json, Map, Value};

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<Value>,
    ty_queue: VecDeque<Ty<'tcx>>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    inst_out: Vec<Value>,
    allocs: HashMap<AllocId, usize>,
    alloc_list: Vec<AllocId>,
    alloc_out: Vec<Value>,
    stop: Vec<String>,
}

impl<'tcx> Dumper<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_out.push(Value::Null);
        self.ty_queue.push_back(t);
        i
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        let x = self.inst_list.len();
        self.insts.insert(i, x);
        self.inst_list.push(i);
        x
    }

    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(&x) = self.allocs.get(&a) {
            return x;
        }
        let x = self.alloc_list.len();
        self.allocs.insert(a, x);
        self.alloc_list.push(a);
        x
    }

    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn dump_ty(&mut self, t: Ty<'tcx>) -> Value {
        let tcx = self.tcx;
        let mut m = Map::new();
        m.insert("name".into(), json!(with_no_trimmed_paths!(t.to_string())));
        match *t.kind() {
            ty::Bool => {
                m.insert("k".into(), json!("bool"));
            }
            ty::Char => {
                m.insert("k".into(), json!("char"));
            }
            ty::Int(i) => {
                m.insert("k".into(), json!("int"));
                m.insert("signed".into(), json!(true));
                m.insert("usz".into(), json!(i.bit_width().is_none()));
            }
            ty::Uint(i) => {
                m.insert("k".into(), json!("int"));
                m.insert("signed".into(), json!(false));
                m.insert("usz".into(), json!(i.bit_width().is_none()));
            }
            ty::Float(_) => {
                m.insert("k".into(), json!("float"));
            }
            ty::RawPtr(p, mu) => {
                m.insert("k".into(), json!("ptr"));
                m.insert("to".into(), json!(self.ty(p)));
                m.insert("mut".into(), json!(mu.is_mut()));
            }
            ty::Ref(_, p, mu) => {
                m.insert("k".into(), json!("ref"));
                m.insert("to".into(), json!(self.ty(p)));
                m.insert("mut".into(), json!(mu.is_mut()));
            }
            ty::Adt(def, args) => {
                m.insert("k".into(), json!("adt"));
                m.insert("def".into(), json!(self.path(def.did())));
                m.insert(
                    "adt".into(),
                    json!(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                );
                m.insert("box".into(), json!(def.is_box()));
                m.insert("transparent".into(), json!(def.repr().transparent()));
                let targs: Vec<usize> = args.types().map(|x| self.ty(x)).collect();
                m.insert("args".into(), json!(targs));
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args);
                        let fty = tcx
                            .try_normalize_erasing_regions(self.env, fty)
                            .unwrap_or_else(|_| fty.skip_norm_wip());
                        let id = self.ty(fty);
                        fs.push(json!({"name": f.name.to_string(), "ty": id}));
                    }
                    let discr = if def.is_enum() {
                        t.discriminant_for_variant(tcx, vi).map(|d| d.val.to_string())
                    } else {
                        None
                    };
                    vs.push(json!({"name": v.name.to_string(), "fields": fs, "discr": discr}));
                }
                m.insert("variants".into(), json!(vs));
                if def.is_enum() {
                    let dt = t.discriminant_ty(tcx);
                    m.insert("discr_ty".into(), json!(self.ty(dt)));
                }
            }
            ty::Tuple(ts) => {
                m.insert("k".into(), json!("tuple"));
                let ids: Vec<usize> = ts.iter().map(|x| self.ty(x)).collect();
                m.insert("fields".into(), json!(ids));
            }
            ty::Array(e, n) => {
                m.insert("k".into(), json!("array"));
                m.insert("elem".into(), json!(self.ty(e)));
                m.insert("len".into(), json!(n.try_to_target_usize(tcx)));
            }
            ty::Slice(e) => {
                m.insert("k".into(), json!("slice"));
                m.insert("elem".into(), json!(self.ty(e)));
            }
            ty::Str => {
                m.insert("k".into(), json!("str"));
            }
            ty::Never => {
                m.insert("k".into(), json!("never"));
            }
            ty::Dynamic(..) => {
                m.insert("k".into(), json!("dyn"));
            }
            ty::Closure(def, args) => {
                m.insert("k".into(), json!("closure"));
                m.insert("def".into(), json!(self.path(def)));
                let ups: Vec<usize> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                m.insert("fields".into(), json!(ups));
            }
            ty::FnDef(def, _) => {
                m.insert("k".into(), json!("fndef"));
                m.insert("def".into(), json!(self.path(def)));
            }
            ty::FnPtr(sig, hdr) => {
                m.insert("k".into(), json!("fnptr"));
                m.insert("abi".into(), json!(hdr.abi().as_str()));
                m.insert("c_variadic".into(), json!(hdr.c_variadic()));
                m.insert("unsafe".into(), json!(hdr.safety().is_unsafe()));
                let sig = tcx.instantiate_bound_regions_with_erased(sig.with(hdr));
                let ins: Vec<usize> = sig
                    .inputs()
                    .iter()
                    .map(|x| {
                        let x = tcx.erase_and_anonymize_regions(*x);
                        self.ty(x)
                    })
                    .collect();
                let out = tcx.erase_and_anonymize_regions(sig.output());
                m.insert("inputs".into(), json!(ins));
                m.insert("output".into(), json!(self.ty(out)));
            }
            _ => {
                m.insert("k".into(), json!("other"));
            }
        }
        if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
            let mut lm = Map::new();
            lm.insert("size".into(), json!(l.size.bytes()));
            lm.insert("align".into(), json!(l.align.abi.bytes()));
            lm.insert("sized".into(), json!(l.is_sized()));
            lm.insert("uninhabited".into(), json!(l.is_uninhabited()));
            if let FieldsShape::Arbitrary { offsets, .. } = &l.fields {
                let o: Vec<u64> = offsets.iter().map(|s| s.bytes()).collect();
                lm.insert("offsets".into(), json!(o));
            }
            if let FieldsShape::Array { stride, count } = &l.fields {
                lm.insert("stride".into(), json!(stride.bytes()));
                lm.insert("count".into(), json!(count));
            }
            let scalar_json = |s: &rustc_abi::Scalar| {
                let r = match s {
                    rustc_abi::Scalar::Initialized { valid_range, .. } => {
                        json!([valid_range.start.to_string(), valid_range.end.to_string()])
                    }
                    _ => Value::Null,
                };
                json!({"size": s.size(&tcx).bytes(), "range": r})
            };
            if let rustc_abi::BackendRepr::Scalar(s) = &l.backend_repr {
                lm.insert("scalar".into(), scalar_json(s));
            }
            match &l.variants {
                Variants::Empty => {
                    lm.insert("v".into(), json!("empty"));
                }
                Variants::Single { index } => {
                    lm.insert("v".into(), json!("single"));
                    lm.insert("index".into(), json!(index.as_usize()));
                }
                Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                    lm.insert("v".into(), json!("multi"));
                    lm.insert("tag_off".into(), json!(l.fields.offset(tag_field.as_usize()).bytes()));
                    lm.insert("tag_size".into(), json!(tag.size(&tcx).bytes()));
                    match tag_encoding {
                        TagEncoding::Direct => {
                            lm.insert("enc".into(), json!("direct"));
                        }
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            lm.insert("enc".into(), json!("niche"));
                            lm.insert("untagged".into(), json!(untagged_variant.as_usize()));
                            lm.insert("nv_start".into(), json!(niche_variants.start.as_usize()));
                            lm.insert("nv_end".into(), json!(niche_variants.last.as_usize()));
                            lm.insert("niche_start".into(), json!(niche_start.to_string()));
                        }
                    }
                    let vs: Vec<Value> = variants
                        .iter()
                        .map(|v| {
                            let o: Vec<u64> = v.field_offsets.iter().map(|s| s.bytes()).collect();
                            json!({"offsets": o})
                        })
                        .collect();
                    lm.insert("variants".into(), json!(vs));
                }
            }
            m.insert("layout".into(), Value::Object(lm));
        }
        m.insert("needs_drop".into(), json!(t.needs_drop(tcx, self.env)));
        Value::Object(m)
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> Value {
        let mut pr = Vec::new();
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => json!(["*"]),
                mir::ProjectionElem::Field(i, t) => json!(["f", i.as_usize(), self.ty(t)]),
                mir::ProjectionElem::Index(l) => json!(["i", l.as_usize()]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["ci", offset, min_length, from_end])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    json!(["ss", from, to, from_end])
                }
                mir::ProjectionElem::Downcast(_, v) => json!(["d", v.as_usize()]),
                mir::ProjectionElem::OpaqueCast(t) => json!(["c", self.ty(t)]),
                mir::ProjectionElem::UnwrapUnsafeBinder(t) => json!(["c", self.ty(t)]),
                mir::ProjectionElem::PhantomDeref => json!(["pd"]),
            });
        }
        json!([p.local.as_usize(), pr])
    }

    fn scalar(&mut self, s: Scalar) -> Value {
        match s {
            Scalar::Int(i) => json!({"i": i.to_bits(i.size()).to_string(), "sz": i.size().bytes()}),
            Scalar::Ptr(p, sz) => {
                let (prov, off) = p.into_raw_parts();
                let id = self.alloc(prov.alloc_id());
                json!({"p": id, "off": off.bytes(), "sz": sz})
            }
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> Value {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(def, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap();
            let r = Instance::try_resolve(self.tcx, self.env, def, args).ok().flatten();
            let id = r.map(|i| self.inst(i));
            return json!({"c": tid, "fn": id, "fnpath": self.path(def)});
        }
        match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(ConstValue::Scalar(s)) => json!({"c": tid, "s": self.scalar(s)}),
            Ok(ConstValue::ZeroSized) => json!({"c": tid, "z": true}),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                json!({"c": tid, "sl": self.alloc(alloc_id), "meta": meta})
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => {
                json!({"c": tid, "ind": self.alloc(alloc_id), "off": offset.bytes()})
            }
            Err(_) => json!({"c": tid, "err": true}),
        }
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>) -> Value {
        match o {
            mir::Operand::Copy(p) => json!({"cp": self.place(p)}),
            mir::Operand::Move(p) => json!({"mv": self.place(p)}),
            mir::Operand::Constant(c) => self.constant(c),
            mir::Operand::RuntimeChecks(k) => json!({"rc": format!("{k:?}")}),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> Value {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => json!(["use", self.operand(o)]),
            Repeat(o, n) => json!(["rep", self.operand(o), n.try_to_target_usize(self.tcx)]),
            Ref(_, bk, p) => {
                json!(["ref", self.place(p), matches!(bk, mir::BorrowKind::Mut { .. })])
            }
            Reborrow(_, m, p) => json!(["reborrow", self.place(p), m.is_mut()]),
            ThreadLocalRef(d) => json!(["tls", self.path(*d), self.static_(*d)]),
            RawPtr(k, p) => json!(["ref", self.place(p), matches!(k, mir::RawPtrKind::Mut)]),
            Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let mut extra = Value::Null;
                if let mir::CastKind::PointerCoercion(
                    ty::adjustment::PointerCoercion::Unsize,
                    _,
                ) = k
                {
                    extra = self.unsize_info(from, *t);
                }
                if let mir::CastKind::PointerCoercion(
                    ty::adjustment::PointerCoercion::ReifyFnPointer(_),
                    _,
                ) = k
                {
                    if let ty::FnDef(def, args) = *from.kind() {
                        let args = args.no_bound_vars().unwrap();
                        if let Some(i) =
                            Instance::resolve_for_fn_ptr(self.tcx, self.env, def, args)
                        {
                            extra = json!({"reify": self.inst(i)});
                        }
                    }
                }
                if let mir::CastKind::PointerCoercion(
                    ty::adjustment::PointerCoercion::ClosureFnPointer(_),
                    _,
                ) = k
                {
                    if let ty::Closure(def, args) = *from.kind() {
                        let i = Instance::resolve_closure(
                            self.tcx,
                            def,
                            args,
                            ty::ClosureKind::FnOnce,
                        );
                        extra = json!({"reify": self.inst(i)});
                    }
                }
                json!(["cast", format!("{k:?}"), self.operand(o), self.ty(from), self.ty(*t), extra])
            }
            BinaryOp(op, b) => {
                let lt = b.0.ty(&body.local_decls, self.tcx);
                json!(["bin", format!("{op:?}"), self.operand(&b.0), self.operand(&b.1), self.ty(lt)])
            }
            UnaryOp(op, o) => {
                let lt = o.ty(&body.local_decls, self.tcx);
                json!(["un", format!("{op:?}"), self.operand(o), self.ty(lt)])
            }
            Discriminant(p) => json!(["discr", self.place(p)]),
            CopyForDeref(p) => json!(["use", {"cp": self.place(p)}]),
            WrapUnsafeBinder(o, _) => json!(["use", self.operand(o)]),
            Aggregate(k, ops) => {
                let opsj: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(t) => json!(["array", self.ty(*t)]),
                    mir::AggregateKind::Tuple => json!(["tuple"]),
                    mir::AggregateKind::Adt(_, v, _, _, f) => {
                        json!(["adt", v.as_usize(), f.map(|f| f.as_usize())])
                    }
                    mir::AggregateKind::Closure(..) => json!(["closure"]),
                    mir::AggregateKind::RawPtr(..) => json!(["rawptr"]),
                    _ => json!(["other"]),
                };
                json!(["agg", kj, opsj])
            }
        }
    }

    /// For an unsizing cast, describe the metadata that gets attached.
    fn unsize_info(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) -> Value {
        let tcx = self.tcx;
        let (mut a, mut b) = (from, to);
        loop {
            let (pa, pb) = match (a.builtin_deref(true), b.builtin_deref(true)) {
                (Some(x), Some(y)) => (x, y),
                _ => match (a.kind(), b.kind()) {
                    (ty::Adt(da, aa), ty::Adt(db, ab)) if da == db && da.is_struct() => {
                        // find the single field whose type differs
                        let mut found = None;
                        for f in da.all_fields() {
                            let fa = tcx.normalize_erasing_regions(self.env, f.ty(tcx, aa));
                            let fb = tcx.normalize_erasing_regions(self.env, f.ty(tcx, ab));
                            if fa != fb
                                && (fa.builtin_deref(true).is_some()
                                    || matches!(fa.kind(), ty::Adt(d, _) if d.is_struct() && !d.is_phantom_data()))
                            {
                                found = Some((fa, fb));
                                break;
                            }
                        }
                        match found {
                            Some((x, y)) => {
                                a = x;
                                b = y;
                                continue;
                            }
                            None => return Value::Null,
                        }
                    }
                    _ => return Value::Null,
                },
            };
            let (ta, tb) = tcx.struct_lockstep_tails_for_codegen(pa, pb, self.env);
            return match (ta.kind(), tb.kind()) {
                (ty::Array(_, n), ty::Slice(_)) => json!({"len": n.try_to_target_usize(tcx)}),
                (ty::Dynamic(..), ty::Dynamic(..)) => json!({"upcast": true}),
                (_, ty::Dynamic(..)) => {
                    let d = Instance::resolve_drop_glue(tcx, ta);
                    json!({"vt_ty": self.ty(ta), "drop": self.inst(d), "dyn": self.ty(tb)})
                }
                _ => Value::Null,
            };
        }
    }

    fn unwind(&self, u: &mir::UnwindAction) -> Value {
        match u {
            mir::UnwindAction::Continue => json!("continue"),
            mir::UnwindAction::Unreachable => json!("unreachable"),
            mir::UnwindAction::Terminate(_) => json!("terminate"),
            mir::UnwindAction::Cleanup(b) => json!(b.as_usize()),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }

    fn body(&mut self, inst: Instance<'tcx>) -> Option<Value> {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) || !tcx.is_mir_available(d) {
                    return None;
                }
            }
            InstanceKind::Intrinsic(d) => {
                if tcx.intrinsic(d).map(|i| i.must_be_overridden).unwrap_or(true)
                    || !tcx.is_mir_available(d)
                {
                    return None;
                }
            }
            InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => return None,
            InstanceKind::Shim(_) => (),
        }
        let binst = match inst.def {
            InstanceKind::Intrinsic(d) => Instance::new_raw(d, inst.args),
            _ => inst,
        };
        let body = tcx.instance_mir(binst.def).clone();
        let body = binst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, body),
        );
        let body = &body;
        let locals: Vec<usize> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut coverage = false;
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(p);
                        let rj = self.rvalue(body, r);
                        st.push(json!(["=", pj, rj, self.span(s.source_info.span)]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(json!(["sd", self.place(place), variant_index.as_usize()]));
                    }
                    mir::StatementKind::StorageLive(l) => st.push(json!(["live", l.as_usize()])),
                    mir::StatementKind::StorageDead(l) => st.push(json!(["dead", l.as_usize()])),
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => {
                            st.push(json!(["assume", self.operand(o)]))
                        }
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let t = c.src.ty(&body.local_decls, tcx);
                            let pt = t.builtin_deref(true).unwrap();
                            st.push(json!(["cno", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), self.ty(pt)]))
                        }
                    },
                    mir::StatementKind::Coverage(_) => coverage = true,
                    _ => {}
                }
            }
            let t = bb.terminator();
            use mir::TerminatorKind::*;
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                Goto { target, .. } => json!({"k": "goto", "t": target.as_usize()}),
                FalseEdge { real_target, .. } => json!({"k": "goto", "t": real_target.as_usize()}),
                FalseUnwind { real_target, .. } => json!({"k": "goto", "t": real_target.as_usize()}),
                SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets
                        .iter()
                        .map(|(v, b)| json!([v.to_string(), b.as_usize()]))
                        .collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    json!({"k": "switch", "d": self.operand(discr), "ty": self.ty(dt), "br": br, "o": targets.otherwise().as_usize()})
                }
                UnwindResume => json!({"k": "resume"}),
                UnwindTerminate(_) => json!({"k": "abort"}),
                Return => json!({"k": "ret"}),
                Unreachable => json!({"k": "unreachable"}),
                Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let d = if pt.needs_drop(tcx, self.env) {
                        let di = Instance::resolve_drop_glue(tcx, pt);
                        json!(self.inst(di))
                    } else {
                        Value::Null
                    };
                    json!({"k": "drop", "p": self.place(place), "ty": self.ty(pt), "inst": d, "t": target.as_usize(), "u": self.unwind(unwind), "sp": sp})
                }
                Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let aj: Vec<Value> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let at: Vec<usize> = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&body.local_decls, tcx);
                            self.ty(t)
                        })
                        .collect();
                    json!({"k": "call", "f": self.operand(func), "fty": self.ty(ft), "a": aj, "at": at,
                        "d": self.place(destination), "t": target.map(|x| x.as_usize()),
                        "u": self.unwind(unwind), "sp": sp})
                }
                TailCall { func, args, .. } => {
                    let aj: Vec<Value> = args.iter().map(|a| self.operand(&a.node)).collect();
                    json!({"k": "tailcall", "f": self.operand(func), "a": aj, "sp": sp})
                }
                Assert { cond, expected, msg, target, unwind } => {
                    let mk = format!("{msg:?}");
                    let kind = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds",
                        mir::AssertKind::Overflow(..) | mir::AssertKind::OverflowNeg(_) => {
                            "overflow"
                        }
                        mir::AssertKind::DivisionByZero(_)
                        | mir::AssertKind::RemainderByZero(_) => "divzero",
                        _ => "other",
                    };
                    json!({"k": "assert", "c": self.operand(cond), "e": expected, "m": kind, "msg": mk,
                        "t": target.as_usize(), "u": self.unwind(unwind), "sp": sp})
                }
                InlineAsm { template, operands, options, targets, unwind, .. } => {
                    let ops: Vec<Value> = operands
                        .iter()
                        .map(|o| match o {
                            mir::InlineAsmOperand::In { reg, value } => {
                                json!(["in", format!("{reg:?}"), self.operand(value)])
                            }
                            mir::InlineAsmOperand::Out { reg, place, .. } => {
                                json!(["out", format!("{reg:?}"), place.as_ref().map(|p| self.place(p))])
                            }
                            mir::InlineAsmOperand::InOut { reg, in_value, out_place, .. } => {
                                json!(["inout", format!("{reg:?}"), self.operand(in_value), out_place.as_ref().map(|p| self.place(p))])
                            }
                            mir::InlineAsmOperand::Const { value } => {
                                json!(["const", self.constant(value)])
                            }
                            _ => json!(["other"]),
                        })
                        .collect();
                    let tp: Vec<Value> = template
                        .iter()
                        .map(|p| match p {
                            rustc_ast::InlineAsmTemplatePiece::String(s) => json!(s.to_string()),
                            rustc_ast::InlineAsmTemplatePiece::Placeholder {
                                operand_idx,
                                modifier,
                                ..
                            } => json!([operand_idx, modifier.map(|c| c.to_string())]),
                        })
                        .collect();
                    let ts: Vec<usize> = targets.iter().map(|x| x.as_usize()).collect();
                    json!({"k": "asm", "tpl": tp, "ops": ops, "opt": format!("{options:?}"), "t": ts, "u": self.unwind(unwind), "sp": sp})
                }
                _ => json!({"k": "other"}),
            };
            blocks.push(json!({"s": st, "t": tj, "c": bb.is_cleanup}));
        }
        Some(json!({"locals": locals, "argc": body.arg_count, "spread": body.spread_arg.map(|l| l.as_usize()),
            "blocks": blocks, "coverage": coverage}))
    }

    fn dump_inst(&mut self, inst: Instance<'tcx>) -> Value {
        let tcx = self.tcx;
        let d = inst.def_id();
        let path = self.path(d);
        let name = with_no_trimmed_paths!(inst.to_string());
        let krate = tcx.crate_name(d.krate).to_string();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic(_) => "llvm".to_string(),
            InstanceKind::Virtual(_, i) => format!("virtual{i}"),
            InstanceKind::Shim(ShimKind::DropGlue(_, _)) => "drop".to_string(),
            InstanceKind::Shim(ref s) => {
                format!("shim:{}", format!("{s:?}").split('(').next().unwrap().split(' ').next().unwrap())
            }
        };
        let mut m = Map::new();
        m.insert("path".into(), json!(path));
        m.insert("name".into(), json!(name));
        m.insert("crate".into(), json!(krate));
        m.insert("kind".into(), json!(kind));
        let targs: Vec<usize> = inst.args.types().map(|x| self.ty(x)).collect();
        m.insert("args".into(), json!(targs));
        if matches!(inst.def, InstanceKind::Item(_) | InstanceKind::Virtual(..) | InstanceKind::Intrinsic(_))
        {
            m.insert("foreign".into(), json!(tcx.is_foreign_item(d)));
            if tcx.is_foreign_item(d) {
                m.insert("symbol".into(), json!(tcx.symbol_name(inst).name));
            }
            m.insert("dk".into(), json!(format!("{:?}", tcx.def_kind(d))));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
                let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
                m.insert("abi".into(), json!(sig.abi().as_str()));
                m.insert("c_variadic".into(), json!(sig.c_variadic()));
                m.insert("unsafe".into(), json!(sig.safety().is_unsafe()));
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let norm = |t: Ty<'tcx>| {
                    let t = tcx.erase_and_anonymize_regions(t);
                    t
                };
                let ins: Vec<Ty<'tcx>> = sig.inputs().iter().map(|x| norm(*x)).collect();
                let mut insid = Vec::new();
                for t in ins {
                    let t = self.norm(t);
                    insid.push(self.ty(t));
                }
                let o = self.norm(norm(sig.output()));
                m.insert("inputs".into(), json!(insid));
                m.insert("output".into(), json!(self.ty(o)));
                let cg = tcx.codegen_fn_attrs(d);
                m.insert("inline".into(), json!(format!("{:?}", cg.inline)));
            }
            m.insert("span".into(), json!(self.span(tcx.def_span(d))));
        }
        if let InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) = inst.def {
            m.insert("drop_ty".into(), json!(self.ty(t)));
        }
        let ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        let full = format!("{krate}::{path}");
        let _ = full;
        let stopped = !ctor
            && !matches!(inst.def, InstanceKind::Shim(_))
            && !self.stop.iter().any(|s| s.strip_prefix('!').is_some_and(|x| path.starts_with(x)))
            && self.stop.iter().any(|s| {
                if let Some(k) = s.strip_prefix("crate:") {
                    k == krate
                } else if let Some(x) = s.strip_prefix('=') {
                    path == x
                } else {
                    path.starts_with(s.as_str())
                }
            });
        if stopped {
            m.insert("stopped".into(), json!(true));
            // the functions and closures it was handed as type arguments
            let mut fns = Vec::new();
            for a in inst.args.iter() {
                let Some(t) = a.as_type() else { continue };
                let i = match *t.kind() {
                    ty::Closure(def, args) => Some(Instance::resolve_closure(
                        tcx,
                        def,
                        args,
                        ty::ClosureKind::FnOnce,
                    )),
                    ty::FnDef(def, args) => args
                        .no_bound_vars()
                        .and_then(|args| Instance::resolve_for_fn_ptr(tcx, self.env, def, args)),
                    _ => None,
                };
                if let Some(i) = i {
                    fns.push(json!([self.ty(t), self.inst(i)]));
                }
            }
            if !fns.is_empty() {
                m.insert("fns".into(), json!(fns));
            }
        } else if let Some(b) = self.body(inst) {
            m.insert("body".into(), b);
        }
        Value::Object(m)
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn dump_alloc(&mut self, a: AllocId) -> Value {
        match self.tcx.global_alloc(a) {
            GlobalAlloc::Function { instance, .. } => json!({"fn": self.inst(instance)}),
            GlobalAlloc::VTable(t, _) => {
                let d = Instance::resolve_drop_glue(self.tcx, t);
                json!({"vt_ty": self.ty(t), "drop": self.inst(d)})
            }
            GlobalAlloc::Static(d) => {
                self.static_(d)
            }
            GlobalAlloc::Memory(m) => self.mem(m.inner()),
            GlobalAlloc::TypeId { .. } => json!({"typeid": true}),
        }
    }

    /// A static with its initial contents, as far as it is one of the analysed crates.
    fn static_(&mut self, d: DefId) -> Value {
        let krate = self.tcx.crate_name(d.krate).to_string();
        let mut v = json!({"static": self.path(d), "crate": krate});
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let t = self.tcx.erase_and_anonymize_regions(t);
        v["ty"] = json!(self.ty(t));
        if (d.is_local() || krate == "closure_ffi") && !self.tcx.is_foreign_item(d) {
            if let Ok(a) = self.tcx.eval_static_initializer(d) {
                v["init"] = self.mem(a.inner());
            }
        }
        v
    }

    fn mem(&mut self, m: &mir::interpret::Allocation) -> Value {
        let n = m.len();
        let bytes = m.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
        let hex: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
        let mut rel = Vec::new();
        let ps: Vec<(u64, AllocId)> =
            m.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
        for (o, p) in ps {
            rel.push(json!([o, self.alloc(p)]));
        }
        json!({"mem": hex, "rel": rel, "align": m.align.bytes()})
    }

    fn drain(&mut self) {
        loop {
            let mut progress = false;
            while let Some(t) = self.ty_queue.pop_front() {
                let id = self.tys[&t];
                let v = self.dump_ty(t);
                self.ty_out[id] = v;
                progress = true;
            }
            if self.inst_out.len() < self.inst_list.len() {
                let i = self.inst_list[self.inst_out.len()];
                let v = self.dump_inst(i);
                self.inst_out.push(v);
                progress = true;
            }
            if self.alloc_out.len() < self.alloc_list.len() {
                let a = self.alloc_list[self.alloc_out.len()];
                let v = self.dump_alloc(a);
                self.alloc_out.push(v);
                progress = true;
            }
            if !progress {
                break;
            }
        }
    }
}

/// Layout of a type, and the types it is `repr(transparent)` over (outermost first).
fn shape<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Value {
    let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return Value::Null };
    let one_zst = |t: Ty<'tcx>| {
        tcx.layout_of(env.as_query_input(t)).is_ok_and(|l| l.is_1zst())
    };
    let mut fields = Vec::new();
    let mut chain = Vec::new();
    let mut cur = t;
    loop {
        let ty::Adt(def, args) = *cur.kind() else { break };
        if !def.is_struct() {
            break;
        }
        let fs: Vec<Ty<'tcx>> = def
            .non_enum_variant()
            .fields
            .iter()
            .map(|f| {
                let t = f.ty(tcx, args);
                tcx.try_normalize_erasing_regions(env, t).unwrap_or_else(|_| t.skip_norm_wip())
            })
            .collect();
        if cur == t {
            for (i, f) in fs.iter().enumerate() {
                let n = def.non_enum_variant().fields[rustc_abi::FieldIdx::from_usize(i)].name;
                let z = tcx.layout_of(env.as_query_input(*f)).map(|l| l.size.bytes()).unwrap_or(0);
                fields.push(json!([n.to_string(), l.fields.offset(i).bytes(), z]));
            }
        }
        if !def.repr().transparent() {
            break;
        }
        let Some(&inner) = fs.iter().find(|f| !one_zst(**f)) else { break };
        chain.push(with_no_trimmed_paths!(inner.to_string()));
        cur = inner;
    }
    json!({"size": l.size.bytes(), "align": l.align.abi.bytes(), "fields": fields, "over": chain,
        "fnptr": matches!(cur.kind(), ty::FnPtr(..)), "repr": format!("{:?}", l.backend_repr)})
}

/// Evaluates trait predicates on the parameter types of `query_*` functions, in the parameter
/// environment of that function (so bounds written on it, and only those, are assumed).
fn queries<'tcx>(tcx: TyCtxt<'tcx>) -> Value {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let copy = tcx.lang_items().copy_trait();
    let mut out = Map::new();
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        if tcx.def_kind(d) != DefKind::Fn {
            continue;
        }
        let name = tcx.item_name(d).to_string();
        if !name.starts_with("query_") {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        let sig = tcx.liberate_late_bound_regions(d, sig);
        let mut tys: Vec<(String, Ty<'tcx>)> =
            sig.inputs().iter().enumerate().map(|(i, t)| (format!("arg{i}"), *t)).collect();
        if !sig.output().is_unit() {
            tys.push(("ret".into(), sig.output()));
        }
        // named local variables: the way to reach types that cannot be written down
        let body = tcx.optimized_mir(d);
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.local.as_usize() > body.arg_count {
                    tys.push((v.name.to_string(), p.ty(&body.local_decls, tcx).ty));
                }
            }
        }
        let mut res = Map::new();
        for (n, t) in tys {
            let nt = tcx
                .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t))
                .unwrap_or(t);
            let ev = |tr: Option<DefId>| match tr {
                Some(tr) => {
                    json!(infcx.type_implements_trait(tr, [nt], penv).must_apply_modulo_regions())
                }
                None => Value::Null,
            };
            res.insert(n, json!({"ty": with_no_trimmed_paths!(nt.to_string()), "Send": ev(send), "Sync": ev(sync),
                "Copy": ev(copy), "shape": shape(tcx, env, nt)}));
        }
        out.insert(name, json!(res));
    }
    Value::Object(out)
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let stop = std::fs::read_to_string(std::env::var("MIRDUMP_STOP").unwrap_or_default())
        .unwrap_or_default()
        .lines()
        .map(|l| l.split('#').next().unwrap().trim().to_string())
        .filter(|l| !l.is_empty())
        .collect();
    let mut d = Dumper {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: HashMap::new(),
        ty_out: vec![],
        ty_queue: VecDeque::new(),
        insts: HashMap::new(),
        inst_list: vec![],
        inst_out: vec![],
        allocs: HashMap::new(),
        alloc_list: vec![],
        alloc_out: vec![],
        stop,
    };
    let mut roots = Map::new();
    let mut tables = Map::new();
    let mut externs = Map::new();
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn => {
                let n = tcx.item_name(did).to_string();
                if n.starts_with("root_") && tcx.generics_of(did).own_requires_monomorphization() == false
                {
                    let i = Instance::mono(tcx, did);
                    let n = d.path(did);
                    roots.insert(n, json!(d.inst(i)));
                }
                if tcx.codegen_fn_attrs(did).contains_extern_indicator() {
                    let i = Instance::mono(tcx, did);
                    externs.insert(tcx.symbol_name(i).name.to_string(), json!(d.inst(i)));
                }
            }
            DefKind::Static { .. } => {
                let n = tcx.item_name(did).to_string();
                if n.starts_with("table_") {
                    let a = tcx.eval_static_initializer(did).unwrap();
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let m = d.mem(a.inner());
                    tables.insert(n, json!({"mem": m, "ty": d.ty(t)}));
                }
            }
            _ => {}
        }
    }
    d.drain();
    let q = queries(tcx);
    let v = json!({
        "target": tcx.sess.opts.target_triple.to_string(),
        "ptr": tcx.data_layout.pointer_size().bytes(),
        "roots": roots,
        "tables": tables,
        "externs": externs,
        "queries": q,
        "types": d.ty_out,
        "insts": d.inst_out,
        "allocs": d.alloc_out,
    });
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
}

struct Cb(Option<String>);
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(o) = self.0.take() {
            dump(tcx, &o);
            return rustc_driver::Compilation::Stop;
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    rustc_driver::compiler_entrypoint(&args, &mut Cb(Some(out)));
}
