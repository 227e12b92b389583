use crate::json::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;

/// Spans of the unsafe blocks written in the crate (not those inside macros of other crates).
struct UnsafeBlocks(Vec<Span>);
impl<'v> rustc_hir::intravisit::Visitor<'v> for UnsafeBlocks {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let foreign = b.span.macro_backtrace().any(|e| e.macro_def_id.map_or(true, |d| !d.is_local()));
            if !foreign {
                self.0.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<V>,
    adts: HashMap<DefId, String>,
    adt_json: Vec<(String, V)>,
    traits_done: HashMap<DefId, ()>,
    trait_json: Vec<(String, V)>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

fn key(tcx: TyCtxt<'_>, did: DefId) -> String {
    let k = tcx.def_path(did).to_string_no_crate_verbose();
    format!("{}{}", tcx.crate_name(did.krate), k)
}
fn path(tcx: TyCtxt<'_>, did: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(did))
}

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> V {
        num(self.tyi(t))
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> V {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = g.as_const() {
                let j = self.tyconst(c);
                v.push(j);
            }
        }
        arr(v)
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> V {
        if let Some(n) = c.try_to_target_usize(self.tcx) {
            return obj([("const", num(n))]);
        }
        if let Some(v) = c.try_to_value() {
            if let Some(s) = v.try_to_leaf() {
                return obj([("const", V(format!("{}", s.to_bits_unchecked())))]);
            }
        }
        obj([("const", st(&format!("{c}")))])
    }
    fn tyi(&mut self, t0: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t0);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(null());
        let s = with_no_trimmed_paths!(format!("{t}"));
        use rustc_type_ir::TyKind::*;
        let mut f: Vec<(&str, V)> = vec![("s", st(&s))];
        match *t.kind() {
            Bool | Char | Int(_) | Uint(_) | Float(_) | Str | Never => f.push(("k", st("prim"))),
            Adt(def, a) => {
                f.push(("k", st("adt")));
                self.adt(def);
                f.push(("def", st(&path(tcx, def.did()))));
                let a = self.args(a);
                f.push(("args", a));
            }
            Array(e, n) => {
                f.push(("k", st("array")));
                let e = self.ty(e);
                f.push(("e", e));
                let n = self.tyconst(n);
                f.push(("n", n));
            }
            Slice(e) => {
                f.push(("k", st("slice")));
                let e = self.ty(e);
                f.push(("e", e));
            }
            RawPtr(e, m) => {
                f.push(("k", st("ptr")));
                let e = self.ty(e);
                f.push(("e", e));
                f.push(("mut", boolean(m.is_mut())));
            }
            Ref(_, e, m) => {
                f.push(("k", st("ref")));
                let e = self.ty(e);
                f.push(("e", e));
                f.push(("mut", boolean(m.is_mut())));
            }
            FnDef(d, a) => {
                f.push(("k", st("fndef")));
                let c = self.callee(d.into(), a.skip_binder(), None);
                f.push(("fn", c));
            }
            FnPtr(sig, _) => {
                f.push(("k", st("fnptr")));
                let sig = sig.skip_binder();
                let v: Vec<V> = sig.inputs_and_output.iter().map(|x| self.ty(x)).collect();
                f.push(("sig", arr(v)));
            }
            Dynamic(preds, _) => {
                f.push(("k", st("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    self.trait_(p);
                    f.push(("trait", st(&path(tcx, p))));
                }
            }
            Closure(d, a) => {
                f.push(("k", st("closure")));
                f.push(("def", st(&key(tcx, d.into()))));
                let ca = a.as_closure();
                let ups: Vec<V> = ca.upvar_tys().iter().map(|x| self.ty(x)).collect();
                f.push(("upvars", arr(ups)));
                let pa = ca.parent_args();
                let mut v = vec![];
                for g in pa.iter() {
                    if let Some(t) = g.as_type() {
                        v.push(self.ty(t));
                    } else if let Some(c) = g.as_const() {
                        let j = self.tyconst(c);
                        v.push(j);
                    }
                }
                f.push(("args", arr(v)));
            }
            Tuple(ts) => {
                f.push(("k", st("tuple")));
                let v: Vec<V> = ts.iter().map(|x| self.ty(x)).collect();
                f.push(("e", arr(v)));
            }
            Alias(_, al) => {
                f.push(("k", st("alias")));
                let (kd, did): (&str, DefId) = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => ("proj", def_id.into()),
                    ty::AliasTyKind::Inherent { def_id } => ("inh", def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => ("opaque", def_id.into()),
                    ty::AliasTyKind::Free { def_id } => ("free", def_id.into()),
                };
                f.push(("ak", st(kd)));
                f.push(("def", st(&path(tcx, did))));
                if kd == "proj" {
                    let tr = tcx.parent(did);
                    self.trait_(tr);
                    f.push(("trait", st(&path(tcx, tr))));
                    f.push(("item", st(tcx.item_name(did).as_str())));
                }
                if kd == "opaque" {
                    let h = tcx.type_of(did).instantiate(tcx, al.args).skip_norm_wip();
                    let h = self.ty(h);
                    f.push(("hidden", h));
                }
                let a = self.args(al.args);
                f.push(("args", a));
            }
            Param(p) => {
                f.push(("k", st("param")));
                f.push(("i", num(p.index)));
                f.push(("name", st(p.name.as_str())));
            }
            _ => f.push(("k", st("other"))),
        }
        self.type_json[i] = obj(f);
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        if self.adts.contains_key(&def.did()) {
            return;
        }
        let p = path(tcx, def.did());
        self.adts.insert(def.did(), p.clone());
        let mut vs = vec![];
        let local = def.did().is_local();
        let discrs: Vec<(usize, u128)> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, d)| (i.as_usize(), d.val)).collect()
        } else {
            vec![(0, 0)]
        };
        for (i, v) in def.variants().iter_enumerated() {
            let d = discrs.iter().find(|x| x.0 == i.as_usize()).map(|x| x.1).unwrap_or(0);
            let mut fs = vec![];
            for fd in v.fields.iter() {
                let mut e = vec![("n", st(fd.name.as_str()))];
                if local || def.is_enum() || true {
                    let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                    let t = self.ty(t);
                    e.push(("ty", t));
                    e.push(("pub", boolean(fd.vis.is_public())));
                }
                fs.push(obj(e));
            }
            vs.push(obj([
                ("n", st(v.name.as_str())),
                ("d", V(format!("{d}"))),
                ("f", arr(fs)),
            ]));
        }
        let j = obj([
            ("path", st(&p)),
            ("key", st(&key(tcx, def.did()))),
            ("local", boolean(local)),
            ("auto", if local { auto_traits(tcx, def) } else { obj([]) }),
            ("kind", st(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("variants", arr(vs)),
            ("non_exhaustive", boolean(def.is_variant_list_non_exhaustive())),
            ("transparent", boolean(def.repr().transparent())),
            ("packed", boolean(def.repr().packed())),
            ("union", boolean(def.is_union())),
        ]);
        self.adt_json.push((p, j));
    }

    fn trait_(&mut self, did: DefId) {
        let tcx = self.tcx;
        if self.traits_done.insert(did, ()).is_some() {
            return;
        }
        let mut items = vec![];
        for it in tcx.associated_items(did).in_definition_order() {
            if it.is_impl_trait_in_trait() {
                continue;
            }
            let kind = match it.tag() {
                ty::AssocTag::Const => "const",
                ty::AssocTag::Fn => "fn",
                ty::AssocTag::Type => "type",
            };
            items.push(obj([
                ("n", st(it.name().as_str())),
                ("kind", st(kind)),
                ("key", st(&key(tcx, it.def_id))),
                ("default", boolean(it.defaultness(tcx).has_value())),
            ]));
        }
        let p = path(tcx, did);
        let j = obj([
            ("path", st(&p)),
            ("key", st(&key(tcx, did))),
            ("local", boolean(did.is_local())),
            ("items", arr(items)),
            ("unsafe", boolean(tcx.trait_def(did).safety.is_unsafe())),
        ]);
        self.trait_json.push((p, j));
    }

    /// Description of a callee: definition, generic arguments, owning trait, statically resolved impl.
    fn callee(&mut self, did: DefId, a: ty::GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> V {
        let tcx = self.tcx;
        let mut f = vec![
            ("key", st(&key(tcx, did))),
            ("path", st(&path(tcx, did))),
            ("local", boolean(did.is_local())),
        ];
        let av = self.args(a);
        f.push(("args", av));
        f.push(("name", st(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str())));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            self.trait_(tr);
            f.push(("trait", st(&path(tcx, tr))));
        } else if let Some(im) = tcx.impl_of_assoc(did) {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let t = self.ty(t);
            f.push(("impl_self", t));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.skip_binder();
                f.push(("impl_trait", st(&path(tcx, tr.def_id))));
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            f.push(("ctor", boolean(true)));
            let p = tcx.parent(did);
            let (adt, vn) = if matches!(tcx.def_kind(p), DefKind::Variant) {
                (tcx.parent(p), tcx.item_name(p).to_string())
            } else {
                (p, tcx.item_name(p).to_string())
            };
            let ad = tcx.adt_def(adt);
            self.adt(ad);
            f.push(("adt", st(&path(tcx, adt))));
            f.push(("variant", st(&vn)));
        }
        if tcx.def_kind(did).is_fn_like() {
            let s = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            if s.safety().is_unsafe() {
                f.push(("unsafe", boolean(true)));
            }
        }
        if let Some(env) = env {
            if !a.has_infer() {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, a) {
                    let rd = inst.def_id();
                    if rd != did {
                        f.push(("res", st(&key(tcx, rd))));
                        f.push(("res_path", st(&path(tcx, rd))));
                        f.push(("res_local", boolean(rd.is_local())));
                        let ra = self.args(inst.args);
                        f.push(("res_args", ra));
                    }
                }
            }
        }
        obj(f)
    }

    fn span(&mut self, sp: Span) -> V {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", loc.file.name.prefer_local_unconditionally());
        let n = self.file_list.len();
        let fi = *self.files.entry(name.clone()).or_insert(n);
        if fi == n {
            self.file_list.push(name);
        }
        V(format!("[{},{}]", fi, loc.line))
    }

    fn place(&mut self, p: &Place<'tcx>) -> V {
        let mut v = vec![num(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => st("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    arr([st("f"), num(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => arr([st("i"), num(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr([st("ci"), num(offset), boolean(from_end), num(min_length)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr([st("ss"), num(from), num(to), boolean(from_end)])
                }
                ProjectionElem::Downcast(_, v) => arr([st("d"), num(v.as_usize())]),
                _ => arr([st("o")]),
            });
        }
        arr(v)
    }

    fn scalar(&self, s: Scalar, t: Ty<'tcx>) -> Option<V> {
        if let Scalar::Int(i) = s {
            let bits = i.to_bits_unchecked();
            let txt = match t.kind() {
                ty::TyKind::Int(_) => {
                    let sz = i.size();
                    format!("{}", sz.sign_extend(bits))
                }
                ty::TyKind::Bool => (if bits == 0 { "false" } else { "true" }).to_string(),
                ty::TyKind::Float(ty::FloatTy::F32) => {
                    let f = f32::from_bits(bits as u32);
                    return Some(obj([("f", st(&format!("{f:?}")))]));
                }
                ty::TyKind::Float(ty::FloatTy::F64) => {
                    let f = f64::from_bits(bits as u64);
                    return Some(obj([("f", st(&format!("{f:?}")))]));
                }
                _ => format!("{bits}"),
            };
            return Some(obj([("v", V(txt))]));
        }
        None
    }

    fn cval(&mut self, c: ConstValue, t: Ty<'tcx>, depth: usize) -> V {
        let tcx = self.tcx;
        if depth > 12 || t.has_param() {
            return obj([("opaque", st("deep"))]);
        }
        let env = ty::TypingEnv::fully_monomorphized();
        match t.kind() {
            ty::TyKind::FnDef(d, a) => {
                let c = self.callee((*d).into(), a.skip_binder(), Some(env));
                return obj([("fn", c)]);
            }
            ty::TyKind::Bool
            | ty::TyKind::Char
            | ty::TyKind::Int(_)
            | ty::TyKind::Uint(_)
            | ty::TyKind::Float(_) => {
                let s = match c {
                    ConstValue::Scalar(s) => Some(s),
                    ConstValue::Indirect { alloc_id, offset } => {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let Ok(l) = tcx.layout_of(env.as_query_input(t)) else {
                                return obj([("opaque", st("layout"))]);
                            };
                            m.inner()
                                .read_scalar(
                                    &tcx,
                                    mir::interpret::alloc_range(offset, l.size),
                                    false,
                                )
                                .ok()
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                if let Some(s) = s {
                    if let Some(v) = self.scalar(s, t) {
                        return v;
                    }
                }
                return obj([("opaque", st("scalar"))]);
            }
            ty::TyKind::Ref(_, inner, _) => {
                match inner.kind() {
                    ty::TyKind::Str => {
                        if let Some(b) = c.try_get_slice_bytes_for_diagnostics(tcx) {
                            return obj([("str", st(&String::from_utf8_lossy(b)))]);
                        }
                    }
                    _ => {}
                }
                // pointer (alloc, offset) and optional length
                let mut ptr: Option<(mir::interpret::AllocId, rustc_abi::Size)> = None;
                let mut meta: Option<u64> = None;
                match c {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        ptr = Some((prov.alloc_id(), off));
                    }
                    ConstValue::Slice { alloc_id, meta: m } => {
                        ptr = Some((alloc_id, rustc_abi::Size::ZERO));
                        meta = Some(m);
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let psz = tcx.data_layout.pointer_size();
                            if let Ok(Scalar::Ptr(p, _)) = m.inner().read_scalar(
                                &tcx,
                                mir::interpret::alloc_range(offset, psz),
                                true,
                            ) {
                                let (prov, off) = p.into_raw_parts();
                                ptr = Some((prov.alloc_id(), off));
                            }
                            if matches!(inner.kind(), ty::TyKind::Slice(_) | ty::TyKind::Str) {
                                if let Ok(Scalar::Int(i)) = m.inner().read_scalar(
                                    &tcx,
                                    mir::interpret::alloc_range(offset + psz, psz),
                                    false,
                                ) {
                                    meta = Some(i.to_bits_unchecked() as u64);
                                }
                            }
                        }
                    }
                    _ => {}
                }
                let Some((aid, off)) = ptr else {
                    return obj([("opaque", st("ref"))]);
                };
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => {
                        return obj([("static", st(&key(tcx, d)))]);
                    }
                    GlobalAlloc::Memory(m) => {
                        match inner.kind() {
                            ty::TyKind::Str => {
                                let n = meta.unwrap_or(0) as usize;
                                let o = off.bytes() as usize;
                                let b = m
                                    .inner()
                                    .inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                return obj([("str", st(&String::from_utf8_lossy(b)))]);
                            }
                            ty::TyKind::Slice(e) => {
                                let n = meta.unwrap_or(0);
                                if n > 70000 {
                                    return obj([("opaque", st("long"))]);
                                }
                                let Ok(l) = tcx.layout_of(env.as_query_input(*e)) else {
                                    return obj([("opaque", st("layout"))]);
                                };
                                let mut v = vec![];
                                for i in 0..n {
                                    let cv = ConstValue::Indirect {
                                        alloc_id: aid,
                                        offset: off + l.size * i,
                                    };
                                    v.push(self.cval(cv, *e, depth + 1));
                                }
                                return obj([("ref", obj([("arr", arr(v))]))]);
                            }
                            _ => {
                                let cv = ConstValue::Indirect { alloc_id: aid, offset: off };
                                let v = self.cval(cv, *inner, depth + 1);
                                return obj([("ref", v)]);
                            }
                        }
                    }
                    _ => return obj([("opaque", st("alloc"))]),
                }
            }
            ty::TyKind::Array(..) | ty::TyKind::Tuple(_) | ty::TyKind::Adt(..) => {
                if let ty::TyKind::Adt(d, _) = t.kind() {
                    self.adt(*d);
                    if d.is_union() {
                        return obj([("opaque", st("union"))]);
                    }
                }
                if let ty::TyKind::Array(e, n) = t.kind() {
                    if let (Some(n), ConstValue::Indirect { alloc_id, offset }) =
                        (n.try_to_target_usize(tcx), c)
                    {
                        if n > 70000 {
                            return obj([("opaque", st("long"))]);
                        }
                        let Ok(l) = tcx.layout_of(env.as_query_input(*e)) else {
                            return obj([("opaque", st("layout"))]);
                        };
                        let mut v = vec![];
                        for i in 0..n {
                            let cv = ConstValue::Indirect { alloc_id, offset: offset + l.size * i };
                            v.push(self.cval(cv, *e, depth + 1));
                        }
                        return obj([("arr", arr(v))]);
                    }
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(c, t) {
                    let fs: Vec<V> =
                        dc.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return match t.kind() {
                        ty::TyKind::Array(..) => obj([("arr", arr(fs))]),
                        ty::TyKind::Tuple(_) => obj([("tup", arr(fs))]),
                        ty::TyKind::Adt(d, _) => obj([
                            ("adt", st(&path(tcx, d.did()))),
                            ("var", num(dc.variant.map(|v| v.as_usize()).unwrap_or(0))),
                            ("fs", arr(fs)),
                        ]),
                        _ => unreachable!(),
                    };
                }
                return obj([("opaque", st("adt"))]);
            }
            ty::TyKind::Closure(..) => {
                return obj([("zst", boolean(true))]);
            }
            _ => {}
        }
        obj([("opaque", st("other"))])
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, env: ty::TypingEnv<'tcx>, sp: Span) -> V {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::TyKind::FnDef(d, a) = t.kind() {
            let f = self.callee((*d).into(), a.skip_binder(), Some(env));
            return obj([("ty", ti), ("fn", f)]);
        }
        let mut f = vec![("ty", ti)];
        let mut val: Option<ConstValue> = None;
        match c {
            mir::Const::Val(v, _) => val = Some(*v),
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    f.push(("promoted", num(p.as_usize())));
                    f.push(("of", st(&key(tcx, u.def))));
                } else {
                    f.push(("cdef", st(&key(tcx, u.def))));
                    f.push(("cpath", st(&path(tcx, u.def))));
                    if let Some(tr) = tcx.trait_of_assoc(u.def) {
                        self.trait_(tr);
                        f.push(("trait", st(&path(tcx, tr))));
                        f.push(("item", st(tcx.item_name(u.def).as_str())));
                    }
                    let a = self.args(u.args);
                    f.push(("args", a));
                }
                if !u.args.has_param() || u.promoted.is_none() {
                    if !t.has_param() {
                        if let Ok(v) = c.eval(tcx, env, sp) {
                            val = Some(v);
                        }
                    }
                }
            }
            mir::Const::Ty(_, c2) => {
                let j = self.tyconst(*c2);
                f.push(("tyc", j));
                if !c2.has_param() && !t.has_param() {
                    if let Ok(v) = c.eval(tcx, env, sp) {
                        val = Some(v);
                    }
                }
            }
        }
        if let Some(v) = val {
            let j = self.cval(v, t, 0);
            f.push(("val", j));
        }
        obj(f)
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> V {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p);
                arr([st("c"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                arr([st("m"), p])
            }
            Operand::Constant(c) => {
                let k = self.konst(&c.const_, env, c.span);
                arr([st("k"), k])
            }
            #[allow(unreachable_patterns)]
            _ => arr([st("rc")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> V {
        match r {
            Rvalue::Use(o, ..) => {
                let o = self.operand(o, env);
                arr([st("use"), o])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, env);
                let n = self.tyconst(*n);
                arr([st("rep"), o, n])
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(p);
                arr([st("ref"), p, boolean(matches!(k, BorrowKind::Mut { .. }))])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p);
                arr([st("ref"), p, boolean(m.is_mut())])
            }
            Rvalue::ThreadLocalRef(d) => arr([st("tls"), st(&path(self.tcx, *d))]),
            Rvalue::RawPtr(k, p) => {
                let p = self.place(p);
                arr([st("raw"), p, boolean(matches!(k, RawPtrKind::Mut))])
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, env);
                let t = self.ty(*t);
                arr([st("cast"), st(&format!("{k:?}")), o, t])
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(&b.0, env);
                let y = self.operand(&b.1, env);
                arr([st("bin"), st(&format!("{op:?}")), x, y])
            }
            Rvalue::UnaryOp(op, o) => {
                let o = self.operand(o, env);
                arr([st("un"), st(&format!("{op:?}")), o])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p);
                arr([st("discr"), p])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                arr([st("use"), arr([st("c"), p])])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<V> = ops.iter().map(|o| self.operand(o, env)).collect();
                let kd = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        arr([st("array"), t])
                    }
                    AggregateKind::Tuple => arr([st("tuple")]),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let a = self.args(a);
                        arr([
                            st("adt"),
                            st(&path(self.tcx, *d)),
                            num(v.as_usize()),
                            a,
                            af.map(|f| num(f.as_usize())).unwrap_or(null()),
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let a = self.args(a.as_closure().args);
                        arr([st("closure"), st(&key(self.tcx, *d)), a])
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        arr([st("rawptr"), t])
                    }
                    _ => arr([st("other")]),
                };
                arr([st("agg"), kd, arr(ops)])
            }
            _ => arr([st("other"), st(&format!("{r:?}"))]),
        }
    }

    fn body(&mut self, b: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> V {
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = vec![];
        for d in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), d.name.to_string());
                } else {
                    let pj = self.place(p);
                    dbg.push(arr([st(d.name.as_str()), pj]));
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in b.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            let n = names.get(&i.as_usize()).map(|s| st(s)).unwrap_or(null());
            locals.push(arr([t, n]));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut sts = vec![];
            for s in bb.statements.iter() {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, env);
                        sts.push(arr([st("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        sts.push(arr([st("sd"), p, num(variant_index.as_usize()), sp]));
                    }
                    StatementKind::StorageDead(l) => {
                        sts.push(arr([st("dead"), num(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        sts.push(arr([st("intr"), st(&format!("{i:?}")), sp]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => num(b.as_usize()),
                _ => null(),
            };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr([st("goto"), num(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dti = self.ty(dt);
                    let o = self.operand(discr, env);
                    let v: Vec<V> = targets
                        .iter()
                        .map(|(v, t)| arr([V(format!("{v}")), num(t.as_usize())]))
                        .collect();
                    arr([st("sw"), o, arr(v), num(targets.otherwise().as_usize()), dti, sp])
                }
                TerminatorKind::Return => arr([st("ret"), sp]),
                TerminatorKind::Unreachable => arr([st("unreach")]),
                TerminatorKind::UnwindResume => arr([st("resume")]),
                TerminatorKind::UnwindTerminate(_) => arr([st("abort")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pt = self.ty(pt);
                    let p = self.place(place);
                    arr([st("drop"), p, num(target.as_usize()), unw(unwind), pt, sp])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<V> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let d = self.place(destination);
                    arr([
                        st("call"),
                        f,
                        arr(a),
                        d,
                        target.map(|t| num(t.as_usize())).unwrap_or(null()),
                        unw(unwind),
                        sp,
                        boolean(t.source_info.span.from_expansion()),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, env);
                    let mk = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, env);
                            let i = self.operand(index, env);
                            arr([st("bounds"), l, i])
                        }
                        AssertKind::Overflow(op, ..) => {
                            arr([st("overflow"), st(&format!("{op:?}"))])
                        }
                        AssertKind::OverflowNeg(_) => arr([st("overflow"), st("Neg")]),
                        AssertKind::DivisionByZero(_) => arr([st("div0")]),
                        AssertKind::RemainderByZero(_) => arr([st("rem0")]),
                        _ => arr([st("other")]),
                    };
                    arr([
                        st("assert"),
                        c,
                        boolean(*expected),
                        mk,
                        num(target.as_usize()),
                        unw(unwind),
                        sp,
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    arr([st("goto"), num(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    arr([st("goto"), num(real_target.as_usize())])
                }
                k => arr([st("other"), st(&format!("{k:?}"))]),
            };
            blocks.push(obj([
                ("c", num(bb.is_cleanup as u8)),
                ("s", arr(sts)),
                ("t", tj),
            ]));
        }
        obj([
            ("argc", num(b.arg_count)),
            ("locals", arr(locals)),
            ("dbg", arr(dbg)),
            ("blocks", arr(blocks)),
        ])
    }

    fn generics(&mut self, did: DefId) -> V {
        let tcx = self.tcx;
        let g = tcx.generics_of(did);
        let mut v = vec![];
        fn walk<'tcx>(tcx: TyCtxt<'tcx>, g: &'tcx ty::Generics, v: &mut Vec<V>) {
            if let Some(p) = g.parent {
                walk(tcx, tcx.generics_of(p), v);
            }
            for p in g.own_params.iter() {
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    ty::GenericParamDefKind::Type { .. } => {
                        v.push(arr([num(p.index), st(p.name.as_str()), st("type")]))
                    }
                    ty::GenericParamDefKind::Const { .. } => {
                        v.push(arr([num(p.index), st(p.name.as_str()), st("const")]))
                    }
                }
            }
        }
        walk(tcx, g, &mut v);
        arr(v)
    }

    /// where-clauses: [self type, trait path, trait args]
    fn preds(&mut self, did: DefId) -> V {
        let tcx = self.tcx;
        let mut v = vec![];
        for (c, _) in tcx.clauses_of(did).instantiate_identity(tcx) {
            let c = c.skip_norm_wip();
            if let Some(tp) = c.as_trait_clause() {
                let tp = tp.skip_binder();
                let a = self.args(tp.trait_ref.args);
                v.push(arr([st(&path(tcx, tp.trait_ref.def_id)), a]));
            }
        }
        arr(v)
    }

    fn item(&mut self, ld: LocalDefId) -> Option<V> {
        let tcx = self.tcx;
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let ks = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "fn",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            DefKind::AnonConst => "anon",
            DefKind::Ctor(..) => return None,
            _ => return None,
        };
        let env = ty::TypingEnv::post_analysis(tcx, did);
        let mut f: Vec<(&str, V)> = vec![
            ("key", st(&key(tcx, did))),
            ("path", st(&path(tcx, did))),
            ("kind", st(ks)),
        ];
        let sp = self.span(tcx.def_span(did));
        f.push(("span", sp));
        f.push(("name", st(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str())));
        f.push(("parent", st(&key(tcx, tcx.parent(did)))));
        let ev = tcx.effective_visibilities(());
        f.push(("reach", boolean(ev.is_reachable(ld))));
        f.push(("exported", boolean(ev.is_exported(ld))));
        if ks == "fn" {
            let s = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            f.push(("unsafe", boolean(s.safety().is_unsafe())));
            let io: Vec<V> = s.inputs_and_output.iter().map(|x| self.ty(x)).collect();
            f.push(("sig", arr(io)));
            f.push(("pubvis", boolean(tcx.visibility(did).is_public())));
        }
        if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. }) {
            let p = tcx.parent(did);
            if let Some(_) = tcx.trait_of_assoc(did) {
                f.push(("in_trait", st(&path(tcx, p))));
                self.trait_(p);
            } else if let Some(im) = tcx.impl_of_assoc(did) {
                f.push(("impl", st(&key(tcx, im))));
                let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                f.push(("impl_self", t));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    self.trait_(tr.def_id);
                    f.push(("impl_trait", st(&path(tcx, tr.def_id))));
                    let a = self.args(tr.args);
                    f.push(("impl_trait_args", a));
                }
            }
        }
        if ks != "closure" {
            let g = self.generics(did);
            f.push(("generics", g));
            let p = self.preds(did);
            f.push(("preds", p));
        } else {
            let base = tcx.typeck_root_def_id(did);
            f.push(("root", st(&key(tcx, base))));
            let g = self.generics(base);
            f.push(("generics", g));
            let ct = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let ct = self.ty(ct);
            f.push(("closure_ty", ct));
        }
        if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
            let mut u = UnsafeBlocks(vec![]);
            rustc_hir::intravisit::walk_body(&mut u, b);
            if !u.0.is_empty() {
                let l: Vec<V> = u.0.iter().map(|s| self.span(*s)).collect();
                f.push(("unsafe_blocks", arr(l)));
            }
        }
        match ks {
            "fn" | "closure" => {
                if tcx.is_mir_available(did) {
                    let b = tcx.optimized_mir(did);
                    let j = self.body(b, env);
                    f.push(("body", j));
                    let pr: Vec<V> =
                        tcx.promoted_mir(did).iter().map(|b| self.body(b, env)).collect();
                    f.push(("promoted", arr(pr)));
                    if tcx.is_const_fn(did) {
                        f.push(("const_fn", boolean(true)));
                    }
                }
            }
            "const" => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t);
                f.push(("ty", ti));
                let has_val = match tcx.opt_associated_item(did) {
                    Some(a) => a.defaultness(tcx).has_value(),
                    None => true,
                };
                if has_val {
                    let gen = tcx.generics_of(did).requires_monomorphization(tcx);
                    if !gen {
                        if let Ok(v) = tcx.const_eval_poly(did) {
                            let j = self.cval(v, t, 0);
                            f.push(("val", j));
                        }
                    }
                    let b = tcx.mir_for_ctfe(did);
                    let j = self.body(b, env);
                    f.push(("body", j));
                    let pr: Vec<V> =
                        tcx.promoted_mir(did).iter().map(|b| self.body(b, env)).collect();
                    f.push(("promoted", arr(pr)));
                }
            }
            "anon" => {
                let b = tcx.mir_for_ctfe(did);
                let j = self.body(b, env);
                f.push(("body", j));
            }
            "static" => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t);
                f.push(("ty", ti));
                f.push(("mutable", boolean(tcx.is_mutable_static(did))));
                f.push(("thread_local", boolean(tcx.is_thread_local_static(did))));
                f.push(("freeze", boolean(t.is_freeze(tcx, env))));
                if let Ok(_) = tcx.eval_static_initializer(did) {
                    if !tcx.is_thread_local_static(did) {
                        let aid = tcx.reserve_and_set_static_alloc(did);
                        let _ = aid;
                        if let Ok(a) = tcx.eval_static_initializer(did) {
                            let id = tcx.reserve_and_set_memory_alloc(a);
                            let cv = ConstValue::Indirect {
                                alloc_id: id,
                                offset: rustc_abi::Size::ZERO,
                            };
                            let j = self.cval(cv, t, 0);
                            f.push(("val", j));
                        }
                    }
                }
            }
            _ => {}
        }
        Some(obj(f))
    }
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut d = D {
        tcx,
        types: HashMap::new(),
        type_json: vec![],
        adts: HashMap::new(),
        adt_json: vec![],
        traits_done: HashMap::new(),
        trait_json: vec![],
        files: HashMap::new(),
        file_list: vec![],
    };
    let _ = with_resolve_crate_name!(());
    let mut items = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_path(k.to_def_id()).to_string_no_crate_verbose());
    for ld in keys {
        if let Some(v) = d.item(ld) {
            items.push(v);
        }
    }
    // impls
    let mut impls = vec![];
    let ev = tcx.effective_visibilities(());
    for id in tcx.hir_crate_items(()).definitions() {
        match tcx.def_kind(id) {
            DefKind::Impl { of_trait } => {
                let did = id.to_def_id();
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = d.ty(t);
                let mut f = vec![("key", st(&key(tcx, did))), ("self", ti)];
                let sp = d.span(tcx.def_span(did));
                f.push(("span", sp));
                let g = d.generics(did);
                f.push(("generics", g));
                let p = d.preds(did);
                f.push(("preds", p));
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    d.trait_(tr.def_id);
                    f.push(("trait", st(&path(tcx, tr.def_id))));
                    let a = d.args(tr.args);
                    f.push(("trait_args", a));
                    f.push((
                        "negative",
                        boolean(matches!(tcx.impl_polarity(did), ty::ImplPolarity::Negative)),
                    ));
                    f.push((
                        "unsafe",
                        boolean(tcx.impl_trait_header(did).safety.is_unsafe()),
                    ));
                    f.push(("derived", boolean(tcx.is_automatically_derived(did))));
                }
                let mut its = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if it.is_impl_trait_in_trait() {
                        continue;
                    }
                    let mut e = vec![
                        ("n", st(it.name().as_str())),
                        ("key", st(&key(tcx, it.def_id))),
                    ];
                    match it.tag() {
                        ty::AssocTag::Type => {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            let ti = d.ty(t);
                            e.push(("kind", st("type")));
                            e.push(("ty", ti));
                        }
                        ty::AssocTag::Fn => e.push(("kind", st("fn"))),
                        ty::AssocTag::Const => e.push(("kind", st("const"))),
                    }
                    its.push(obj(e));
                }
                f.push(("items", arr(its)));
                impls.push(obj(f));
            }
            DefKind::Trait => d.trait_(id.to_def_id()),
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(id.to_def_id());
                d.adt(a);
            }
            _ => {}
        }
    }
    let mut reach = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(
            tcx.def_kind(id),
            DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Trait
        ) {
            reach.push(arr([
                st(&path(tcx, id.to_def_id())),
                boolean(ev.is_reachable(id)),
                boolean(ev.is_exported(id)),
            ]));
        }
    }
    let files: Vec<V> = d.file_list.iter().map(|s| st(s)).collect();
    let o = obj([
        ("crate", st(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
        ("items", V(arr(items).0)),
        ("impls", arr(impls)),
        ("types", arr(d.type_json.clone())),
        ("adts", obj(d.adt_json.iter().map(|(k, v)| (k.as_str(), v.clone())))),
        ("traits", obj(d.trait_json.iter().map(|(k, v)| (k.as_str(), v.clone())))),
        ("reach", arr(reach)),
        ("files", arr(files)),
    ]);
    o.0
}

/// Which auto traits the type has when its type parameters (and their associated types) have them, by the compiler's own solver.
/// Per trait two answers: assuming only that trait of the parameters, and assuming both.
fn auto_traits<'tcx>(tcx: TyCtxt<'tcx>, def: ty::AdtDef<'tcx>) -> V {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let did = def.did();
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send).unwrap();
    let sync = tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::Sync, rustc_span::DUMMY_SP);
    let own = tcx.param_env(did);
    let ty_ = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    let mut base: Vec<Ty<'tcx>> = vec![];
    if let ty::Adt(_, args) = ty_.kind() {
        base.extend(args.types());
    }
    for c in own.caller_bounds() {
        if let Some(tp) = c.as_trait_clause() {
            if let Some(tr) = tp.no_bound_vars() {
                for it in tcx.associated_items(tr.def_id()).in_definition_order() {
                    if it.tag() == ty::AssocTag::Type && tcx.generics_of(it.def_id).own_params.is_empty() {
                        base.push(Ty::new_projection(tcx, ty::IsRigid::No, it.def_id, tr.trait_ref.args));
                    }
                }
            }
        }
    }
    let test = |assume: &[DefId], want: DefId| -> bool {
        let mut cl: Vec<ty::Clause<'tcx>> = own.caller_bounds().collect();
        for t in &base {
            for a in assume {
                let tr = ty::TraitRef::new(tcx, *a, [*t]);
                cl.push(ty::Upcast::upcast(tr, tcx));
            }
        }
        let env = ty::ParamEnv::new(tcx, cl.iter().copied());
        let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
        infcx.type_implements_trait(want, [ty_], env).must_apply_modulo_regions()
    };
    obj([
        ("Send", arr([boolean(test(&[send], send)), boolean(test(&[send, sync], send))])),
        ("Sync", arr([boolean(test(&[sync], sync)), boolean(test(&[send, sync], sync))])),
    ])
}
