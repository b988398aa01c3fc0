//! MIR fact extractor: runs as a rustc wrapper and, for each workspace crate it
//! compiles, writes one JSON file with the type-checked program (functions as
//! MIR with resolved callees, data types, trait impls) to $MIRFACTS_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::BTreeMap;
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{
    self, AggregateKind, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, s) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}
fn obj(v: impl IntoIterator<Item = (&'static str, String)>) -> String {
    let mut o = String::from("{");
    for (i, (k, s)) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push('"');
        o.push_str(k);
        o.push_str("\":");
        o.push_str(&s);
    }
    o.push('}');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    uniq: std::collections::HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        if let Some(p) = self.uniq.get(&d) {
            return p.clone();
        }
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
        } else {
            p
        }
    }
    /// Definition path of a data type or trait (independent of re-exports).
    fn dpath(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn hash(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d).0;
        esc(&format!("{:?}", h).replace(['(', ')', ' '], "").replace("Fingerprint", ""))
    }
    fn ours(&self, d: DefId) -> bool {
        let c = self.tcx.crate_name(d.krate);
        let c = c.as_str();
        c == "rgbstd" || c == "rgbinvoice" || c == "models"
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn loc(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        arr([esc(&f), l.line.to_string()])
    }

    fn note_adt(&mut self, t: Ty<'tcx>) {
        let t = t.peel_refs();
        if let ty::Adt(def, _) = t.kind() {
            let d = def.did();
            let key = self.dpath(d);
            if self.adts.contains_key(&key) {
                return;
            }
            self.adts.insert(key.clone(), String::new());
            let def = *def;
            let kind = if def.is_enum() {
                "enum"
            } else if def.is_union() {
                "union"
            } else {
                "struct"
            };
            let mut vs = vec![];
            let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if def.is_enum() {
                def.discriminants(self.tcx).map(|(i, d)| (i, d.val)).collect()
            } else {
                vec![]
            };
            for (vi, v) in def.variants().iter_enumerated() {
                let dv = discrs
                    .iter()
                    .find(|(i, _)| *i == vi)
                    .map(|(_, d)| d.to_string())
                    .unwrap_or_else(|| "0".into());
                let fs: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let fty = self.ty(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
                        let vis = self.vis(f.did);
                        arr([esc(f.name.as_str()), esc(&fty), esc(&vis)])
                    })
                    .collect();
                vs.push(obj([
                    ("name", esc(v.name.as_str())),
                    ("discr", dv),
                    ("fields", arr(fs)),
                ]));
            }
            let s = obj([
                ("kind", esc(kind)),
                ("local", d.is_local().to_string()),
                ("vis", esc(&self.vis(d))),
                ("variants", arr(vs)),
            ]);
            self.adts.insert(key, s);
        }
    }
    fn vis(&self, d: DefId) -> String {
        match self.tcx.visibility(d) {
            ty::Visibility::Public => "pub".to_string(),
            ty::Visibility::Restricted(m) => format!("in {}", self.path(m.to_def_id())),
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            let s = match elem {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(bt.ty);
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[f].name.to_string()
                        }
                        ty::Closure(d, _) => {
                            let names = d.as_local().map(|l| {
                                self.tcx
                                    .closure_captures(l)
                                    .iter()
                                    .map(|c| c.to_symbol().to_string())
                                    .collect::<Vec<_>>()
                            });
                            names
                                .and_then(|n| n.get(f.as_usize()).cloned())
                                .unwrap_or_else(|| f.as_usize().to_string())
                        }
                        _ => f.as_usize().to_string(),
                    };
                    arr(["\"f\"".into(), f.as_usize().to_string(), esc(&name)])
                }
                ProjectionElem::Index(l) => {
                    arr(["\"i\"".into(), l.as_usize().to_string()])
                }
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => arr(["\"c\"".into(), offset.to_string(), from_end.to_string()]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr(["\"s\"".into(), from.to_string(), to.to_string(), from_end.to_string()])
                }
                ProjectionElem::Downcast(n, v) => {
                    self.note_adt(bt.ty);
                    arr([
                        "\"v\"".into(),
                        v.as_usize().to_string(),
                        esc(n.map(|n| n.to_string()).unwrap_or_default().as_str()),
                    ])
                }
                _ => "\"?\"".to_string(),
            };
            pr.push(s);
        }
        if pr.is_empty() {
            format!("[{}]", p.local.as_usize())
        } else {
            format!("[{},{}]", p.local.as_usize(), pr.join(","))
        }
    }

    fn fn_ref(&mut self, te: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let mut v = vec![("k", esc("fn")), ("def", esc(&path)), ("name", esc(&name))];
        let strs: Vec<String> = args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| esc(&with_no_trimmed_paths!(a.to_string())))
            .collect();
        v.push(("args", arr(strs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", esc(&self.dpath(tr))));
        }
        if self.ours(d) {
            v.push(("h", self.hash(d)));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        match ty::Instance::try_resolve(tcx, te, d, eargs) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                if rd != d {
                    v.push(("res", esc(&self.path(rd))));
                    if self.ours(rd) {
                        v.push(("rh", self.hash(rd)));
                    }
                }
                let vias = self.vias(te, rd, i.args);
                if !vias.is_empty() {
                    v.push(("via", arr(vias)));
                }
                if matches!(i.def, ty::InstanceKind::Item(_)) {
                    v.push(("item", "1".into()));
                } else {
                    v.push(("shim", "1".into()));
                }
            }
            _ => {}
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let p = tcx.parent(d);
            // variant or struct constructor
            let (adt, variant) = match tcx.def_kind(p) {
                DefKind::Variant => (tcx.parent(p), tcx.item_name(p).to_string()),
                _ => (p, tcx.item_name(p).to_string()),
            };
            v.push(("ctor", arr([esc(&self.dpath(adt)), esc(&variant)])));
            let t = tcx.type_of(adt).instantiate_identity().skip_norm_wip();
            self.note_adt(t);
        }
        obj(v)
    }

    /// Workspace implementations of the traits a foreign callee is bounded by
    /// (the `From` behind `into`/`?`, the `FromStr` behind `parse`, ...).
    fn vias(
        &self,
        te: TypingEnv<'tcx>,
        rd: DefId,
        args: ty::GenericArgsRef<'tcx>,
    ) -> Vec<String> {
        let tcx = self.tcx;
        let mut out = vec![];
        if self.ours(rd) {
            return out;
        }
        let preds = tcx.clauses_of(rd).instantiate(tcx, args);
        for p in preds.clauses {
            let p = p.skip_norm_wip();
            let Some(tp) = p.as_trait_clause() else { continue };
            let Some(tp) = tp.no_bound_vars() else { continue };
            let tr = tp.trait_ref;
            if !matches!(
                tcx.item_name(tr.def_id).as_str(),
                "From"
                    | "FromStr"
                    | "Display"
                    | "Sum"
                    | "FromIterator"
                    | "TryFrom"
                    | "IntoIterator"
                    | "Iterator"
                    | "CommitEncode"
                    | "CommitId"
                    | "Baid64"
                    | "DisplayBaid64"
                    | "FromBaid64Str"
                    | "StrictArmor"
                    | "AsciiArmor"
            ) {
                continue;
            }
            let Ok(tr) = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(tr))
            else {
                continue;
            };
            for item in tcx.associated_items(tr.def_id).in_definition_order() {
                if !matches!(item.kind, ty::AssocKind::Fn { .. }) {
                    continue;
                }
                if tcx.generics_of(item.def_id).own_params.iter().any(|p| {
                    !matches!(p.kind, ty::GenericParamDefKind::Lifetime)
                }) {
                    // method generics: only the impl item matters
                    let ia = ty::GenericArgs::for_item(tcx, item.def_id, |p, _| {
                        if (p.index as usize) < tr.args.len() {
                            tr.args[p.index as usize]
                        } else {
                            tcx.mk_param_from_def(p)
                        }
                    });
                    if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, te, item.def_id, ia) {
                        if self.ours(i.def_id()) {
                            out.push(arr([
                                esc(&self.dpath(tr.def_id)),
                                esc(item.name().as_str()),
                                self.hash(i.def_id()),
                            ]));
                        }
                    }
                    continue;
                }
                if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, te, item.def_id, tr.args) {
                    if self.ours(i.def_id()) {
                        out.push(arr([
                            esc(&self.dpath(tr.def_id)),
                            esc(item.name().as_str()),
                            self.hash(i.def_id()),
                        ]));
                    }
                }
            }
        }
        out
    }

    fn bytes_const(&self, bytes: &[u8]) -> String {
        match std::str::from_utf8(bytes) {
            Ok(s) => obj([("k", esc("str")), ("v", esc(s))]),
            Err(_) => obj([
                ("k", esc("bytes")),
                ("v", arr(bytes.iter().map(|b| b.to_string()))),
            ]),
        }
    }

    fn konst(&mut self, te: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                let a = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                return self.fn_ref(te, *d, a);
            }
            ty::Closure(d, _) => {
                return obj([("k", esc("closure")), ("def", self.hash(*d))]);
            }
            _ => {}
        }
        let mut extra = vec![];
        let unev = match c {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    return obj([
                        ("k", esc("promoted")),
                        ("i", p.as_usize().to_string()),
                        ("def", self.hash(u.def)),
                        ("ty", esc(&self.ty(t))),
                    ]);
                }
                extra.push(("def", esc(&self.path(u.def))));
                true
            }
            Const::Ty(_, tc) => {
                if !matches!(tc.kind(), ty::ConstKind::Value(_)) {
                    return obj([
                        ("k", esc("param")),
                        ("v", esc(&with_no_trimmed_paths!(tc.to_string()))),
                        ("ty", esc(&self.ty(t))),
                    ]);
                }
                false
            }
            _ => false,
        };
        let has_params = {
            use rustc_middle::ty::TypeVisitableExt;
            match c {
                Const::Unevaluated(u, _) => u.args.has_param(),
                _ => false,
            }
        };
        let val = if unev && has_params {
            None
        } else {
            c.eval(tcx, te, rustc_span::DUMMY_SP).ok()
        };
        let mut v = match val {
            Some(val) => self.const_value(te, val, t),
            None => vec![("k", esc("uneval"))],
        };
        v.push(("ty", esc(&self.ty(t))));
        v.extend(extra);
        obj(v)
    }

    fn const_value(
        &mut self,
        te: TypingEnv<'tcx>,
        val: ConstValue,
        t: Ty<'tcx>,
    ) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
                if let Some(s) = val.try_to_scalar_int() {
                    let bits = s.to_bits_unchecked();
                    let v = match t.kind() {
                        ty::Int(_) => s.to_int(s.size()).to_string(),
                        _ => bits.to_string(),
                    };
                    return vec![("k", esc("int")), ("v", v)];
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                    return vec![
                        ("k", esc("str")),
                        ("v", esc(&String::from_utf8_lossy(b))),
                    ];
                }
            }
            ty::Ref(_, inner, _) => {
                // &[u8; N] / &[u8] literals
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            return vec![("k", esc("bytesref")), ("v", self.bytes_const(b))];
                        }
                    }
                }
                if let ty::Array(e, _) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) = val {
                            let (prov, off) = ptr.into_raw_parts();
                            if let mir::interpret::GlobalAlloc::Memory(a) =
                                tcx.global_alloc(prov.alloc_id())
                            {
                                let a = a.inner();
                                let len = a.len();
                                let o = off.bytes() as usize;
                                let b = a
                                    .inspect_with_uninit_and_ptr_outside_interpreter(o..len)
                                    .to_vec();
                                return vec![("k", esc("bytesref")), ("v", self.bytes_const(&b))];
                            }
                        }
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                self.note_adt(t);
                if let Some(s) = self.destructure(te, val, t, 0) {
                    return vec![("k", esc("val")), ("v", s)];
                }
            }
            _ => {}
        }
        vec![("k", esc("opaque")), ("v", esc(&format!("{val:?}").chars().take(60).collect::<String>()))]
    }

    fn destructure(
        &mut self,
        te: TypingEnv<'tcx>,
        val: ConstValue,
        t: Ty<'tcx>,
        depth: usize,
    ) -> Option<String> {
        use rustc_middle::ty::TypeVisitableExt;
        if depth > 5 || t.has_param() || t.has_aliases() {
            return None;
        }
        let tcx = self.tcx;
        let d = tcx.try_destructure_mir_constant_for_user_output(val, t)?;
        let mut fs = vec![];
        for (fv, ft) in d.fields {
            let s = match ft.kind() {
                ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self
                    .destructure(te, *fv, *ft, depth + 1)
                    .unwrap_or_else(|| "null".into()),
                _ => obj(self.const_value(te, *fv, *ft)),
            };
            fs.push(s);
        }
        self.note_adt(t);
        let vn = match t.kind() {
            ty::Adt(def, _) => {
                let vi = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                arr([esc(&self.dpath(def.did())), esc(def.variant(vi).name.as_str())])
            }
            _ => "null".into(),
        };
        Some(obj([("adt", vn), ("fields", arr(fs))]))
    }

    fn operand(&mut self, body: &Body<'tcx>, te: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => arr(["\"c\"".into(), self.place(body, p)]),
            Operand::Move(p) => arr(["\"m\"".into(), self.place(body, p)]),
            Operand::Constant(c) => arr(["\"k\"".into(), self.konst(te, &c.const_)]),
            _ => arr(["\"k\"".into(), obj([("k", esc("runtime"))])]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, te: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => arr(["\"use\"".into(), self.operand(body, te, o)]),
            Rvalue::Repeat(o, n) => arr([
                "\"repeat\"".into(),
                self.operand(body, te, o),
                esc(&n.to_string()),
            ]),
            Rvalue::Ref(_, k, p) => arr([
                "\"ref\"".into(),
                esc(if matches!(k, mir::BorrowKind::Mut { .. }) { "mut" } else { "shared" }),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(_, p) => {
                arr(["\"ref\"".into(), "\"raw\"".into(), self.place(body, p)])
            }
            Rvalue::Cast(k, o, t) => arr([
                "\"cast\"".into(),
                esc(&format!("{k:?}")),
                self.operand(body, te, o),
                esc(&self.ty(*t)),
            ]),
            Rvalue::BinaryOp(op, ab) => arr([
                "\"bin\"".into(),
                esc(&format!("{op:?}")),
                self.operand(body, te, &ab.0),
                self.operand(body, te, &ab.1),
            ]),
            Rvalue::UnaryOp(op, a) => arr([
                "\"un\"".into(),
                esc(&format!("{op:?}")),
                self.operand(body, te, a),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                self.note_adt(t);
                let an = match t.kind() {
                    ty::Adt(d, _) => self.dpath(d.did()),
                    _ => self.ty(t),
                };
                arr(["\"discr\"".into(), self.place(body, p), esc(&an)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(t) => arr(["\"array\"".into(), esc(&self.ty(*t))]),
                    AggregateKind::Tuple => arr(["\"tuple\"".into()]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let t = self.tcx.type_of(*d).instantiate_identity().skip_norm_wip();
                        self.note_adt(t);
                        let full = with_no_trimmed_paths!(self
                            .tcx
                            .def_path_str_with_args(*d, args));
                        arr([
                            "\"adt\"".into(),
                            esc(&self.dpath(*d)),
                            esc(def.variant(*v).name.as_str()),
                            v.as_usize().to_string(),
                            arr(def.variant(*v).fields.iter().map(|f| esc(f.name.as_str()))),
                            esc(&full),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        arr(["\"closure\"".into(), self.hash(*d)])
                    }
                    _ => arr(["\"other\"".into()]),
                };
                let o: Vec<String> = ops.iter().map(|o| self.operand(body, te, o)).collect();
                arr(["\"agg\"".into(), kind, arr(o)])
            }
            Rvalue::CopyForDeref(p) => arr([
                "\"use\"".into(),
                arr(["\"c\"".into(), self.place(body, p)]),
            ]),
            Rvalue::Reborrow(_, _, p) => {
                arr(["\"use\"".into(), arr(["\"c\"".into(), self.place(body, p)])])
            }
            _ => arr(["\"other\"".into(), esc(&format!("{r:?}"))]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, te: TypingEnv<'tcx>) -> Vec<(&'static str, String)> {
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut sts = vec![];
            for st in &data.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let s = arr([
                            "\"=\"".into(),
                            self.place(body, &b.0),
                            self.rvalue(body, te, &b.1),
                            self.loc(st.source_info.span),
                        ]);
                        sts.push(s);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(arr([
                            "\"setd\"".into(),
                            self.place(body, place),
                            variant_index.as_usize().to_string(),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let loc = self.loc(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    arr(["\"goto\"".into(), target.as_usize().to_string()])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| arr([v.to_string(), b.as_usize().to_string()]))
                        .collect();
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    arr([
                        "\"switch\"".into(),
                        self.operand(body, te, discr),
                        arr(vs),
                        targets.otherwise().as_usize().to_string(),
                        esc(&self.ty(dt)),
                        loc,
                    ])
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"]".into()
                }
                TerminatorKind::Drop { place, target, .. } => arr([
                    "\"drop\"".into(),
                    self.place(body, place),
                    target.as_usize().to_string(),
                ]),
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    fn_span,
                    ..
                } => {
                    let fl = self.loc(*fn_span);
                    let a: Vec<String> =
                        args.iter().map(|a| self.operand(body, te, &a.node)).collect();
                    let fty = func.ty(&body.local_decls, self.tcx);
                    let mut f = self.operand(body, te, func);
                    if let ty::FnPtr(..) | ty::Closure(..) = fty.kind() {
                        f = arr(["\"ptr\"".into(), f]);
                    }
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let muts: Vec<String> = args
                        .iter()
                        .enumerate()
                        .filter(|(_, a)| {
                            matches!(
                                a.node.ty(&body.local_decls, self.tcx).kind(),
                                ty::Ref(_, _, mir::Mutability::Mut)
                            )
                        })
                        .map(|(i, _)| i.to_string())
                        .collect();
                    arr([
                        "\"call\"".into(),
                        f,
                        arr(a),
                        self.place(body, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        fl,
                        esc(&self.ty(dt)),
                        arr(muts),
                    ])
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    target,
                    msg,
                    ..
                } => arr([
                    "\"assert\"".into(),
                    self.operand(body, te, cond),
                    expected.to_string(),
                    target.as_usize().to_string(),
                    esc(&format!("{msg:?}").chars().take(40).collect::<String>()),
                ]),
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    arr(["\"goto\"".into(), real_target.as_usize().to_string()])
                }
                _ => "[\"other\"]".into(),
            };
            blocks.push(arr([
                arr(sts),
                ts,
                (if data.is_cleanup { "1" } else { "0" }).into(),
            ]));
        }
        let locals: Vec<String> =
            body.local_decls.iter().map(|d| esc(&self.ty(d.ty))).collect();
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let nm: Vec<String> = names
            .into_iter()
            .map(|(k, v)| format!("\"{}\":{}", k, esc(&v)))
            .collect();
        for d in body.local_decls.iter() {
            self.note_adt(d.ty);
        }
        vec![
            ("argc", body.arg_count.to_string()),
            ("locals", arr(locals)),
            ("names", format!("{{{}}}", nm.join(","))),
            ("blocks", arr(blocks)),
        ]
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.trimmed_def_paths = false;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx {
            tcx,
            adts: BTreeMap::new(),
            uniq: Default::default(),
        };
        // Unique names for local bodies whose printed paths coincide.
        {
            let mut seen: std::collections::HashMap<String, usize> = Default::default();
            let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
            keys.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
            for d in keys {
                let d = d.to_def_id();
                let p = cx.path(d);
                let n = seen.entry(p.clone()).or_insert(0);
                if *n > 0 {
                    cx.uniq.insert(d, format!("{p}#{n}"));
                }
                *n += 1;
            }
        }
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let te = TypingEnv::post_analysis(tcx, d);
            let (ks, body) = match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    ("fn", tcx.optimized_mir(d))
                }
                DefKind::Closure => ("closure", tcx.optimized_mir(d)),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    ("const", tcx.mir_for_ctfe(d))
                }
                _ => continue,
            };
            let path = cx.path(d);
            let mut v = vec![
                ("path", esc(&path)),
                ("kind", esc(ks)),
                ("h", cx.hash(d)),
                ("loc", cx.loc(tcx.def_span(d))),
            ];
            v.extend(cx.body(body, te));
            let pm = tcx.promoted_mir(d);
            let mut ps = vec![];
            for b in pm.iter() {
                let f = cx.body(b, te);
                ps.push(obj(f));
            }
            v.push(("promoted", arr(ps)));
            if ks == "closure" {
                let par = tcx.typeck_root_def_id(d);
                v.push(("parent", esc(&cx.path(par))));
                v.push(("hparent", cx.hash(par)));
                let caps: Vec<String> = tcx
                    .closure_captures(ld)
                    .iter()
                    .map(|c| esc(&c.to_symbol().to_string()))
                    .collect();
                v.push(("captures", arr(caps)));
            } else {
                v.push(("vis", esc(&cx.vis(d))));
                v.push(("exported", ev.is_reachable(ld).to_string()));
                v.push(("name", esc(tcx.item_name(d).as_str())));
                if let Some(ai) = tcx.opt_associated_item(d) {
                    let cont = ai.container_id(tcx);
                    if matches!(tcx.def_kind(cont), DefKind::Impl { .. }) {
                        let st = tcx.type_of(cont).instantiate_identity().skip_norm_wip();
                        v.push(("self", esc(&cx.ty(st))));
                        if let ty::Adt(ad, _) = st.kind() {
                            v.push(("selfadt", esc(&cx.dpath(ad.did()))));
                        }
                        if let Some(tr) = tcx.impl_opt_trait_ref(cont) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            v.push(("trait", esc(&cx.dpath(tr.def_id))));
                            v.push((
                                "traitref",
                                esc(&with_no_trimmed_paths!(tr.to_string())),
                            ));
                        }
                    } else {
                        v.push(("intrait", esc(&cx.dpath(cont))));
                    }
                }
                if ks == "fn" {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    v.push(("sig", esc(&with_no_trimmed_paths!(sig.to_string()))));
                }
                let derived = tcx
                    .opt_parent(d)
                    .map(|p| tcx.is_automatically_derived(p))
                    .unwrap_or(false);
                v.push(("derived", derived.to_string()));
            }
            fns.push(obj(v));
        }
        // All local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(
                tcx.def_kind(id.to_def_id()),
                DefKind::Struct | DefKind::Enum | DefKind::Union
            ) {
                let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                cx.note_adt(t);
            }
        }
        let mut impls = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()) {
            for i in ids {
                let i = i.to_def_id();
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let trr = tcx.impl_opt_trait_ref(i).map(|t| {
                    let t = t.instantiate_identity().skip_norm_wip();
                    with_no_trimmed_paths!(t.to_string())
                });
                let items: Vec<String> = tcx
                    .associated_item_def_ids(i)
                    .iter()
                    .map(|d| esc(&cx.path(*d)))
                    .collect();
                impls.push((
                    cx.path(*tr) + &cx.ty(st),
                    obj([
                        ("trait", esc(&cx.dpath(*tr))),
                        ("self", esc(&cx.ty(st))),
                        ("traitref", esc(&trr.unwrap_or_default())),
                        ("derived", tcx.is_automatically_derived(i).to_string()),
                        ("items", arr(items)),
                    ]),
                ));
            }
        }
        impls.sort();
        let adts: Vec<String> = cx
            .adts
            .iter()
            .map(|(k, v)| format!("{}:{}", esc(k), if v.is_empty() { "null" } else { v }))
            .collect();
        let out = format!(
            "{{\"crate\":{},\"fns\":[\n{}\n],\"adts\":{{{}}},\"impls\":{}}}\n",
            esc(&krate),
            fns.join(",\n"),
            adts.join(",\n"),
            arr(impls.into_iter().map(|(_, s)| s)),
        );
        let p = format!("{}/{}.json", self.out, krate);
        let tmp = format!("{}.tmp{}", p, std::process::id());
        std::fs::write(&tmp, out).expect("write facts");
        std::fs::rename(&tmp, &p).expect("rename facts");
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1
        && std::path::Path::new(&args[1]).file_stem().map_or(false, |s| s == "rustc")
    {
        args.remove(1);
    }
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1].contains("lib"));
    let test = args.iter().any(|a| a == "--test");
    match std::env::var("MIRFACTS_OUT") {
        Ok(out) if is_lib && !test => rustc_driver::compiler_entrypoint(&args, &mut Cb { out }),
        _ => rustc_driver::compiler_entrypoint(&args, &mut Nop),
    }
}
