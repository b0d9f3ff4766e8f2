// mirdump: a rustc driver that writes the type-checked program of one crate (MIR bodies, resolved
// callees, evaluated constants, ADT layouts by name) as JSON to $MIRDUMP_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Closure(d, _) => J::O(vec![("closure", s(self.path(*d)))]),
            ty::FnDef(d, _) => J::O(vec![("fn", s(self.path(*d)))]),
            _ => s(with_no_trimmed_paths!(t.to_string())),
        }
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let cs = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(cs.lo());
        J::A(vec![
            s(lo.file.name.prefer_local_unconditionally()),
            J::I(lo.line as i128),
            J::B(sp.from_expansion()),
        ])
    }
    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = vec![];
        for el in p.projection.iter() {
            let j = match el {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.as_usize().to_string();
                    if pt.ty.is_box() {
                        v.push(s("*"));
                        pt = pt.projection_ty(self.tcx, el);
                        continue;
                    }
                    if let ty::Adt(adt, _) = pt.ty.kind() {
                        let var = if adt.is_enum() {
                            pt.variant_index.map(|vi| adt.variant(vi))
                        } else {
                            Some(adt.non_enum_variant())
                        };
                        if let Some(var) = var {
                            name = var.fields[f].name.to_string();
                        }
                    }
                    J::A(vec![s("f"), s(name)])
                }
                ProjectionElem::Downcast(sym, vi) => {
                    let name = match sym {
                        Some(x) => x.to_string(),
                        None => match pt.ty.kind() {
                            ty::Adt(adt, _) => adt.variant(vi).name.to_string(),
                            _ => vi.as_usize().to_string(),
                        },
                    };
                    J::A(vec![s("v"), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                _ => s("?"),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, el);
        }
        J::O(vec![("l", J::I(p.local.as_usize() as i128)), ("p", J::A(v))])
    }
    fn read(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, depth: u32) -> J {
        if depth > 6 {
            return J::N;
        }
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let GlobalAlloc::Memory(alloc) = tcx.global_alloc(id) else { return J::N };
        let alloc = alloc.inner();
        let bytes = |o: u64, n: u64| -> Option<Vec<u8>> {
            if o + n > alloc.size().bytes() {
                return None;
            }
            Some(
                alloc
                    .inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize)
                    .to_vec(),
            )
        };
        let ptr_at = |o: u64| -> Option<(rustc_middle::mir::interpret::AllocId, u64)> {
            let r = AllocRange { start: rustc_abi::Size::from_bytes(o), size: tcx.data_layout.pointer_size() };
            match alloc.read_scalar(&tcx, r, true) {
                Ok(Scalar::Ptr(p, _)) => {
                    let (prov, o2) = p.into_raw_parts();
                    Some((prov.alloc_id(), o2.bytes()))
                }
                _ => None,
            }
        };
        match t.kind() {
            ty::Bool => bytes(off, 1).map_or(J::N, |b| J::B(b[0] != 0)),
            ty::Char => bytes(off, 4).map_or(J::N, |b| {
                s(char::from_u32(u32::from_le_bytes(b.try_into().unwrap())).unwrap_or('?'))
            }),
            ty::Int(_) | ty::Uint(_) => {
                let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return J::N };
                bytes(off, l.size.bytes()).map_or(J::N, |b| {
                    let mut x: u128 = 0;
                    for (i, y) in b.iter().enumerate() {
                        x |= (*y as u128) << (8 * i);
                    }
                    if x > i128::MAX as u128 { J::N } else { J::I(x as i128) }
                })
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    let (Some((a, o)), Some(l)) = (ptr_at(off), bytes(off + 8, 8)) else {
                        return J::N;
                    };
                    let n = u64::from_le_bytes(l.try_into().unwrap());
                    let GlobalAlloc::Memory(m) = tcx.global_alloc(a) else { return J::N };
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                        o as usize..(o + n) as usize,
                    );
                    s(String::from_utf8_lossy(b))
                }
                ty::Slice(e) => {
                    let (Some((a, o)), Some(l)) = (ptr_at(off), bytes(off + 8, 8)) else {
                        return J::N;
                    };
                    let n = u64::from_le_bytes(l.try_into().unwrap());
                    let Ok(el) = tcx.layout_of(env.as_query_input(*e)) else { return J::N };
                    J::A((0..n).map(|i| self.read(a, o + i * el.size.bytes(), *e, depth + 1)).collect())
                }
                _ => match ptr_at(off) {
                    Some((a, o)) => self.read(a, o, *inner, depth + 1),
                    None => J::N,
                },
            },
            ty::Adt(def, args) if !def.is_union() => {
                let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return J::N };
                let (vi, fields) = match &l.variants {
                    rustc_abi::Variants::Single { index } => {
                        (*index, (0..l.fields.count()).map(|i| l.fields.offset(i).bytes()).collect::<Vec<_>>())
                    }
                    rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let n = tag.size(&tcx).bytes();
                        let o = off + l.fields.offset(tag_field.as_usize()).bytes();
                        let Some(b) = bytes(o, n) else { return J::N };
                        let mut x: u128 = 0;
                        for (i, y) in b.iter().enumerate() {
                            x |= (*y as u128) << (8 * i);
                        }
                        let mask: u128 = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                        let vi = match tag_encoding {
                            rustc_abi::TagEncoding::Direct => {
                                match def.discriminants(tcx).find(|(_, d)| d.val & mask == x) {
                                    Some((i, _)) => i,
                                    None => return J::N,
                                }
                            }
                            rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = x.wrapping_sub(*niche_start) & mask;
                                let lo = niche_variants.start.as_u32() as u128;
                                let hi = niche_variants.last.as_u32() as u128;
                                if rel <= hi - lo {
                                    rustc_abi::VariantIdx::from_u32((lo + rel) as u32)
                                } else {
                                    *untagged_variant
                                }
                            }
                        };
                        (vi, variants[vi].field_offsets.iter().map(|o| o.bytes()).collect())
                    }
                    _ => return J::N,
                };
                let v = def.variant(vi);
                let mut fs = vec![];
                for (i, f) in v.fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    fs.push(J::A(vec![
                        J::S(f.name.to_string()),
                        if depth < 4 { self.read(id, off + fields[i], ft, depth + 1) } else { J::N },
                    ]));
                }
                J::O(vec![("adt", s(self.path(def.did()))), ("variant", J::S(v.name.to_string())), ("fields", J::A(fs))])
            }
            ty::Array(e, n) => {
                let Some(n) = n.try_to_target_usize(tcx) else { return J::N };
                let Ok(el) = tcx.layout_of(env.as_query_input(*e)) else { return J::N };
                J::A((0..n).map(|i| self.read(id, off + i * el.size.bytes(), *e, depth + 1)).collect())
            }
            ty::Tuple(ts) => {
                let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return J::N };
                J::A(
                    ts.iter()
                        .enumerate()
                        .map(|(i, e)| self.read(id, off + l.fields.offset(i).bytes(), e, depth + 1))
                        .collect(),
                )
            }
            _ => J::N,
        }
    }
    fn value(&self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Bool => J::B(i.to_bits(i.size()) != 0),
                ty::Char => s(char::from_u32(i.to_bits(i.size()) as u32).unwrap_or('?')),
                ty::Int(_) => J::I(i.to_int(i.size())),
                _ => {
                    let x = i.to_bits(i.size());
                    if x > i128::MAX as u128 { J::N } else { J::I(x as i128) }
                }
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, o) = p.into_raw_parts();
                match t.kind() {
                    ty::Ref(_, inner, _) => self.read(prov.alloc_id(), o.bytes(), *inner, 0),
                    _ => J::N,
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) else { return J::N };
                match t.kind() {
                    ty::Ref(_, inner, _) if inner.is_str() => {
                        let b = m
                            .inner()
                            .inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        s(String::from_utf8_lossy(b))
                    }
                    ty::Ref(_, inner, _) => match inner.kind() {
                        ty::Slice(e) => {
                            let Ok(el) = self
                                .tcx
                                .layout_of(TypingEnv::fully_monomorphized().as_query_input(*e))
                            else {
                                return J::N;
                            };
                            J::A((0..meta)
                                .map(|i| self.read(alloc_id, i * el.size.bytes(), *e, 0))
                                .collect())
                        }
                        _ => J::N,
                    },
                    _ => J::N,
                }
            }
            ConstValue::Indirect { alloc_id, offset } => self.read(alloc_id, offset.bytes(), t, 0),
            ConstValue::ZeroSized => J::O(vec![("zst", self.ty(t))]),
        }
    }
    fn fnref(&self, body: &Body<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![("path", s(self.path(d)))];
        v.push((
            "args",
            J::A(args
                .iter()
                .filter_map(|a| a.as_type())
                .map(|t| self.ty(t))
                .collect()),
        ));
        let env = TypingEnv::post_analysis(tcx, body.source.def_id());
        let args2 = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args2) {
            let rd = inst.def_id();
            v.push(("resolved", s(self.path(rd))));
            v.push(("local", J::B(rd.is_local() && matches!(inst.def, ty::InstanceKind::Item(_)))));
        } else {
            v.push(("resolved", J::N));
            v.push(("local", J::B(false)));
        }
        v.push(("krate", s(tcx.crate_name(d.krate))));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", s(self.path(tr))));
        }
        J::O(v)
    }
    fn konst(&self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return J::O(vec![("k", s("const")), ("fn", self.fnref(body, *d, args.skip_binder()))]);
        }
        let mut v = vec![("k", s("const")), ("ty", self.ty(t))];
        if let Const::Unevaluated(uv, _) = c.const_ {
            if uv.promoted.is_none() {
                v.push(("name", s(self.path(uv.def))));
            } else {
                v.push(("promoted", J::I(uv.promoted.unwrap().as_usize() as i128)));
            }
        }
        let env = TypingEnv::post_analysis(tcx, body.source.def_id());
        if let Ok(val) = c.const_.eval(tcx, env, c.span) {
            v.push(("val", self.value(val, t)));
        }
        J::O(v)
    }
    fn operand(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("pl", self.place(body, *p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("pl", self.place(body, *p))]),
            Operand::Constant(c) => self.konst(body, c),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", s("other"))]),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", s("use")), ("a", self.operand(body, o))]),
            Rvalue::Repeat(o, _) => J::O(vec![("r", s("repeat")), ("a", self.operand(body, o))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("pl", self.place(body, *p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("r", s("raw")), ("pl", self.place(body, *p))]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", s("cast")),
                ("kind", s(format!("{k:?}"))),
                ("a", self.operand(body, o)),
                ("ty", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(op, b) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(body, &b.0)),
                ("b", self.operand(body, &b.1)),
            ]),
            Rvalue::UnaryOp(op, o) => J::O(vec![
                ("r", s("un")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(body, o)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut vs = vec![];
                let mut name = String::new();
                if let ty::Adt(adt, _) = t.kind() {
                    name = self.path(adt.did());
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(tcx) {
                            vs.push(J::A(vec![
                                if d.val > i128::MAX as u128 { J::N } else { J::I(d.val as i128) },
                                s(adt.variant(vi).name),
                            ]));
                        }
                    }
                }
                J::O(vec![
                    ("r", s("discr")),
                    ("pl", self.place(body, *p)),
                    ("adt", s(name)),
                    ("variants", J::A(vs)),
                ])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => v.push(("kind", s("array"))),
                    AggregateKind::Tuple => v.push(("kind", s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let adt = tcx.adt_def(*d);
                        let var = adt.variant(*vi);
                        v.push(("kind", s("adt")));
                        v.push(("adt", s(self.path(*d))));
                        v.push(("variant", s(var.name)));
                        v.push(("fields", J::A(var.fields.iter().map(|f| s(f.name)).collect())));
                    }
                    AggregateKind::Closure(d, _) => {
                        v.push(("kind", s("closure")));
                        v.push(("closure", s(self.path(*d))));
                    }
                    other => v.push(("kind", s(format!("{other:?}")))),
                }
                v.push(("ops", J::A(ops.iter().map(|o| self.operand(body, o)).collect())));
                J::O(v)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("r", s("use")),
                ("a", J::O(vec![("k", s("copy")), ("pl", self.place(body, *p))])),
            ]),
            other => J::O(vec![("r", s("other")), ("dbg", s(format!("{other:?}")))]),
        }
    }
    fn body(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let body: &Body<'tcx> = tcx.optimized_mir(d);
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut dbg = vec![];
        for vd in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vd.value {
                dbg.push(J::A(vec![s(vd.name), self.place(body, p)]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for stt in &bb.statements {
                match &stt.kind {
                    StatementKind::Assign(b) => st.push(J::O(vec![
                        ("s", s("=")),
                        ("pl", self.place(body, b.0)),
                        ("rv", self.rvalue(body, &b.1)),
                        ("sp", self.span(stt.source_info.span)),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::O(vec![
                        ("s", s("setdiscr")),
                        ("pl", self.place(body, **place)),
                        ("vi", J::I(variant_index.as_usize() as i128)),
                    ])),
                    StatementKind::StorageDead(l) => st.push(J::O(vec![
                        ("s", s("dead")),
                        ("l", J::I(l.as_usize() as i128)),
                    ])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let bi = |b: BasicBlock| J::I(b.as_usize() as i128);
            let mut v = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", s("goto")), ("to", bi(*target))],
                TerminatorKind::SwitchInt { discr, targets } => vec![
                    ("t", s("switch")),
                    ("a", self.operand(body, discr)),
                    ("ty", self.ty(discr.ty(&body.local_decls, tcx))),
                    (
                        "arms",
                        J::A(targets
                            .iter()
                            .map(|(x, b)| J::A(vec![J::I(x as i128), bi(b)]))
                            .collect()),
                    ),
                    ("else", bi(targets.otherwise())),
                ],
                TerminatorKind::Return => vec![("t", s("return"))],
                TerminatorKind::Unreachable => vec![("t", s("unreachable"))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    vec![("t", s("resume"))]
                }
                TerminatorKind::Drop { place, target, .. } => {
                    vec![("t", s("drop")), ("pl", self.place(body, *place)), ("to", bi(*target))]
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => vec![
                    ("t", s("call")),
                    ("f", self.operand(body, func)),
                    ("args", J::A(args.iter().map(|a| self.operand(body, &a.node)).collect())),
                    ("dest", self.place(body, *destination)),
                    ("destty", self.ty(destination.ty(&body.local_decls, tcx).ty)),
                    ("to", target.map_or(J::N, bi)),
                    ("fsp", self.span(*fn_span)),
                ],
                TerminatorKind::Assert { cond, expected, msg, target, .. } => vec![
                    ("t", s("assert")),
                    ("a", self.operand(body, cond)),
                    ("exp", J::B(*expected)),
                    ("kind", {
                        let k = match &**msg {
                            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                            AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                            AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                            AssertKind::DivisionByZero(..) => "div0".to_string(),
                            AssertKind::RemainderByZero(..) => "rem0".to_string(),
                            _ => "other".to_string(),
                        };
                        s(k)
                    }),
                    (
                        "ops",
                        match &**msg {
                            AssertKind::BoundsCheck { len, index } => J::A(vec![
                                self.operand(body, len),
                                self.operand(body, index),
                            ]),
                            AssertKind::Overflow(_, a, b) => {
                                J::A(vec![self.operand(body, a), self.operand(body, b)])
                            }
                            _ => J::A(vec![]),
                        },
                    ),
                    ("to", bi(*target)),
                ],
                other => vec![("t", s("other")), ("dbg", s(format!("{other:?}")))],
            };
            v.push(("sp", self.span(t.source_info.span)));
            blocks.push(J::O(vec![
                ("cleanup", J::B(bb.is_cleanup)),
                ("st", J::A(st)),
                ("term", J::O(v)),
            ]));
        }
        let dk = tcx.def_kind(d);
        let mut v = vec![
            ("name", s(self.path(d))),
            ("kind", s(format!("{dk:?}"))),
            ("span", self.span(tcx.def_span(d))),
            ("nargs", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
        ];
        if dk == DefKind::Closure {
            v.push(("parent", s(self.path(tcx.parent(d)))));
            if let Some(l) = d.as_local() {
                let caps: Vec<J> = tcx
                    .closure_captures(l)
                    .iter()
                    .map(|c| J::A(vec![s(c.to_symbol()), J::B(c.is_by_ref())]))
                    .collect();
                v.push(("caps", J::A(caps)));
            }
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            v.push(("impl_self", self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip())));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                v.push(("impl_trait", s(self.path(tr.skip_binder().def_id))));
            }
            v.push(("derived", J::B(tcx.is_automatically_derived(im))));
        }
        if dk == DefKind::Fn || dk == DefKind::AssocFn {
            v.push(("vis", J::B(tcx.visibility(d).is_public())));
        }
        J::O(v)
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let cx = Cx { tcx };
        let mut fns = vec![];
        let mut consts = vec![];
        let mut adts = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => fns.push(cx.body(d)),
                _ => {}
            }
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Const { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let val = match tcx.const_eval_poly(d) {
                        Ok(v) => cx.value(v, t),
                        Err(_) => J::N,
                    };
                    consts.push(J::O(vec![
                        ("name", s(cx.path(d))),
                        ("ty", cx.ty(t)),
                        ("val", val),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    consts.push(J::O(vec![
                        ("name", s(cx.path(d))),
                        ("static", J::B(true)),
                        ("ty", cx.ty(t)),
                        ("val", J::N),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Struct | DefKind::Enum => {
                    let adt = tcx.adt_def(d);
                    let vs = adt
                        .variants()
                        .iter()
                        .map(|v| {
                            J::A(vec![
                                s(v.name),
                                J::A(v
                                    .fields
                                    .iter()
                                    .map(|f| {
                                        J::A(vec![
                                            s(f.name),
                                            cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                            J::B(tcx.visibility(f.did).is_public()),
                                        ])
                                    })
                                    .collect()),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![
                        ("name", s(cx.path(d))),
                        ("enum", J::B(adt.is_enum())),
                        ("variants", J::A(vs)),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                }
                _ => {}
            }
        }
        let mut impls = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()) {
            for id in ids {
                impls.push(J::O(vec![
                    ("trait", s(cx.path(*tr))),
                    ("self", cx.ty(tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip())),
                    ("derived", J::B(tcx.is_automatically_derived(id.to_def_id()))),
                ]));
            }
        }
        let j = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE))),
            ("fns", J::A(fns)),
            ("consts", J::A(consts)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        if let Ok(p) = std::env::var("MIRDUMP_OUT") {
            std::fs::write(p, o).unwrap();
        }
        Compilation::Stop
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "typical");
    if is_target && std::env::var("MIRDUMP_OUT").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("--cap-lints=allow".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zub-checks=no".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct No;
        impl rustc_driver::Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
