//! Dump resolved MIR, type definitions and compile-time constants as JSON.

use rustc_abi::{FieldsShape, Size, TagEncoding, Variants, VariantIdx, FIRST_VARIANT};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::DUMMY_SP;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

#[derive(Clone)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    Map(Vec<(String, J)>),
}

fn s<T: Into<String>>(x: T) -> J {
    J::Str(x.into())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::Int(x.try_into().ok().unwrap_or(-1))
}

fn wstr(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
}

impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(o, "{i}");
            },
            J::Str(x) => wstr(o, x),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            },
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(o, k);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            },
            J::Map(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(o, k);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            },
        }
    }
}

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_todo: Vec<DefId>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(d)
        ));
        p
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::Int(self.tyi(t) as i128)
    }

    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.tymap.insert(t, i);
        let str_ = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{t}")));
        let mut f: Vec<(&'static str, J)> = vec![("s", s(str_))];
        match t.kind() {
            ty::Bool => f.push(("k", s("bool"))),
            ty::Char => f.push(("k", s("char"))),
            ty::Int(it) => {
                f.push(("k", s("int")));
                f.push(("bits", n(it.bit_width().unwrap_or(64))));
            },
            ty::Uint(it) => {
                f.push(("k", s("uint")));
                f.push(("bits", n(it.bit_width().unwrap_or(64))));
            },
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                if !self.adts.contains_key(&p) {
                    self.adts.insert(p.clone(), J::Null);
                    self.adt_todo.push(def.did());
                }
                f.push(("k", s("adt")));
                f.push(("adt", s(p)));
                let a = args.types().map(|t| self.ty(t)).collect();
                f.push(("args", J::Arr(a)));
            },
            ty::Ref(_, t2, m) => {
                f.push(("k", s("ref")));
                f.push(("mut", J::Bool(m.is_mut())));
                f.push(("t", self.ty(*t2)));
            },
            ty::RawPtr(t2, m) => {
                f.push(("k", s("ptr")));
                f.push(("mut", J::Bool(m.is_mut())));
                f.push(("t", self.ty(*t2)));
            },
            ty::Slice(t2) => {
                f.push(("k", s("slice")));
                f.push(("t", self.ty(*t2)));
            },
            ty::Array(t2, len) => {
                f.push(("k", s("array")));
                f.push(("t", self.ty(*t2)));
                if let Some(l) = len.try_to_target_usize(self.tcx) {
                    f.push(("len", n(l)));
                }
            },
            ty::Str => f.push(("k", s("str"))),
            ty::Tuple(ts) => {
                f.push(("k", s("tuple")));
                let a = ts.iter().map(|t| self.ty(t)).collect();
                f.push(("args", J::Arr(a)));
            },
            ty::FnDef(d, args) => {
                f.push(("k", s("fndef")));
                f.push(("fn", s(self.path(*d))));
                let a = args.no_bound_vars().map(|a| a.types().map(|t| self.ty(t)).collect()).unwrap_or_default();
                f.push(("args", J::Arr(a)));
            },
            ty::FnPtr(..) => f.push(("k", s("fnptr"))),
            ty::Closure(d, _) => {
                f.push(("k", s("closure")));
                f.push(("fn", s(self.path(*d))));
            },
            ty::Param(p) => {
                f.push(("k", s("param")));
                f.push(("name", s(p.name.as_str())));
            },
            ty::Dynamic(preds, ..) => {
                f.push(("k", s("dyn")));
                if let Some(d) = preds.principal_def_id() {
                    f.push(("trait", s(self.path(d))));
                }
            },
            ty::Never => f.push(("k", s("never"))),
            _ => f.push(("k", s("other"))),
        }
        self.tys[i] = J::Obj(f);
        i
    }

    fn span(&self, sp: rustc_span::Span) -> (String, i128) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line as i128)
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        J::Int(self.span(sp).1)
    }

    fn dump_adts(&mut self) {
        while let Some(d) = self.adt_todo.pop() {
            let def = self.tcx.adt_def(d);
            let p = self.path(d);
            let mut vs = Vec::new();
            // Foreign types: only std enums whose variants matter, keep fields for all.
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    let x = def.discriminant_for_variant(self.tcx, vi);
                    n(x.val)
                } else {
                    J::Null
                };
                let mut fs = Vec::new();
                for fd in v.fields.iter() {
                    let t = self.tcx.type_of(fd.did).instantiate_identity();
                    let t = t.skip_norm_wip();
                    let vis = fd.vis.is_public();
                    fs.push(J::Arr(vec![s(fd.name.as_str()), self.ty(t), J::Bool(vis)]));
                }
                vs.push(J::Obj(vec![
                    ("name", s(v.name.as_str())),
                    ("discr", discr),
                    ("fields", J::Arr(fs)),
                ]));
            }
            let kind = if def.is_enum() {
                "enum"
            } else if def.is_union() {
                "union"
            } else {
                "struct"
            };
            self.adts.insert(
                p,
                J::Obj(vec![
                    ("kind", s(kind)),
                    ("local", J::Bool(d.is_local())),
                    ("variants", J::Arr(vs)),
                ]),
            );
        }
    }

    // ---------------------------------------------------------------- constants

    fn read_uint(&self, alloc: &interpret::Allocation, off: Size, size: Size) -> Option<Scalar> {
        alloc
            .read_scalar(&self.tcx, AllocRange { start: off, size }, /*read_provenance*/ false)
            .ok()
    }
    fn read_ptr(&self, alloc: &interpret::Allocation, off: Size) -> Option<Scalar> {
        alloc
            .read_scalar(
                &self.tcx,
                AllocRange { start: off, size: self.tcx.data_layout.pointer_size() },
                true,
            )
            .ok()
    }

    fn fnref(&mut self, inst: Instance<'tcx>) -> J {
        J::Obj(vec![("fn", s(self.path(inst.def_id())))])
    }

    fn decode(&mut self, alloc: &interpret::Allocation, off: Size, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 40 {
            return s("?depth");
        }
        let tcx = self.tcx;
        let te = TypingEnv::fully_monomorphized();
        let t = tcx.normalize_erasing_regions(te, ty::Unnormalized::new_wip(t));
        let Ok(layout) = tcx.layout_of(te.as_query_input(t)) else { return s("?layout") };
        match t.kind() {
            ty::Pat(b, _) => self.decode(alloc, off, *b, depth + 1),
            ty::Bool => match self.read_uint(alloc, off, Size::from_bytes(1)) {
                Some(x) => J::Bool(x.to_bool().discard_err().unwrap_or(false)),
                None => s("?uninit"),
            },
            ty::Char => match self.read_uint(alloc, off, Size::from_bytes(4)) {
                Some(x) => n(x.to_u32().discard_err().unwrap_or(0)),
                None => s("?uninit"),
            },
            ty::Uint(_) => match self.read_uint(alloc, off, layout.size) {
                Some(x) => n(x.to_bits(layout.size).unwrap()),
                None => s("?uninit"),
            },
            ty::Int(_) => match self.read_uint(alloc, off, layout.size) {
                Some(x) => n(layout.size.sign_extend(x.to_bits(layout.size).unwrap())),
                None => s("?uninit"),
            },
            ty::Ref(_, pt, _) | ty::RawPtr(pt, _) => {
                let Some(p) = self.read_ptr(alloc, off) else { return s("?uninit") };
                let Scalar::Ptr(p, _) = p else { return s("?intptr") };
                let (prov, poff) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                let meta_off = off + tcx.data_layout.pointer_size();
                self.deref(id, poff, *pt, depth, |me| {
                    if pt.is_slice() || pt.is_str() {
                        me.read_uint(alloc, meta_off, tcx.data_layout.pointer_size())
                            .and_then(|x| x.to_target_usize(&tcx).discard_err())
                    } else {
                        None
                    }
                }, |me| me.read_ptr(alloc, meta_off))
            },
            ty::FnPtr(..) => {
                let Some(Scalar::Ptr(p, _)) = self.read_ptr(alloc, off) else { return s("?fnptr") };
                let (prov, _) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Function { instance } => self.fnref(instance),
                    _ => s("?fnptr"),
                }
            },
            ty::FnDef(d, _) => J::Obj(vec![("fn", s(self.path(*d)))]),
            ty::Array(et, len) => {
                let Some(len) = len.try_to_target_usize(tcx) else { return s("?len") };
                let Ok(el) = tcx.layout_of(te.as_query_input(*et)) else { return s("?layout") };
                let mut v = Vec::new();
                for i in 0..len {
                    v.push(self.decode(alloc, off + el.size * i, *et, depth + 1));
                }
                J::Obj(vec![("arr", J::Arr(v))])
            },
            ty::Tuple(ts) => {
                let mut v = Vec::new();
                for (i, et) in ts.iter().enumerate() {
                    let o = layout.fields.offset(i);
                    v.push(self.decode(alloc, off + o, et, depth + 1));
                }
                J::Obj(vec![("tup", J::Arr(v))])
            },
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let _ = self.tyi(t);
                if def.is_union() {
                    return J::Obj(vec![("adt", s(p)), ("union", J::Bool(true))]);
                }
                let vidx = if def.is_struct() {
                    FIRST_VARIANT
                } else {
                    match &layout.variants {
                        Variants::Single { index } => *index,
                        Variants::Empty => return s("?empty"),
                        Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                            let toff = off + layout.fields.offset(tag_field.as_usize());
                            let tsize = tag.size(&tcx);
                            match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(x) = self.read_uint(alloc, toff, tsize) else {
                                        return s("?uninit");
                                    };
                                    let bits = x.to_bits(tsize).unwrap();
                                    let mut r = None;
                                    for (vi, d) in def.discriminants(tcx) {
                                        if tsize.truncate(d.val) == bits {
                                            r = Some(vi);
                                        }
                                    }
                                    let Some(vi) = r else { return s("?tag") };
                                    vi
                                },
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start, .. } => {
                                    // pointer niche?
                                    let raw = self.read_uint(alloc, toff, tsize);
                                    match raw.and_then(|x| x.try_to_scalar_int().ok()) {
                                        None => *untagged_variant,
                                        Some(si) => {
                                            // A pointer with provenance reads as raw bytes: check provenance.
                                            if alloc.provenance().ptrs().iter().any(|(o, _)| *o == toff) {
                                                *untagged_variant
                                            } else {
                                                let bits = si.to_bits(tsize);
                                                let rel = tsize.truncate(bits.wrapping_sub(*niche_start));
                                                let lo = niche_variants.start.as_u32() as u128;
                                                let hi = niche_variants.last.as_u32() as u128;
                                                if rel <= hi - lo {
                                                    VariantIdx::from_u32((lo + rel) as u32)
                                                } else {
                                                    *untagged_variant
                                                }
                                            }
                                        },
                                    }
                                },
                            }
                        },
                    }
                };
                let v = def.variant(vidx);
                let vlayout = if def.is_enum() {
                    let cx = ty::layout::LayoutCx::new(tcx, te);
                    layout.for_variant(&cx, vidx)
                } else {
                    layout
                };
                let mut fs = Vec::new();
                for (i, fd) in v.fields.iter().enumerate() {
                    let ft = tcx.normalize_erasing_regions(te, fd.ty(tcx, args));
                    let o = match vlayout.fields {
                        FieldsShape::Arbitrary { .. } => vlayout.fields.offset(i),
                        _ => Size::ZERO,
                    };
                    fs.push(self.decode(alloc, off + o, ft, depth + 1));
                }
                let mut o = vec![("adt", s(p))];
                if def.is_enum() {
                    o.push(("v", s(v.name.as_str())));
                }
                o.push(("f", J::Arr(fs)));
                J::Obj(o)
            },
            _ => s("?ty"),
        }
    }

    fn deref(
        &mut self,
        id: interpret::AllocId,
        poff: Size,
        pt: Ty<'tcx>,
        depth: usize,
        len: impl FnOnce(&mut Self) -> Option<u64>,
        vt: impl FnOnce(&mut Self) -> Option<Scalar>,
    ) -> J {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => J::Obj(vec![("static", s(self.path(d)))]),
            GlobalAlloc::Function { instance } => self.fnref(instance),
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                match pt.kind() {
                    ty::Str => {
                        let Some(len) = len(self) else { return s("?len") };
                        let lo = poff.bytes() as usize;
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(lo..lo + len as usize);
                        J::Obj(vec![("str", s(String::from_utf8_lossy(b)))])
                    },
                    ty::Slice(et) => {
                        let Some(len) = len(self) else { return s("?len") };
                        let te = TypingEnv::fully_monomorphized();
                        let Ok(el) = tcx.layout_of(te.as_query_input(*et)) else { return s("?layout") };
                        let mut v = Vec::new();
                        for i in 0..len {
                            v.push(self.decode(a, poff + el.size * i, *et, depth + 1));
                        }
                        J::Obj(vec![("ref", J::Obj(vec![("arr", J::Arr(v))]))])
                    },
                    ty::Dynamic(..) => {
                        let Some(Scalar::Ptr(p, _)) = vt(self) else { return s("?vt") };
                        let (prov, _) = p.prov_and_relative_offset();
                        match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::VTable(ct, _) => {
                                let v = self.decode(a, poff, ct, depth + 1);
                                J::Obj(vec![("ref", v), ("dynty", self.ty(ct))])
                            },
                            _ => s("?vt"),
                        }
                    },
                    _ => {
                        let v = self.decode(a, poff, pt, depth + 1);
                        J::Obj(vec![("ref", v)])
                    },
                }
            },
            _ => s("?galloc"),
        }
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        let te = TypingEnv::fully_monomorphized();
        match v {
            ConstValue::ZeroSized => match t.kind() {
                ty::FnDef(d, _) => J::Obj(vec![("fn", s(self.path(*d)))]),
                ty::Tuple(ts) if ts.is_empty() => J::Obj(vec![("tup", J::Arr(vec![]))]),
                ty::Adt(def, _) => {
                    let _ = self.tyi(t);
                    J::Obj(vec![("adt", s(self.path(def.did()))), ("f", J::Arr(vec![]))])
                },
                ty::Array(..) => J::Obj(vec![("arr", J::Arr(vec![]))]),
                _ => s("?zst"),
            },
            ConstValue::Scalar(sc) => {
                match sc {
                    Scalar::Int(i) => match t.kind() {
                        ty::Bool => return J::Bool(i.try_to_bool().unwrap_or(false)),
                        ty::Int(_) => return n(i.size().sign_extend(i.to_bits(i.size()))),
                        ty::Uint(_) | ty::Char => return n(i.to_bits(i.size())),
                        _ => {},
                    },
                    Scalar::Ptr(p, _) => {
                        let (prov, poff) = p.prov_and_relative_offset();
                        if let ty::Ref(_, pt, _) | ty::RawPtr(pt, _) = t.kind() {
                            return self.deref(prov.alloc_id(), poff, *pt, 0, |_| None, |_| None);
                        }
                        if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                            return self.fnref(instance);
                        }
                        return s("?ptr");
                    },
                }
                // Scalar-layout ADT/tuple: write into a scratch allocation and decode.
                let Scalar::Int(i) = sc else { return s("?") };
                let Ok(l) = tcx.layout_of(te.as_query_input(t)) else { return s("?layout") };
                let bits = i.to_bits(i.size());
                let bytes = bits.to_le_bytes();
                let nb = l.size.bytes_usize();
                let mut v = bytes[..i.size().bytes_usize()].to_vec();
                v.resize(nb, 0);
                let a = interpret::Allocation::from_bytes(v.as_slice(), l.align.abi, rustc_middle::ty::Mutability::Not, ());
                self.decode(&a, Size::ZERO, t, 0)
            },
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, pt, _) = t.kind() {
                    self.deref(alloc_id, Size::ZERO, *pt, 0, |_| Some(meta), |_| None)
                } else {
                    s("?slice")
                }
            },
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return s("?mem") };
                self.decode(a.inner(), offset, t, 0)
            },
        }
    }

    // ---------------------------------------------------------------- MIR

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_u32())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => n(f.as_u32()),
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    J::Arr(vec![s("c"), n(offset), J::Bool(from_end), n(min_length)])
                },
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("s"), n(from), n(to), J::Bool(from_end)])
                },
                ProjectionElem::Downcast(_, v) => J::Arr(vec![s("v"), n(v.as_u32())]),
                _ => s("?"),
            });
        }
        J::Arr(v)
    }

    fn fnconst(&mut self, d: DefId, args: GenericArgsRef<'tcx>, te: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("fn", s(self.path(d)))];
        let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("ga", J::Arr(a)));
        let args = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, te, d, args) {
            Ok(Some(i)) => {
                o.push(("res", s(self.path(i.def_id()))));
                let a: Vec<J> = i.args.types().map(|t| self.ty(t)).collect();
                o.push(("rga", J::Arr(a)));
                if let ty::InstanceKind::Virtual(..) = i.def {
                    o.push(("virt", J::Bool(true)));
                }
            },
            _ => o.push(("res", J::Null)),
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
        }
        J::Obj(o)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, te: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            if let Some(args) = args.no_bound_vars() { return self.fnconst(*d, args, te); }
            return J::Obj(vec![("fn", s(self.path(*d))), ("ga", J::Arr(vec![])), ("res", s(self.path(*d)))]);
        }
        let mut o: Vec<(&'static str, J)> = vec![("t", self.ty(t))];
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("path", s(self.path(u.def))));
            } else {
                o.push(("promoted", J::Bool(true)));
            }
        }
        match c.const_.eval(tcx, te, DUMMY_SP) {
            Ok(v) => o.push(("v", self.constval(v, t))),
            Err(_) => o.push(("v", s("?eval"))),
        }
        J::Obj(o)
    }

    fn operand(&mut self, op: &Operand<'tcx>, te: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::Obj(vec![("c", self.place(p))]),
            Operand::Move(p) => J::Obj(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::Obj(vec![("k", self.konst(c, te))]),
            _ => J::Obj(vec![("k", J::Obj(vec![("v", J::Bool(true))]))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        J::Arr(match r {
            Rvalue::Use(op, ..) => vec![s("use"), self.operand(op, te)],
            Rvalue::Repeat(op, c) => vec![
                s("repeat"),
                self.operand(op, te),
                c.try_to_target_usize(tcx).map(|x| n(x)).unwrap_or(J::Null),
            ],
            Rvalue::Ref(_, k, p) => vec![
                s("ref"),
                J::Bool(matches!(k, BorrowKind::Mut { .. })),
                self.place(p),
            ],
            Rvalue::ThreadLocalRef(d) => vec![s("tls"), s(self.path(*d))],
            Rvalue::RawPtr(_, p) => vec![s("rawptr"), self.place(p)],
            Rvalue::Cast(k, op, t) => {
                let kk = match k {
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"),
                    k => format!("{k:?}"),
                };
                vec![s("cast"), s(kk), self.operand(op, te), self.ty(*t)]
            },
            Rvalue::BinaryOp(op, ab) => vec![
                s("bin"),
                s(format!("{op:?}")),
                self.operand(&ab.0, te),
                self.operand(&ab.1, te),
            ],
            Rvalue::UnaryOp(op, a) => vec![s("un"), s(format!("{op:?}")), self.operand(a, te)],
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                vec![s("disc"), self.place(p), self.ty(t)]
            },
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => J::Arr(vec![s("array")]),
                    AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let def = tcx.adt_def(*d);
                        let p = self.path(*d);
                        if !self.adts.contains_key(&p) {
                            self.adts.insert(p.clone(), J::Null);
                            self.adt_todo.push(*d);
                        }
                        let v = def.variant(*vi);
                        let _ = af;
                        J::Arr(vec![
                            s("adt"),
                            s(p),
                            if def.is_enum() { s(v.name.as_str()) } else { J::Null },
                        ])
                    },
                    AggregateKind::Closure(d, _) => J::Arr(vec![s("closure"), s(self.path(*d))]),
                    _ => J::Arr(vec![s("?")]),
                };
                let ops = ops.iter().map(|o| self.operand(o, te)).collect();
                vec![s("agg"), kk, J::Arr(ops)]
            },
            Rvalue::CopyForDeref(p) => vec![s("use"), J::Obj(vec![("c", self.place(p))])],
            _ => vec![s("?")],
        })
    }

    fn body(&mut self, body: &Body<'tcx>, te: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::Arr(vec![s(v.name.as_str()), self.place(p)]));
            }
        }
        let mut blocks = Vec::new();
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut ss = Vec::new();
            for st in &b.statements {
                match &st.kind {
                    StatementKind::Assign(pr) => {
                        let l = self.line(st.source_info.span);
                        ss.push(J::Arr(vec![
                            s("="),
                            self.place(&pr.0),
                            self.rvalue(&pr.1, te, body),
                            l,
                        ]));
                    },
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(J::Arr(vec![s("sd"), self.place(place), n(variant_index.as_u32())]))
                    },
                    StatementKind::StorageDead(l) => {
                        ss.push(J::Arr(vec![s("dead"), n(l.as_u32())]))
                    },
                    _ => {},
                }
            }
            let term = b.terminator();
            let l = self.line(term.source_info.span);
            let t: Vec<(&'static str, J)> = match &term.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("to", n(target.as_u32()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, tcx);
                    vec![
                        ("k", s("switch")),
                        ("op", self.operand(discr, te)),
                        ("t", self.ty(t)),
                        (
                            "arms",
                            J::Arr(
                                targets
                                    .iter()
                                    .map(|(v, b)| J::Arr(vec![n(v), n(b.as_u32())]))
                                    .collect(),
                            ),
                        ),
                        ("else", n(targets.otherwise().as_u32())),
                    ]
                },
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    vec![
                        ("k", s("drop")),
                        ("p", self.place(place)),
                        ("t", self.ty(t)),
                        ("to", n(target.as_u32())),
                    ]
                },
                TerminatorKind::Call { func, args, destination, target, fn_span: _, .. } => {
                    let f = self.operand(func, te);
                    let a = args.iter().map(|x| self.operand(&x.node, te)).collect();
                    vec![
                        ("k", s("call")),
                        ("f", f),
                        ("a", J::Arr(a)),
                        ("d", self.place(destination)),
                        ("to", target.map(|x| n(x.as_u32())).unwrap_or(J::Null)),
                    ]
                },
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:neg".to_string(),
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    vec![
                        ("k", s("assert")),
                        ("c", self.operand(cond, te)),
                        ("e", J::Bool(*expected)),
                        ("m", s(m)),
                        ("to", n(target.as_u32())),
                    ]
                },
                TerminatorKind::FalseEdge { real_target, .. } => {
                    vec![("k", s("goto")), ("to", n(real_target.as_u32()))]
                },
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![("k", s("goto")), ("to", n(real_target.as_u32()))]
                },
                _ => vec![("k", s("resume"))],
            };
            let mut t = t;
            t.push(("l", l));
            let mut o = vec![("s", J::Arr(ss)), ("t", J::Obj(t))];
            if b.is_cleanup {
                o.push(("cleanup", J::Bool(true)));
            }
            blocks.push(J::Obj(o));
        }
        vec![
            ("argc", n(body.arg_count)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ]
    }
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut d = D { tcx, tys: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), adt_todo: vec![] };
    let mut fns: Vec<(String, J)> = Vec::new();
    let mut consts: Vec<(String, J)> = Vec::new();
    let mut impls: Vec<J> = Vec::new();
    let mut seen: HashMap<String, usize> = HashMap::new();

    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
            let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let mut items = Vec::new();
            for it in tcx.associated_items(did).in_definition_order() {
                items.push(J::Arr(vec![s(it.name().as_str()), s(d.path(it.def_id))]));
            }
            let (tr, trargs) = if of_trait {
                let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let a: Vec<J> = tr.args.types().map(|t| d.ty(t)).collect();
                (s(d.path(tr.def_id)), J::Arr(a))
            } else {
                (J::Null, J::Null)
            };
            impls.push(J::Obj(vec![
                ("self", d.ty(self_ty)),
                ("trait", tr),
                ("targs", trargs),
                ("items", J::Arr(items)),
            ]));
        }
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let _ = d.tyi(t);
            },
            _ => {},
        }
    }

    for id in tcx.hir_body_owners() {
        let did = id.to_def_id();
        let kind = tcx.def_kind(did);
        let p = d.path(did);
        let (file, line) = d.span(tcx.def_span(did));
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let body = tcx.optimized_mir(did);
                let te = TypingEnv::post_analysis(tcx, did);
                let mut o = vec![
                    ("file", s(file)),
                    ("line", J::Int(line)),
                    ("pub", J::Bool(kind != DefKind::Closure && tcx.visibility(did).is_public())),
                    ("exported", J::Bool(tcx.effective_visibilities(()).is_reachable(id))),
                    ("gens", {
                        let a = ty::GenericArgs::identity_for_item(tcx, did);
                        J::Arr(a.types().map(|t| s(t.to_string())).collect())
                    }),
                ];
                let b = d.body(body, te);
                o.extend(b);
                let c = seen.entry(p.clone()).or_insert(0);
                *c += 1;
                let key = if *c > 1 { format!("{p}#{c}") } else { p };
                fns.push((key, J::Obj(o)));
            },
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(did).requires_monomorphization(tcx) {
                    continue;
                }
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let v = match tcx.const_eval_poly(did) {
                    Ok(v) => d.constval(v, t),
                    Err(_) => s("?eval"),
                };
                consts.push((
                    p,
                    J::Obj(vec![("file", s(file)), ("line", J::Int(line)), ("t", d.ty(t)), ("v", v)]),
                ));
            },
            DefKind::Static { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let v = match tcx.eval_static_initializer(did) {
                    Ok(a) => {
                        let t2 = tcx.erase_and_anonymize_regions(t);
                        d.decode(a.inner(), Size::ZERO, t2, 0)
                    },
                    Err(_) => s("?eval"),
                };
                consts.push((
                    p,
                    J::Obj(vec![
                        ("file", s(file)),
                        ("line", J::Int(line)),
                        ("t", d.ty(t)),
                        ("static", J::Bool(true)),
                        ("mutable", J::Bool(tcx.is_mutable_static(did))),
                        ("tls", J::Bool(tcx.is_thread_local_static(did))),
                        ("v", v),
                    ]),
                ));
            },
            _ => {},
        }
    }
    // Force ADT table.
    d.dump_adts();
    let adts: Vec<(String, J)> = std::mem::take(&mut d.adts).into_iter().collect();
    let tys = std::mem::take(&mut d.tys);
    let j = J::Obj(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
        ("types", J::Arr(tys)),
        ("adts", J::Map(adts)),
        ("fns", J::Map(fns)),
        ("consts", J::Map(consts)),
        ("impls", J::Arr(impls)),
    ]);
    let mut o = String::new();
    j.write(&mut o);
    o
}
