// MIR extractor for the apint verification framework.
//
// A rustc driver (injected with RUSTC_WORKSPACE_WRAPPER) that lets the real
// compiler type-check the crate and then writes, as JSON, the MIR of every
// function of the crate and of every library function it reaches that the
// analyses inline: resolved callees, types, constants, spans.  Nothing of the
// crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use rustc_middle::ty::print::PrintTraitRefExt as _;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s<T: Into<String>>(t: T) -> J {
        J::S(t.into())
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(s) => js(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    js(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn js(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

// ---------------------------------------------------------------- dumper
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    fns: BTreeMap<String, J>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
}

const INLINE_PREFIX: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::",
    "core::convert::",
    "core::cmp::",
    "core::mem::replace",
    "core::mem::swap",
    "core::mem::take",
    "core::bool::",
    "core::clone::",
    "core::borrow::",
    "core::tuple::",
    "core::array::",
    "core::ptr::non_null::",
    "core::num::nonzero::",
    "core::hint::",
    "core::default::",
    "std::option::",
    "std::result::",
    "std::ops::",
    "std::convert::",
    "std::cmp::",
];

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", lo.file.name),
            },
            o => format!("{:?}", o),
        };
        J::A(vec![J::S(f), J::N(lo.line as i128)])
    }
    fn key(&self, i: &Instance<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(match i.def {
            InstanceKind::Item(d) => format!("{}#{:?}", self.tcx.def_path_str_with_args(d, i.args), disamb(self.tcx, d)),
            InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) =>
                format!("once:{:?}", self.tcx.def_path_str(closure)),
            _ => format!("{:?}", i),
        }))
    }

    // ---- types
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let j = self.ty_j(t, env);
        self.types[i] = j;
        i
    }
    fn norm(&self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Ty<'tcx> {
        self.tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn ty_j(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let name = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(t.to_string()));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(name))];
        match *t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(it) => {
                o.push(("k", J::s("int")));
                o.push(("bits", J::N(it.bit_width().unwrap_or(64) as i128)))
            }
            ty::Uint(it) => {
                o.push(("k", J::s("uint")));
                o.push(("bits", J::N(it.bit_width().unwrap_or(64) as i128)))
            }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Ref(_, x, m) => {
                o.push(("k", J::s("ref")));
                let x = self.ty(x, env);
                o.push(("to", J::N(x as i128)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", J::s("ptr")));
                let x = self.ty(x, env);
                o.push(("to", J::N(x as i128)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Slice(x) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(x, env);
                o.push(("of", J::N(x as i128)));
            }
            ty::Array(x, n) => {
                o.push(("k", J::s("array")));
                let x = self.ty(x, env);
                o.push(("of", J::N(x as i128)));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.push(("len", J::N(n as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|x| J::N(self.ty(x, env) as i128)).collect();
                o.push(("of", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::S(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push((
                    "akind",
                    J::s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let a = args.types().map(|x| J::N(self.ty(x, env) as i128)).collect();
                o.push(("args", J::A(a)));
                o.push(("unsafe_cell", J::B(def.is_unsafe_cell())));
                let path = self.path(def.did());
                let expand = def.did().is_local()
                    || INLINE_PREFIX.iter().any(|p| path.starts_with(p))
                    || path.starts_with("core::ops::");
                let mut vs = vec![];
                if expand {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = f.ty(tcx, args).skip_norm_wip();
                                let ft = self.norm(ft, env);
                                J::A(vec![J::S(f.name.to_string()), J::N(self.ty(ft, env) as i128)])
                            })
                            .collect();
                        let dv = if def.is_enum() {
                            J::N(def.discriminant_for_variant(tcx, vi).val as i128)
                        } else {
                            J::N(0)
                        };
                        vs.push(J::O(vec![
                            ("name", J::S(v.name.to_string())),
                            ("discr", dv),
                            ("fields", J::A(fs)),
                        ]));
                    }
                    o.push(("variants", J::A(vs)));
                }
                if let Some(dd) = tcx.adt_destructor(def.did()) {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, dd.did, args) {
                        if def.did().is_local() {
                            let k = self.key(&i);
                            o.push(("drop", J::S(k)));
                            self.queue.push_back((i, env));
                        } else {
                            o.push(("drop", J::s("extern")));
                        }
                    }
                }
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let c = self.callee(d, args.no_bound_vars().unwrap(), env);
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                let ups: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|x| J::N(self.ty(x, env) as i128)).collect();
                o.push(("upvars", J::A(ups)));
                let i = Instance::new_raw(d, args);
                let k = self.key(&i);
                o.push(("body", J::S(k)));
                o.push(("ckind", J::S(format!("{:?}", args.as_closure().kind()))));
                self.queue.push_back((i, env));
            }
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            _ => o.push(("k", J::s("other"))),
        }
        J::O(o)
    }

    // ---- callees
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("def", J::S(self.path(d))));
        let tys: Vec<J> = args.types().map(|x| J::N(self.ty(x, env) as i128)).collect();
        o.push(("targs", J::A(tys)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(t))));
        }
        o.push(("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            return J::O(o);
        }
        if tcx.intrinsic(d).is_some() {
            o.push(("intrinsic", J::B(true)));
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => match i.def {
                InstanceKind::Item(rd) => {
                    o.push(("path", J::S(self.path(rd))));
                    o.push(("local", J::B(rd.is_local())));
                    let k = self.key(&i);
                    o.push(("key", J::S(k)));
                    let rt: Vec<J> = i.args.types().map(|x| J::N(self.ty(x, env) as i128)).collect();
                    o.push(("rargs", J::A(rt)));
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        o.push(("impl_self", J::S(ty::print::with_no_trimmed_paths!(
                            ty::print::with_resolve_crate_name!(st.to_string())))));
                    }
                    self.queue.push_back((i, env));
                }
                InstanceKind::Intrinsic(rd) => {
                    o.push(("path", J::S(self.path(rd))));
                    o.push(("intrinsic", J::B(true)));
                }
                InstanceKind::Shim(ShimKind::FnPtr(_, t)) => {
                    o.push(("shim", J::s("fnptr")));
                    let t = self.ty(t, env);
                    o.push(("target", J::N(t as i128)));
                }
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                    o.push(("shim", J::s("closure_once")));
                    let t = args.type_at(0);
                    let t = self.ty(t, env);
                    o.push(("target", J::N(t as i128)));
                    let _ = closure;
                }
                InstanceKind::Shim(ShimKind::Clone(_, t)) => {
                    o.push(("shim", J::s("clone")));
                    let t = self.ty(t, env);
                    o.push(("target", J::N(t as i128)));
                }
                InstanceKind::Shim(ShimKind::DropGlue(_, t)) => {
                    o.push(("shim", J::s("drop")));
                    if let Some(t) = t {
                        let t = self.ty(t, env);
                        o.push(("target", J::N(t as i128)));
                    }
                }
                InstanceKind::Virtual(..) => o.push(("shim", J::s("virtual"))),
                _ => o.push(("shim", J::s("other"))),
            },
            _ => o.push(("unresolved", J::B(true))),
        }
        J::O(o)
    }

    // ---- constants
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t, env);
        let mut o = vec![("o", J::s("const")), ("ty", J::N(ti as i128))];
        if let ty::FnDef(..) | ty::Closure(..) = t.kind() {
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("def", J::S(self.path(u.def))));
            }
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    o.push(("bits", J::S(i.to_bits(i.size()).to_string())));
                }
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let GlobalAlloc::Static(sd) = tcx.global_alloc(prov.alloc_id()) {
                        o.push(("static", J::S(self.path(sd))));
                        if let Some(ld) = sd.as_local() { let _ = ld; }
                    }
                    if let ty::Ref(_, to, _) | ty::RawPtr(to, _) = t.kind() {
                        let v = self.alloc_val(prov.alloc_id(), off.bytes(), *to, env, 0);
                        o.push(("ptr_to", v));
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(a.inner().len()));
                        o.push(("str", J::S(String::from_utf8_lossy(b).to_string())));
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    let v = self.alloc_val(alloc_id, offset.bytes(), t, env, 0);
                    o.push(("val", v));
                }
            },
            Err(_) => o.push(("generic", J::B(true))),
        }
        J::O(o)
    }
    // destructure a constant in memory by type
    fn alloc_val(
        &mut self,
        id: rustc_middle::mir::interpret::AllocId,
        off: u64,
        t: Ty<'tcx>,
        env: TypingEnv<'tcx>,
        depth: usize,
    ) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::Null;
        }
        let GlobalAlloc::Memory(a) = tcx.global_alloc(id) else { return J::Null };
        let Ok(lay) = tcx.layout_of(env.as_query_input(t)) else { return J::Null };
        let sz = lay.size.bytes();
        let ti = self.ty(t, env);
        let mut o = vec![("ty", J::N(ti as i128))];
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let a = a.inner();
                if off + sz <= a.len() as u64 {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + sz) as usize);
                    let mut v: u128 = 0;
                    for (i, x) in b.iter().enumerate() {
                        v |= (*x as u128) << (8 * i);
                    }
                    o.push(("bits", J::S(v.to_string())));
                }
            }
            ty::Array(e, n) => {
                if let Some(n) = n.try_to_target_usize(tcx) {
                    if let Ok(el) = tcx.layout_of(env.as_query_input(e)) {
                        if n <= 256 {
                            let v = (0..n)
                                .map(|i| self.alloc_val(id, off + i * el.size.bytes(), e, env, depth + 1))
                                .collect();
                            o.push(("elems", J::A(v)));
                        }
                    }
                }
            }
            ty::Tuple(ts) => {
                let v = ts
                    .iter()
                    .enumerate()
                    .map(|(i, x)| self.alloc_val(id, off + lay.fields.offset(i).bytes(), x, env, depth + 1))
                    .collect();
                o.push(("fields", J::A(v)));
            }
            ty::Adt(def, args) if def.is_struct() => {
                let v = def
                    .non_enum_variant()
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| {
                        let ft = self.norm(f.ty(tcx, args).skip_norm_wip(), env);
                        self.alloc_val(id, off + lay.fields.offset(i).bytes(), ft, env, depth + 1)
                    })
                    .collect();
                o.push(("fields", J::A(v)));
            }
            ty::Adt(def, _) if def.is_enum() => {
                // fieldless enums with a direct tag only
                if def.variants().iter().all(|v| v.fields.is_empty()) && sz > 0 && sz <= 8 {
                    let a = a.inner();
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + sz) as usize);
                    let mut v: u128 = 0;
                    for (i, x) in b.iter().enumerate() {
                        v |= (*x as u128) << (8 * i);
                    }
                    o.push(("bits", J::S(v.to_string())));
                }
            }
            ty::Ref(_, to, _) => {
                let ai = a.inner();
                // fat or thin pointer stored in memory
                let prov = ai.provenance().ptrs().iter().find(|(o2, _)| o2.bytes() == off).map(|x| x.1);
                if let Some(p) = prov {
                    let b = ai.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + sz) as usize);
                    let rd = |s: usize| -> u64 {
                        let mut v = 0u64;
                        for i in 0..8 {
                            v |= (b[s + i] as u64) << (8 * i);
                        }
                        v
                    };
                    match to.kind() {
                        ty::Str if sz == 16 => {
                            if let GlobalAlloc::Memory(sa) = tcx.global_alloc(p.alloc_id()) {
                                let st = rd(0) as usize;
                                let ln = rd(8) as usize;
                                let bytes = sa.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + ln);
                                o.push(("str", J::S(String::from_utf8_lossy(bytes).to_string())));
                            }
                        }
                        _ if sz == 8 => {
                            let v = self.alloc_val(p.alloc_id(), rd(0), to, env, depth + 1);
                            o.push(("ptr_to", v));
                        }
                        ty::Slice(e) if sz == 16 => {
                            let n = rd(8);
                            let mut es = vec![];
                            if let Ok(el) = tcx.layout_of(env.as_query_input(*e)) {
                                if n <= 256 {
                                    for i in 0..n {
                                        es.push(self.alloc_val(p.alloc_id(), rd(0) + i * el.size.bytes(), *e, env, depth + 1));
                                    }
                                }
                            }
                            o.push(("slice", J::A(es)));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        J::O(o)
    }

    // ---- bodies
    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t, env);
                    J::A(vec![J::s("f"), J::N(f.as_u32() as i128), J::N(ti as i128)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::N(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("c"),
                    J::N(offset as i128),
                    J::N(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("s"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, i) => J::A(vec![J::s("d"), J::N(i.as_u32() as i128)]),
                _ => J::s("?"),
            });
        }
        J::A(vec![J::N(p.local.as_u32() as i128), J::A(v)])
    }
    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p, env);
                J::O(vec![("o", J::s("copy")), ("p", p)])
            }
            Operand::Move(p) => {
                let p = self.place(p, env);
                J::O(vec![("o", J::s("move")), ("p", p)])
            }
            Operand::Constant(c) => self.konst(c, env),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("o", J::s("rt"))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => {
                let o = self.op(o, env);
                J::O(vec![("r", J::s("use")), ("a", o)])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.op(o, env);
                let n = n.try_to_target_usize(tcx).map(|x| J::N(x as i128)).unwrap_or(J::Null);
                J::O(vec![("r", J::s("repeat")), ("a", o), ("n", n)])
            }
            Rvalue::Ref(_, bk, p) => {
                let p = self.place(p, env);
                J::O(vec![
                    ("r", J::s("ref")),
                    ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                    ("p", p),
                ])
            }
            Rvalue::RawPtr(k, p) => {
                let p = self.place(p, env);
                J::O(vec![
                    ("r", J::s("ref")),
                    ("raw", J::B(true)),
                    ("mut", J::B(matches!(k, RawPtrKind::Mut))),
                    ("p", p),
                ])
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.op(o, env);
                let t = self.ty(*t, env);
                J::O(vec![("r", J::s("cast")), ("k", J::S(format!("{:?}", k))), ("a", o), ("ty", J::N(t as i128))])
            }
            Rvalue::BinaryOp(b, ab) => {
                let x = self.op(&ab.0, env);
                let y = self.op(&ab.1, env);
                J::O(vec![("r", J::s("bin")), ("op", J::S(format!("{:?}", b))), ("a", x), ("b", y)])
            }
            Rvalue::UnaryOp(b, a) => {
                let x = self.op(a, env);
                J::O(vec![("r", J::s("un")), ("op", J::S(format!("{:?}", b))), ("a", x)])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p, env);
                J::O(vec![("r", J::s("discr")), ("p", p)])
            }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|f| self.op(f, env)).collect();
                let (kn, ti, vi, uf) = match &**k {
                    AggregateKind::Array(t) => ("array", Some(*t), 0, None),
                    AggregateKind::Tuple => ("tuple", None, 0, None),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = Ty::new_adt(tcx, tcx.adt_def(*d), a);
                        ("adt", Some(t), v.as_u32(), *f)
                    }
                    AggregateKind::Closure(d, a) => ("closure", Some(Ty::new_closure(tcx, *d, a)), 0, None),
                    AggregateKind::RawPtr(t, _) => ("rawptr", Some(*t), 0, None),
                    _ => ("other", None, 0, None),
                };
                let ti = ti.map(|t| J::N(self.ty(t, env) as i128)).unwrap_or(J::Null);
                J::O(vec![
                    ("r", J::s("agg")),
                    ("k", J::s(kn)),
                    ("ty", ti),
                    ("v", J::N(vi as i128)),
                    ("uf", uf.map(|f| J::N(f.as_u32() as i128)).unwrap_or(J::Null)),
                    ("f", J::A(ops)),
                ])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p, env);
                J::O(vec![("r", J::s("use")), ("a", J::O(vec![("o", J::s("copy")), ("p", p)]))])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p, env);
                J::O(vec![("r", J::s("ref")), ("mut", J::B(m.is_mut())), ("p", p)])
            }
            Rvalue::ThreadLocalRef(d) => {
                let d = self.path(*d);
                J::O(vec![("r", J::s("tls")), ("def", J::S(d))])
            }
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("r", J::s("other")), ("dbg", J::S(format!("{:?}", r)))]),
        }
    }
    fn body(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let key = self.key(&i);
        if !self.seen.insert(key.clone()) {
            return;
        }
        let InstanceKind::Item(d) = i.def else { return };
        let path = self.path(d);
        if !d.is_local() {
            if !INLINE_PREFIX.iter().any(|p| path.starts_with(p)
                || path.starts_with(&format!("<{}", p)) || path.contains(&format!(" as {}", p))) {
                return;
            }
        }
        if !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
            return;
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            return;
        }
        let body = tcx.instance_mir(i.def);
        let body = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body.clone()))
        })) {
            Ok(b) => b,
            Err(_) => return,
        };
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", J::S(path)));
        o.push(("local", J::B(d.is_local())));
        o.push(("span", self.span(tcx.def_span(d))));
        o.push(("argc", J::N(body.arg_count as i128)));
        o.push(("spread", body.spread_arg.map(|l| J::N(l.as_u32() as i128)).unwrap_or(J::Null)));
        let tys: Vec<J> = i.args.types().map(|x| J::N(self.ty(x, env) as i128)).collect();
        o.push(("targs", J::A(tys)));
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(st.to_string()));
            o.push(("impl_self", J::S(st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.skip_binder();
                let s = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(
                    tr.print_only_trait_path().to_string()));
                o.push(("impl_trait", J::S(s)));
            }
        }
        o.push(("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{closure}".into()))));
        if let Some(ld) = d.as_local() {
            let ev = tcx.effective_visibilities(());
            o.push(("exported", J::B(ev.is_reachable(ld) || ev.is_exported(ld))));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            }
        }
        let mut ls = vec![];
        for l in body.local_decls.iter() {
            ls.push(J::N(self.ty(l.ty, env) as i128));
        }
        o.push(("locals", J::A(ls)));
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, env);
                        let r = self.rvalue(&b.1, env);
                        let ln = self.span(s.source_info.span);
                        st.push(J::A(vec![J::s("="), p, r, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, env);
                        st.push(J::A(vec![J::s("sd"), p, J::N(variant_index.as_u32() as i128)]));
                    }
                    StatementKind::Intrinsic(ni) => match &**ni {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.op(&c.src, env);
                            let b = self.op(&c.dst, env);
                            let n = self.op(&c.count, env);
                            st.push(J::A(vec![J::s("cno"), a, b, n]));
                        }
                        NonDivergingIntrinsic::Assume(a) => {
                            let a = self.op(a, env);
                            st.push(J::A(vec![J::s("assume"), a]));
                        }
                    },
                    StatementKind::StorageDead(l) => st.push(J::A(vec![J::s("dead"), J::N(l.as_u32() as i128)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let b2 = |b: &BasicBlock| J::N(b.as_u32() as i128);
            let mut to: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    to.push(("t", J::s("goto")));
                    to.push(("to", b2(target)))
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    to.push(("t", J::s("switch")));
                    let a = self.op(discr, env);
                    to.push(("a", a));
                    to.push((
                        "arms",
                        J::A(targets.iter().map(|(v, b)| J::A(vec![J::S(v.to_string()), b2(&b)])).collect()),
                    ));
                    to.push(("else", b2(&targets.otherwise())));
                }
                TerminatorKind::Return => to.push(("t", J::s("ret"))),
                TerminatorKind::Unreachable => to.push(("t", J::s("unreach"))),
                TerminatorKind::UnwindResume => to.push(("t", J::s("resume"))),
                TerminatorKind::UnwindTerminate(_) => to.push(("t", J::s("abort"))),
                TerminatorKind::Drop { place, target, .. } => {
                    to.push(("t", J::s("drop")));
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(place, env);
                    to.push(("p", p));
                    let pti = self.ty(pt, env);
                    to.push(("ty", J::N(pti as i128)));
                    to.push(("to", b2(target)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    to.push(("t", J::s("call")));
                    let f = self.op(func, env);
                    to.push(("f", f));
                    let a = args.iter().map(|x| self.op(&x.node, env)).collect();
                    to.push(("args", J::A(a)));
                    let p = self.place(destination, env);
                    to.push(("dest", p));
                    to.push(("to", target.as_ref().map(b2).unwrap_or(J::Null)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    to.push(("t", J::s("assert")));
                    let a = self.op(cond, env);
                    to.push(("a", a));
                    to.push(("exp", J::B(*expected)));
                    let m = format!("{:?}", msg);
                    to.push(("msg", J::S(m.chars().take(80).collect::<String>())));
                    to.push(("to", b2(target)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    to.push(("t", J::s("goto")));
                    to.push(("to", b2(real_target)))
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    to.push(("t", J::s("goto")));
                    to.push(("to", b2(real_target)))
                }
                _ => to.push(("t", J::s("other"))),
            }
            to.push(("sp", self.span(t.source_info.span)));
            bs.push(J::O(vec![("s", J::A(st)), ("t", J::O(to)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        o.push(("blocks", J::A(bs)));
        self.fns.insert(key, J::O(o));
    }
}

fn disamb(tcx: TyCtxt<'_>, d: DefId) -> String {
    // distinguishes closures / items nested in the same parent
    let dp = tcx.def_path(d);
    dp.data.iter().map(|x| format!("{}", x.disambiguator)).collect::<Vec<_>>().join("")
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
        c.opts.unstable_opts.ub_checks = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(LOCAL_CRATE).as_str() != "apint" {
            return Compilation::Continue;
        }
        let Ok(out) = std::env::var("APINT_MIR_OUT") else { return Compilation::Continue };
        let mut d = D {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            fns: BTreeMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
        };
        let mut roots = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let i = Instance::new_raw(did, args);
            let env = TypingEnv::post_analysis(tcx, did);
            let k = d.key(&i);
            roots.push(J::S(k));
            d.queue.push_back((i, env));
            while let Some((i, e)) = d.queue.pop_front() {
                if i.has_escaping_bound_vars() {
                    continue;
                }
                d.body(i, e);
            }
        }
        // module-level facts: statics, impls
        let mut statics = vec![];
        let mut impls = vec![];
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, id);
                    let ti = d.ty(t, env);
                    let mut cells = vec![];
                    cells_in(tcx, t, env, &mut HashSet::new(), &mut cells);
                    statics.push(J::A(vec![
                        J::S(d.path(id.to_def_id())),
                        J::B(mutability.is_mut()),
                        J::N(ti as i128),
                        d.span(tcx.def_span(id)),
                        J::A(cells.into_iter().map(J::S).collect()),
                    ]))
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, id);
                    let mut cells = vec![];
                    cells_in(tcx, t, env, &mut HashSet::new(), &mut cells);
                    use rustc_infer::infer::TyCtxtInferExt;
                    use rustc_trait_selection::infer::InferCtxtExt;
                    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                    let has = |name: rustc_span::Symbol| match tcx.get_diagnostic_item(name) {
                        Some(tr) => infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions(),
                        None => false,
                    };
                    let send = has(rustc_span::Symbol::intern("Send"));
                    let sync = match tcx.lang_items().sync_trait() {
                        Some(tr) => infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions(),
                        None => has(rustc_span::Symbol::intern("Sync")),
                    };
                    adts.push(J::A(vec![
                        J::S(d.path(id.to_def_id())),
                        J::B(send),
                        J::B(sync),
                        d.span(tcx.def_span(id)),
                        J::A(cells.into_iter().map(J::S).collect()),
                    ]))
                }
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_ref(id.to_def_id()).skip_binder();
                    let s = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(
                        h.print_only_trait_path().to_string()));
                    let st = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(
                        h.self_ty().to_string()));
                    impls.push(J::A(vec![J::S(s), J::S(st), d.span(tcx.def_span(id))]));
                }
                _ => {}
            }
        }
        while let Some((i, e)) = d.queue.pop_front() {
            d.body(i, e);
        }
        let mut o = String::new();
        o.push_str("{\"types\":");
        J::A(d.types.clone()).w(&mut o);
        o.push_str(",\"roots\":");
        J::A(roots).w(&mut o);
        o.push_str(",\"statics\":");
        J::A(statics).w(&mut o);
        o.push_str(",\"adts\":");
        J::A(adts).w(&mut o);
        o.push_str(",\"impls\":");
        J::A(impls).w(&mut o);
        o.push_str(",\"fns\":{");
        let mut first = true;
        for (k, v) in &d.fns {
            if !first {
                o.push_str(",\n")
            }
            first = false;
            js(k, &mut o);
            o.push(':');
            v.w(&mut o);
        }
        o.push_str("}}");
        std::fs::write(&out, o).unwrap();
        Compilation::Continue
    }
}

/// types with interior mutability (or sharing without atomics) reachable from `t`, through pointers too
fn cells_in<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, env: TypingEnv<'tcx>, seen: &mut HashSet<Ty<'tcx>>, out: &mut Vec<String>) {
    if !seen.insert(t) {
        return;
    }
    match t.kind() {
        ty::Adt(a, args) => {
            let p = ty::print::with_no_trimmed_paths!(tcx.def_path_str(a.did()));
            if a.is_unsafe_cell() || p.ends_with("rc::Rc") {
                out.push(p);
                return;
            }
            let last = p.rsplit("::").next().unwrap_or("").to_string();
            if p.contains("::sync::") && (last.starts_with("Once") || last.starts_with("Lazy")) {
                return; // written once, then constant
            }
            if p.contains("::sync::") && (last.starts_with("Atomic") || last.ends_with("Mutex") || last.ends_with("RwLock"))
                || p.contains("::thread::") && last.ends_with("LocalKey")
            {
                out.push(p);
                return;
            }
            if p.contains("::sync::") {
                return;
            }
            for f in a.all_fields() {
                let ft = f.ty(tcx, args).skip_norm_wip();
                cells_in(tcx, ft, env, seen, out);
            }
        }
        ty::Ref(_, x, _) | ty::RawPtr(x, _) | ty::Slice(x) | ty::Array(x, _) => cells_in(tcx, *x, env, seen, out),
        ty::Tuple(l) => l.iter().for_each(|x| cells_in(tcx, x, env, seen, out)),
        _ => {}
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
