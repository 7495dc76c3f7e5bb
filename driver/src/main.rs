//! mirdump: a rustc driver that type-checks a crate with its real build flags and writes the
//! resolved program (MIR before the coroutine transform, with callees, constants and types
//! resolved) as JSON. Invoked by cargo through RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;

use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            let js = with_no_trimmed_paths!(dump(tcx));
            let tmp = format!("{out}.tmp");
            std::fs::write(&tmp, js).expect("write dump");
            std::fs::rename(&tmp, out).expect("rename dump");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: mirdump <rustc> <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut name = String::new();
    let mut test = false;
    let mut ctype = String::new();
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        if args[i] == "--test" {
            test = true;
        }
        if args[i] == "--crate-type" && i + 1 < args.len() {
            ctype = args[i + 1].clone();
        }
    }
    let dir = std::env::var("MIRDUMP_OUT").ok();
    let out = match (&dir, name.is_empty() || name == "___") {
        (Some(d), false) if !test => Some(format!("{d}/{name}.{ctype}.json")),
        _ => None,
    };
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adt_seen: HashSet<DefId>,
    queue: VecDeque<Instance<'tcx>>,
    ext_seen: HashMap<String, ()>,
    impls: Vec<J>,
}

fn s<T: std::fmt::Display>(t: T) -> J {
    J::S(t.to_string())
}
fn n<T: TryInto<i128>>(t: T) -> J {
    J::N(t.try_into().ok().unwrap_or(-1))
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut cx = Cx {
        tcx,
        types: vec![],
        ty_ix: HashMap::new(),
        adts: vec![],
        adt_seen: HashSet::new(),
        queue: VecDeque::new(),
        ext_seen: HashMap::new(),
        impls: vec![],
    };
    // Phase 1: clone the bodies before later passes steal them.
    let mut bodies = vec![];
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
    for def in keys {
        let kind = tcx.def_kind(def);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {}
            DefKind::Static { .. } => {}
            _ => continue,
        }
        let (b, p) = tcx.mir_promoted(def);
        let b = b.borrow().clone();
        let p = p.borrow().clone();
        bodies.push((def.to_def_id(), b, p));
    }
    let mut out = vec![];
    let mut statics = vec![];
    for (def, b, p) in &bodies {
        let env = TypingEnv::post_analysis(tcx, *def);
        let prom: Vec<J> = p.iter().map(|pb| cx.body(*def, pb, env, false)).collect();
        let mut j = cx.body(*def, b, env, true);
        let key = cx.path(*def);
        j.put("key", J::S(key.clone()));
        j.put("path", J::S(key));
        j.put("name", s(tcx.opt_item_name(*def).map(|x| x.to_string()).unwrap_or_default()));
        j.put("local", J::B(true));
        j.put("promoted", J::A(prom));
        if matches!(tcx.def_kind(*def), DefKind::Static { .. }) {
            statics.push(j);
            continue;
        }
        j.put("kind", s(format!("{:?}", tcx.def_kind(*def))));
        j.put("coroutine", J::B(tcx.is_coroutine(*def)));
        j.put("vis", s(if tcx.def_kind(*def) == DefKind::Closure || tcx.def_kind(*def) == DefKind::SyntheticCoroutineBody { "closure".into() } else { format!("{:?}", tcx.visibility(*def)) }));
        j.put("derived", J::B(tcx.is_builtin_derived(tcx.parent(*def)) || def_is_automatically_derived(tcx, *def)));
        out.push(j);
    }
    // Phase 2: bodies of the external functions the crate's code calls (generic or inline ones).
    let mut ext = vec![];
    while let Some(inst) = cx.queue.pop_front() {
        if ext.len() > 6000 {
            break;
        }
        let def = inst.def_id();
        let env = TypingEnv::fully_monomorphized();
        let body = tcx.instance_mir(inst.def);
        let body = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                ty::EarlyBinder::bind(tcx, body.clone()),
            )
        })) {
            Ok(b) => b,
            Err(_) => continue,
        };
        let mut j = cx.body(def, &body, env, true);
        j.put("key", J::S(cx.inst_key(inst)));
        j.put("path", J::S(cx.path(def)));
        j.put("name", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default()));
        j.put("local", J::B(false));
        ext.push(j);
    }
    // consts and statics of the crate
    let mut consts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let k = tcx.def_kind(id);
        if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            let g = tcx.generics_of(id);
            if g.requires_monomorphization(tcx) {
                continue;
            }
            let c = Const::from_unevaluated(tcx, id.to_def_id()).instantiate_identity().skip_normalization();
            let env = TypingEnv::post_analysis(tcx, id);
            let mut j = J::obj();
            j.put("path", J::S(cx.path(id.to_def_id())));
            j.put("name", s(tcx.item_name(id.to_def_id())));
            let ty = tcx.type_of(id).instantiate_identity().skip_normalization();
            let t = cx.ty(ty);
            j.put("ty", t);
            j.put("tys", s(ty));
            // the alias a constant was declared with (e.g. `NasPortType`) is only in the HIR
            let decl = tcx.hir_node_by_def_id(id).ty().map(|t| tcx.sess.source_map().span_to_snippet(t.span).unwrap_or_default()).unwrap_or_default();
            j.put("decl", J::S(decl));
            j.put("span", cx.span(tcx.def_span(id)));
            let v = match c.eval(tcx, env, rustc_span::DUMMY_SP) {
                Ok(v) => cx.cval(v, ty),
                Err(_) => J::Null,
            };
            j.put("val", v);
            consts.push(j);
        }
    }
    // trait impls of the crate
    for id in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(id) {
            let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_normalization();
            let mut j = J::obj();
            j.put("trait", J::S(cx.path(tr.def_id)));
            j.put("self", s(tr.self_ty()));
            j.put("derived", J::B(tcx.is_builtin_derived(id.to_def_id())));
            let items: Vec<J> = tcx
                .associated_items(id)
                .in_definition_order()
                .map(|i| J::S(cx.path(i.def_id)))
                .collect();
            j.put("items", J::A(items));
            cx.impls.push(j);
        }
    }
    // function signatures of public items, with visibility
    let mut o = J::obj();
    o.put("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE)));
    o.put("types", J::A(std::mem::take(&mut cx.types)));
    o.put("adts", J::A(std::mem::take(&mut cx.adts)));
    o.put("bodies", J::A(out));
    o.put("statics", J::A(statics));
    o.put("ext", J::A(ext));
    o.put("consts", J::A(consts));
    o.put("impls", J::A(std::mem::take(&mut cx.impls)));
    o.to_string()
}

fn def_is_automatically_derived(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let mut cur = Some(d);
    while let Some(c) = cur {
        if matches!(tcx.def_kind(c), DefKind::Impl { .. }) && tcx.is_automatically_derived(c) {
            return true;
        }
        cur = tcx.opt_parent(c);
    }
    false
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            format!("crate::{p}")
        } else {
            p
        }
    }

    fn inst_key(&self, i: Instance<'tcx>) -> String {
        let p = self.tcx.def_path_str_with_args(i.def_id(), i.args);
        match i.def {
            InstanceKind::Item(_) => p,
            k => format!("{p} [{k:?}]"),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.ty_ix.get(&t) {
            return n(*i as i128);
        }
        let ix = self.types.len();
        self.ty_ix.insert(t, ix);
        self.types.push(J::Null);
        let mut j = J::obj();
        j.put("s", s(t));
        match t.kind() {
            ty::Bool => j.put("k", s("bool")),
            ty::Char => j.put("k", s("char")),
            ty::Int(i) => {
                j.put("k", s("int"));
                j.put("signed", J::B(true));
                j.put("bits", n(i.bit_width().unwrap_or(64) as i128));
            }
            ty::Uint(i) => {
                j.put("k", s("int"));
                j.put("signed", J::B(false));
                j.put("bits", n(i.bit_width().unwrap_or(64) as i128));
            }
            ty::Str => j.put("k", s("str")),
            ty::Never => j.put("k", s("never")),
            ty::Adt(def, args) => {
                j.put("k", s("adt"));
                j.put("path", J::S(self.path(def.did())));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                j.put("args", J::A(a));
                self.adt(def.did());
            }
            ty::Ref(_, x, m) => {
                j.put("k", s("ref"));
                j.put("mut", J::B(m.is_mut()));
                let x = self.ty(*x);
                j.put("to", x);
            }
            ty::RawPtr(x, _) => {
                j.put("k", s("ptr"));
                let x = self.ty(*x);
                j.put("to", x);
            }
            ty::Slice(x) => {
                j.put("k", s("slice"));
                let x = self.ty(*x);
                j.put("of", x);
            }
            ty::Array(x, l) => {
                j.put("k", s("array"));
                let x = self.ty(*x);
                j.put("of", x);
                j.put("len", l.try_to_target_usize(self.tcx).map(|v| n(v as i128)).unwrap_or(J::Null));
            }
            ty::Tuple(l) => {
                j.put("k", s("tuple"));
                let a: Vec<J> = l.iter().map(|x| self.ty(x)).collect();
                j.put("args", J::A(a));
            }
            ty::Closure(d, _) => {
                j.put("k", s("closure"));
                j.put("path", J::S(self.path(*d)));
            }
            ty::Coroutine(d, _) => {
                j.put("k", s("coroutine"));
                j.put("path", J::S(self.path(*d)));
            }
            ty::FnDef(d, _) => {
                j.put("k", s("fndef"));
                j.put("path", J::S(self.path(*d)));
            }
            ty::Param(p) => {
                j.put("k", s("param"));
                j.put("name", s(p.name));
            }
            ty::Dynamic(..) => j.put("k", s("dyn")),
            ty::FnPtr(..) => j.put("k", s("fnptr")),
            ty::Alias(..) => j.put("k", s("alias")),
            _ => j.put("k", s("other")),
        }
        self.types[ix] = j;
        n(ix as i128)
    }

    fn adt(&mut self, d: DefId) {
        if !self.adt_seen.insert(d) {
            return;
        }
        let def = self.tcx.adt_def(d);
        let mut j = J::obj();
        j.put("path", J::S(self.path(d)));
        j.put("local", J::B(d.is_local()));
        j.put("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }));
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let mut vj = J::obj();
            vj.put("name", s(v.name));
            if def.is_enum() {
                let dv = def.discriminant_for_variant(self.tcx, vi);
                vj.put("discr", n(dv.val as i128));
            }
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut fj = J::obj();
                fj.put("name", s(f.name));
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_normalization();
                fj.put("ty", s(t));
                fj.put("vis", s(format!("{:?}", f.vis)));
                if d.is_local() {
                    let t = self.ty(t);
                    fj.put("tyi", t);
                }
                fs.push(fj);
            }
            vj.put("fields", J::A(fs));
            vs.push(vj);
        }
        j.put("variants", J::A(vs));
        self.adts.push(j);
    }

    fn body(&mut self, def: DefId, b: &Body<'tcx>, env: TypingEnv<'tcx>, _main: bool) -> J {
        let mut j = J::obj();
        j.put("span", self.span(b.span));
        j.put("argc", n(b.arg_count as i128));
        let locals: Vec<J> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        j.put("locals", J::A(locals));
        let mut names = J::obj();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.put(&format!("{}", p.local.as_usize()), s(v.name));
                }
            }
        }
        j.put("names", names);
        if let Some(sp) = b.spread_arg {
            j.put("spread", n(sp.as_usize() as i128));
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut bj = J::obj();
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(q) = self.stmt(def, b, x, env) {
                    st.push(q);
                }
            }
            bj.put("s", J::A(st));
            let t = self.term(def, b, bb.terminator(), env);
            bj.put("t", t);
            if bb.is_cleanup {
                bj.put("cleanup", J::B(true));
            }
            blocks.push(bj);
        }
        j.put("blocks", J::A(blocks));
        j
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let _ = b;
        let mut pr = vec![];
        for e in p.projection.iter() {
            let mut a: Vec<J> = vec![];
            match e {
                ProjectionElem::Deref => a.push(s("deref")),
                ProjectionElem::Field(f, t) => {
                    a.push(s("field"));
                    a.push(n(f.as_usize() as i128));
                    a.push(self.ty(t));
                }
                ProjectionElem::Index(l) => {
                    a.push(s("index"));
                    a.push(n(l.as_usize() as i128));
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    a.push(s("cindex"));
                    a.push(n(offset as i128));
                    a.push(n(min_length as i128));
                    a.push(J::B(from_end));
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    a.push(s("subslice"));
                    a.push(n(from as i128));
                    a.push(n(to as i128));
                    a.push(J::B(from_end));
                }
                ProjectionElem::Downcast(nm, v) => {
                    a.push(s("downcast"));
                    a.push(n(v.as_usize() as i128));
                    a.push(nm.map(|x| s(x)).unwrap_or(J::Null));
                }
                _ => {
                    a.push(s("opaque"));
                }
            }
            pr.push(J::A(a));
        }
        let mut j = J::obj();
        j.put("l", n(p.local.as_usize() as i128));
        if !pr.is_empty() {
            j.put("p", J::A(pr));
        }
        j
    }

    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut j = J::obj();
        match o {
            Operand::Copy(p) => {
                let p = self.place(b, p);
                j.put("copy", p);
            }
            Operand::Move(p) => {
                let p = self.place(b, p);
                j.put("move", p);
            }
            Operand::Constant(c) => {
                let c = self.konst(c, env);
                j.put("const", c);
            }
            Operand::RuntimeChecks(r) => {
                let mut c = J::obj();
                let v = matches!(r, RuntimeChecks::OverflowChecks);
                c.put("bool", J::B(v));
                j.put("const", c);
            }
        }
        j
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let ty = c.const_.ty();
        if let ty::FnDef(d, args) = ty.kind() {
            let mut j = J::obj();
            let f = self.fnref(*d, args.skip_binder(), env);
            j.put("fn", f);
            return j;
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let mut j = J::obj();
                j.put("promoted", n(p.as_usize() as i128));
                let pd = self.path(u.def);
                j.put("of", J::S(pd));
                let t = self.ty(ty);
                j.put("ty", t);
                return j;
            }
        }
        let mut j = match c.const_.eval(self.tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => self.cval(v, ty),
            Err(_) => {
                let mut j = J::obj();
                j.put("opaque", s(format!("{:?}", c.const_)));
                j
            }
        };
        if let Const::Unevaluated(u, _) = c.const_ {
            j.put("item", J::S(self.path(u.def)));
        }
        let t = self.ty(ty);
        j.put("ty", t);
        j
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        use rustc_middle::mir::interpret::GlobalAlloc;
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => Self::bytes_of(m.inner(), off, len),
            GlobalAlloc::Static(d) if self.ambient(id).is_none() => {
                Self::bytes_of(self.tcx.eval_static_initializer(d).ok()?.inner(), off, len)
            }
            _ => None,
        }
    }

    fn bytes_of(a: &rustc_middle::mir::interpret::Allocation, off: u64, len: u64) -> Option<Vec<u8>> {
        if off + len > a.len() as u64 {
            return None;
        }
        Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
    }

    /// The static an allocation belongs to, if what it holds can change while the program runs.
    fn ambient(&self, id: rustc_middle::mir::interpret::AllocId) -> Option<DefId> {
        use rustc_middle::mir::interpret::GlobalAlloc;
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Static(d) => {
                let ty = self.tcx.type_of(d).instantiate_identity().skip_normalization();
                let fixed = !self.tcx.is_mutable_static(d)
                    && !self.tcx.is_thread_local_static(d)
                    && ty.is_freeze(self.tcx, TypingEnv::fully_monomorphized());
                if fixed { None } else { Some(d) }
            }
            _ => None,
        }
    }

    fn cval(&mut self, v: ConstValue, ty: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut j = J::obj();
        if let (ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), ty::Ref(_, inner, _) | ty::RawPtr(inner, _)) = (v, ty.kind()) {
            let (prov, _) = p.into_raw_parts();
            if let Some(d) = self.ambient(prov.alloc_id()) {
                j.put("static", J::S(self.path(d)));
                j.put("raw", J::B(matches!(ty.kind(), ty::RawPtr(..))));
                let t = self.ty(*inner);
                j.put("sty", t);
                return j;
            }
        }
        match (v, ty.kind()) {
            (ConstValue::Scalar(interpret::Scalar::Int(i)), ty::Bool) => {
                j.put("bool", J::B(i.to_bits(i.size()) != 0));
                return j;
            }
            (ConstValue::Scalar(interpret::Scalar::Int(i)), ty::Uint(_) | ty::Char) => {
                j.put("int", J::N(i.to_bits(i.size()) as i128));
                return j;
            }
            (ConstValue::Scalar(interpret::Scalar::Int(i)), ty::Int(_)) => {
                j.put("int", J::N(i.to_int(i.size())));
                return j;
            }
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, inner, _)) => {
                let isstr = matches!(inner.kind(), ty::Str);
                let isb = matches!(inner.kind(), ty::Slice(t) if *t == tcx.types.u8);
                if isstr || isb {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                        j.put(if isstr { "str" } else { "bytes" }, J::bytes(&b));
                        return j;
                    }
                }
            }
            (ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), ty::Ref(_, inner, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                if let ty::Array(t, l) = inner.kind() {
                    if *t == tcx.types.u8 {
                        if let Some(l) = l.try_to_target_usize(tcx) {
                            if let Some(b) = self.alloc_bytes(id, off.bytes(), l) {
                                j.put("bytes", J::bytes(&b));
                                j.put("arrayref", J::B(true));
                                return j;
                            }
                        }
                    }
                }
                if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                    let iv = ConstValue::Indirect { alloc_id: id, offset: off };
                    let q = self.cval(iv, *inner);
                    j.put("refto", q);
                    return j;
                }
            }
            (ConstValue::ZeroSized, ty::FnDef(d, args)) => {
                let f = self.fnref(*d, args.skip_binder(), TypingEnv::fully_monomorphized());
                j.put("fn", f);
                return j;
            }
            (ConstValue::ZeroSized, ty::Closure(d, _)) => {
                let mut c = J::obj();
                c.put("path", J::S(self.path(*d)));
                j.put("closure", c);
                return j;
            }
            _ => {}
        }
        if let (ConstValue::Indirect { alloc_id, offset }, ty::Array(t, l)) = (v, ty.kind()) {
            if *t == tcx.types.u8 {
                if let Some(l) = l.try_to_target_usize(tcx) {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), l) {
                        j.put("bytes", J::bytes(&b));
                        return j;
                    }
                }
            }
        }
        if let (ConstValue::Indirect { alloc_id, offset }, ty::Ref(_, inner, _)) = (v, ty.kind()) {
            // a wide or thin pointer stored in memory
            use rustc_middle::mir::interpret::GlobalAlloc;
            let m = match tcx.try_get_global_alloc(alloc_id) {
                Some(GlobalAlloc::Memory(m)) => Some(m),
                Some(GlobalAlloc::Static(d)) if self.ambient(alloc_id).is_none() => tcx.eval_static_initializer(d).ok(),
                _ => None,
            };
            if let Some(m) = m {
                let a = m.inner();
                if let Some(prov) = a.provenance().ptrs().get(&offset) {
                    let id = prov.alloc_id();
                    let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(
                        offset.bytes() as usize..a.len(),
                    );
                    let rd = |k: usize| -> u64 {
                        let mut x = [0u8; 8];
                        x.copy_from_slice(&raw[k..k + 8]);
                        u64::from_le_bytes(x)
                    };
                    let off = rd(0);
                    let isstr = matches!(inner.kind(), ty::Str);
                    let isb = matches!(inner.kind(), ty::Slice(t) if *t == tcx.types.u8);
                    if (isstr || isb) && raw.len() >= 16 {
                        if let Some(b) = self.alloc_bytes(id, off, rd(8)) {
                            j.put(if isstr { "str" } else { "bytes" }, J::bytes(&b));
                            return j;
                        }
                    } else if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                        let q = self.cval(
                            ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) },
                            *inner,
                        );
                        j.put("refto", q);
                        return j;
                    }
                }
            }
            j.put("opaque", s(format!("{ty}")));
            return j;
        }
        if let (ConstValue::Indirect { alloc_id, offset }, ty::Uint(_) | ty::Int(_) | ty::Bool | ty::Char) =
            (v, ty.kind())
        {
            let sz = match ty.kind() {
                ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
                ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
                ty::Bool => 1,
                _ => 4,
            };
            if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), sz) {
                let mut x: u128 = 0;
                for (k, by) in b.iter().enumerate() {
                    x |= (*by as u128) << (8 * k);
                }
                if matches!(ty.kind(), ty::Bool) {
                    j.put("bool", J::B(x != 0));
                } else {
                    j.put("int", J::N(x as i128));
                }
                return j;
            }
        }
        match ty.kind() {
            ty::Adt(def, _) if !def.is_union() && !ty.is_box() => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft)).collect();
                    j.put("adt", J::S(self.path(def.did())));
                    j.put("variant", n(d.variant.map(|x| x.as_usize() as i128).unwrap_or(0)));
                    j.put("fields", J::A(fs));
                    self.adt(def.did());
                    return j;
                }
            }
            ty::Tuple(_) | ty::Array(..) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft)).collect();
                    j.put(if matches!(ty.kind(), ty::Tuple(_)) { "tuple" } else { "array" }, J::A(fs));
                    return j;
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            j.put("zst", J::B(true));
            return j;
        }
        j.put("opaque", s(format!("{v:?}")));
        j
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut j = J::obj();
        j.put("path", J::S(self.path(d)));
        j.put("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()));
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        j.put("args", J::A(a));
        let ca: Vec<J> = args
            .consts()
            .map(|c| c.try_to_target_usize(tcx).map(|v| n(v as i128)).unwrap_or(J::Null))
            .collect();
        if !ca.is_empty() {
            j.put("consts", J::A(ca));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            j.put("trait", J::S(self.path(tr)));
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            j.put("ctor", s(format!("{:?}", tcx.def_kind(d))));
            // tuple struct / variant constructor used as a function
            let p = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(p) {
                DefKind::Variant => {
                    let e = tcx.parent(p);
                    (e, tcx.adt_def(e).variant_index_with_id(p).as_usize())
                }
                _ => (p, 0),
            };
            self.adt(adt);
            j.put("ctor_adt", J::S(self.path(adt)));
            j.put("ctor_variant", n(vi as i128));
            return j;
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        let inst = match Instance::try_resolve(tcx, env, d, args_e) {
            Ok(Some(i)) => i,
            _ => return j,
        };
        let rd = inst.def_id();
        j.put("rpath", J::S(self.path(rd)));
        j.put("rkind", s(match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            k => format!("{k:?}").split('(').next().unwrap_or("").to_string(),
        }));
        j.put("rlocal", J::B(rd.is_local()));
        if let InstanceKind::Item(_) = inst.def {
            let kind = tcx.def_kind(rd);
            if !rd.is_local()
                && matches!(kind, DefKind::Fn | DefKind::AssocFn)
                && tcx.is_mir_available(rd)
                && !has_params(inst)
                && wanted(&self.path(rd))
            {
                let k = self.inst_key(inst);
                if self.ext_seen.insert(k.clone(), ()).is_none() {
                    self.queue.push_back(inst);
                }
                j.put("ext", J::S(k));
            }
        }
        j
    }

    fn stmt(&mut self, _def: DefId, b: &Body<'tcx>, st: &Statement<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        let mut j = J::obj();
        match &st.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                let pj = self.place(b, p);
                let rj = self.rvalue(b, r, env);
                j.put("k", s("assign"));
                j.put("d", pj);
                j.put("r", rj);
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                j.put("k", s("setdiscr"));
                let pj = self.place(b, place);
                j.put("d", pj);
                j.put("v", n(variant_index.as_usize() as i128));
            }
            StatementKind::StorageDead(l) => {
                j.put("k", s("dead"));
                j.put("l", n(l.as_usize() as i128));
            }
            StatementKind::StorageLive(l) => {
                j.put("k", s("live"));
                j.put("l", n(l.as_usize() as i128));
            }
            StatementKind::Intrinsic(bx) => match &**bx {
                NonDivergingIntrinsic::Assume(o) => {
                    j.put("k", s("assume"));
                    let o = self.operand(b, o, env);
                    j.put("o", o);
                }
                _ => {
                    j.put("k", s("copynonoverlapping"));
                }
            },
            _ => return None,
        }
        j.put("sp", self.span(st.source_info.span));
        Some(j)
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut j = J::obj();
        match r {
            Rvalue::Use(o, ..) => {
                j.put("k", s("use"));
                let o = self.operand(b, o, env);
                j.put("o", o);
            }
            Rvalue::Repeat(o, c) => {
                j.put("k", s("repeat"));
                let o = self.operand(b, o, env);
                j.put("o", o);
                j.put("n", c.try_to_target_usize(self.tcx).map(|v| n(v as i128)).unwrap_or(J::Null));
            }
            Rvalue::Ref(_, bk, p) => {
                j.put("k", s("ref"));
                j.put("mut", J::B(matches!(bk, BorrowKind::Mut { .. })));
                j.put("fake", J::B(matches!(bk, BorrowKind::Fake(_))));
                let p = self.place(b, p);
                j.put("p", p);
            }
            Rvalue::RawPtr(k, p) => {
                j.put("k", s("ref"));
                j.put("mut", J::B(matches!(k, RawPtrKind::Mut)));
                j.put("raw", J::B(true));
                let p = self.place(b, p);
                j.put("p", p);
            }
            Rvalue::Reborrow(_, m, p) => {
                j.put("k", s("ref"));
                j.put("mut", J::B(m.is_mut()));
                let p = self.place(b, p);
                j.put("p", p);
            }
            Rvalue::Cast(k, o, t) => {
                j.put("k", s("cast"));
                j.put("c", s(match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"),
                    CastKind::Transmute => "transmute".to_string(),
                    CastKind::PtrToPtr => "ptr".to_string(),
                    CastKind::Subtype => "subtype".to_string(),
                    x => format!("{x:?}"),
                }));
                let oj = self.operand(b, o, env);
                j.put("o", oj);
                let from = o.ty(&b.local_decls, self.tcx);
                let f = self.ty(from);
                j.put("from", f);
                let t = self.ty(*t);
                j.put("to", t);
            }
            Rvalue::BinaryOp(op, bx) => {
                j.put("k", s("bin"));
                j.put("op", s(format!("{op:?}")));
                let x = self.operand(b, &bx.0, env);
                let y = self.operand(b, &bx.1, env);
                j.put("a", x);
                j.put("b", y);
                let t = bx.0.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                j.put("ty", t);
            }
            Rvalue::UnaryOp(op, o) => {
                j.put("k", s("un"));
                j.put("op", s(format!("{op:?}")));
                let x = self.operand(b, o, env);
                j.put("o", x);
                let t = o.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                j.put("ty", t);
            }
            Rvalue::ThreadLocalRef(d) => {
                let ty = self.tcx.type_of(*d).instantiate_identity().skip_normalization();
                let mut c = J::obj();
                c.put("static", J::S(self.path(*d)));
                c.put("raw", J::B(true));
                let t = self.ty(ty);
                c.put("sty", t);
                let mut k = J::obj();
                k.put("const", c);
                j.put("k", s("use"));
                j.put("o", k);
            }
            Rvalue::Discriminant(p) => {
                j.put("k", s("discr"));
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let pj = self.place(b, p);
                j.put("p", pj);
                let t = self.ty(t);
                j.put("ty", t);
            }
            Rvalue::CopyForDeref(p) => {
                j.put("k", s("use"));
                let pj = self.place(b, p);
                let mut o = J::obj();
                o.put("copy", pj);
                j.put("o", o);
            }
            Rvalue::Aggregate(k, ops) => {
                j.put("k", s("agg"));
                match &**k {
                    AggregateKind::Array(_) => j.put("a", s("array")),
                    AggregateKind::Tuple => j.put("a", s("tuple")),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        j.put("a", s("adt"));
                        j.put("path", J::S(self.path(*d)));
                        j.put("variant", n(v.as_usize() as i128));
                        self.adt(*d);
                        let _ = args;
                        if let Some(f) = af {
                            j.put("active", n(f.as_usize() as i128));
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        j.put("a", s("closure"));
                        j.put("path", J::S(self.path(*d)));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        j.put("a", s("coroutine"));
                        j.put("path", J::S(self.path(*d)));
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        j.put("a", s("coroutineclosure"));
                        j.put("path", J::S(self.path(*d)));
                    }
                    AggregateKind::RawPtr(..) => j.put("a", s("rawptr")),
                }
                let v: Vec<J> = ops.iter().map(|o| self.operand(b, o, env)).collect();
                j.put("ops", J::A(v));
            }
            _ => {
                j.put("k", s("opaque"));
                j.put("d", s(format!("{r:?}")));
            }
        }
        j
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(b.as_usize() as i128),
            UnwindAction::Continue => s("continue"),
            UnwindAction::Unreachable => s("unreachable"),
            UnwindAction::Terminate(_) => s("terminate"),
        }
    }

    fn term(&mut self, _def: DefId, b: &Body<'tcx>, t: &Terminator<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut j = J::obj();
        j.put("sp", self.span(t.source_info.span));
        let bbj = |x: &BasicBlock| n(x.as_usize() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                j.put("k", s("goto"));
                j.put("to", bbj(target));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                j.put("k", s("switch"));
                let o = self.operand(b, discr, env);
                j.put("o", o);
                let ty = discr.ty(&b.local_decls, self.tcx);
                let ty = self.ty(ty);
                j.put("ty", ty);
                let v: Vec<J> = targets
                    .iter()
                    .map(|(v, bb)| J::A(vec![J::N(v as i128), n(bb.as_usize() as i128)]))
                    .collect();
                j.put("targets", J::A(v));
                j.put("otherwise", bbj(&targets.otherwise()));
            }
            TerminatorKind::UnwindResume => j.put("k", s("resume")),
            TerminatorKind::UnwindTerminate(_) => j.put("k", s("terminate")),
            TerminatorKind::Return => j.put("k", s("return")),
            TerminatorKind::Unreachable => j.put("k", s("unreachable")),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                j.put("k", s("drop"));
                let pj = self.place(b, place);
                j.put("p", pj);
                let ty = place.ty(&b.local_decls, self.tcx).ty;
                let ty = self.ty(ty);
                j.put("ty", ty);
                j.put("to", bbj(target));
                j.put("unwind", self.unwind(unwind));
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                j.put("k", s("call"));
                j.put("fsp", self.span(*fn_span));
                let f = self.operand(b, func, env);
                j.put("f", f);
                let a: Vec<J> = args.iter().map(|o| self.operand(b, &o.node, env)).collect();
                j.put("args", J::A(a));
                let at: Vec<J> = args
                    .iter()
                    .map(|o| {
                        let t = o.node.ty(&b.local_decls, self.tcx);
                        self.ty(t)
                    })
                    .collect();
                j.put("argtys", J::A(at));
                let d = self.place(b, destination);
                j.put("d", d);
                let dt = destination.ty(&b.local_decls, self.tcx).ty;
                let dt = self.ty(dt);
                j.put("dty", dt);
                j.put("to", target.map(|x| bbj(&x)).unwrap_or(J::Null));
                j.put("unwind", self.unwind(unwind));
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                j.put("k", s("assert"));
                let o = self.operand(b, cond, env);
                j.put("o", o);
                j.put("expected", J::B(*expected));
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                    AssertKind::DivisionByZero(_) => "divzero".to_string(),
                    AssertKind::RemainderByZero(_) => "remzero".to_string(),
                    AssertKind::ResumedAfterReturn(_)
                    | AssertKind::ResumedAfterPanic(_)
                    | AssertKind::ResumedAfterDrop(_) => "resumed".to_string(),
                    _ => "other".to_string(),
                };
                j.put("msg", s(m));
                if let AssertKind::BoundsCheck { len, index } = &**msg {
                    let l = self.operand(b, len, env);
                    let i = self.operand(b, index, env);
                    j.put("len", l);
                    j.put("index", i);
                }
                j.put("to", bbj(target));
                j.put("unwind", self.unwind(unwind));
            }
            TerminatorKind::Yield { resume, resume_arg, value, .. } => {
                j.put("k", s("yield"));
                j.put("to", bbj(resume));
                let v = self.operand(b, value, env);
                j.put("v", v);
                let p = self.place(b, resume_arg);
                j.put("d", p);
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                j.put("k", s("goto"));
                j.put("to", bbj(real_target));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                j.put("k", s("goto"));
                j.put("to", bbj(real_target));
            }
            TerminatorKind::CoroutineDrop => j.put("k", s("corodrop")),
            _ => j.put("k", s("opaque")),
        }
        j
    }
}

fn has_params(i: Instance<'_>) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    i.args.has_param() || i.args.has_aliases()
}

/// External functions whose own MIR the analyser interprets when it has no model for them:
/// the small, safe combinators. Everything built on raw pointers is modelled instead.
fn wanted(p: &str) -> bool {
    const OK: &[&str] = &[
        "std::option::",
        "std::result::",
        "std::ops::",
        "std::cmp::",
        "std::convert::",
        "std::bool::",
        "std::iter::",
        "std::array::",
        "std::slice::",
        "std::str::",
        "core::",
        "<",
        "std::mem::",
        "std::num::",
        "std::vec::",
    ];
    OK.iter().any(|o| p.starts_with(o))
}
