use crate::json::{n, s, J};
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Scalar, Primitive};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, rustc_internal};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, VecDeque};

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty, usize>,
    tyout: Vec<Option<J>>,
    inst: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    allocs: BTreeMap<usize, Option<J>>,
    stop: Vec<String>,
}

fn mi(i: usize) -> J {
    n(i)
}

pub fn run(tcx: TyCtxt<'_>, out: &str) {
    let stop = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mut d = D {
        tcx,
        types: HashMap::new(),
        tyout: vec![],
        inst: HashMap::new(),
        queue: VecDeque::new(),
        allocs: BTreeMap::new(),
        stop,
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let id = d.instance(i);
            roots.push(mi(id));
        }
    }
    let mut fns: Vec<J> = vec![];
    while let Some(i) = d.queue.pop_front() {
        let j = d.fun(i);
        fns.push(j);
    }
    let types: Vec<J> = d.tyout.into_iter().map(|t| t.unwrap()).collect();
    let allocs: Vec<J> = d
        .allocs
        .into_iter()
        .map(|(k, v)| J::Arr(vec![mi(k), v.unwrap_or(J::Null)]))
        .collect();
    let top = J::Obj(vec![
        ("roots", J::Arr(roots)),
        ("fns", J::Arr(fns)),
        ("types", J::Arr(types)),
        ("allocs", J::Arr(allocs)),
    ]);
    let mut o = String::new();
    top.write(&mut o);
    std::fs::write(out, o).unwrap();
}

impl<'tcx> D<'tcx> {
    fn instance(&mut self, i: Instance) -> usize {
        if let Some(&x) = self.inst.get(&i) {
            return x;
        }
        let id = self.inst.len();
        self.inst.insert(i, id);
        self.queue.push_back(i);
        id
    }

    fn fun(&mut self, i: Instance) -> J {
        let id = self.inst[&i];
        let path = i.def.name();
        let name = i.name();
        let did = i.def.def_id();
        let internal = rustc_internal::internal(self.tcx, did);
        let mut trait_item = J::Null;
        let mut is_fn_trait = false;
        if let Some(a) = self.tcx.opt_associated_item(internal) {
            if let Some(t) = a.trait_item_def_id() {
                trait_item = s(self.tcx.def_path_str(t));
            } else if self.tcx.trait_of_assoc(internal).is_some() {
                trait_item = s(self.tcx.def_path_str(internal));
            }
            if let Some(t) = self.tcx.trait_of_assoc(internal) {
                is_fn_trait = self.tcx.fn_trait_kind_from_def_id(t).is_some();
            }
        }
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let intr = i.intrinsic_name().map(s).unwrap_or(J::Null);
        let krate = i.def.krate().name.to_string();
        let args: Vec<J> = i.args().0.iter().map(|a| self.garg(a)).collect();
        let sp = i.def.span();
        let file = sp.get_filename().to_string();
        let line = sp.get_lines().start_line;
        let stopped = self.stop.iter().any(|p| path.starts_with(p.as_str()) || name.starts_with(p.as_str()));
        let foreign = i.kind == InstanceKind::Item && i.is_foreign_item();
        let mut body = J::Null;
        if !stopped && !foreign && i.kind != InstanceKind::LlvmIntrinsic && !matches!(i.kind, InstanceKind::Virtual { .. }) {
            if let Some(b) = i.body() {
                body = self.body(&b);
            }
        }
        // fn signature (for functions without body)
        let mut sig = J::Null;
        let tk = i.ty();
        if let Some(fs) = tk.kind().fn_sig() {
            let fs = fs.skip_binder();
            let ins: Vec<J> = fs.inputs().iter().map(|t| { let k = self.ty(*t); mi(k) }).collect();
            let o = self.ty(fs.output());
            sig = J::Arr(vec![J::Arr(ins), mi(o)]);
        }
        let closure = matches!(tk.kind(), TyKind::RigidTy(RigidTy::Closure(..))) && i.kind == InstanceKind::Item;
        let selfty = self.ty(tk);
        J::Obj(vec![
            ("id", mi(id)),
            ("path", s(path)),
            ("name", s(name)),
            ("trait_item", trait_item),
            ("kind", s(kind)),
            ("intrinsic", intr),
            ("crate", s(krate)),
            ("args", J::Arr(args)),
            ("file", s(file)),
            ("line", mi(line)),
            ("stopped", J::Bool(stopped)),
            ("foreign", J::Bool(foreign)),
            ("closure", J::Bool(closure)),
            ("fntrait", J::Bool(is_fn_trait)),
            ("ty", mi(selfty)),
            ("sig", sig),
            ("body", body),
        ])
    }

    fn garg(&mut self, a: &GenericArgKind) -> J {
        match a {
            GenericArgKind::Type(t) => {
                let k = self.ty(*t);
                J::Obj(vec![("ty", mi(k))])
            }
            GenericArgKind::Const(c) => match c.eval_target_usize() {
                Ok(v) => J::Obj(vec![("const", n(v))]),
                Err(_) => J::Obj(vec![("const", s(format!("{c:?}")))]),
            },
            GenericArgKind::Lifetime(_) => J::Null,
        }
    }

    /// Erases every region, including bound ones escaping from a skipped binder (fn signatures).
    fn erase(&self, t: Ty) -> Ty {
        let it = rustc_internal::internal(self.tcx, t);
        let e = rustc_middle::ty::fold_regions(self.tcx, it, |_, _| self.tcx.lifetimes.re_erased);
        rustc_internal::stable(e)
    }

    fn ty(&mut self, t: Ty) -> usize {
        let t = self.erase(t);
        if let Some(&x) = self.types.get(&t) {
            return x;
        }
        let id = self.types.len();
        self.types.insert(t, id);
        self.tyout.push(None);
        let j = self.ty_json(t, id);
        self.tyout[id] = Some(j);
        id
    }

    fn scalar(&self, sc: &Scalar) -> (usize, bool) {
        let p = match sc {
            Scalar::Initialized { value, .. } => value,
            Scalar::Union { value } => value,
        };
        match p {
            Primitive::Int { length, .. } => (length.bits() / 8, false),
            Primitive::Float { length } => (length.bits() / 8, false),
            Primitive::Pointer(_) => (8, true),
        }
    }

    fn ty_json(&mut self, t: Ty, id: usize) -> J {
        let mut o: Vec<(&'static str, J)> = vec![("id", mi(id)), ("name", s(format!("{t}")))];
        let kind = t.kind();
        let mut size = J::Null;
        let mut align = J::Null;
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            if sh.is_sized() {
                size = mi(sh.size.bits() / 8);
                align = n(sh.abi_align);
            }
            let offs = |f: &FieldsShape| -> J {
                match f {
                    FieldsShape::Primitive => J::Arr(vec![]),
                    FieldsShape::Union(k) => J::Arr((0..k.get()).map(|_| mi(0)).collect()),
                    FieldsShape::Array { stride, .. } => J::Arr(vec![mi(stride.bits() / 8)]),
                    FieldsShape::Arbitrary { offsets } => {
                        J::Arr(offsets.iter().map(|x| mi(x.bits() / 8)).collect())
                    }
                }
            };
            o.push(("offsets", offs(&sh.fields)));
            match &sh.variants {
                VariantsShape::Empty => o.push(("layout", s("empty"))),
                VariantsShape::Single { index } => {
                    o.push(("layout", s("single")));
                    o.push(("vindex", mi(index.to_index())));
                }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    o.push(("layout", s("multi")));
                    let (tsz, tptr) = self.scalar(tag);
                    let toff = match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bits() / 8,
                        _ => 0,
                    };
                    o.push(("tag", J::Arr(vec![mi(toff), mi(tsz), J::Bool(tptr)])));
                    match tag_encoding {
                        TagEncoding::Direct => o.push(("enc", s("direct"))),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            o.push(("enc", J::Arr(vec![
                                mi(untagged_variant.to_index()),
                                mi(niche_variants.start().to_index()),
                                mi(niche_variants.end().to_index()),
                                n(niche_start),
                            ])));
                        }
                    }
                    o.push(("voffsets", J::Arr(variants.iter().map(|v| {
                        J::Arr(v.offsets.iter().map(|x| mi(x.bits() / 8)).collect())
                    }).collect())));
                }
            }
        }
        o.push(("size", size));
        o.push(("align", align));
        let k = match kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "bool",
                RigidTy::Char => "char",
                RigidTy::Int(_) => "int",
                RigidTy::Uint(_) => "uint",
                RigidTy::Float(_) => "float",
                RigidTy::Str => "str",
                RigidTy::Never => "never",
                RigidTy::Array(e, c) => {
                    let k = self.ty(e);
                    o.push(("elem", mi(k)));
                    o.push(("len", c.eval_target_usize().map(n).unwrap_or(J::Null)));
                    "array"
                }
                RigidTy::Slice(e) => {
                    let k = self.ty(e);
                    o.push(("elem", mi(k)));
                    "slice"
                }
                RigidTy::RawPtr(p, m) => {
                    let k = self.ty(p);
                    o.push(("to", mi(k)));
                    o.push(("mut", J::Bool(m == Mutability::Mut)));
                    "ptr"
                }
                RigidTy::Ref(_, p, m) => {
                    let k = self.ty(p);
                    o.push(("to", mi(k)));
                    o.push(("mut", J::Bool(m == Mutability::Mut)));
                    "ref"
                }
                RigidTy::FnDef(def, args) => {
                    match Instance::resolve(def, &args) {
                        Ok(i) => {
                            let k = self.instance(i);
                            o.push(("inst", mi(k)));
                        }
                        Err(_) => {}
                    }
                    "fndef"
                }
                RigidTy::FnPtr(_) => "fnptr",
                RigidTy::Tuple(ts) => {
                    let v: Vec<J> = ts.iter().map(|t| { let k = self.ty(*t); mi(k) }).collect();
                    o.push(("fields", J::Arr(v)));
                    "tuple"
                }
                RigidTy::Closure(def, args) => {
                    // upvar types: last generic arg is the tuple of upvars
                    if let Some(GenericArgKind::Type(u)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = u.kind() {
                            let v: Vec<J> = ts.iter().map(|t| { let k = self.ty(*t); mi(k) }).collect();
                            o.push(("fields", J::Arr(v)));
                        }
                    }
                    let _ = def;
                    "closure"
                }
                RigidTy::Adt(def, args) => {
                    o.push(("adt", s(def.name())));
                    o.push(("crate", s(def.krate().name.to_string())));
                    let av: Vec<J> = args.0.iter().map(|a| self.garg(a)).collect();
                    o.push(("args", J::Arr(av)));
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<J> = v.fields().iter().map(|f| {
                            let k = self.ty(f.ty_with_args(&args));
                            J::Arr(vec![s(f.name.to_string()), mi(k)])
                        }).collect();
                        let disc = if def.kind() == AdtKind::Enum {
                            n(def.discriminant_for_variant(v.idx()).val)
                        } else { J::Null };
                        vs.push(J::Arr(vec![s(v.name().to_string()), disc, J::Arr(fs)]));
                    }
                    o.push(("variants", J::Arr(vs)));
                    match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    }
                }
                RigidTy::Dynamic(..) => "dyn",
                RigidTy::Foreign(_) => "foreign",
                RigidTy::Pat(b, _) => {
                    let k = self.ty(b);
                    o.push(("base", mi(k)));
                    "pat"
                }
                _ => "other",
            },
            _ => "unknown",
        };
        o.push(("kind", s(k)));
        if needs_drop(self.tcx, t) {
            o.push(("drop", {
                let i = Instance::resolve_drop_in_place(t);
                let k = self.instance(i);
                mi(k)
            }));
        }
        J::Obj(o)
    }

    fn alloc_json(&mut self, a: &Allocation) -> J {
        let bytes: Vec<J> = a.bytes.iter().map(|b| match b { Some(x) => n(x), None => J::Num("-1".into()) }).collect();
        let prov: Vec<J> = a.provenance.ptrs.iter().map(|(o, p)| {
            let id = self.alloc_id(p.0);
            J::Arr(vec![mi(*o), mi(id)])
        }).collect();
        J::Obj(vec![("bytes", J::Arr(bytes)), ("prov", J::Arr(prov)), ("align", n(a.align))])
    }

    fn alloc_id(&mut self, a: AllocId) -> usize {
        let k = a.to_index();
        if self.allocs.contains_key(&k) {
            return k;
        }
        self.allocs.insert(k, None);
        let j = match GlobalAlloc::from(a) {
            GlobalAlloc::Memory(m) => {
                let x = self.alloc_json(&m);
                J::Obj(vec![("kind", s("mem")), ("mem", x)])
            }
            GlobalAlloc::Static(sd) => {
                let nm = sd.name();
                let t = self.ty(sd.ty());
                let mem = match sd.eval_initializer() {
                    Ok(m) => self.alloc_json(&m),
                    Err(_) => J::Null,
                };
                J::Obj(vec![("kind", s("static")), ("name", s(nm)), ("ty", mi(t)), ("mem", mem)])
            }
            GlobalAlloc::Function(i) => {
                let x = self.instance(i);
                J::Obj(vec![("kind", s("fn")), ("inst", mi(x))])
            }
            GlobalAlloc::VTable(t, _) => {
                let x = self.ty(t);
                J::Obj(vec![("kind", s("vtable")), ("ty", mi(x))])
            }
            GlobalAlloc::TypeId { .. } => J::Obj(vec![("kind", s("typeid"))]),
        };
        self.allocs.insert(k, Some(j));
        k
    }

    fn place(&mut self, p: &Place) -> J {
        let pr: Vec<J> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => s("*"),
            ProjectionElem::Field(i, t) => { let k = self.ty(*t); J::Arr(vec![s("f"), mi(*i), mi(k)]) }
            ProjectionElem::Index(l) => J::Arr(vec![s("i"), mi(*l)]),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                J::Arr(vec![s("c"), n(offset), n(min_length), J::Bool(*from_end)]),
            ProjectionElem::Subslice { from, to, from_end } =>
                J::Arr(vec![s("s"), n(from), n(to), J::Bool(*from_end)]),
            ProjectionElem::Downcast(v) => J::Arr(vec![s("d"), mi(v.to_index())]),
            ProjectionElem::OpaqueCast(t) => { let k = self.ty(*t); J::Arr(vec![s("o"), mi(k)]) }
        }).collect();
        J::Arr(vec![mi(p.local), J::Arr(pr)])
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => { let x = self.place(p); J::Arr(vec![s("cp"), x]) }
            Operand::Move(p) => { let x = self.place(p); J::Arr(vec![s("mv"), x]) }
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = match c.const_.kind() {
                    ConstantKind::Allocated(a) => self.alloc_json(a),
                    ConstantKind::ZeroSized => J::Null,
                    ConstantKind::Ty(tc) => match tc.kind() {
                        TyConstKind::Value(_, a) => self.alloc_json(a),
                        TyConstKind::ZSTValue(_) => J::Null,
                        _ => match tc.eval_target_usize() {
                            Ok(v) => J::Obj(vec![("bytes", J::Arr(v.to_le_bytes().iter().map(|b| n(b)).collect())), ("prov", J::Arr(vec![])), ("align", n(8))]),
                            Err(_) => s("unk"),
                        },
                    },
                    _ => s("unk"),
                };
                J::Arr(vec![s("k"), mi(t), v])
            }
            Operand::RuntimeChecks(_) => J::Arr(vec![s("rc")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, _) => { let x = self.operand(o); J::Arr(vec![s("use"), x]) }
            Rvalue::CopyForDeref(p) => { let x = self.place(p); J::Arr(vec![s("use"), J::Arr(vec![s("cp"), x])]) }
            Rvalue::Reborrow(_, _, p) => { let x = self.place(p); J::Arr(vec![s("use"), J::Arr(vec![s("cp"), x])]) }
            Rvalue::Repeat(o, c) => {
                let x = self.operand(o);
                J::Arr(vec![s("rep"), x, c.eval_target_usize().map(n).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, bk, p) => {
                let x = self.place(p);
                J::Arr(vec![s("ref"), s(match bk { BorrowKind::Shared => "s", BorrowKind::Fake(_) => "f", BorrowKind::Mut { .. } => "m" }), x])
            }
            Rvalue::AddressOf(k, p) => {
                let x = self.place(p);
                J::Arr(vec![s("addr"), s(format!("{k:?}")), x])
            }
            Rvalue::Len(p) => { let x = self.place(p); J::Arr(vec![s("len"), x]) }
            Rvalue::Cast(k, o, t) => {
                let x = self.operand(o);
                let tt = self.ty(*t);
                let kk = match k {
                    CastKind::PointerCoercion(p) => format!("Ptr:{}", match p {
                        PointerCoercion::ReifyFnPointer(_) => "Reify",
                        PointerCoercion::UnsafeFnPointer => "Unsafe",
                        PointerCoercion::ClosureFnPointer(_) => "Closure",
                        PointerCoercion::MutToConstPointer => "MutToConst",
                        PointerCoercion::ArrayToPointer => "ArrayToPtr",
                        PointerCoercion::Unsize => "Unsize",
                    }),
                    other => format!("{other:?}"),
                };
                J::Arr(vec![s("cast"), s(kk), x, mi(tt)])
            }
            Rvalue::BinaryOp(b, l, r) => {
                let x = self.operand(l); let y = self.operand(r);
                J::Arr(vec![s("bin"), s(format!("{b:?}")), x, y])
            }
            Rvalue::CheckedBinaryOp(b, l, r) => {
                let x = self.operand(l); let y = self.operand(r);
                J::Arr(vec![s("cbin"), s(format!("{b:?}")), x, y])
            }
            Rvalue::UnaryOp(u, o) => { let x = self.operand(o); J::Arr(vec![s("un"), s(format!("{u:?}")), x]) }
            Rvalue::Discriminant(p) => { let x = self.place(p); J::Arr(vec![s("disc"), x]) }
            Rvalue::Aggregate(k, ops) => {
                let xs: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => { let e = self.ty(*t); J::Arr(vec![s("array"), mi(e)]) }
                    AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    AggregateKind::Adt(_, v, _, _, f) => J::Arr(vec![s("adt"), mi(v.to_index()), f.map(mi).unwrap_or(J::Null)]),
                    AggregateKind::Closure(..) => J::Arr(vec![s("closure")]),
                    AggregateKind::RawPtr(t, _) => { let e = self.ty(*t); J::Arr(vec![s("rawptr"), mi(e)]) }
                    _ => J::Arr(vec![s("other")]),
                };
                J::Arr(vec![s("agg"), kk, J::Arr(xs)])
            }
            Rvalue::ThreadLocalRef(_) => J::Arr(vec![s("tls")]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("cont"),
            UnwindAction::Unreachable => s("unreach"),
            UnwindAction::Terminate => s("term"),
            UnwindAction::Cleanup(b) => mi(*b),
        }
    }

    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| { let k = self.ty(l.ty); mi(k) }).collect();
        let mut names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(J::Arr(vec![mi(l), s(v.name.to_string())]));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let pp = self.place(p);
                        let rr = self.rvalue(r);
                        J::Arr(vec![s("="), pp, rr])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pp = self.place(place);
                        J::Arr(vec![s("sd"), pp, mi(variant_index.to_index())])
                    }
                    StatementKind::StorageLive(l) => J::Arr(vec![s("live"), mi(*l)]),
                    StatementKind::StorageDead(l) => J::Arr(vec![s("dead"), mi(*l)]),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let x = self.operand(o);
                        J::Arr(vec![s("assume"), x])
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let a = self.operand(&c.src);
                        let b = self.operand(&c.dst);
                        let d = self.operand(&c.count);
                        J::Arr(vec![s("cno"), a, b, d])
                    }
                    _ => continue,
                };
                st.push(j);
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => J::Arr(vec![s("goto"), mi(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let x = self.operand(discr);
                    let br: Vec<J> = targets.branches().map(|(v, t)| J::Arr(vec![n(v), mi(t)])).collect();
                    J::Arr(vec![s("switch"), x, J::Arr(br), mi(targets.otherwise())])
                }
                TerminatorKind::Resume => J::Arr(vec![s("resume")]),
                TerminatorKind::Abort => J::Arr(vec![s("abort")]),
                TerminatorKind::Return => J::Arr(vec![s("ret")]),
                TerminatorKind::Unreachable => J::Arr(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(b.locals()).unwrap();
                    let tid = self.ty(t);
                    let p = self.place(place);
                    let i = Instance::resolve_drop_in_place(t);
                    let iid = if i.is_empty_shim() { J::Null } else { let k = self.instance(i); mi(k) };
                    let u = self.unwind(unwind);
                    J::Arr(vec![s("drop"), p, mi(tid), iid, mi(*target), u])
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = self.operand(func);
                    let a: Vec<J> = args.iter().map(|o| self.operand(o)).collect();
                    let dst = self.place(destination);
                    let u = self.unwind(unwind);
                    J::Arr(vec![s("call"), f, J::Arr(a), dst, target.map(mi).unwrap_or(J::Null), u, mi(line)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond);
                    let u = self.unwind(unwind);
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            let l = self.operand(len); let i = self.operand(index);
                            J::Arr(vec![s("bounds"), l, i])
                        }
                        AssertMessage::Overflow(op, ..) => J::Arr(vec![s("overflow"), s(format!("{op:?}"))]),
                        _ => J::Arr(vec![s("other")]),
                    };
                    J::Arr(vec![s("assert"), c, J::Bool(*expected), m, mi(*target), u, mi(line)])
                }
                TerminatorKind::InlineAsm { .. } => J::Arr(vec![s("asm")]),
            };
            blocks.push(J::Arr(vec![J::Arr(st), t, mi(line)]));
        }
        J::Obj(vec![
            ("argc", mi(b.arg_locals().len())),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("spread", b.spread_arg().map(mi).unwrap_or(J::Null)),
            ("blocks", J::Arr(blocks)),
        ])
    }
}

fn needs_drop(tcx: TyCtxt<'_>, t: Ty) -> bool {
    let it = rustc_internal::internal(tcx, t);
    use rustc_middle::ty::TypeVisitableExt;
    if it.has_escaping_bound_vars() || it.has_param() || it.has_aliases() {
        return false;
    }
    let it = tcx.erase_and_anonymize_regions(it);
    it.needs_drop(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
}
