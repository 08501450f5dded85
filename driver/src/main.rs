//! Dumps the type-checked, monomorphised MIR of the `protofish` crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: every compilation other than the library crate under analysis
//! is passed through to rustc unchanged.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Crates whose small combinator bodies are dumped along with the local crate.
const STD_BODIES: &[&str] = &["core", "alloc", "std", "bytes"];

struct Dump {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    adts: HashMap<String, String>,
    insts: HashMap<Instance, usize>,
    inst_json: Vec<Option<String>>,
    queue: VecDeque<(Instance, usize)>,
    depth: HashMap<Instance, usize>,
    cur_depth: usize,
    layouts: std::collections::BTreeMap<usize, String>,
}

fn join(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

impl Dump {
    fn args(&mut self, a: &GenericArgs) -> String {
        let v = a
            .0
            .iter()
            .filter_map(|k| match k {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(format!(
                    "{{\"const\":{}}}",
                    c.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into())
                )),
            })
            .collect();
        join(v)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let j = self.ty_body(t);
        self.ty_json[i] = j;
        i
    }

    /// The memory layout, needed to read constants.
    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let sh = l.shape();
        let offs = |o: &Vec<rustc_public::target::MachineSize>| {
            join(o.iter().map(|s| s.bytes().to_string()).collect())
        };
        let off = match &sh.fields {
            FieldsShape::Arbitrary { offsets } => offs(offsets),
            _ => "[]".into(),
        };
        let var = match &sh.variants {
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let prim = match tag {
                    Scalar::Initialized { value, .. } => *value,
                    Scalar::Union { value } => *value,
                };
                let sz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                let to = match &sh.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "null".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[{},{},{},{}]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                let vs = variants.iter().map(|v| offs(&v.offsets)).collect();
                format!("{{\"off\":{},\"sz\":{},\"niche\":{},\"voff\":{}}}", to, sz, enc, join(vs))
            }
            VariantsShape::Single { index } => format!("{}", index.to_index()),
            _ => "null".into(),
        };
        format!("{{\"sz\":{},\"off\":{},\"var\":{}}}", sh.size.bytes(), off, var)
    }

    /// Records the layouts of the types a constant of type t is made of.
    fn need_layout(&mut self, t: Ty, depth: usize) {
        let id = self.ty(t);
        if depth > 6 || self.layouts.contains_key(&id) {
            return;
        }
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                self.layouts.insert(id, "null".into());
                let l = self.layout(t);
                self.layouts.insert(id, l);
                for v in def.variants() {
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        self.need_layout(ft, depth + 1);
                    }
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let l = self.layout(t);
                self.layouts.insert(id, l);
                for t in ts {
                    self.need_layout(t, depth + 1);
                }
            }
            TyKind::RigidTy(RigidTy::Array(e, _))
            | TyKind::RigidTy(RigidTy::Slice(e))
            | TyKind::RigidTy(RigidTy::RawPtr(e, _))
            | TyKind::RigidTy(RigidTy::Ref(_, e, _)) => self.need_layout(e, depth + 1),
            _ => {}
        }
    }

    fn ty_body(&mut self, t: Ty) -> String {
        let name = esc(&format!("{}", t));
        let k = match t.kind() {
            TyKind::RigidTy(r) => r,
            other => return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        };
        match k {
            RigidTy::Bool => "{\"k\":\"bool\",\"s\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\",\"s\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"s\":{}}}", i.num_bytes() * 8, name),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"bits\":{},\"s\":{}}}", i.num_bytes() * 8, name),
            RigidTy::Float(f) => {
                let b = match f {
                    FloatTy::F16 => 16,
                    FloatTy::F32 => 32,
                    FloatTy::F64 => 64,
                    FloatTy::F128 => 128,
                };
                format!("{{\"k\":\"float\",\"bits\":{},\"s\":{}}}", b, name)
            }
            RigidTy::Adt(def, args) => {
                let dn = def.name().to_string();
                let a = self.args(&args);
                // Field types of this instantiation.
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        fs.push(self.ty(ft).to_string());
                    }
                    vs.push(join(fs));
                }
                if !self.adts.contains_key(&dn) {
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let vars = def.variants();
                    let mut out = vec![];
                    for (i, v) in vars.iter().enumerate() {
                        let fs: Vec<String> =
                            v.fields().iter().map(|f| esc(&f.name.to_string())).collect();
                        let d = if kind == "enum" {
                            let d = def.discriminant_for_variant(VariantIdx::to_val(i));
                            d.val.to_string()
                        } else {
                            "0".into()
                        };
                        out.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                            esc(&v.name().to_string()),
                            d,
                            join(fs)
                        ));
                    }
                    let j = format!(
                        "{{\"kind\":\"{}\",\"box\":{},\"crate\":{},\"variants\":{}}}",
                        kind,
                        def.is_box(),
                        esc(&def.krate().name.to_string()),
                        join(out)
                    );
                    self.adts.insert(dn.clone(), j);
                }
                format!(
                    "{{\"k\":\"adt\",\"adt\":{},\"args\":{},\"vf\":{},\"s\":{}}}",
                    esc(&dn),
                    a,
                    join(vs),
                    name
                )
            }
            RigidTy::Str => "{\"k\":\"str\",\"s\":\"str\"}".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"elem\":{},\"len\":{},\"s\":{}}}", self.ty(e), n, name)
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"elem\":{},\"s\":{}}}", self.ty(e), name),
            RigidTy::RawPtr(e, m) => {
                format!("{{\"k\":\"ptr\",\"to\":{},\"mut\":{},\"s\":{}}}", self.ty(e), m == Mutability::Mut, name)
            }
            RigidTy::Ref(_, e, m) => {
                format!("{{\"k\":\"ref\",\"to\":{},\"mut\":{},\"s\":{}}}", self.ty(e), m == Mutability::Mut, name)
            }
            RigidTy::FnDef(def, args) => {
                let inst = Instance::resolve_for_fn_ptr(def, &args).ok();
                let i = match inst {
                    Some(i) => self.inst(i).to_string(),
                    None => "null".into(),
                };
                format!(
                    "{{\"k\":\"fndef\",\"def\":{},\"inst\":{},\"s\":{}}}",
                    esc(&def.name().to_string()),
                    i,
                    name
                )
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", name),
            RigidTy::Closure(def, args) => {
                let inst = Instance::resolve_closure(def, &args, ClosureKind::FnOnce).ok();
                let inst2 = Instance::resolve_closure(def, &args, ClosureKind::Fn)
                    .or_else(|_| Instance::resolve_closure(def, &args, ClosureKind::FnMut))
                    .or_else(|_| Instance::resolve_closure(def, &args, ClosureKind::FnOnce))
                    .ok();
                let _ = inst;
                let i = match inst2 {
                    Some(i) => self.inst(i).to_string(),
                    None => "null".into(),
                };
                // Upvar types.
                let mut ups = vec![];
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                        for t in ts {
                            ups.push(self.ty(t).to_string());
                        }
                    }
                }
                format!(
                    "{{\"k\":\"closure\",\"inst\":{},\"ups\":{},\"def\":{},\"s\":{}}}",
                    i,
                    join(ups),
                    esc(&def.name().to_string()),
                    name
                )
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", name),
            RigidTy::Never => "{\"k\":\"never\",\"s\":\"!\"}".into(),
            RigidTy::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"elems\":{},\"s\":{}}}", join(v), name)
            }
            other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let id = self.inst_json.len();
        self.insts.insert(i, id);
        self.inst_json.push(None);
        let d = self.cur_depth;
        self.queue.push_back((i, d));
        id
    }

    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        esc(&format!("{}:{}", s.get_filename(), l.start_line))
    }

    fn alloc(&mut self, a: &Allocation, depth: usize) -> String {
        let bytes: Vec<String> = a
            .bytes
            .iter()
            .map(|b| b.map(|v| v.to_string()).unwrap_or("null".into()))
            .collect();
        let mut ptrs = vec![];
        for (off, prov) in &a.provenance.ptrs {
            let g = GlobalAlloc::from(prov.0);
            let t = match g {
                GlobalAlloc::Memory(m) if depth < 4 => format!("{{\"mem\":{}}}", self.alloc(&m, depth + 1)),
                GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", esc(&s.name().to_string())),
                _ => "{}".into(),
            };
            ptrs.push(format!("[{},{}]", off, t));
        }
        format!("{{\"bytes\":{},\"ptrs\":{}}}", join(bytes), join(ptrs))
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        if let ConstantKind::Allocated(..) = c.kind() {
            self.need_layout(c.ty(), 0);
        }
        match c.kind() {
            ConstantKind::Allocated(a) => format!("{{\"ty\":{},\"alloc\":{}}}", t, self.alloc(a, 0)),
            ConstantKind::ZeroSized => format!("{{\"ty\":{},\"zst\":true}}", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("{{\"ty\":{},\"alloc\":{}}}", t, self.alloc(a, 0)),
                TyConstKind::ZSTValue(_) => format!("{{\"ty\":{},\"zst\":true}}", t),
                _ => format!("{{\"ty\":{}}}", t),
            },
            _ => format!("{{\"ty\":{}}}", t),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, join(v))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o = ops.iter().map(|o| self.op(o)).collect();
                let o = join(o);
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{}]", self.ty(*t), o),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,{}]", o),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{}]",
                            t,
                            o,
                            v.to_index(),
                            f.map(|f| f.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"agg\",\"closure\",{},{}]", t, o)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",{},{}]", self.ty(*t), o),
                    _ => format!("[\"agg\",\"other\",null,{}]", o),
                }
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
            }
            Rvalue::Cast(k, x, t) => {
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(x), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",\"{:?}\",{}]", k.to_mutable_lossy(), self.place(p))
            }
            Rvalue::Repeat(x, n) => format!(
                "[\"repeat\",{},{}]",
                self.op(x),
                n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&d.name().to_string())),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Use(x, _) => format!("[\"use\",{}]", self.op(x)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            _ => "null".into(),
        }
    }

    fn term(&mut self, t: &Terminator, body: &Body) -> String {
        let k = match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let b: Vec<String> =
                    targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                format!("[\"switch\",{},{},{}]", self.op(discr), join(b), targets.otherwise())
            }
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(body.locals()).ok();
                let t = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"drop\",{},{},{}]", self.place(place), target, t)
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let mut callee = "null".to_string();
                let mut def = "null".to_string();
                let mut dargs = "[]".to_string();
                if let Ok(ft) = func.ty(body.locals()) {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ft.kind() {
                        def = esc(&d.name().to_string());
                        dargs = self.args(&a);
                        if let Ok(i) = Instance::resolve(d, &a) {
                            callee = self.inst(i).to_string();
                        }
                    }
                }
                let f = if callee == "null" { self.op(func) } else { "null".into() };
                let a = args.iter().map(|o| self.op(o)).collect();
                format!(
                    "[\"call\",{},{},{},{},{},{},{},{}]",
                    callee,
                    def,
                    dargs,
                    f,
                    join(a),
                    self.place(destination),
                    target.map(|t| t.to_string()).unwrap_or("null".into()),
                    self.unwind(unwind)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { len, index } => {
                        format!("[\"bounds\",{},{}]", self.op(len), self.op(index))
                    }
                    AssertMessage::Overflow(b, x, y) => {
                        format!("[\"overflow\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
                    }
                    AssertMessage::OverflowNeg(x) => format!("[\"neg\",{}]", self.op(x)),
                    AssertMessage::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(x)),
                    AssertMessage::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(x)),
                    other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
                };
                format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, m, target)
            }
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        };
        format!("{{\"t\":{},\"sp\":{}}}", k, self.span(&t.source_info.span))
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), self.span(&s.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.to_index()))
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(format!("[\"copy\",{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count)))
                    }
                    _ => {}
                }
            }
            let t = self.term(&bb.terminator, b);
            blocks.push(format!("{{\"s\":{},{}", join(st), &t[1..]));
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
            }
        }
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{},\"dbg\":{}}}",
            b.arg_locals().len(),
            b.spread_arg().map(|s| s.to_string()).unwrap_or("null".into()),
            join(locals),
            join(blocks),
            join(dbg)
        )
    }

    fn drain(&mut self) {
        while let Some((i, depth)) = self.queue.pop_front() {
            let id = self.insts[&i];
            let krate = i.def.krate().name.to_string();
            let local = krate == rustc_public::local_crate().name.to_string();
            self.cur_depth = if local { 0 } else { depth + 1 };
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let want = local
                || (matches!(i.kind, InstanceKind::Item | InstanceKind::Shim)
                    && depth < 4
                    && STD_BODIES.contains(&krate.as_str()));
            let fty = i.ty();
            let body = if want && i.kind != (InstanceKind::Virtual { idx: 0 }) {
                match i.body() {
                    Some(b) => self.body(&b),
                    None => "null".into(),
                }
            } else {
                "null".into()
            };
            let args = self.args(&i.args());
            let _ = fty;
            // Signature types, to type the results of calls without a body.
            let mut ret = "null".to_string();
            if let Some(sig) = fty.kind().fn_sig() {
                ret = self.ty(sig.skip_binder().output()).to_string();
            }
            let dn = i.def.def_id().name().to_string();
            let sp = self.span(&i.def.span());
            self.inst_json[id] = Some(format!(
                "{{\"name\":{},\"def\":{},\"kind\":\"{}\",\"crate\":{},\"local\":{},\"args\":{},\"ret\":{},\"sp\":{},\"body\":{}}}",
                esc(&i.name().to_string()),
                esc(&dn),
                kind,
                esc(&krate),
                local,
                args,
                ret,
                sp,
                body
            ));
        }
    }
}

fn analyze(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<(), ()> {
    let mut d = Dump {
        tys: HashMap::new(),
        ty_json: vec![],
        adts: HashMap::new(),
        layouts: Default::default(),
        insts: HashMap::new(),
        inst_json: vec![],
        queue: VecDeque::new(),
        depth: HashMap::new(),
        cur_depth: 0,
    };
    let _ = &d.depth;
    // Roots: every local function that needs no type arguments.
    let mut roots = vec![];
    let mut generic = vec![];
    let mut vec_ty: Option<Ty> = None;
    let mut string_ty: Option<Ty> = None;
    for a in rustc_public::local_crate().adts() {
        d.ty_opt(a);
        for v in a.variants() {
            for f in v.fields() {
                let t = f.ty();
                if let TyKind::RigidTy(RigidTy::Adt(ad, _)) = t.kind() {
                    let n = ad.name().to_string();
                    if n.ends_with("vec::Vec") {
                        vec_ty = Some(t);
                    }
                    if n.ends_with("string::String") {
                        string_ty = Some(t);
                    }
                }
            }
        }
    }
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn {
            continue;
        }
        match Instance::try_from(item) {
            Ok(i) => roots.push(i),
            Err(_) => generic.push(item),
        }
    }
    for item in generic {
        let n = item.name().to_string();
        if let TyKind::RigidTy(RigidTy::FnDef(def, _)) = item.ty().kind() {
            // `Context::parse<T, S>`: T = Vec<String>, S = String, if there is one.
            if let (Some(v), Some(s)) = (vec_ty, string_ty) {
                if let TyKind::RigidTy(RigidTy::Adt(vd, va)) = v.kind() {
                    let mut va = va.clone();
                    va.0[0] = GenericArgKind::Type(s);
                    let vt = Ty::from_rigid_kind(RigidTy::Adt(vd, va));
                    let gs = tcx.generics_of(rustc_public::rustc_internal::internal(tcx, item.def_id()));
                    let only_types = gs.parent_count == 0 && gs.own_params.iter().all(|p| matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Type { .. }));
                    if n.contains("Context") && n.ends_with("::parse") && only_types && gs.own_params.len() <= 2 {
                        let mut args = vec![GenericArgKind::Type(vt), GenericArgKind::Type(s)];
                        args.truncate(gs.own_params.len());
                        if let Ok(i) = Instance::resolve(def, &GenericArgs(args)) {
                            roots.push(i);
                        }
                    }
                }
            }
        }
    }
    let mut root_ids = vec![];
    for r in roots {
        root_ids.push(d.inst(r).to_string());
    }
    d.drain();
    // Public API facts.
    let api = api_facts(tcx);
    let mut out = String::new();
    out.push_str("{\"roots\":");
    out.push_str(&join(root_ids));
    out.push_str(",\"types\":");
    out.push_str(&join(d.ty_json));
    out.push_str(",\"layouts\":{");
    let lays: Vec<String> = d.layouts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    out.push_str(&lays.join(","));
    out.push_str("},\"adts\":{");
    let mut first = true;
    let mut keys: Vec<_> = d.adts.iter().collect();
    keys.sort();
    for (k, v) in keys {
        if !first {
            out.push(',');
        }
        first = false;
        out.push_str(&esc(k));
        out.push(':');
        out.push_str(v);
    }
    out.push_str("},\"insts\":");
    out.push_str(&join(d.inst_json.into_iter().map(|x| x.unwrap_or("null".into())).collect()));
    out.push_str(",\"api\":");
    out.push_str(&api);
    out.push('}');
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(path, out).expect("write dump");
    ControlFlow::Continue(())
}

impl Dump {
    fn ty_opt(&mut self, a: AdtDef) {
        self.ty(a.ty());
    }
}

/// Visibility, statics, unsafe blocks and signatures from the type checker and HIR.
fn api_facts(tcx: rustc_middle::ty::TyCtxt<'_>) -> String {
    use rustc_hir::def::DefKind;
    use rustc_hir::intravisit::{self, Visitor};
    let ev = tcx.effective_visibilities(());
    let mut items = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let reach = ev.is_reachable(ld);
        let path = tcx.def_path_str(did);
        let line = {
            let sm = tcx.sess.source_map();
            let l = sm.lookup_char_pos(tcx.def_span(did).lo());
            format!("{}:{}", l.file.name.prefer_remapped_unconditionally(), l.line)
        };
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<String> = sig.inputs().iter().map(|t| esc(&t.to_string())).collect();
                items.push(format!(
                    "{{\"k\":\"fn\",\"path\":{},\"pub\":{},\"in\":{},\"out\":{},\"unsafe\":{},\"sp\":{}}}",
                    esc(&path),
                    reach,
                    join(ins),
                    esc(&sig.output().to_string()),
                    sig.safety().is_unsafe(),
                    esc(&line)
                ));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(did);
                let mut fs = vec![];
                for v in adt.variants() {
                    for f in &v.fields {
                        let ty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(format!(
                            "{{\"v\":{},\"n\":{},\"pub\":{},\"ty\":{}}}",
                            esc(&v.name.to_string()),
                            esc(&f.name.to_string()),
                            f.vis.is_public(),
                            esc(&ty.to_string())
                        ));
                    }
                }
                let auto = {
                    use rustc_infer::infer::TyCtxtInferExt;
                    use rustc_trait_selection::infer::InferCtxtExt;
                    let env = tcx.param_env(did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let infcx = tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::non_body_analysis());
                    let has = |tr: Option<rustc_hir::def_id::DefId>| match tr {
                        Some(tr) => infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions(),
                        None => false,
                    };
                    format!(
                        "\"send\":{},\"sync\":{}",
                        has(tcx.get_diagnostic_item(rustc_span::sym::Send)),
                        has(tcx.lang_items().sync_trait())
                    )
                };
                items.push(format!(
                    "{{\"k\":\"adt\",\"path\":{},{},\"union\":{},\"pub\":{},\"nonexh\":{},\"fields\":{},\"sp\":{}}}",
                    esc(&path),
                    auto,
                    adt.is_union(),
                    reach,
                    adt.is_variant_list_non_exhaustive()
                        || adt.variants().iter().any(|v| v.is_field_list_non_exhaustive()),
                    join(fs),
                    esc(&line)
                ));
            }
            DefKind::Static { .. } | DefKind::Const { .. } => {
                let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                items.push(format!(
                    "{{\"k\":\"{}\",\"path\":{},\"ty\":{},\"mut\":{},\"sp\":{}}}",
                    if matches!(kind, DefKind::Static { .. }) { "static" } else { "const" },
                    esc(&path),
                    esc(&ty.to_string()),
                    matches!(kind, DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. }),
                    esc(&line)
                ));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tr = if of_trait {
                    esc(&tcx.def_path_str(tcx.impl_trait_ref(did).skip_binder().def_id))
                } else {
                    "null".into()
                };
                items.push(format!(
                    "{{\"k\":\"impl\",\"self\":{},\"trait\":{},\"unsafe\":{},\"sp\":{}}}",
                    esc(&st.to_string()),
                    tr,
                    of_trait && tcx.impl_trait_header(did).safety.is_unsafe(),
                    esc(&line)
                ));
            }
            _ => {}
        }
    }
    struct V<'t> {
        tcx: rustc_middle::ty::TyCtxt<'t>,
        out: Vec<String>,
    }
    impl<'t> Visitor<'t> for V<'t> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
            self.tcx
        }
        fn visit_block(&mut self, b: &'t rustc_hir::Block<'t>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                let sm = self.tcx.sess.source_map();
                let l = sm.lookup_char_pos(b.span.lo());
                let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
                self.out.push(format!(
                    "{{\"k\":\"unsafe\",\"in\":{},\"sp\":{}}}",
                    esc(&self.tcx.def_path_str(owner.to_def_id())),
                    esc(&format!("{}:{}", l.file.name.prefer_remapped_unconditionally(), l.line))
                ));
            }
            intravisit::walk_block(self, b);
        }
        fn visit_expr(&mut self, e: &'t rustc_hir::Expr<'t>) {
            use rustc_hir::{ExprKind, UnOp};
            // What a macro of another crate expands to (derives, format!, panic!) is not this crate's code.
            if e.span.ctxt().outer_expn_data().macro_def_id.is_some_and(|d| !d.is_local()) {
                intravisit::walk_expr(self, e);
                return;
            }
            let owner = self.tcx.hir_enclosing_body_owner(e.hir_id);
            let tc = self.tcx.typeck(owner);
            let mut op = |kind: &str, what: String, args: Vec<String>| {
                let sm = self.tcx.sess.source_map();
                let l = sm.lookup_char_pos(e.span.lo());
                self.out.push(format!(
                    "{{\"k\":\"unsafeop\",\"op\":{},\"what\":{},\"args\":{},\"in\":{},\"sp\":{}}}",
                    esc(kind),
                    esc(&what),
                    join(args),
                    esc(&self.tcx.def_path_str(owner.to_def_id())),
                    esc(&format!("{}:{}", l.file.name.prefer_remapped_unconditionally(), l.line))
                ));
            };
            match e.kind {
                ExprKind::Path(ref q) => {
                    // Naming an unsafe function counts: it can be called through the pointer.
                    if let Some(d) = tc.qpath_res(q, e.hir_id).opt_def_id() {
                        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                            && self.tcx.fn_sig(d).skip_binder().safety().is_unsafe()
                        {
                            let args = tc.node_args(e.hir_id).iter().map(|a| esc(&a.to_string())).collect();
                            op("call", self.tcx.def_path_str(d), args);
                        }
                        if matches!(self.tcx.def_kind(d), DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. }) {
                            op("static mut", self.tcx.def_path_str(d), vec![]);
                        }
                    }
                }
                ExprKind::MethodCall(..) => {
                    if let Some(d) = tc.type_dependent_def_id(e.hir_id) {
                        if self.tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                            let args = tc.node_args(e.hir_id).iter().map(|a| esc(&a.to_string())).collect();
                            op("call", self.tcx.def_path_str(d), args);
                        }
                    }
                }
                ExprKind::Unary(UnOp::Deref, b) => {
                    if tc.expr_ty_adjusted(b).is_raw_ptr() {
                        op("deref", tc.expr_ty_adjusted(b).to_string(), vec![]);
                    }
                }
                ExprKind::Field(b, _) => {
                    if tc.expr_ty_adjusted(b).is_union() {
                        op("union", tc.expr_ty_adjusted(b).to_string(), vec![]);
                    }
                }
                ExprKind::InlineAsm(..) => op("asm", String::new(), vec![]),
                _ => {}
            }
            intravisit::walk_expr(self, e);
        }
    }
    let mut v = V { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    v.out.sort();
    v.out.dedup();
    items.extend(v.out);
    join(items)
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    args.remove(0);
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "protofish")
        && !args.iter().any(|a| a == "--test");
    if !is_target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_public::run_with_tcx!(&args, analyze);
    if r.is_err() {
        std::process::exit(1);
    }
}
