//! Compiler driver that writes the MIR of every local body of the crate being
//! compiled as JSON. It is a drop-in `rustc` (used through RUSTC_WORKSPACE_WRAPPER
//! or `cargo rustc`): argv[1] is the real rustc path and is dropped.
//! The output path is taken from MIRDUMP_OUT; without it the driver is plain rustc.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::FieldsShape;
use rustc_public::abi::VariantsShape;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Ctx {
    ty_ids: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    allocs: BTreeMap<usize, String>,
    alloc_ids: HashMap<AllocId, usize>,
    queue: VecDeque<(String, Instance, String)>,
    seen: BTreeSet<String>,
    bodies: Vec<String>,
}

impl Ctx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.ty_json.len();
        self.ty_ids.insert(t, id);
        self.ty_json.push(String::new());
        let j = self.ty_body(t);
        self.ty_json[id] = j;
        id
    }

    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .map(|g| match g {
                GenericArgKind::Lifetime(_) => "null".to_string(),
                GenericArgKind::Type(t) => self.ty(*t).to_string(),
                GenericArgKind::Const(c) => format!("{{\"const\":{}}}", self.tyconst(c)),
            })
            .collect();
        list(v)
    }

    fn tyconst(&mut self, c: &TyConst) -> String {
        match c.eval_target_usize() {
            Ok(n) => n.to_string(),
            Err(_) => esc(&format!("{c:?}")),
        }
    }

    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return String::new() };
        let s = l.shape();
        let mut o = format!(",\"size\":{}", s.size.bytes());
        if let FieldsShape::Arbitrary { offsets } = &s.fields {
            let _ = write!(o, ",\"offsets\":{}", list(offsets.iter().map(|x| x.bytes().to_string())));
        }
        match &s.variants {
            VariantsShape::Single { .. } | VariantsShape::Empty => {}
            VariantsShape::Multiple { .. } => o.push_str(",\"multi\":true"),
        }
        o
    }

    fn ty_body(&mut self, t: Ty) -> String {
        let lay = self.layout(t);
        let core = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"w\":{}", esc(&format!("{i:?}"))),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"w\":{}", esc(&format!("{i:?}"))),
                RigidTy::Float(i) => format!("\"k\":\"float\",\"w\":{}", esc(&format!("{i:?}"))),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Array(e, n) => {
                    let n = self.tyconst(&n);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Tuple(v) => {
                    let v: Vec<String> = v.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("\"k\":\"tuple\",\"e\":{}", list(v))
                }
                RigidTy::Adt(d, a) => {
                    let args = self.gargs(&a);
                    let local = d.krate().is_local;
                    let name = d.name();
                    let kind = format!("{:?}", d.kind());
                    let deep = local
                        || name.ends_with("::Option")
                        || name.ends_with("::Result")
                        || name.ends_with("cmp::Ordering");
                    let mut vs = Vec::new();
                    if deep {
                        for v in d.variants() {
                            let fs: Vec<String> = v
                                .fields()
                                .iter()
                                .map(|f| {
                                    let ft = f.ty_with_args(&a);
                                    format!("[{},{}]", esc(&f.name), self.ty(ft))
                                })
                                .collect();
                            let discr = if kind == "Enum" {
                                d.discriminant_for_variant(v.idx()).val.to_string()
                            } else {
                                "0".into()
                            };
                            vs.push(format!(
                                "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                                esc(&v.name()),
                                discr,
                                list(fs)
                            ));
                        }
                    }
                    format!(
                        "\"k\":\"adt\",\"name\":{},\"kind\":{},\"local\":{},\"args\":{},\"variants\":{}",
                        esc(&name),
                        esc(&kind),
                        local,
                        args,
                        list(vs)
                    )
                }
                RigidTy::FnDef(d, a) => {
                    let args = self.gargs(&a);
                    format!(
                        "\"k\":\"fndef\",\"name\":{},\"args\":{}{}",
                        esc(&d.name()),
                        args,
                        self.resolve(d, &a)
                    )
                }
                RigidTy::Closure(d, a) => {
                    let key = self.closure_key(d, &a);
                    format!("\"k\":\"closure\",\"name\":{},\"key\":{}", esc(&d.name()), esc(&key))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                _ => "\"k\":\"other\"".to_string(),
            },
            TyKind::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(&p.name)),
            _ => "\"k\":\"alias\"".to_string(),
        };
        format!("{{{core}{lay},\"s\":{}}}", esc(&format!("{t}")))
    }

    fn closure_key(&mut self, d: ClosureDef, a: &GenericArgs) -> String {
        match Instance::resolve_closure(d, a, ClosureKind::FnOnce) {
            Ok(_) => {}
            Err(_) => return format!("generic:{}", d.name()),
        }
        // The closure's own kind gives the body itself rather than a shim.
        for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
            if let Ok(i) = Instance::resolve_closure(d, a, k) {
                if i.kind == InstanceKind::Item {
                    return self.enqueue(i, d.name().to_string(), d.krate().is_local);
                }
            }
        }
        format!("generic:{}", d.name())
    }

    fn enqueue(&mut self, i: Instance, def: String, local: bool) -> String {
        let key = i.mangled_name().to_string();
        if local && self.seen.insert(key.clone()) {
            self.queue.push_back((key.clone(), i, def));
        }
        key
    }

    fn resolve(&mut self, d: FnDef, a: &GenericArgs) -> String {
        match Instance::resolve(d, a) {
            Ok(i) => {
                let local = i.def.krate().is_local && i.kind == InstanceKind::Item;
                let key = if local {
                    self.enqueue(i, i.def.name().to_string(), true)
                } else {
                    String::new()
                };
                format!(
                    ",\"rname\":{},\"rkind\":{},\"local\":{},\"key\":{}",
                    esc(&i.def.name()),
                    esc(&format!("{:?}", i.kind)),
                    local,
                    esc(&key)
                )
            }
            Err(_) => ",\"rname\":null,\"local\":false,\"key\":\"\"".to_string(),
        }
    }

    fn alloc_json(&mut self, a: &Allocation) -> String {
        let mut hex = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            let _ = write!(hex, "{:02x}", b.unwrap_or(0));
        }
        let ptrs: Vec<String> = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| format!("[{},{}]", o, self.alloc(p.0)))
            .collect();
        format!("{{\"b\":\"{}\",\"p\":{}}}", hex, list(ptrs))
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        if let Some(i) = self.alloc_ids.get(&id) {
            return *i;
        }
        let n = self.alloc_ids.len();
        self.alloc_ids.insert(id, n);
        let j = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => self.alloc_json(&a),
            GlobalAlloc::Static(s) => {
                let local = s.krate().is_local;
                let tid = self.ty(s.ty());
                let init = match s.eval_initializer() {
                    Ok(a) if local => self.alloc_json(&a),
                    _ => "null".into(),
                };
                format!("{{\"static\":{},\"ty\":{},\"init\":{}}}", esc(&s.name()), tid, init)
            }
            GlobalAlloc::Function(i) => {
                let local = i.def.krate().is_local;
                let name = i.def.name().to_string();
                let key = if local { self.enqueue(i, name.clone(), true) } else { String::new() };
                format!("{{\"fn\":{},\"key\":{}}}", esc(&name), esc(&key))
            }
            _ => "{\"other\":true}".into(),
        };
        self.allocs.insert(n, j);
        n
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("{{\"const\":{},\"ty\":{}}}", self.alloc_json(a), t),
            ConstantKind::ZeroSized => format!("{{\"const\":null,\"ty\":{t}}}"),
            ConstantKind::Ty(tc) => format!("{{\"const\":{{\"tyconst\":{}}},\"ty\":{}}}", self.tyconst(tc), t),
            k => format!("{{\"const\":{{\"uneval\":{}}},\"ty\":{}}}", esc(&format!("{k:?}")), t),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"field\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"index\",{l}]"),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"cindex\",{offset},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"opaque\"]".to_string(),
            })
            .collect();
        format!("[{},{}]", p.local, list(pr))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"copy\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"move\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("{{\"rtcheck\":{}}}", esc(&format!("{r:?}"))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::AddressOf(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"copy\":{}}}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"copy\":{}}}]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",{},{},{}]", esc(&format!("{b:?}")), self.operand(x), self.operand(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",{},{},{}]", esc(&format!("{b:?}")), self.operand(x), self.operand(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", esc(&format!("{u:?}")), self.operand(x)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.operand(o), self.ty(*t))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = self.tyconst(n);
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Aggregate(k, os) => {
                let os: Vec<String> = os.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!(
                            "[\"adt\",{},{},{}]",
                            t,
                            v.to_index(),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        format!("[\"closure\",{},{}]", esc(&d.name()), esc(&self.closure_key(*d, a)))
                    }
                    other => format!("[\"other\",{}]", esc(&format!("{other:?}"))),
                };
                format!("[\"agg\",{},{}]", k, list(os))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
        }
    }

    fn line(&self, s: Span) -> usize {
        s.get_lines().start_line
    }

    fn body(&mut self, key: &str, def: &str, b: &Body, file: &str) {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = Vec::new();
        for bb in &b.blocks {
            let mut st = Vec::new();
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let (p, r) = (self.place(p), self.rvalue(r));
                        st.push(format!("[{ln},\"=\",{p},{r}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[{ln},\"setdiscr\",{p},{}]", variant_index.to_index()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[{ln},\"dead\",{l}]")),
                    StatementKind::StorageLive(l) => st.push(format!("[{ln},\"live\",{l}]")),
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[{ln},\"intrinsic\",{}]", esc(&format!("{i:?}"))))
                    }
                    _ => {}
                }
            }
            let ln = self.line(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let br: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[\"{v}\",{t}]")).collect();
                    format!("[\"switch\",{},{},{}]", d, list(br), targets.otherwise())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        list(a),
                        d,
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        m => m.description().unwrap_or("assert").to_string(),
                    };
                    format!("[\"assert\",{},{},{},{}]", c, expected, esc(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", list(st), t, ln));
        }
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(format!("[{},{}]", esc(&v.name), p));
            }
        }
        let spread = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        self.bodies.push(format!(
            "{{\"key\":{},\"def\":{},\"file\":{},\"line\":{},\"nargs\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}",
            esc(key),
            esc(def),
            esc(file),
            self.line(b.span),
            b.arg_locals().len(),
            spread,
            list(locals),
            list(names),
            list(blocks)
        ));
    }
}

fn dump(out: &str) -> ControlFlow<()> {
    let mut cx = Ctx::default();
    let mut generic = Vec::new();
    for item in rustc_public::all_local_items() {
        if !item.has_body() {
            continue;
        }
        match Instance::try_from(item) {
            Ok(i) => {
                cx.enqueue(i, item.name().to_string(), true);
            }
            Err(_) => generic.push(item.name().to_string()),
        }
    }
    // Generic functions without an instance in the crate are written with their parameters.
    for item in rustc_public::all_local_items() {
        let name = item.name().to_string();
        if generic.contains(&name) && !name.starts_with('<') {
            if let Some(b) = item.body() {
                let file = item.span().get_filename().to_string();
                cx.body(&format!("generic:{name}"), &format!("generic:{name}"), &b, &file);
            }
        }
    }
    while let Some((key, inst, def)) = cx.queue.pop_front() {
        let file = inst.def.span().get_filename().to_string();
        match inst.body() {
            Some(b) => cx.body(&key, &def, &b, &file),
            None => {}
        }
    }
    let bodies = std::mem::take(&mut cx.bodies);
    let allocs: Vec<String> = cx.allocs.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    let s = format!(
        "{{\"crate\":{},\"types\":[\n{}\n],\"allocs\":{{\n{}\n}},\"generic\":{},\"bodies\":[\n{}\n]}}\n",
        esc(&rustc_public::local_crate().name),
        cx.ty_json.join(",\n"),
        allocs.join(",\n"),
        list(generic.iter().map(|x| esc(x))),
        bodies.join(",\n")
    );
    std::fs::write(out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let real = args.remove(1);
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let primary = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    let info = args.iter().any(|a| a == "-vV" || a.starts_with("--print") || a == "-");
    if out.is_empty() || !primary || info {
        let st = std::process::Command::new(real).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    if rustc_public::run!(&args, || dump(&out)).is_err() {
        std::process::exit(1);
    }
}
