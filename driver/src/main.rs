//! `mirdump`: a rustc driver that writes the resolved, monomorphised MIR of everything reachable
//! from the root functions of the crate being compiled to a JSON file.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER for the harness crate only. Environment:
//!   MIRDUMP_OUT   output path (when unset the driver behaves like plain rustc)
//!   MIRDUMP_CRATE crate name to dump
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{Body, TerminatorKind};
use rustc_public::ty::{
    AdtKind, ClosureKind, FnDef, GenericArgKind, GenericArgs, MirConst, RigidTy, Ty, TyKind,
};
use rustc_public::mir::alloc::AllocId;
use rustc_public::ty::{Allocation, ConstantKind};
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a workspace wrapper argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_query = args.iter().any(|a| a.starts_with("--print") || a == "-vV");
    if out.is_empty() || crate_name != want || is_query {
        let sysroot_rustc = std::env::var("MIRDUMP_RUSTC").unwrap_or("rustc".into());
        let st = std::process::Command::new(sysroot_rustc)
            .args(&args[1..])
            .status()
            .expect("cannot run rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    let res = run!(&args, move || dump(&out));
    match res {
        Ok(()) => std::process::exit(0),
        Err(e) => {
            eprintln!("mirdump: {e:?}");
            std::process::exit(1)
        }
    }
}

#[derive(Default)]
struct Dump {
    types: BTreeMap<usize, Value>,
    fns: BTreeMap<String, Value>,
    calls: BTreeMap<usize, Value>,
    closures: BTreeMap<usize, Value>,
    allocs: BTreeMap<usize, Value>,
    alloc_seen: HashSet<usize>,
    alloc_queue: Vec<(usize, AllocId)>,
    queue: VecDeque<Instance>,
    seen: HashSet<Instance>,
    models: HashMap<String, FnDef>,
}

fn idx<T: serde::Serialize>(t: &T) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}

fn span_str(sp: &rustc_public::ty::Span) -> String {
    let f = sp.get_filename();
    let l = sp.get_lines();
    format!("{}:{}", f, l.start_line)
}

struct V<'a> {
    d: &'a mut Dump,
}

impl MirVisitor for V<'_> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.d.ty(*ty);
        self.super_ty(ty);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        self.d.ty(c.ty());
        if let ConstantKind::Allocated(a) = c.kind() {
            self.d.scan_allocs(a);
        }
        self.super_mir_const(c, l);
    }
}

impl Dump {
    fn key(&mut self, i: Instance) -> String {
        if self.seen.insert(i) {
            self.queue.push_back(i);
        }
        i.mangled_name()
    }

    fn scan_allocs(&mut self, a: &Allocation) {
        for (_, p) in &a.provenance.ptrs {
            let id = idx(&p.0);
            if !self.alloc_seen.contains(&id) {
                self.alloc_seen.insert(id);
                self.alloc_queue.push((id, p.0));
            }
        }
    }

    fn ty(&mut self, ty: Ty) -> usize {
        let id = idx(&ty);
        if self.types.contains_key(&id) {
            return id;
        }
        self.types.insert(id, Value::Null);
        let kind = ty.kind();
        let mut m = Map::new();
        m.insert("name".into(), json!(format!("{}", ty)));
        if let Ok(l) = ty.layout() {
            let sh = l.shape();
            m.insert("size".into(), json!(sh.size.bytes()));
            if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &sh.fields {
                let o: Vec<usize> = offsets.iter().map(|x| x.bytes()).collect();
                m.insert("offsets".into(), json!(o));
            }
            m.insert("align".into(), json!(sh.abi_align));
            use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape};
            if let VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } = &sh.variants {
                let tag_off = match &sh.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let prim = match tag {
                    Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
                };
                let size = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                let niche = match tag_encoding {
                    TagEncoding::Direct => Value::Null,
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => json!({
                        "untagged": idx(untagged_variant),
                        "lo": idx(niche_variants.start()),
                        "hi": idx(niche_variants.end()),
                        "start": niche_start.to_string(),
                    }),
                };
                let offs: Vec<Vec<usize>> =
                    variants.iter().map(|v| v.offsets.iter().map(|o| o.bytes()).collect()).collect();
                m.insert(
                    "enum_layout".into(),
                    json!({"tag_off": tag_off, "tag_size": size, "niche": niche, "offsets": offs}),
                );
            } else if let (VariantsShape::Single { index }, FieldsShape::Arbitrary { offsets }) = (&sh.variants, &sh.fields) {
                if let TyKind::RigidTy(RigidTy::Adt(def, _)) = &kind {
                    if def.kind() == AdtKind::Enum {
                        let o: Vec<usize> = offsets.iter().map(|x| x.bytes()).collect();
                        let mut all = vec![Vec::new(); idx(index) + 1];
                        all[idx(index)] = o;
                        m.insert("enum_layout".into(), json!({"single": idx(index), "offsets": all}));
                    }
                }
            }
        }
        if let TyKind::RigidTy(r) = &kind {
            match r {
                RigidTy::Bool => {
                    m.insert("k".into(), json!("bool"));
                }
                RigidTy::Char => {
                    m.insert("k".into(), json!("char"));
                }
                RigidTy::Int(i) => {
                    m.insert("k".into(), json!("int"));
                    m.insert("bits".into(), json!(i.num_bytes() * 8));
                }
                RigidTy::Uint(i) => {
                    m.insert("k".into(), json!("uint"));
                    m.insert("bits".into(), json!(i.num_bytes() * 8));
                }
                RigidTy::Float(_) => {
                    m.insert("k".into(), json!("float"));
                }
                RigidTy::Str => {
                    m.insert("k".into(), json!("str"));
                }
                RigidTy::Never => {
                    m.insert("k".into(), json!("never"));
                }
                RigidTy::Array(t, n) => {
                    m.insert("k".into(), json!("array"));
                    m.insert("elem".into(), json!(self.ty(*t)));
                    m.insert("len".into(), json!(n.eval_target_usize().ok()));
                }
                RigidTy::Slice(t) => {
                    m.insert("k".into(), json!("slice"));
                    m.insert("elem".into(), json!(self.ty(*t)));
                }
                RigidTy::Pat(t, _) => {
                    m.insert("k".into(), json!("pat"));
                    m.insert("elem".into(), json!(self.ty(*t)));
                }
                RigidTy::RawPtr(t, mu) => {
                    m.insert("k".into(), json!("ptr"));
                    m.insert("elem".into(), json!(self.ty(*t)));
                    m.insert("mut".into(), json!(format!("{mu:?}") == "Mut"));
                }
                RigidTy::Ref(_, t, mu) => {
                    m.insert("k".into(), json!("ref"));
                    m.insert("elem".into(), json!(self.ty(*t)));
                    m.insert("mut".into(), json!(format!("{mu:?}") == "Mut"));
                }
                RigidTy::Tuple(ts) => {
                    m.insert("k".into(), json!("tuple"));
                    let f: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                    m.insert("fields".into(), json!(f));
                }
                RigidTy::FnDef(def, args) => {
                    m.insert("k".into(), json!("fndef"));
                    m.insert("def".into(), json!(def.name()));
                    let a = self.args(args);
                    m.insert("args".into(), a);
                    self.resolve(id, *def, args);
                }
                RigidTy::FnPtr(_) => {
                    m.insert("k".into(), json!("fnptr"));
                }
                RigidTy::Closure(def, args) => {
                    m.insert("k".into(), json!("closure"));
                    m.insert("def".into(), json!(def.name()));
                    let a = self.args(args);
                    // the last generic argument of a closure is the tuple of upvar types
                    if let Some(GenericArgKind::Type(up)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = up.kind() {
                            let f: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                            m.insert("fields".into(), json!(f));
                        }
                    }
                    m.insert("args".into(), a);
                    // the third argument from the end encodes the closure kind as i8/i16/i32
                    let n = args.0.len();
                    let own = match args.0.get(n.wrapping_sub(3)) {
                        Some(GenericArgKind::Type(k)) => match k.kind() {
                            TyKind::RigidTy(RigidTy::Int(rustc_public::ty::IntTy::I8)) => ClosureKind::Fn,
                            TyKind::RigidTy(RigidTy::Int(rustc_public::ty::IntTy::I16)) => ClosureKind::FnMut,
                            _ => ClosureKind::FnOnce,
                        },
                        _ => ClosureKind::FnOnce,
                    };
                    if let Ok(i) = Instance::resolve_closure(*def, args, own) {
                        let k = self.key(i);
                        self.closures.insert(id, json!(k));
                    }
                }
                RigidTy::Adt(def, args) => {
                    m.insert("k".into(), json!("adt"));
                    m.insert("def".into(), json!(def.name()));
                    m.insert("box".into(), json!(def.is_box()));
                    m.insert("simd".into(), json!(def.is_simd()));
                    m.insert(
                        "adt".into(),
                        json!(match def.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Struct => "struct",
                            AdtKind::Union => "union",
                        }),
                    );
                    let a = self.args(args);
                    m.insert("args".into(), a);
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let fs: Vec<Value> = v
                            .fields()
                            .iter()
                            .map(|f| json!([f.name, self.ty(f.ty_with_args(args))]))
                            .collect();
                        let discr = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val
                        } else {
                            0
                        };
                        vs.push(json!({"name": v.name(), "fields": fs, "discr": discr.to_string()}));
                    }
                    m.insert("variants".into(), json!(vs));
                }
                other => {
                    m.insert("k".into(), json!("other"));
                    m.insert("dbg".into(), json!(format!("{other:?}").chars().take(60).collect::<String>()));
                }
            }
        } else {
            m.insert("k".into(), json!("nonrigid"));
        }
        self.types.insert(id, Value::Object(m));
        id
    }

    fn args(&mut self, args: &GenericArgs) -> Value {
        let v: Vec<Value> = args
            .0
            .iter()
            .map(|a| match a {
                GenericArgKind::Type(t) => json!({"ty": self.ty(*t)}),
                GenericArgKind::Const(c) => json!({"const": format!("{c:?}"), "usize": c.eval_target_usize().ok()}),
                GenericArgKind::Lifetime(_) => json!("'_"),
            })
            .collect();
        json!(v)
    }

    fn resolve(&mut self, ty_id: usize, def: FnDef, args: &GenericArgs) {
        if self.calls.contains_key(&ty_id) {
            return;
        }
        let dname = def.name();
        if let Some(mdef) = self.models.get(&dname).copied() {
            let nolife = args.clone();
            if let Ok(i) = Instance::resolve(mdef, &nolife) {
                let k = self.key(i);
                self.calls.insert(ty_id, json!({"fn": k, "def": dname, "model": true}));
                return;
            }
        }
        match Instance::resolve(def, args) {
            Ok(i) => {
                let k = self.key(i);
                let kind = format!("{:?}", i.kind);
                self.calls.insert(ty_id, json!({"fn": k, "def": dname, "kind": kind}));
            }
            Err(e) => {
                self.calls.insert(ty_id, json!({"def": dname, "err": format!("{e:?}")}));
            }
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        {
            let mut v = V { d: self };
            v.visit_body(b);
        }
        for l in b.locals() {
            self.ty(l.ty);
        }
        let lines: Vec<Vec<String>> = b
            .blocks
            .iter()
            .map(|bb| {
                bb.statements
                    .iter()
                    .map(|s| span_str(&s.source_info.span))
                    .chain(std::iter::once(span_str(&bb.terminator.source_info.span)))
                    .collect()
            })
            .collect();
        let mut val = serde_json::to_value(b).unwrap();
        // types of drop places and switch operands are needed by the analysis
        let mut drops = Map::new();
        for (i, bb) in b.blocks.iter().enumerate() {
            if let TerminatorKind::Drop { place, .. } = &bb.terminator.kind {
                if let Ok(t) = place.ty(b.locals()) {
                    drops.insert(i.to_string(), json!(self.ty(t)));
                }
            }
        }
        val["lines"] = json!(lines);
        val["drop_tys"] = Value::Object(drops);
        val
    }
}

fn dump(out: &str) -> ControlFlow<()> {
    let mut d = Dump::default();
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    let mut roots = vec![];
    // models: functions `models::<anything>` carry `#[doc(alias)]`-free naming: m__std__path
    for def in rustc_public::local_crate().fn_defs() {
        let n = def.name();
        if let Some(p) = n.find("models::m_") {
            let tail = &n[p + "models::m_".len()..];
            let target = tail.replace("__", "::");
            d.models.insert(target, def);
        }
    }
    for it in &items {
        if it.kind() != ItemKind::Fn {
            continue;
        }
        let n = it.name();
        if n.contains("models::m_") {
            continue;
        }
        if let Ok(i) = Instance::try_from(*it) {
            let k = d.key(i);
            roots.push(json!({"name": n, "fn": k}));
        }
    }
    while let Some(i) = d.queue.pop_front() {
        let k = i.mangled_name();
        let mut m = Map::new();
        m.insert("name".into(), json!(i.name()));
        m.insert("def".into(), json!(i.def.name()));
        m.insert("kind".into(), json!(format!("{:?}", i.kind)));
        if let Some(n) = i.intrinsic_name() {
            m.insert("intrinsic".into(), json!(n));
        }
        let a = d.args(&i.args());
        m.insert("args".into(), a);
        let skip = match i.kind {
            InstanceKind::Virtual { .. } => true,
            _ => false,
        };
        if !skip && (i.has_body() || i.kind == InstanceKind::Shim) {
            let opaque = opaque(&i.def.name());
            if opaque {
                m.insert("opaque".into(), json!(true));
            } else if let Some(b) = i.body() {
                m.insert("file".into(), json!(span_str(&b.span)));
                let v = d.body(&b);
                m.insert("body".into(), v);
            }
        }
        d.fns.insert(k, Value::Object(m));
        // allocations referenced so far
        while let Some((id, aid)) = d.alloc_queue.pop() {
            let v = match GlobalAlloc::from(aid) {
                GlobalAlloc::Memory(a) => {
                    d.scan_allocs(&a);
                    json!({"memory": serde_json::to_value(&a).unwrap()})
                }
                GlobalAlloc::Function(i) => {
                    let k = d.key(i);
                    json!({"fn": k})
                }
                GlobalAlloc::Static(s) => json!({"static": s.name()}),
                _ => json!({"other": true}),
            };
            d.allocs.insert(id, v);
        }
    }
    let o = json!({
        "roots": roots,
        "types": d.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Map<String, Value>>(),
        "calls": d.calls.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Map<String, Value>>(),
        "closures": d.closures.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Map<String, Value>>(),
        "allocs": d.allocs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Map<String, Value>>(),
        "fns": d.fns,
    });
    std::fs::write(out, serde_json::to_vec(&o).unwrap()).expect("write dump");
    ControlFlow::Continue(())
}

/// Bodies that are never interpreted (formatting and panic machinery).
fn opaque(n: &str) -> bool {
    let n = n.trim_start_matches("::");
    ["fmt::", "panicking::", "std::rt::", "std::io::", "alloc::alloc::handle", "string::"]
        .iter()
        .any(|p| n.contains(p))
}
