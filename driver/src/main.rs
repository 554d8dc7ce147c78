// A rustc driver that dumps the type-checked, monomorphic MIR of the Keychain.rs workspace as JSON.
//
// It is injected with RUSTC_WORKSPACE_WRAPPER.  When the crate named in KCD_TARGET is compiled it
// writes everything reachable from every non-generic function of the workspace crates to KCD_OUT.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate serde_json;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

const WORKSPACE: &[&str] = &["bip39", "secp256k1_bip32", "keychain", "rust_keychain"];

// std modules whose (small, combinator-like) bodies the analyser looks into instead of modelling
const STD_BODIES: &[&str] = &[
  "core::option::", "core::result::", "core::ops::", "core::convert::", "core::clone::", "core::cmp::",
  "core::default::", "core::bool::", "core::num::", "core::tuple::", "core::borrow::", "alloc::borrow::",
  "core::mem::", "core::hint::", "core::any::", "core::error::", "core::iter::",
];

struct Dump<'tcx> {
  tcx: rustc_middle::ty::TyCtxt<'tcx>,
  types: Map<String, Value>,
  ty_seen: HashSet<Ty>,
  fns: Map<String, Value>,
  fn_ids: HashMap<Instance, String>,
  queue: VecDeque<Instance>,
  allocs: Map<String, Value>,
  alloc_ids: HashMap<AllocId, usize>,
  vtables: Map<String, Value>,
  files: HashMap<String, usize>,
}

fn hex(b: &[Option<u8>]) -> String {
  let mut s = String::with_capacity(b.len() * 2);
  for x in b {
    match x {
      Some(v) => s.push_str(&format!("{:02x}", v)),
      None => s.push_str(".."),
    }
  }
  s
}

impl<'tcx> Dump<'tcx> {
  fn def_path(&self, d: rustc_public::DefId) -> String {
    let id = internal(self.tcx, d);
    format!("{}{}", self.tcx.crate_name(id.krate), self.tcx.def_path(id).to_string_no_crate_verbose())
  }

  fn krate(&self, d: rustc_public::DefId) -> String {
    let id = internal(self.tcx, d);
    self.tcx.crate_name(id.krate).to_string()
  }

  fn ty(&mut self, t: Ty) -> Value {
    let id = t.to_index_string();
    if self.ty_seen.insert(t) {
      let v = self.ty_value(t);
      self.types.insert(id.clone(), v);
    }
    json!(id.parse::<usize>().unwrap())
  }

  fn args(&mut self, a: &GenericArgs) -> Vec<Value> {
    a.0
      .iter()
      .filter_map(|k| match k {
        GenericArgKind::Lifetime(_) => None,
        GenericArgKind::Type(t) => Some(self.ty(*t)),
        GenericArgKind::Const(c) => Some(json!({"c": c.eval_target_usize().ok(), "s": format!("{:?}", c)})),
      })
      .collect()
  }

  fn ty_value(&mut self, t: Ty) -> Value {
    let s = format!("{}", t);
    let esc = rustc_middle::ty::TypeVisitableExt::has_escaping_bound_vars(&internal(self.tcx, t));
    let lay = if esc { None } else { t.layout().ok() };
    let size = lay.as_ref().map(|l| l.shape().size.bytes());
    let align = lay.as_ref().map(|l| l.shape().abi_align);
    let mut m = match t.kind() {
      TyKind::RigidTy(r) => match r {
        RigidTy::Bool => json!({"k": "bool"}),
        RigidTy::Char => json!({"k": "char"}),
        RigidTy::Int(i) => json!({"k": "int", "w": i.num_bytes() * 8, "sg": true}),
        RigidTy::Uint(i) => json!({"k": "int", "w": i.num_bytes() * 8, "sg": false}),
        RigidTy::Float(_) => json!({"k": "float"}),
        RigidTy::Adt(def, args) => {
          let def_id = internal(self.tcx, def.def_id());
          let adt = self.tcx.adt_def(def_id);
          let is_enum = adt.is_enum();
          let kind = if is_enum { "enum" } else if adt.is_union() { "union" } else { "struct" };
          let ia = internal(self.tcx, t);
          let iargs = match ia.kind() {
            rustc_middle::ty::TyKind::Adt(_, a) => *a,
            _ => unreachable!(),
          };
          let mut vs = vec![];
          for v in def.variants_iter() {
            let iv = &adt.variants()[rustc_middle_variant(v.idx().to_index())];
            let mut fs = vec![];
            for (f, fi) in v.fields().iter().zip(iv.fields.iter()) {
              let fty = f.ty_with_args(&args);
              let vis = self.tcx.visibility(fi.did);
              fs.push(json!([f.name, self.ty(fty), vis.is_public()]));
            }
            let d = if is_enum {
              json!(adt.discriminant_for_variant(self.tcx, rustc_middle_variant(v.idx().to_index())).val.to_string())
            } else {
              json!("0")
            };
            vs.push(json!({"n": v.name().to_string(), "d": d, "f": fs}));
          }
          let _ = iargs;
          let drop = match self.tcx.adt_destructor(def_id) {
            Some(d) => {
              let fd = rustc_public::rustc_internal::stable(
                self.tcx.type_of(d.did).instantiate_identity().skip_norm_wip(),
              );
              match fd.kind() {
                TyKind::RigidTy(RigidTy::FnDef(fd, _)) => match Instance::resolve(fd, &args) {
                  Ok(i) => json!(self.inst(i)),
                  Err(_) => Value::Null,
                },
                _ => Value::Null,
              }
            }
            None => Value::Null,
          };
          // the `next` of an iterator of the standard library that is to be run by its own body
          let apath = self.def_path(def.def_id());
          let next = if apath.starts_with("core::iter::adapters::") || apath.starts_with("core::iter::sources::") {
            let nf = self.tcx.lang_items().next_fn().unwrap();
            let te = rustc_middle::ty::TypingEnv::fully_monomorphized();
            match rustc_middle::ty::Instance::try_resolve(self.tcx, te, nf, self.tcx.mk_args(&[ia.into()])) {
              Ok(Some(i)) => json!(self.inst(rustc_public::rustc_internal::stable(i))),
              _ => Value::Null,
            }
          } else {
            Value::Null
          };
          let a = self.args(&args);
          let dty = t.kind().discriminant_ty().map(|d| self.ty(d));
          json!({"k": "adt", "kind": kind, "def": def.name(), "path": self.def_path(def.def_id()),
                 "box": def.is_box(), "args": a, "v": vs, "next": next, "drop": drop, "dty": dty,
                 "repr": {"c": adt.repr().c(), "transparent": adt.repr().transparent(), "int": adt.repr().int.is_some(), "packed": adt.repr().packed()},
                 "freeze": ia.is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized()),
                 "needs_drop": ia.needs_drop(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())})
        }
        RigidTy::Str => json!({"k": "str"}),
        RigidTy::Array(e, n) => {
          let e = self.ty(e);
          json!({"k": "array", "e": e, "n": n.eval_target_usize().ok()})
        }
        RigidTy::Slice(e) => {
          let e = self.ty(e);
          json!({"k": "slice", "e": e})
        }
        RigidTy::RawPtr(p, m) => {
          let e = self.ty(p);
          json!({"k": "ptr", "e": e, "m": m == Mutability::Mut})
        }
        RigidTy::Ref(_, p, m) => {
          let e = self.ty(p);
          json!({"k": "ref", "e": e, "m": m == Mutability::Mut})
        }
        RigidTy::FnDef(def, args) => {
          let a = self.args(&args);
          let inst = Instance::resolve(def, &args).ok();
          let f = inst.map(|i| self.inst(i));
          json!({"k": "fndef", "f": f, "def": def.name(), "path": self.def_path(def.def_id()), "args": a})
        }
        RigidTy::FnPtr(_) => json!({"k": "fnptr"}),
        RigidTy::Closure(def, args) => {
          let f = Instance::resolve_closure(def, &args, ClosureKind::FnOnce).ok();
          let _ = f;
          let a = self.args(&args);
          let inst = {
            // the closure body itself, by its own kind
            let ia = internal(self.tcx, t);
            let k = match ia.kind() {
              rustc_middle::ty::TyKind::Closure(_, ca) => ca.as_closure().kind(),
              _ => unreachable!(),
            };
            let ck = match k {
              rustc_middle::ty::ClosureKind::Fn => ClosureKind::Fn,
              rustc_middle::ty::ClosureKind::FnMut => ClosureKind::FnMut,
              rustc_middle::ty::ClosureKind::FnOnce => ClosureKind::FnOnce,
            };
            (Instance::resolve_closure(def, &args, ck).ok(), format!("{:?}", k))
          };
          let ups: Vec<Value> = {
            let ia = internal(self.tcx, t);
            let tys: Vec<Ty> = match ia.kind() {
              rustc_middle::ty::TyKind::Closure(_, ca) => {
                ca.as_closure().upvar_tys().iter().map(|x| rustc_public::rustc_internal::stable(x)).collect()
              }
              _ => vec![],
            };
            tys.into_iter().map(|x| self.ty(x)).collect()
          };
          let f = inst.0.map(|i| self.inst(i));
          json!({"k": "closure", "f": f, "ck": inst.1, "ups": ups, "args": a, "path": self.def_path(def.def_id())})
        }
        RigidTy::Dynamic(preds, _) => {
          let mut tr = Value::Null;
          for p in preds {
            if let ExistentialPredicate::Trait(t) = p.skip_binder() {
              tr = json!(t.def_id.name());
            }
          }
          json!({"k": "dyn", "trait": tr})
        }
        RigidTy::Never => json!({"k": "never"}),
        RigidTy::Tuple(ts) => {
          let v: Vec<Value> = ts.into_iter().map(|x| self.ty(x)).collect();
          json!({"k": "tuple", "e": v})
        }
        _ => json!({"k": "other"}),
      },
      _ => json!({"k": "other"}),
    };
    if let Some(l) = lay.as_ref() {
      use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
      let sh = l.shape();
      if let FieldsShape::Arbitrary { offsets } = &sh.fields {
        let o: Vec<usize> = offsets.iter().map(|x| x.bytes()).collect();
        m.as_object_mut().unwrap().insert("off".into(), json!(o));
      }
      let v = match &sh.variants {
        VariantsShape::Empty => Value::Null,
        VariantsShape::Single { index } => json!({"single": index.to_index()}),
        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
          let toff = match &sh.fields {
            FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field).map(|x| x.bytes()),
            _ => None,
          };
          let prim = match tag {
            rustc_public::abi::Scalar::Initialized { value, .. } => *value,
            rustc_public::abi::Scalar::Union { value } => *value,
          };
          let tsize = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
          let enc = match tag_encoding {
            TagEncoding::Direct => json!("direct"),
            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => json!({
              "untagged": untagged_variant.to_index(), "lo": niche_variants.start().to_index(),
              "hi": niche_variants.end().to_index(), "start": niche_start.to_string()}),
          };
          let vo: Vec<Vec<usize>> = variants.iter().map(|v| v.offsets.iter().map(|x| x.bytes()).collect()).collect();
          json!({"toff": toff, "tsize": tsize, "enc": enc, "voff": vo})
        }
      };
      m.as_object_mut().unwrap().insert("lay".into(), v);
    }
    m.as_object_mut().unwrap().insert("s".into(), json!(s));
    m.as_object_mut().unwrap().insert("size".into(), json!(size));
    m.as_object_mut().unwrap().insert("align".into(), json!(align));
    m
  }

  fn inst(&mut self, i: Instance) -> String {
    if let Some(s) = self.fn_ids.get(&i) {
      return s.clone();
    }
    let id = match i.kind {
      InstanceKind::Virtual { idx } => format!("virt:{}:{}", idx, i.mangled_name()),
      _ => i.mangled_name().to_string(),
    };
    self.fn_ids.insert(i, id.clone());
    self.queue.push_back(i);
    id
  }

  fn alloc(&mut self, id: AllocId) -> usize {
    if let Some(x) = self.alloc_ids.get(&id) {
      return *x;
    }
    let n = self.alloc_ids.len();
    self.alloc_ids.insert(id, n);
    let v = match GlobalAlloc::from(id) {
      GlobalAlloc::Function(i) => json!({"k": "fn", "f": self.inst(i)}),
      GlobalAlloc::VTable(t, tr) => {
        let t2 = self.ty(t);
        json!({"k": "vtable", "ty": t2, "tr": tr.map(|b| b.skip_binder().def_id.name())})
      }
      GlobalAlloc::Static(s) => {
        let init = s.eval_initializer().ok().map(|a| self.allocation(&a));
        let t = self.ty(s.ty());
        json!({"k": "static", "name": s.name(), "ty": t, "init": init,
               "mut": self.tcx.static_mutability(internal(self.tcx, s.def_id())).map(|m| m.is_mut())})
      }
      GlobalAlloc::Memory(a) => {
        let mut v = self.allocation(&a);
        v.as_object_mut().unwrap().insert("k".into(), json!("mem"));
        v
      }
      _ => json!({"k": "other"}),
    };
    self.allocs.insert(n.to_string(), v);
    n
  }

  fn allocation(&mut self, a: &Allocation) -> Value {
    let p: Vec<Value> = a.provenance.ptrs.iter().map(|(o, pr)| json!([o, self.alloc(pr.0)])).collect();
    json!({"b": hex(&a.bytes), "p": p})
  }

  fn konst(&mut self, c: &MirConst) -> Value {
    let t = self.ty(c.ty());
    match c.kind() {
      ConstantKind::Allocated(a) => {
        let mut v = self.allocation(a);
        v.as_object_mut().unwrap().insert("ty".into(), t);
        v
      }
      ConstantKind::ZeroSized => json!({"ty": t, "z": 1}),
      ConstantKind::Ty(tc) => match tc.kind() {
        TyConstKind::Value(_, a) => {
          let mut v = self.allocation(a);
          v.as_object_mut().unwrap().insert("ty".into(), t);
          v
        }
        TyConstKind::ZSTValue(_) => json!({"ty": t, "z": 1}),
        _ => json!({"ty": t, "u": format!("{:?}", tc)}),
      },
      ConstantKind::Unevaluated(u) => {
        // try to evaluate it now
        let ic = internal(self.tcx, c.clone());
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        match ic.eval(self.tcx, env, rustc_span::DUMMY_SP) {
          Ok(v) => {
            let ic2 = rustc_middle::mir::Const::Val(v, ic.ty());
            let st: MirConst = rustc_public::rustc_internal::stable(ic2);
            match st.kind() {
              ConstantKind::Unevaluated(_) => json!({"ty": t, "u": u.def.name()}),
              _ => self.konst(&st),
            }
          }
          Err(_) => json!({"ty": t, "u": u.def.name()}),
        }
      }
      k => json!({"ty": t, "u": format!("{:?}", k)}),
    }
  }

  fn place(&mut self, p: &Place) -> Value {
    let pr: Vec<Value> = p
      .projection
      .iter()
      .map(|e| match e {
        ProjectionElem::Deref => json!(["d"]),
        ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
        ProjectionElem::Index(l) => json!(["i", l]),
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["c", offset, min_length, from_end]),
        ProjectionElem::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
        ProjectionElem::Downcast(v) => json!(["v", v.to_index()]),
        ProjectionElem::OpaqueCast(t) => json!(["o", self.ty(*t)]),
      })
      .collect();
    json!([p.local, pr])
  }

  fn operand(&mut self, o: &Operand) -> Value {
    match o {
      Operand::Copy(p) => json!(["cp", self.place(p)]),
      Operand::Move(p) => json!(["mv", self.place(p)]),
      Operand::Constant(c) => json!(["k", self.konst(&c.const_)]),
      Operand::RuntimeChecks(r) => json!(["rc", format!("{:?}", r)]),
    }
  }

  fn rvalue(&mut self, r: &Rvalue) -> Value {
    match r {
      Rvalue::AddressOf(_, p) => json!(["addr", self.place(p)]),
      Rvalue::Aggregate(k, ops) => {
        let o: Vec<Value> = ops.iter().map(|x| self.operand(x)).collect();
        let kv = match k {
          AggregateKind::Array(t) => json!(["array", self.ty(*t)]),
          AggregateKind::Tuple => json!(["tuple"]),
          AggregateKind::Adt(d, v, a, _, f) => {
            let t = self.ty(d.ty_with_args(a));
            json!(["adt", t, v.to_index(), f])
          }
          AggregateKind::Closure(d, a) => {
            let t = self.ty(Ty::new_closure(*d, a.clone()));
            json!(["closure", t])
          }
          AggregateKind::RawPtr(t, m) => {
            let t = self.ty(Ty::new_ptr(*t, *m));
            json!(["rawptr", t])
          }
          _ => json!(["other"]),
        };
        json!(["agg", kv, o])
      }
      Rvalue::BinaryOp(op, a, b) => json!(["bin", format!("{:?}", op), self.operand(a), self.operand(b)]),
      Rvalue::CheckedBinaryOp(op, a, b) => json!(["cbin", format!("{:?}", op), self.operand(a), self.operand(b)]),
      Rvalue::Cast(k, o, t) => {
        let ks = match k {
          CastKind::PointerCoercion(c) => format!("PC:{:?}", c),
          k => format!("{:?}", k),
        };
        json!(["cast", ks, self.operand(o), self.ty(*t)])
      }
      Rvalue::CopyForDeref(p) => json!(["use", ["cp", self.place(p)]]),
      Rvalue::Discriminant(p) => json!(["disc", self.place(p)]),
      Rvalue::Len(p) => json!(["len", self.place(p)]),
      Rvalue::Ref(_, k, p) => json!(["ref", format!("{:?}", k).starts_with("Mut"), self.place(p)]),
      Rvalue::Repeat(o, n) => json!(["rep", self.operand(o), n.eval_target_usize().ok()]),
      Rvalue::ThreadLocalRef(_) => json!(["tls"]),
      Rvalue::UnaryOp(op, a) => json!(["un", format!("{:?}", op), self.operand(a)]),
      Rvalue::Use(o, _) => json!(["use", self.operand(o)]),
      Rvalue::Reborrow(_, m, p) => json!(["ref", *m == Mutability::Mut, self.place(p)]),
    }
  }

  fn line(&mut self, s: &Span) -> Value {
    let l = s.get_lines();
    json!(l.start_line)
  }

  fn unwind(&self, u: &UnwindAction) -> Value {
    match u {
      UnwindAction::Continue => json!("c"),
      UnwindAction::Unreachable => json!("u"),
      UnwindAction::Terminate => json!("t"),
      UnwindAction::Cleanup(b) => json!(b),
    }
  }

  fn note_unsize(&mut self, from: Ty, to: Ty) {
    // record vtables for &T -> &dyn Trait, Box<T> -> Box<dyn Trait>, *T -> *dyn Trait
    fn pointee(t: Ty) -> Option<Ty> {
      match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, p, _)) => Some(p),
        TyKind::RigidTy(RigidTy::RawPtr(p, _)) => Some(p),
        TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|k| k.ty().copied()),
        _ => None,
      }
    }
    if let (Some(mut a), Some(mut b)) = (pointee(from), pointee(to)) {
      for _ in 0..4 {
        if let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = b.kind() {
          self.vtable(a, &preds);
          return;
        }
        match (pointee(a), pointee(b)) {
          (Some(x), Some(y)) => {
            a = x;
            b = y;
          }
          _ => return,
        }
      }
    }
  }

  fn vtable(&mut self, t: Ty, preds: &[Binder<ExistentialPredicate>]) {
    if let TyKind::RigidTy(RigidTy::Dynamic(..)) = t.kind() {
      return;
    }
    for p in preds {
      if let ExistentialPredicate::Trait(tr) = p.clone().skip_binder() {
        let tid = self.ty(t);
        let key = format!("{}|{}", tid, tr.def_id.name());
        if self.vtables.contains_key(&key) {
          continue;
        }
        self.vtables.insert(key.clone(), Value::Null);
        let tref = tr.with_self_ty(t);
        if rustc_middle::ty::TypeVisitableExt::has_escaping_bound_vars(&internal(self.tcx, tref.clone())) {
          continue;
        }
        let mut out = vec![];
        for e in tref.vtable_entries() {
          out.push(match e {
            VtblEntry::Method(i) => json!(self.inst(i)),
            _ => Value::Null,
          });
        }
        self.vtables.insert(key, json!(out));
      }
    }
  }

  fn body(&mut self, b: &Body) -> Value {
    let locals: Vec<Value> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
    let mut names = Map::new();
    for v in &b.var_debug_info {
      if let VarDebugInfoContents::Place(p) = &v.value {
        if p.projection.is_empty() {
          names.insert(p.local.to_string(), json!(v.name));
        }
      }
    }
    let mut blocks = vec![];
    for bb in &b.blocks {
      let mut st = vec![];
      for s in &bb.statements {
        let l = self.line(&s.source_info.span);
        match &s.kind {
          StatementKind::Assign(p, r) => {
            if let Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize), o, t) = r {
              if let Ok(from) = o.ty(b.locals()) {
                self.note_unsize(from, *t);
              }
            }
            let (p, r) = (self.place(p), self.rvalue(r));
            st.push(json!(["a", p, r, l]));
          }
          StatementKind::SetDiscriminant { place, variant_index } => {
            let p = self.place(place);
            st.push(json!(["sd", p, variant_index.to_index(), l]));
          }
          StatementKind::Intrinsic(i) => match i {
            NonDivergingIntrinsic::Assume(_) => {}
            NonDivergingIntrinsic::CopyNonOverlapping(_) => st.push(json!(["cno", l])),
          },
          StatementKind::StorageDead(x) => st.push(json!(["dead", x])),
          StatementKind::StorageLive(x) => st.push(json!(["live", x])),
          _ => {}
        }
      }
      let l = self.line(&bb.terminator.source_info.span);
      let t = match &bb.terminator.kind {
        TerminatorKind::Goto { target } => json!(["goto", target]),
        TerminatorKind::SwitchInt { discr, targets } => {
          let br: Vec<Value> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
          json!(["switch", self.operand(discr), br, targets.otherwise()])
        }
        TerminatorKind::Resume => json!(["resume"]),
        TerminatorKind::Abort => json!(["abort"]),
        TerminatorKind::Return => json!(["ret"]),
        TerminatorKind::Unreachable => json!(["unreachable"]),
        TerminatorKind::Drop { place, target, unwind } => {
          let ty = place.ty(b.locals()).ok().map(|t| self.ty(t));
          json!(["drop", self.place(place), target, ty, self.unwind(unwind)])
        }
        TerminatorKind::Call { func, args, destination, target, unwind } => {
          let fty = func.ty(b.locals()).ok();
          let f = self.operand(func);
          let fty = fty.map(|t| self.ty(t));
          let a: Vec<Value> = args.iter().map(|x| self.operand(x)).collect();
          let atys: Vec<Value> =
            args.iter().map(|x| x.ty(b.locals()).ok().map(|t| self.ty(t)).unwrap_or(Value::Null)).collect();
          json!(["call", f, fty, a, self.place(destination), target, atys, self.unwind(unwind)])
        }
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let m = match msg {
            AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
            AssertMessage::Overflow(op, ..) => format!("overflow:{:?}", op),
            AssertMessage::OverflowNeg(_) => "overflow:Neg".to_string(),
            AssertMessage::DivisionByZero(_) => "div0".to_string(),
            AssertMessage::RemainderByZero(_) => "rem0".to_string(),
            AssertMessage::MisalignedPointerDereference { .. } => "misaligned".to_string(),
            AssertMessage::NullPointerDereference => "nullptr".to_string(),
            AssertMessage::NullReferenceConstructed => "nullref".to_string(),
            AssertMessage::InvalidEnumConstruction(_) => "badenum".to_string(),
            _ => "other".to_string(),
          };
          json!(["assert", self.operand(cond), expected, m, target])
        }
        TerminatorKind::InlineAsm { .. } => json!(["asm"]),
      };
      blocks.push(json!([st, t, l]));
    }
    json!({"argc": b.arg_locals().len(), "spread": b.spread_arg(), "locals": locals, "names": names, "blocks": blocks})
  }

  fn want_body(&self, krate: &str, path: &str, workspace: bool) -> bool {
    if workspace {
      return true;
    }
    if krate == "serde_json" || krate == "serde" || krate == "serde_core" {
      return true;
    }
    STD_BODIES.iter().any(|p| path.starts_with(p))
  }

  fn emit_fn(&mut self, i: Instance) {
    let id = self.fn_ids[&i].clone();
    let def_id = i.def.def_id();
    let krate = self.krate(def_id);
    let ws = WORKSPACE.contains(&krate.as_str());
    let path = self.def_path(def_id);
    let kind = match i.kind {
      InstanceKind::Item => "item".to_string(),
      InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic".to_string(),
      InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
      InstanceKind::Shim => "shim".to_string(),
    };
    let args = self.args(&i.args());
    let mut o = json!({"name": i.name(), "def": def_id.name(), "path": path, "krate": krate, "ws": ws,
                       "kind": kind, "args": args});
    let m = o.as_object_mut().unwrap();
    let idid = internal(self.tcx, def_id);
    if ws && kind == "item" {
      let sp = def_id.span();
      m.insert("file".into(), json!(sp.get_filename()));
      m.insert("line".into(), json!(sp.get_lines().start_line));
      m.insert("vis".into(), json!(
        if matches!(self.tcx.def_kind(idid), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
          self.tcx.visibility(idid).is_public()
        } else { false }));
    }
    if let Some(p) = self.tcx.opt_associated_item(idid) {
      m.insert("assoc".into(), json!(format!("{:?}", p.container)));
      if let Some(t) = p.trait_item_def_id() {
        m.insert("tm".into(), json!(self.tcx.def_path_str(t)));
      }
    }
    let fk = i.ty().kind();
    if let Some(sig) = fk.fn_sig() {
      let isig = internal(self.tcx, sig);
      let isig = self.tcx.instantiate_bound_regions_with_erased(isig);
      let st: Vec<Ty> = isig.inputs().iter().map(|t| rustc_public::rustc_internal::stable(*t)).collect();
      let so: Ty = rustc_public::rustc_internal::stable(isig.output());
      let ins: Vec<Value> = st.iter().map(|t| self.ty(*t)).collect();
      let out = self.ty(so);
      m.insert("sig".into(), json!([ins, out]));
    }
    let body_ok = match i.kind {
      InstanceKind::Item => self.want_body(&krate, &path, ws),
      InstanceKind::Shim => true,
      InstanceKind::Intrinsic => false,
      _ => false,
    };
    if body_ok {
      if let Some(b) = i.body() {
        let bv = self.body(&b);
        m.insert("body".into(), bv);
        if !m.contains_key("sig") {
          let ins: Vec<Value> = b.arg_locals().iter().map(|l| self.ty(l.ty)).collect();
          let out = self.ty(b.ret_local().ty);
          m.insert("sig".into(), json!([ins, out]));
        }
      }
    }
    self.fns.insert(id, o);
  }
}

fn stable_args<'tcx>(
  tcx: rustc_middle::ty::TyCtxt<'tcx>, id: rustc_span::def_id::DefId, args: rustc_middle::ty::GenericArgsRef<'tcx>,
) -> GenericArgs {
  let t = rustc_middle::ty::Ty::new_fn_def(tcx, id, rustc_middle::ty::Binder::dummy(args));
  let st: Ty = rustc_public::rustc_internal::stable(t);
  match st.kind() {
    TyKind::RigidTy(RigidTy::FnDef(_, a)) => a,
    _ => GenericArgs(vec![]),
  }
}

fn rustc_middle_variant(i: usize) -> rustc_abi::VariantIdx {
  rustc_abi::VariantIdx::from_usize(i)
}
extern crate rustc_abi;

trait TyIdx {
  fn to_index_string(&self) -> String;
}
impl TyIdx for Ty {
  fn to_index_string(&self) -> String {
    self.to_index().to_string()
  }
}
use rustc_public_bridge::IndexedVal;

/// What a program outside the workspace can name: the public items of the library crates, reached from their roots
/// through public modules and re-exports, the public inherent functions and fields of the types among them, and the
/// functions of trait implementations whose trait is nameable.
fn reachable(
  tcx: rustc_middle::ty::TyCtxt<'_>, crates: &[rustc_public::Crate],
) -> (HashSet<rustc_span::def_id::DefId>, Vec<Value>) {
  use rustc_hir::def::{DefKind, Res};
  let mut seen = HashSet::new();
  let mut surface = vec![];
  let ws = |id: rustc_span::def_id::DefId| WORKSPACE.contains(&tcx.crate_name(id.krate).as_str());
  let mut q: VecDeque<rustc_span::def_id::DefId> = VecDeque::new();
  for c in crates {
    let cn = rustc_public::rustc_internal::crate_num(c);
    if cn != rustc_span::def_id::LOCAL_CRATE {
      q.push_back(rustc_span::def_id::DefId { krate: cn, index: rustc_span::def_id::CRATE_DEF_INDEX });
    }
  }
  while let Some(m) = q.pop_front() {
    for c in tcx.module_children(m) {
      if !c.vis.is_public() {
        continue;
      }
      let Res::Def(kind, id) = c.res else { continue };
      if !ws(id) || id.is_local() || !seen.insert(id) {
        continue;
      }
      let as_name = format!("{}::{}", tcx.def_path_str(m), c.ident);
      match kind {
        DefKind::Mod | DefKind::Enum | DefKind::Trait => q.push_back(id),
        _ => {}
      }
      let mut fields = vec![];
      if matches!(kind, DefKind::Struct | DefKind::Enum | DefKind::Union) {
        for (vi, v) in tcx.adt_def(id).variants().iter_enumerated() {
          for f in v.fields.iter() {
            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            fields.push(json!({"variant": vi.as_usize(), "name": f.name.to_string(), "pub": f.vis.is_public(),
              "ty": t.to_string()}));
          }
        }
        for im in tcx.inherent_impls(id) {
          for a in tcx.associated_item_def_ids(*im) {
            if tcx.visibility(*a).is_public() && seen.insert(*a) {
              surface.push(json!({"name": tcx.def_path_str(*a), "kind": format!("{:?}", tcx.def_kind(*a)),
                "as": tcx.def_path_str(*a), "of": tcx.def_path_str(id)}));
            }
          }
        }
      }
      surface.push(json!({"name": tcx.def_path_str(id), "kind": format!("{:?}", kind), "as": as_name,
        "fields": fields}));
    }
  }
  for c in crates {
    for im in c.trait_impls() {
      let iid = internal(tcx, im.def_id());
      let tr = tcx.impl_trait_ref(iid).instantiate_identity().skip_norm_wip();
      if !ws(tr.def_id) || seen.contains(&tr.def_id) {
        for a in tcx.associated_item_def_ids(iid) {
          seen.insert(*a);
        }
      }
    }
  }
  (seen, surface)
}

fn analyse(tcx: rustc_middle::ty::TyCtxt<'_>, out: String) -> ControlFlow<(), ()> {
  let mut d = Dump {
    tcx,
    types: Map::new(),
    ty_seen: HashSet::new(),
    fns: Map::new(),
    fn_ids: HashMap::new(),
    queue: VecDeque::new(),
    allocs: Map::new(),
    alloc_ids: HashMap::new(),
    vtables: Map::new(),
    files: HashMap::new(),
  };
  let _ = &d.files;
  let mut crates = vec![rustc_public::local_crate()];
  for c in rustc_public::external_crates() {
    if WORKSPACE.contains(&c.name.as_str()) {
      crates.push(c);
    }
  }
  let mut generic = vec![];
  let mut roots = vec![];
  let mut adts = vec![];
  let mut dict_ty: Option<Ty> = None;
  for c in &crates {
    for a in c.adts() {
      let id = internal(tcx, a.def_id());
      let g = tcx.generics_of(id);
      let t = if g.own_requires_monomorphization() || g.parent.is_some() { None } else { Some(a.ty()) };
      if a.name().to_string().ends_with("::DefaultDictionary") {
        dict_ty = t;
      }
      let tv = t.map(|t| d.ty(t));
      adts.push(json!({"krate": c.name, "name": a.name(), "ty": tv, "pub": tcx.visibility(id).is_public()}));
    }
  }
  for c in &crates {
    for f in c.fn_defs() {
      let id = internal(tcx, f.def_id());
      let g = tcx.generics_of(id);
      if !g.requires_monomorphization(tcx) {
        // lifetimes only: resolve with erased regions
        let args = rustc_middle::ty::GenericArgs::for_item(tcx, id, |_, _| tcx.lifetimes.re_erased.into());
        let sargs = stable_args(tcx, id, args);
        match Instance::resolve(f, &sargs) {
          Ok(i) => {
            let s = d.inst(i);
            roots.push(s);
          }
          Err(_) => generic.push(json!({"krate": c.name, "name": f.name(), "unresolved": true})),
        }
      } else {
        // generic over a single dictionary type: instantiate it with the shipped dictionary type
        let mut done = false;
        if c.name == "bip39" {
          if let Some(dt) = dict_ty {
            let idt = internal(tcx, dt);
            let ntypes = (0..g.count()).filter(|_| true).count();
            if ntypes == 1 && g.parent_count == 0 {
              let args = rustc_middle::ty::GenericArgs::for_item(tcx, id, |p, _| match p.kind {
                rustc_middle::ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => idt.into(),
              });
              if !tcx.instantiate_and_check_impossible_clauses((id, args)) {
                let sargs = stable_args(tcx, id, args);
                if let Ok(i) = Instance::resolve(f, &sargs) {
                  let s = d.inst(i);
                  roots.push(s);
                  done = true;
                }
              }
            }
          }
        }
        if !done {
          generic.push(json!({"krate": c.name, "name": f.name()}));
        }
      }
    }
  }
  while let Some(i) = d.queue.pop_front() {
    d.emit_fn(i);
  }
  // trait impls of the workspace
  let mut impls = vec![];
  for c in &crates {
    for im in c.trait_impls() {
      let iid = internal(tcx, im.def_id());
      let tr = tcx.impl_trait_ref(iid).instantiate_identity().skip_norm_wip();
      let pol = format!("{:?}", tcx.impl_polarity(iid));
      impls.push(json!({"krate": c.name, "trait": tcx.def_path_str(tr.def_id), "self": tr.self_ty().to_string(),
        "ref": tr.to_string(), "pol": pol, "derived": tcx.is_automatically_derived(iid)}));
    }
  }
  // exported C functions, and the items other crates can name
  let mut exports = vec![];
  let mut consts = vec![];
  for c in &crates {
    let cn = rustc_public::rustc_internal::crate_num(c);
    for idx in 0..if cn == rustc_span::def_id::LOCAL_CRATE { 0 } else { tcx.num_extern_def_ids(cn) } {
      let id = rustc_span::def_id::DefId { krate: cn, index: rustc_span::def_id::DefIndex::from_usize(idx) };
      kconst(tcx, id, &mut d, &mut consts, &c.name);
    }
    if cn == rustc_span::def_id::LOCAL_CRATE {
      for id in tcx.iter_local_def_id() {
        kconst(tcx, id.to_def_id(), &mut d, &mut consts, &c.name);
      }
    }
    for f in c.fn_defs() {
      let id = internal(tcx, f.def_id());
      let a = tcx.codegen_fn_attrs(id);
      let nm = a.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE)
        || a.symbol_name.is_some();
      let abi = tcx.fn_sig(id).skip_binder().abi();
      if nm || !abi.is_rustic_abi() {
        {
          let args = rustc_middle::ty::GenericArgs::for_item(tcx, id, |_, _| tcx.lifetimes.re_erased.into());
          let sargs = stable_args(tcx, id, args);
          let i = Instance::resolve(f, &sargs).ok().map(|i| d.inst(i));
          exports.push(json!({"f": i, "name": f.name(), "abi": format!("{:?}", abi), "no_mangle": nm}));
        }
      }
    }
  }
  while let Some(i) = d.queue.pop_front() {
    d.emit_fn(i);
  }
  let (reach, surface) = reachable(tcx, &crates);
  for (i, s) in d.fn_ids.iter() {
    let id = internal(tcx, i.def.def_id());
    if reach.contains(&id) {
      if let Some(m) = d.fns.get_mut(s).and_then(|f| f.as_object_mut()) {
        m.insert("reach".into(), json!(true));
      }
    }
  }
  let v = json!({"surface": surface, "types": d.types, "fns": d.fns, "allocs": d.allocs, "vtables": d.vtables, "roots": roots,
                 "generic": generic, "adts": adts, "impls": impls, "exports": exports, "consts": consts,
                 "panic": format!("{:?}", tcx.sess.panic_strategy()),
                 "crates": crates.iter().map(|c| c.name.clone()).collect::<Vec<_>>()});
  std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
  ControlFlow::Continue(())
}

fn kconst(
  tcx: rustc_middle::ty::TyCtxt<'_>, id: rustc_span::def_id::DefId, d: &mut Dump<'_>, consts: &mut Vec<Value>, c: &str,
) {
  use rustc_hir::def::DefKind;
  let k = tcx.def_kind(id);
  if !matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
    return;
  }
  if tcx.generics_of(id).requires_monomorphization(tcx) {
    return;
  }
  if let Some(p) = tcx.opt_associated_item(id) {
    if matches!(p.container, rustc_middle::ty::AssocContainer::Trait) {
      return;
    }
  }
  if let Ok(v) = tcx.const_eval_poly(id) {
    let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
    let st: MirConst = rustc_public::rustc_internal::stable(rustc_middle::mir::Const::Val(v, t));
    let kv = d.konst(&st);
    consts.push(json!({"krate": c, "name": tcx.def_path_str(id), "v": kv, "pub": tcx.visibility(id).is_public()}));
  }
}

fn main() {
  let mut args: Vec<String> = std::env::args().collect();
  // invoked as: kcdriver /path/to/rustc <args>
  if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
    args.remove(1);
  }
  let target = std::env::var("KCD_TARGET").unwrap_or_default();
  let out = std::env::var("KCD_OUT").unwrap_or_default();
  let mut name = String::new();
  for w in args.windows(2) {
    if w[0] == "--crate-name" {
      name = w[1].clone();
    }
  }
  if !target.is_empty() && name == target && !out.is_empty() {
    let r = rustc_public::run_with_tcx!(&args, |tcx| analyse(tcx, out));
    match r {
      Ok(_) => std::process::exit(0),
      Err(_) => std::process::exit(1),
    }
  } else {
    struct Nop;
    impl rustc_driver::Callbacks for Nop {}
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop));
    if code == std::process::ExitCode::SUCCESS {
      std::process::exit(0)
    } else {
      std::process::exit(1)
    }
  }
}
