//! Smaller plans. A candidate may be anything; whether it still fails is found out by running it.

use std::collections::BTreeMap;

use simcore::Rng;

use crate::doc::*;
use crate::faults::{self, Claim, DocPlan, FieldFault, Medium};
use crate::plan::*;

fn walk_nodes(n: &mut Node, f: &mut dyn FnMut(&mut Node)) {
  f(n);
  match n {
    Node::Obj(o) => o.members.iter_mut().for_each(|m| walk_nodes(&mut m.node, f)),
    Node::Arr(a) => match &mut a.body {
      ArrBody::Obj(e) | ArrBody::Str(e) => e.iter_mut().for_each(|n| walk_nodes(n, f)),
      ArrBody::Bin { elems, .. } => elems.iter_mut().for_each(|n| walk_nodes(n, f)),
      _ => (),
    },
    _ => (),
  }
}

pub fn each_node(d: &mut Doc, f: &mut dyn FnMut(&mut Node)) {
  d.pre.iter_mut().for_each(|n| walk_nodes(n, f));
  match &mut d.body {
    Body::Root(n) => walk_nodes(n, f),
    Body::Call { args, more, .. } | Body::Return { args, more, .. } => {
      if let Args::IsArray(ns) | Args::InArray(ns) = args {
        ns.iter_mut().for_each(|n| walk_nodes(n, f));
      }
      more.items.iter_mut().for_each(|(_, n)| walk_nodes(n, f));
    },
    Body::Empty => (),
  }
  if let Body::Return { value: Ret::InArray(n), .. } = &mut d.body {
    walk_nodes(n, f);
  }
  d.post.iter_mut().for_each(|n| walk_nodes(n, f));
}

/// Every text except those with a meaning of their own.
pub fn each_text(d: &mut Doc, f: &mut dyn FnMut(&mut String)) {
  let mut g = |s: &mut String| {
    if !(s.starts_with("System.") || s.starts_with('_') || s == "m_value") {
      f(s)
    }
  };
  let slot = |s: &mut Slot, g: &mut dyn FnMut(&mut String)| {
    if let Slot::Sys(n) | Slot::Cls(n, _) = s {
      g(n)
    }
  };
  d.libs.iter_mut().for_each(&mut g);
  each_node(d, &mut |n| match n {
    Node::Str { s, .. } => g(s),
    Node::Obj(o) => {
      g(&mut o.class);
      for m in &mut o.members {
        g(&mut m.name);
        slot(&mut m.slot, &mut g);
      }
    },
    Node::Arr(a) => {
      if let ArrBody::Bin { slot: s, .. } = &mut a.body {
        slot(s, &mut g);
      }
    },
    _ => (),
  });
  let args = |a: &mut Args, g: &mut dyn FnMut(&mut String)| {
    if let Args::Inline(ps) = a {
      for p in ps {
        if let P::Str(s) = p {
          g(s)
        }
      }
    }
  };
  match &mut d.body {
    Body::Call { method, typ, ctx, args: a, .. } => {
      g(method);
      g(typ);
      ctx.iter_mut().for_each(&mut g);
      args(a, &mut g);
    },
    Body::Return { ctx, args: a, .. } => {
      ctx.iter_mut().for_each(&mut g);
      args(a, &mut g);
    },
    _ => (),
  }
}

/// How many elements the copies of one list or document may hold together.
const COPIES: usize = 2_000_000;

fn shrink_vec<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
  let n = v.len();
  let mut out = vec![];
  let mut size = n;
  while size > 0 {
    let mut i = 0;
    while i < n && out.len() < COPIES / n {
      let mut c = v[..i].to_vec();
      c.extend_from_slice(&v[(i + size).min(n)..]);
      out.push(c);
      i += size;
    }
    size /= 2;
  }
  out
}

/// Smaller forms of one node.
fn smaller(n: &Node) -> Vec<Node> {
  let mut out = vec![];
  match n {
    Node::Null => (),
    Node::P(p) => {
      let z = zero(p.code());
      if z != *p {
        out.push(Node::P(z));
      }
      out.push(Node::Null);
    },
    Node::Str { s, place, share } => {
      out.push(Node::Null);
      if !s.is_empty() {
        out.push(Node::Str { s: String::new(), place: *place, share: *share });
        let half: String = s.chars().take(s.chars().count() / 2).collect();
        out.push(Node::Str { s: half, place: *place, share: *share });
        if s != "s" {
          out.push(Node::Str { s: "s".into(), place: *place, share: *share });
        }
      }
      if *place != Place::Inline {
        out.push(Node::Str { s: s.clone(), place: Place::Inline, share: *share });
      }
    },
    Node::Obj(o) => {
      out.push(Node::Null);
      for m in shrink_vec(&o.members) {
        out.push(Node::Obj(Box::new(Obj { members: m, ..(**o).clone() })));
      }
      for m in &o.members {
        if matches!(m.node, Node::Obj(_) | Node::Arr(_) | Node::Str { .. }) {
          out.push(m.node.clone());
        }
      }
      if o.place != Place::Inline {
        out.push(Node::Obj(Box::new(Obj { place: Place::Inline, ..(**o).clone() })));
      }
      if o.with_id {
        out.push(Node::Obj(Box::new(Obj { with_id: false, ..(**o).clone() })));
      }
      if o.lib != 0 {
        out.push(Node::Obj(Box::new(Obj { lib: 0, ..(**o).clone() })));
      }
      if o.typed {
        out.push(Node::Obj(Box::new(Obj { typed: false, ..(**o).clone() })));
      }
    },
    Node::Arr(a) => {
      out.push(Node::Null);
      let with = |body: ArrBody| Node::Arr(Box::new(Arr { place: a.place, body }));
      match &a.body {
        ArrBody::Prim(c, v) => shrink_vec(v).into_iter().for_each(|v| out.push(with(ArrBody::Prim(*c, v)))),
        ArrBody::Obj(v) => {
          shrink_vec(v).into_iter().for_each(|v| out.push(with(ArrBody::Obj(v))));
          out.extend(v.iter().filter(|n| matches!(n, Node::Obj(_) | Node::Arr(_))).cloned());
        },
        ArrBody::Str(v) => shrink_vec(v).into_iter().for_each(|v| out.push(with(ArrBody::Str(v)))),
        ArrBody::Bin { kind, dims, slot, elems, .. } => {
          if dims.len() == 1 && dims[0] as usize == elems.len() {
            for v in shrink_vec(elems) {
              out.push(with(ArrBody::Bin {
                kind: *kind,
                dims: vec![v.len() as u32],
                bounds: vec![0],
                slot: slot.clone(),
                elems: v,
              }));
            }
          } else {
            out.push(with(ArrBody::Bin {
              kind: 0,
              dims: vec![elems.len() as u32],
              bounds: vec![],
              slot: slot.clone(),
              elems: elems.clone(),
            }));
          }
        },
      }
      if a.place != Place::After {
        out.push(Node::Arr(Box::new(Arr { place: Place::After, body: a.body.clone() })));
      }
    },
  }
  out
}

/// Smaller documents, roughly in order of promise.
pub fn docs(d: &Doc) -> Vec<Doc> {
  let mut out = vec![];
  if d.body != Body::Empty || !d.pre.is_empty() || !d.post.is_empty() {
    out.push(Doc { pre: vec![], post: vec![], spare_libs: vec![], body: Body::Empty, ..d.clone() });
  }
  for v in shrink_vec(&d.pre) {
    out.push(Doc { pre: v, ..d.clone() });
  }
  for v in shrink_vec(&d.post) {
    out.push(Doc { post: v, ..d.clone() });
  }
  if !d.spare_libs.is_empty() {
    out.push(Doc { spare_libs: vec![], ..d.clone() });
  }
  if d.id_base != 1 || d.id_step != 1 || d.header_id != -1 {
    out.push(Doc { id_base: 1, id_step: 1, header_id: -1, ..d.clone() });
  }
  if d.near_libs {
    out.push(Doc { near_libs: false, ..d.clone() });
  }
  if !d.early_libs.is_empty() {
    out.push(Doc { early_libs: BTreeMap::new(), ..d.clone() });
    for k in d.early_libs.keys() {
      let mut e = d.early_libs.clone();
      e.remove(k);
      out.push(Doc { early_libs: e, ..d.clone() });
    }
  }
  if d.null_mode != 0 {
    out.push(Doc { null_mode: 0, ..d.clone() });
  }
  let mut body = |b: Body| out.push(Doc { body: b, ..d.clone() });
  let args_of = |a: &Args| -> Vec<Args> {
    match a {
      Args::Inline(v) => shrink_vec(v).into_iter().map(Args::Inline).collect(),
      Args::IsArray(v) => shrink_vec(v).into_iter().map(Args::IsArray).collect(),
      Args::InArray(v) => shrink_vec(v).into_iter().map(Args::InArray).collect(),
      _ => vec![],
    }
  };
  match &d.body {
    Body::Call { method, typ, ctx, no_ctx_flag, args, extra, root, more } => {
      let with = |more: More| {
        let mut b = d.body.clone();
        if let Body::Call { more: m, .. } = &mut b {
          *m = more;
        }
        b
      };
      for items in shrink_vec(&more.items) {
        body(with(More { items, ..more.clone() }));
      }
      if more.args_before {
        body(with(More { args_before: false, ..more.clone() }));
      }
      let mk = |method: &String, typ: &String, ctx: Option<String>, args: Args| Body::Call {
        more: more.clone(),
        method: method.clone(),
        typ: typ.clone(),
        ctx,
        no_ctx_flag: *no_ctx_flag,
        args,
        extra: *extra,
        root: *root,
      };
      for a in args_of(args) {
        body(mk(method, typ, ctx.clone(), a));
      }
      if ctx.is_some() {
        body(mk(method, typ, None, args.clone()));
      }
      if method != "m" || typ != "t" {
        body(mk(&"m".into(), &"t".into(), ctx.clone(), args.clone()));
      }
    },
    Body::Return { value, ctx, no_ctx_flag, args, extra, root, more } => {
      let with = |more: More| {
        let mut b = d.body.clone();
        if let Body::Return { more: m, .. } = &mut b {
          *m = more;
        }
        b
      };
      for items in shrink_vec(&more.items) {
        body(with(More { items, ..more.clone() }));
      }
      if more.args_before {
        body(with(More { args_before: false, ..more.clone() }));
      }
      let mk = |value: Ret, ctx: Option<String>, args: Args| Body::Return {
        more: more.clone(),
        value,
        ctx,
        no_ctx_flag: *no_ctx_flag,
        args,
        extra: *extra,
        root: *root,
      };
      for a in args_of(args) {
        body(mk(value.clone(), ctx.clone(), a));
      }
      if ctx.is_some() {
        body(mk(value.clone(), None, args.clone()));
      }
      if *value != Ret::Void {
        body(mk(Ret::Void, ctx.clone(), args.clone()));
      }
    },
    _ => (),
  }
  // Nodes, outermost first.
  let (mut count, mut room) = (0, COPIES);
  let mut small = vec![];
  each_node(&mut d.clone(), &mut |n| {
    count += 1;
    if room > 0 {
      for s in smaller(n) {
        room = room.saturating_sub(1 + node_count(&s));
        small.push((count - 1, s));
      }
    }
  });
  for (k, s) in small.into_iter().take(1 + COPIES / (count + 1)) {
    let mut c = d.clone();
    let mut i = 0;
    let mut put = Some(s);
    each_node(&mut c, &mut |n| {
      if i == k {
        if let Some(s) = put.take() {
          *n = s;
        }
      }
      i += 1;
    });
    out.push(c);
  }
  out
}

fn node_count(n: &Node) -> usize {
  1 + match n {
    Node::Obj(o) => o.members.iter().map(|m| node_count(&m.node)).sum(),
    Node::Arr(a) => match &a.body {
      ArrBody::Obj(e) | ArrBody::Str(e) => e.iter().map(node_count).sum(),
      ArrBody::Bin { elems, .. } => elems.iter().map(node_count).sum(),
      ArrBody::Prim(_, v) => v.len(),
    },
    _ => 0usize,
  }
}

/// Puts the faults of `old` onto another document: the same kind of damage to a field of the same kind.
fn transplant(old: &DocPlan, doc: Doc) -> Option<DocPlan> {
  let none = BTreeMap::new();
  let a = encode(&old.doc, &none);
  let b = encode(&doc, &none);
  let mut fields: Vec<FieldFault> = vec![];
  for f in &old.fields {
    let kind = &a.fields.get(f.ord as usize)?.kind;
    let same = |k: &Kind| std::mem::discriminant(k) == std::mem::discriminant(kind);
    let nth = a.fields[..f.ord as usize].iter().filter(|x| same(&x.kind)).count();
    let places: Vec<usize> = (0..b.fields.len()).filter(|i| same(&b.fields[*i].kind)).collect();
    let mut found = None;
    let mut order: Vec<usize> = places.clone();
    order.sort_by_key(|p| places.iter().position(|x| x == p).unwrap().abs_diff(nth));
    'places: for p in order.into_iter().take(6) {
      for seed in 0..24 {
        let mut r = Rng::new(seed);
        let g = match f.claim {
          Claim::Reject => faults::break_rule(&mut r, &b, p),
          Claim::Content => faults::harmless(&mut r, &b, p),
          Claim::Unknown => Some(FieldFault { ord: p as u32, ..f.clone() }),
        };
        if let Some(g) = g {
          if g.what == f.what && !fields.iter().any(|x| x.ord == g.ord) {
            found = Some(g);
            break 'places;
          }
        }
      }
    }
    fields.push(found?);
  }
  let mut medium = vec![];
  for m in &old.medium {
    medium.push(match m {
      Medium::LoseRecord { index, claim: Claim::Reject } => {
        let what = a.spans[*index as usize % a.spans.len()].what;
        let i = b.spans.iter().position(|s| s.what == what && s.needed)?;
        Medium::LoseRecord { index: i as u32, claim: Claim::Reject }
      },
      Medium::TwiceRecord { index, claim: Claim::Reject } => {
        let what = a.spans[*index as usize % a.spans.len()].what;
        let i = b.spans.iter().position(|s| s.what == what && s.twice_bad)?;
        Medium::TwiceRecord { index: i as u32, claim: Claim::Reject }
      },
      // Forbidden only next to a method record.
      Medium::StrayRecord { bytes, .. } if bytes[0] == 22 && !b.spans.iter().any(|s| s.what == "method") => return None,
      m => m.clone(),
    });
  }
  Some(DocPlan { doc, shape: old.shape.clone(), fields, medium })
}

fn ops(op: &Op) -> Vec<Op> {
  match op {
    Op::Repeat { times, op } => {
      let mut v = vec![(**op).clone()];
      if *times > 1 {
        v.push(Op::Repeat { times: times / 2, op: op.clone() });
        v.push(Op::Repeat { times: times - 1, op: op.clone() });
      }
      v
    },
    Op::Cuts { doc, from, to } if *to != u32::MAX && to - from > 1 => {
      let mid = from + (to - from) / 2;
      vec![Op::Cuts { doc: *doc, from: *from, to: mid }, Op::Cuts { doc: *doc, from: mid, to: *to }]
    },
    Op::Cuts { doc, .. } => (0..10).map(|k| Op::Cuts { doc: *doc, from: k * 40, to: k * 40 + 40 }).collect(),
    Op::Abuse { doc, targets } => {
      shrink_vec(targets).into_iter().map(|t| Op::Abuse { doc: *doc, targets: t }).collect()
    },
    Op::Ways { doc, targets, swap } => {
      shrink_vec(targets).into_iter().filter(|t| !t.is_empty()).map(|t| Op::Ways { doc: *doc, targets: t, swap: *swap }).collect()
    },
    Op::Weigh { doc, targets } => {
      shrink_vec(targets).into_iter().map(|t| Op::Weigh { doc: *doc, targets: t }).collect()
    },
    Op::Interrupt { doc, hint, act, at, span, msg } if *span > 1 => vec![
      Op::Interrupt { doc: *doc, hint: *hint, act: *act, at: *at, span: span / 2, msg: *msg },
      Op::Interrupt { doc: *doc, hint: *hint, act: *act, at: at + span / 2, span: span - span / 2, msg: *msg },
    ],
    Op::Tail { doc, tail } => match tail {
      Tail::Bytes(b) => shrink_vec(b)
        .into_iter()
        .filter(|b| !b.is_empty())
        .map(|b| Op::Tail { doc: *doc, tail: Tail::Bytes(b) })
        .collect(),
      Tail::EveryByte => (0..23).map(|b| Op::Tail { doc: *doc, tail: Tail::Bytes(vec![b]) }).collect(),
      Tail::Zeros(n) if *n > 1 => vec![Op::Tail { doc: *doc, tail: Tail::Zeros(n / 2) }],
      Tail::Seal(_) | Tail::Frame(..) => {
        let mut v = vec![Tail::Bytes(vec![0]), Tail::Bytes(vec![1, 0, 0, 0])];
        match tail {
          Tail::Frame(k, style, n) if *n > 0 => v.push(Tail::Frame(*k, *style, n / 2)),
          Tail::Frame(k, ..) if k != doc => v.push(Tail::Seal(7)),
          _ => (),
        }
        v.into_iter().map(|tail| Op::Tail { doc: *doc, tail }).collect()
      },
      _ => vec![Op::Tail { doc: *doc, tail: Tail::Bytes(vec![0]) }],
    },
    Op::Nest { inner, .. } => vec![(**inner).clone()],
    Op::Held { docs } => shrink_vec(docs).into_iter().filter(|d| !d.is_empty()).map(|docs| Op::Held { docs }).collect(),
    _ => vec![],
  }
}

/// Drops documents nothing uses and renumbers the rest.
pub fn compact(p: &Plan) -> Plan {
  let mut used = vec![];
  p.tasks.iter().flatten().for_each(|o| o.docs(&mut used));
  used.sort();
  used.dedup();
  let new = |d: &mut usize| *d = used.iter().position(|x| x == d).unwrap();
  fn fix(o: &mut Op, new: &dyn Fn(&mut usize)) {
    match o {
      Op::Take { doc, .. }
      | Op::Cuts { doc, .. }
      | Op::Abuse { doc, .. }
      | Op::Weigh { doc, .. }
      | Op::Builds { doc, .. }
      | Op::Ways { doc, .. }
      | Op::Borrow { doc }
      | Op::Interrupt { doc, .. }
      | Op::Shared { doc, .. } => new(doc),
      Op::Tail { doc, tail } => {
        new(doc);
        if let Tail::Next(d) | Tail::Part(d, _) | Tail::Frame(d, ..) = tail {
          new(d);
        }
      },
      Op::Equal { a, b } => {
        new(a);
        new(b);
      },
      Op::Held { docs } => docs.iter_mut().for_each(new),
      Op::Nest { doc, inner, .. } => {
        new(doc);
        fix(inner, new);
      },
      Op::Repeat { op, .. } => fix(op, new),
    }
  }
  let mut q = p.clone();
  q.docs = used.iter().map(|d| p.docs[*d].clone()).collect();
  q.tasks.iter_mut().flatten().for_each(|o| fix(o, &new));
  q
}

/// The candidates of one pass.
pub fn candidates(p: &Plan) -> Vec<Plan> {
  let mut out = vec![];
  let c = compact(p);
  if c.docs.len() < p.docs.len() {
    out.push(c);
  }
  if p.rx {
    out.push(Plan { rx: false, ..p.clone() });
  }
  if p.tasks.len() > 1 {
    for t in 0..p.tasks.len() {
      let mut q = p.clone();
      q.tasks.remove(t);
      if let SchedPlan::Explicit(_) = q.sched {
        q.sched = SchedPlan::Explicit(vec![]);
      }
      out.push(q);
    }
  }
  for t in 0..p.tasks.len() {
    for v in shrink_vec(&p.tasks[t]) {
      if p.tasks.len() == 1 && v.is_empty() {
        continue;
      }
      let mut q = p.clone();
      q.tasks[t] = v;
      out.push(q);
    }
    for i in 0..p.tasks[t].len() {
      for o in ops(&p.tasks[t][i]) {
        let mut q = p.clone();
        q.tasks[t][i] = o;
        out.push(q);
      }
    }
  }
  let mut used = vec![];
  p.tasks.iter().flatten().for_each(|o| o.docs(&mut used));
  for d in 0..p.docs.len() {
    if !used.contains(&d) {
      continue;
    }
    let dp = &p.docs[d];
    for v in shrink_vec(&dp.medium) {
      let mut q = p.clone();
      q.docs[d].medium = v;
      out.push(q);
    }
    for v in shrink_vec(&dp.fields) {
      let mut q = p.clone();
      q.docs[d].fields = v;
      out.push(q);
    }
    if let Some(faults::Shape::Soup(seed, n)) = dp.shape {
      for k in [n / 2, n.saturating_sub(1)] {
        if k < n {
          let mut q = p.clone();
          q.docs[d].shape = Some(faults::Shape::Soup(seed, k));
          out.push(q);
        }
      }
    }
    if dp.shape.is_none() {
      for c in docs(&dp.doc) {
        if let Some(dp) = transplant(dp, c) {
          let mut q = p.clone();
          q.docs[d] = dp;
          out.push(q);
        }
      }
    }
  }
  if let SchedPlan::Explicit(v) = &p.sched {
    for w in shrink_vec(v).into_iter().take(200) {
      let mut q = p.clone();
      q.sched = SchedPlan::Explicit(w);
      out.push(q);
    }
  }
  if p.clock != 0 {
    out.push(Plan { clock: 0, ..p.clone() });
  }
  if p.junk != 0 {
    out.push(Plan { junk: 0, ..p.clone() });
  }
  out
}
