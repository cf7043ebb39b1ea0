//! The plans of a property's campaign: plan number i of a seed is always the same.

use simcore::{Rng, rng::mix};

use crate::doc::{self, Doc};
use crate::exec::{NULLS_MAX, nulls_in};
use crate::faults::{self, DocPlan, FieldFault, Medium};
use crate::generate;
use crate::plan::*;

pub const PROPS: [&str; 15] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C17", "C18"];

fn a_doc(r: &mut Rng) -> Doc {
  match r.below(480) {
    0 => generate::wide_doc(r, 70_000),
    1 => generate::null_doc(r),
    2..=17 => generate::wide_doc(r, 1100),
    18..=179 => generate::doc(r),
    _ => generate::small_doc(r),
  }
}

/// Messages of one kind, so that they meet in the same code.
fn themed(r: &mut Rng, cfg: &Option<generate::Cfg>) -> Doc {
  match cfg {
    Some(c) => generate::Gen::new(r, c.clone()).doc(),
    None => lesser_doc(r),
  }
}

fn theme(r: &mut Rng) -> Option<generate::Cfg> {
  if r.one_in(2) {
    return None;
  }
  let mut c = generate::Cfg::swarm(r);
  c.max_depth = c.max_depth.min(3);
  c.max_elems = c.max_elems.min(4);
  c.extras = 0;
  Some(c)
}

/// Where the costs of a message grow with the square of its size.
fn lesser_doc(r: &mut Rng) -> Doc {
  match r.below(60) {
    0 => generate::wide_doc(r, 700),
    1..=20 => generate::doc(r),
    _ => generate::small_doc(r),
  }
}

fn encode(d: &Doc) -> doc::Encoded {
  doc::encode(d, &Default::default())
}

/// A field chosen so that every kind of field has the same chance, whatever their numbers.
fn field(r: &mut Rng, e: &doc::Encoded) -> usize {
  let mut kinds: Vec<std::mem::Discriminant<doc::Kind>> = vec![];
  for f in &e.fields {
    let k = std::mem::discriminant(&f.kind);
    if !kinds.contains(&k) {
      kinds.push(k);
    }
  }
  let k = *r.pick(&kinds);
  let of: Vec<usize> = (0..e.fields.len()).filter(|i| std::mem::discriminant(&e.fields[*i].kind) == k).collect();
  *r.pick(&of)
}

/// Harmless damage that shows in the decoded value, if possible.
fn with_other_content(r: &mut Rng, d: Doc) -> DocPlan {
  let was = encode(&d).msg;
  for _ in 0..6 {
    let p = with_harmless(r, d.clone(), 1);
    if p.deliver().msg != was {
      return p;
    }
  }
  with_harmless(r, d, 1)
}

/// The same content, written differently.
fn restyled(r: &mut Rng, d: &Doc) -> Doc {
  let mut d = d.clone();
  d.null_mode = r.below(4) as u8;
  d.header_id = *r.pick(&[-1, 0, 1, 7]);
  (d.id_base, d.id_step) = *r.pick(&[(1, 1), (1, 2), (1000, 1), (4, 256)]);
  d.near_libs = r.one_in(2);
  if r.one_in(2) {
    crate::reduce::each_node(&mut d, &mut |n| match n {
      doc::Node::Obj(o) => {
        for i in (1..o.members.len()).rev() {
          o.members.swap(i, r.below(i + 1));
        }
      },
      _ => (),
    });
  }
  d
}

fn with_break(r: &mut Rng, d: Doc) -> DocPlan {
  let e = encode(&d);
  let mut p = DocPlan::intact(d);
  if r.one_in(12) {
    if let Some(m) = faults::record_fault(r, &e) {
      p.medium.push(m);
      return p;
    }
  }
  for _ in 0..20 {
    let o = field(r, &e);
    if let Some(f) = faults::break_rule(r, &e, o) {
      p.fields.push(f);
      break;
    }
  }
  p
}

fn with_harmless(r: &mut Rng, d: Doc, most: usize) -> DocPlan {
  let e = encode(&d);
  let mut p = DocPlan::intact(d);
  for _ in 0..1 + r.below(most) {
    for _ in 0..20 {
      let o = field(r, &e);
      if p.fields.iter().any(|f| f.ord == o as u32) {
        continue;
      }
      if let Some(f) = faults::harmless(r, &e, o) {
        p.fields.push(f);
        break;
      }
    }
  }
  p
}

fn with_inflate(r: &mut Rng, d: Doc) -> DocPlan {
  let e = encode(&d);
  let mut p = DocPlan::intact(d);
  if r.one_in(4) {
    // A null run too long for its array, and nothing else.
    let runs: Vec<usize> =
      (0..e.fields.len()).filter(|i| matches!(e.fields[*i].kind, doc::Kind::NullRun { wide: true, .. })).collect();
    if !runs.is_empty() {
      let o = *r.pick(&runs);
      if let doc::Kind::NullRun { left, .. } = e.fields[o].kind {
        if let Some(f) = faults::inflate(r, &e, o, true) {
          let v = i32::from_le_bytes(f.bytes[..].try_into().unwrap());
          if v > left as i32 {
            p.fields.push(FieldFault { what: "wild null count".into(), ..f });
            return p;
          }
        }
      }
    }
  }
  for _ in 0..1 + r.below(2) {
    for _ in 0..40 {
      let o = field(r, &e);
      if let Some(f) = faults::inflate(r, &e, o, false) {
        if !p.fields.iter().any(|g| g.ord == f.ord) {
          p.fields.push(f);
          break;
        }
      }
    }
  }
  p
}

fn with_medium(r: &mut Rng, mut p: DocPlan, most: usize) -> DocPlan {
  let had = p.medium.clone();
  for _ in 0..20 {
    p.medium = had.clone();
    for _ in 0..1 + r.below(most) {
      p.medium.push(faults::medium(r));
    }
    if nulls_in(&p.deliver().bytes) <= NULLS_MAX {
      return p;
    }
  }
  p.medium = had;
  p
}

/// What a sender with a fault of its own might write: numbers spelled unusually or too precise to be held, names that
/// occur twice, empty names. No claim is made about such messages but what holds for any.
fn odd(r: &mut Rng, mut d: Doc) -> Doc {
  fn number(r: &mut Rng) -> String {
    let n = *r.pick(&[1, 5, 28, 29, 30, 35, 60, 200]);
    let mut s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    match r.below(8) {
      0 => s.insert(0, '0'),
      1 => s.insert(0, '+'),
      2 => s.insert(0, '-'),
      3 => s.insert_str(0, "-0."),
      4 => s = format!("{s}e{}", r.below(40) as i32 - 20),
      5 => s = s.replacen('1', "_", 1),
      6 => s = format!(".{s}"),
      _ => (),
    }
    if r.one_in(2) && !s.contains('.') {
      let at = 1 + r.below(s.len());
      s.insert(at, '.');
    }
    s
  }
  fn prim(r: &mut Rng, p: &mut doc::P) {
    if let doc::P::Dec(s) = p {
      if r.one_in(3) {
        *s = number(r);
      }
    }
  }
  crate::reduce::each_node(&mut d, &mut |n| match n {
    doc::Node::P(p) => prim(r, p),
    doc::Node::Arr(a) => {
      if let doc::ArrBody::Prim(_, ps) = &mut a.body {
        ps.iter_mut().for_each(|p| prim(r, p));
      }
    },
    doc::Node::Obj(o) => {
      if o.members.len() > 1 && r.one_in(4) {
        let (i, j) = (r.below(o.members.len()), r.below(o.members.len()));
        o.members[i].name = if r.one_in(5) { String::new() } else { o.members[j].name.clone() };
      }
    },
    _ => (),
  });
  if let doc::Body::Call { args: doc::Args::Inline(ps), .. } | doc::Body::Return { args: doc::Args::Inline(ps), .. } = &mut d.body {
    ps.iter_mut().for_each(|p| prim(r, p));
  }
  d
}

/// A message that no sender wrote.
fn soup(r: &mut Rng) -> DocPlan {
  let mut p = DocPlan::intact(Doc::default());
  p.shape = Some(faults::Shape::Soup(r.next(), *r.pick(&[3, 6, 12, 30])));
  p
}

/// Any kind of damage.
fn damaged(r: &mut Rng) -> DocPlan {
  if r.one_in(6) {
    let p = soup(r);
    return if r.one_in(4) { with_medium(r, p, 2) } else { p };
  }
  let mut d = lesser_doc(r);
  if r.one_in(6) {
    d = odd(r, d);
  }
  match r.below(8) {
    0 | 1 => with_break(r, d),
    2 => with_harmless(r, d, 3),
    3 => {
      let p = with_break(r, d);
      with_medium(r, p, 2)
    },
    4 => {
      let p = with_inflate(r, d);
      if nulls_in(&p.deliver().bytes) > NULLS_MAX { DocPlan::intact(p.doc) } else { p }
    },
    _ => with_medium(r, DocPlan::intact(d), 4),
  }
}

fn hint(r: &mut Rng) -> u8 {
  r.below(4) as u8
}

/// Deliveries of one message: intact, and damaged in ways that differ little from each other.
fn variants(r: &mut Rng, theme: &Option<generate::Cfg>, n: usize) -> Vec<DocPlan> {
  let d = themed(r, theme);
  let first = DocPlan::intact(d.clone());
  let e = first.deliver().enc;
  let off = if e.fields.is_empty() || r.one_in(3) { r.next() as u32 % e.bytes.len().max(1) as u32 } else { r.pick(&e.fields).off as u32 };
  let mut v = vec![first];
  while v.len() < n {
    let p = match r.below(7) {
      0 => with_break(r, d.clone()),
      1 => with_harmless(r, d.clone(), 1),
      k => {
        let mut p = DocPlan::intact(d.clone());
        p.medium.push(match k {
          2 => Medium::Torn { len: off },
          3 => Medium::Zero { off, len: 4 },
          4 => Medium::Flip { off, bit: r.below(8) as u8 },
          5 => Medium::Set { off: off + 1, byte: r.next() as u8 },
          _ => Medium::Set { off, byte: *r.pick(&[0, 1, 5, 6, 9, 10, 12, 17, 255]) },
        });
        p
      },
    };
    let many = nulls_in(&p.deliver().bytes) > NULLS_MAX;
    v.push(if many { v[0].clone() } else { p });
  }
  let k = r.below(v.len());
  v.swap(0, k);
  v
}

fn rare(r: &mut Rng) -> u8 {
  driver::COMMON + r.below((driver::TARGETS - driver::COMMON) as usize) as u8
}

fn target(r: &mut Rng) -> u8 {
  match r.below(8) {
    0..=2 => r.below(driver::COMMON as usize) as u8,
    3 => rare(r),
    _ => *r.pick(&[0, 1, 3, 4, 6, 17, 18, 22]),
  }
}

fn via(r: &mut Rng) -> Via {
  match r.below(4) {
    0 | 1 => Via::Parse,
    2 => Via::Slice(target(r)),
    _ => Via::Msg(target(r)),
  }
}

fn exact_via(r: &mut Rng) -> Via {
  match r.below(6) {
    0..=2 => Via::Parse,
    3 => Via::Slice(hint(r)),
    4 => Via::Msg(hint(r)),
    _ => Via::Slice(*r.pick(&[4, 6, 17, 18, 22, 7, 9, 10, 11, 13, 14, 31, 32, 33, 36, 37, 39, 42, 44, 45])),
  }
}

fn act(r: &mut Rng) -> Act {
  *r.pick(&[Act::Fail, Act::Panic, Act::Stop])
}

fn interrupt(r: &mut Rng, doc: usize, span: u32) -> Op {
  Op::Interrupt { doc, hint: hint(r), act: act(r), at: r.next() as u32, span, msg: r.one_in(2) }
}

fn nest(r: &mut Rng, doc: usize, n: usize) -> Op {
  let inner = Op::Take { doc: if r.one_in(2) { doc } else { r.below(n) }, via: if r.one_in(2) { Via::Parse } else { Via::Slice(hint(r)) } };
  Op::Nest { doc, hint: hint(r), at: r.next() as u32, inner: Box::new(inner) }
}

fn shared(r: &mut Rng, doc: usize) -> Op {
  let use_ = match r.below(6) {
    0 => Use::Clone,
    1 => Use::Compare,
    2 => Use::Inspect,
    3 => Use::Read,
    _ => Use::Deser(target(r)),
  };
  Op::Shared { doc, use_ }
}

fn targets(r: &mut Rng, n: usize) -> Vec<u8> {
  (0..n).map(|_| target(r)).collect()
}

pub fn plan(prop: &str, seed: u64, index: u64) -> Plan {
  let k: u64 = prop.bytes().fold(7, |a, b| a * 31 + b as u64);
  let mut rng = Rng::new(mix(seed ^ mix(k)) ^ mix(index.wrapping_mul(0x9E37_79B9)));
  let r = &mut rng;
  let mut p = Plan {
    prop: prop.into(),
    docs: vec![],
    tasks: vec![vec![]],
    sched: SchedPlan::Random { seed: r.next(), mean: *r.pick(&[3, 30, 200, 1000, 5000]) },
    hash: (0..4).map(|_| r.next()).collect(),
    rounds: 1,
    one_thread: false,
    rx: false,
    stack_kib: 2048,
    junk: r.next() as u8,
    clock: mix(seed ^ mix(k) ^ mix(!index)) | 1,
  };
  match prop {
    "C01" => {
      for _ in 0..4 {
        let d = lesser_doc(r);
        let dp = match r.below(7) {
          0 => with_harmless(r, d, 2),
          1 => with_medium(r, DocPlan::intact(d), 1),
          2 => soup(r),
          _ => DocPlan::intact(d),
        };
        let n = dp.deliver().bytes.len();
        let doc = p.docs.len();
        p.docs.push(dp);
        if n <= 500 {
          p.tasks[0].push(Op::Cuts { doc, from: 0, to: u32::MAX });
        } else {
          for _ in 0..3 {
            let from = r.below(n) as u32;
            p.tasks[0].push(Op::Cuts { doc, from, to: from + 60 });
          }
          let from = n as u32 - 40;
          p.tasks[0].push(Op::Cuts { doc, from, to: from + 40 });
        }
      }
    },
    "C02" => {
      for _ in 0..5 {
        let d = lesser_doc(r);
        let dp = match r.below(7) {
          0 => with_harmless(r, d, 2),
          1 => with_medium(r, DocPlan::intact(d), 1),
          2 => soup(r),
          _ => DocPlan::intact(d),
        };
        p.docs.push(dp);
      }
      for doc in 0..5 {
        if r.one_in(3) {
          p.tasks[0].push(Op::Tail { doc, tail: Tail::EveryByte });
        }
        for _ in 0..8 {
          let tail = match r.below(13) {
            11 => Tail::Seal(r.below(13) as u8),
            12 => Tail::Frame(r.below(5), r.below(6) as u8, *r.pick(&[0, 0, 1, 17, 1 << 20])),
            8 => {
              let known = if r.one_in(4) { crate::dict::size(r, 70_000) } else { None };
              let to = known.map_or_else(|| *r.pick(&[2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096]), |n| n as u32);
              Tail::Fill(*r.pick(&[0, 0, 0, 11, 32, 0xff, 0xcc]), to)
            },
            9 => Tail::Part(r.below(5), *r.pick(&[1, 2, 4, 5, 9, 16, 17, 18, 20, 30, 60])),
            10 => Tail::Bytes(r.pick(&[&b"\n"[..], b"\r\n", b"\r\n\r\n", b"\r\n0\r\n\r\n", b" ", b"    ", b"\x1a", b"\x0b\x00", b"\xef\xbb\xbf", b"\x0b\x0b\x0b"]).to_vec()),
            0 => Tail::Twice,
            1 => Tail::Next(r.below(5)),
            2 => Tail::Stale(r.next() as u32),
            3 => Tail::Stale(1 + r.below(12) as u32),
            4 => Tail::Zeros(*r.pick(&[1, 2, 3, 4, 8, 256, 511, 4096, 65536, 1 << 17])),
            5 => Tail::Bytes(vec![11; 1 + r.below(5)]),
            6 => {
              // A record that could have been part of the message.
              let mut b = *r.pick(&[&[10u8][..], &[6, 99, 0, 0, 0, 1, b'x'], &[12, 99, 0, 0, 0, 1, b'x'], &[13, 1], &[9, 1, 0, 0, 0]]);
              let mut v = vec![];
              for _ in 0..1 + r.below(2) {
                v.extend_from_slice(b);
                b = *r.pick(&[&[11u8][..], b, b]);
              }
              Tail::Bytes(v)
            },
            _ => match if r.one_in(3) { crate::dict::text(r) } else { None } {
              Some(s) if !s.is_empty() => Tail::Bytes(s.into_bytes()),
              _ => Tail::Bytes((0..1 + r.below(20)).map(|_| r.next() as u8).collect()),
            },
          };
          p.tasks[0].push(Op::Tail { doc, tail });
        }
      }
    },
    "C03" => {
      for _ in 0..6 {
        let mut dp = damaged(r);
        if r.one_in(14) {
          dp = DocPlan::intact(Doc::default());
          // That every object hashes the names of its members again is listed in known-findings.json.
          let long = Some(faults::long_shape(r)).filter(|s| r.one_in(5) && !matches!(s, faults::Shape::Long(1, ..)));
          dp.shape = Some(long.unwrap_or_else(|| faults::big_shape(r)));
          if r.one_in(2) {
            dp = with_medium(r, dp, 2);
          }
        }
        if nulls_in(&dp.deliver().bytes) > NULLS_MAX {
          continue;
        }
        let doc = p.docs.len();
        p.docs.push(dp);
        let n = 2 + r.below(4);
        p.tasks[0].push(Op::Abuse { doc, targets: targets(r, n) });
      }
    },
    "C04" => {
      for _ in 0..6 {
        let dp = match r.below(12) {
          0 => {
            let mut dp = DocPlan::intact(Doc::default());
            dp.shape = Some(if r.one_in(4) { faults::long_shape(r) } else { faults::big_shape(r) });
            dp
          },
          1 => damaged(r),
          2 => {
            let d = a_doc(r);
            with_medium(r, DocPlan::intact(d), 2)
          },
          _ => {
            let d = a_doc(r);
            with_inflate(r, d)
          },
        };
        if nulls_in(&dp.deliver().bytes) > NULLS_MAX {
          continue;
        }
        let doc = p.docs.len();
        p.docs.push(dp);
        let n = 1 + r.below(2);
        p.tasks[0].push(Op::Weigh { doc, targets: targets(r, n) });
      }
    },
    "C05" => {
      let n = 2 + r.below(3);
      let theme = theme(r);
      p.rx = r.one_in(3);
      let alike = r.one_in(3);
      if alike {
        p.docs = variants(r, &theme, n);
      }
      for _ in p.docs.len()..n {
        let dp = if r.one_in(3) { damaged(r) } else { DocPlan::intact(themed(r, &theme)) };
        let dp = if nulls_in(&dp.deliver().bytes) > NULLS_MAX { DocPlan::intact(dp.doc) } else { dp };
        p.docs.push(dp);
      }
      let tasks = 2 + r.below(2);
      p.tasks = (0..tasks).map(|_| vec![]).collect();
      // Few kinds of operation per run, so that tasks meet in the same code.
      let kinds: Vec<usize> = (0..3).map(|_| r.below(10)).collect();
      for t in 0..tasks {
        for _ in 0..1 + r.below(4) {
          let doc = r.below(n);
          let mut op = match *r.pick(&kinds) {
            0..=2 => Op::Take { doc, via: via(r) },
            3 => Op::Take { doc, via: Via::Parse },
            4 | 5 => shared(r, doc),
            6 => interrupt(r, doc, 1),
            7 => nest(r, doc, n),
            8 => Op::Held { docs: (0..2 + r.below(3)).map(|_| r.below(n)).collect() },
            _ => Op::Take { doc, via: Via::Slice(hint(r)) },
          };
          if r.one_in(10) {
            let times = *r.pick(&[2, 3, 9, 20, 70, 150, 300]);
            let known = if r.one_in(4) { crate::dict::size(r, 600) } else { None };
            let times = known.map_or(times, |n| n as u32);
            op = Op::Repeat { times, op: Box::new(op) };
          }
          p.tasks[t].push(op);
        }
      }
      if r.one_in(8) {
        // A long history of one kind, and then the others.
        let small: Vec<usize> = (0..n).filter(|d| p.docs[*d].deliver().bytes.len() < 600).collect();
        if !small.is_empty() {
          let doc = *r.pick(&small);
          let known = if r.one_in(4) { crate::dict::size(r, 2200) } else { None };
          let times = known.map_or_else(|| *r.pick(&[70, 140, 260, 300, 600, 1100, 2100]), |n| n as u32);
          let op = match r.below(3) {
            0 => Op::Take { doc, via: Via::Parse },
            1 => Op::Take { doc, via: Via::Slice(target(r)) },
            _ => interrupt(r, doc, 1),
          };
          let t = r.below(tasks);
          p.tasks[t].insert(0, Op::Repeat { times, op: Box::new(op) });
          for doc in 0..n {
            p.tasks[t].push(Op::Take { doc, via: if r.one_in(2) { Via::Parse } else { Via::Slice(hint(r)) } });
          }
        }
      }
      if r.one_in(120) {
        // More of one kind than 16 bits can count, and then the others.
        let tiny: Vec<usize> = (0..n).filter(|d| p.docs[*d].deliver().bytes.len() < 200).collect();
        if !tiny.is_empty() {
          let doc = *r.pick(&tiny);
          let via = match r.below(3) {
            0 => Via::Parse,
            1 => Via::Slice(target(r)),
            _ => Via::Slice(hint(r)),
          };
          let op = Op::Take { doc, via };
          let t = r.below(tasks);
          let before: Vec<Op> = (0..n).map(|doc| Op::Take { doc, via: if r.one_in(2) { Via::Parse } else { Via::Slice(hint(r)) } }).collect();
          let times = 65_530 + r.below(8) as u32;
          let mut ops = before.clone();
          ops.push(Op::Repeat { times, op: Box::new(op) });
          ops.extend(before);
          p.tasks[t].splice(0..0, ops);
        }
      }
    },
    "C06" => {
      for _ in 0..3 {
        let d = if r.one_in(60) { generate::wide_object(r, 70_000) } else { lesser_doc(r) };
        let dp = if r.one_in(8) { soup(r) } else if r.one_in(4) { with_harmless(r, d, 2) } else { DocPlan::intact(d) };
        p.docs.push(dp);
      }
      let mut ops = vec![];
      for doc in 0..3 {
        ops.push(Op::Take { doc, via: Via::Parse });
        ops.push(Op::Take { doc, via: Via::Slice(hint(r)) });
        ops.push(Op::Take { doc, via: Via::Msg(hint(r)) });
        for k in 0..5 {
          let t = if k == 0 { rare(r) } else { r.below(driver::COMMON as usize) as u8 };
          ops.push(Op::Take { doc, via: Via::Slice(t) });
        }
      }
      let k = 3 + r.below(4);
      p.tasks = (0..k).map(|_| ops.clone()).collect();
      p.hash = (0..k).map(|_| r.next()).collect();
      p.sched = SchedPlan::Random { seed: r.next(), mean: 1 << 30 };
    },
    "C07" => {
      for doc in 0..3 {
        let d = lesser_doc(r);
        let dp = if r.one_in(4) { with_harmless(r, d, 2) } else { DocPlan::intact(d) };
        p.docs.push(dp);
        for t in [0, 1, 3, 4, 6, 17, 18, 22] {
          if r.one_in(3) {
            p.tasks[0].push(Op::Take { doc, via: if r.one_in(2) { Via::Slice(t) } else { Via::Msg(t) } });
          }
        }
        for act in [Act::Fail, Act::Stop, Act::Stop, Act::Panic] {
          let span = if act == Act::Panic { 3 } else { 12 };
          p.tasks[0].push(Op::Interrupt { doc, hint: hint(r), act, at: r.next() as u32, span, msg: r.one_in(2) });
        }
      }
    },
    "C08" | "C09" => {
      let base = 4;
      for _ in 0..base {
        let d = a_doc(r);
        for _ in 0..6 {
          let dp = if prop == "C08" { with_break(r, d.clone()) } else { with_harmless(r, d.clone(), 3) };
          let doc = p.docs.len();
          p.docs.push(dp);
          p.tasks[0].push(Op::Take { doc, via: Via::Parse });
          if prop == "C08" {
            p.tasks[0].push(Op::Take { doc, via: Via::Slice(target(r)) });
          } else {
            p.tasks[0].push(Op::Take { doc, via: exact_via(r) });
          }
        }
      }
    },
    "C10" => {
      p.rounds = 7;
      let n = 4;
      for _ in 0..n {
        let dp = if r.one_in(2) { damaged(r) } else { DocPlan::intact(lesser_doc(r)) };
        let dp = if nulls_in(&dp.deliver().bytes) > NULLS_MAX { DocPlan::intact(dp.doc) } else { dp };
        p.docs.push(dp);
      }
      p.one_thread = r.one_in(2);
      p.tasks = (0..if p.one_thread { 1 } else { 1 + r.below(3) }).map(|_| vec![]).collect();
      for t in 0..p.tasks.len() {
        for _ in 0..3 + r.below(5) {
          let doc = r.below(n);
          let op = match r.below(8) {
            0..=2 => Op::Take { doc, via: via(r) },
            3 => interrupt(r, doc, 3),
            4 => interrupt(r, doc, 2),
            5 => nest(r, doc, n),
            6 => {
              let from = r.next() as u32 & 0xffff;
              Op::Cuts { doc, from, to: from + 5 }
            },
            _ => Op::Tail { doc, tail: Tail::Bytes(vec![r.next() as u8]) },
          };
          p.tasks[t].push(op);
        }
      }
    },
    "C11" => {
      let n = 3 + r.below(4);
      let theme = theme(r);
      let mut good = vec![];
      for i in 0..n {
        let dp = if i > 0 && r.one_in(3) { damaged(r) } else { DocPlan::intact(if r.one_in(3) { a_doc(r) } else { themed(r, &theme) }) };
        let dp = if nulls_in(&dp.deliver().bytes) > NULLS_MAX { DocPlan::intact(dp.doc) } else { dp };
        if dp.fields.is_empty() && dp.medium.is_empty() {
          good.push(i);
        }
        p.docs.push(dp);
      }
      if r.one_in(150) {
        good = vec![0];
        p.docs[0] = DocPlan::intact(generate::null_doc(r));
      }
      p.rx = r.one_in(3);
      p.tasks = (0..1 + r.below(3)).map(|_| vec![]).collect();
      for t in 0..p.tasks.len() {
        for _ in 0..3 + r.below(5) {
          let doc = r.below(n);
          let op = match r.below(10) {
            0 => interrupt(r, doc, 1),
            1 => nest(r, doc, n),
            2 => {
              let from = r.next() as u32 & 0xffff;
              Op::Cuts { doc, from, to: from + 2 }
            },
            5 if r.one_in(2) => Op::Held { docs: (0..2 + r.below(2)).map(|_| r.below(n)).collect() },
            3 => Op::Shared { doc, use_: *r.pick(&[Use::Deser(0), Use::Deser(1), Use::Clone, Use::Read]) },
            4 => Op::Tail { doc, tail: Tail::Next(r.below(n)) },
            _ => Op::Take { doc, via: exact_via(r) },
          };
          p.tasks[t].push(op);
        }
        // Faults have stopped.
        p.tasks[t].push(Op::Take { doc: *r.pick(&good), via: Via::Parse });
        p.tasks[t].push(Op::Take { doc: *r.pick(&good), via: Via::Slice(hint(r)) });
      }
    },
    "C13" => {
      let n = 5;
      for _ in 0..n {
        let mut d = lesser_doc(r);
        if r.one_in(20) {
          // One long text somewhere.
          let len = *r.pick(&[30_000, 70_000, 200_000]);
          let mut texts = 0;
          crate::reduce::each_text(&mut d, &mut |_| texts += 1);
          if texts > 0 {
            let (k, mut i) = (r.below(texts), 0);
            crate::reduce::each_text(&mut d, &mut |s| {
              if i == k {
                *s = "long text ".repeat(len / 10);
              }
              i += 1;
            });
          }
        }
        let dp = match r.below(4) {
          0 => damaged(r),
          1 => with_harmless(r, d, 3),
          _ => DocPlan::intact(d),
        };
        let dp = if nulls_in(&dp.deliver().bytes) > NULLS_MAX { DocPlan::intact(dp.doc) } else { dp };
        p.docs.push(dp);
      }
      p.tasks = (0..1 + r.below(3)).map(|_| vec![]).collect();
      for t in 0..p.tasks.len() {
        for doc in 0..n {
          if p.tasks.len() == 1 || r.one_in(2) {
            let op = Op::Borrow { doc };
            p.tasks[t].push(if r.one_in(20) { Op::Repeat { times: *r.pick(&[2, 3, 20]), op: Box::new(op) } } else { op });
          }
        }
      }
    },
    "C14" => {
      let n = 5;
      for _ in 0..n {
        let mut d = lesser_doc(r);
        if r.one_in(3) {
          d = odd(r, d);
        }
        let dp = match r.below(4) {
          0 => DocPlan::intact(d),
          1 => with_break(r, d),
          2 => with_harmless(r, d, 3),
          _ => damaged(r),
        };
        let dp = if nulls_in(&dp.deliver().bytes) > NULLS_MAX { DocPlan::intact(dp.doc) } else { dp };
        p.docs.push(dp);
      }
      p.tasks = (0..1 + r.below(3)).map(|_| vec![]).collect();
      for t in 0..p.tasks.len() {
        for doc in 0..n {
          if p.tasks.len() == 1 || r.one_in(2) {
            p.tasks[t].push(Op::Builds { doc, swap: r.one_in(2) });
          }
        }
      }
    },
    "C18" => {
      let n = 4;
      for _ in 0..n {
        let mut d = lesser_doc(r);
        if r.one_in(4) {
          d = odd(r, d);
        }
        let dp = match r.below(5) {
          0 => DocPlan::intact(d),
          1 => with_break(r, d),
          2 | 3 => with_harmless(r, d, 3),
          _ => damaged(r),
        };
        let dp = if nulls_in(&dp.deliver().bytes) > NULLS_MAX { DocPlan::intact(dp.doc) } else { dp };
        p.docs.push(dp);
      }
      p.tasks = (0..1 + r.below(3)).map(|_| vec![]).collect();
      for t in 0..p.tasks.len() {
        for doc in 0..n {
          if p.tasks.len() == 1 || r.one_in(2) {
            let k = 2 + r.below(4);
            let mut targets = targets(r, k);
            targets.push(hint(r));
            targets.push(rare(r));
            p.tasks[t].push(Op::Ways { doc, targets, swap: r.one_in(2) });
          }
        }
      }
    },
    "C17" => {
      // Pairs: one message, and one that is the same, written differently, damaged, or changed in one place.
      for _ in 0..3 {
        if r.one_in(30) {
          // Large ones, which differ in one place at most.
          let d = if r.one_in(4) { generate::wide_object(r, 70_000) } else { generate::wide_doc(r, 70_000) };
          let second = match r.below(4) {
            0 => DocPlan::intact(restyled(r, &d)),
            1 => DocPlan::intact(d.clone()),
            _ => with_other_content(r, d.clone()),
          };
          p.docs.extend([DocPlan::intact(d), second]);
          continue;
        }
        let d = lesser_doc(r);
        if r.one_in(8) {
          let first = soup(r);
          let second = if r.one_in(3) { first.clone() } else { with_medium(r, first.clone(), 1) };
          p.docs.extend([first, second]);
          continue;
        }
        let first = if r.one_in(8) { with_other_content(r, d.clone()) } else { DocPlan::intact(d.clone()) };
        let second = match r.below(10) {
          0 | 1 => first.clone(),
          2 | 3 => DocPlan::intact(restyled(r, &d)),
          4 => with_break(r, d),
          5 => {
            let mut v = crate::reduce::docs(&d);
            if v.is_empty() { first.clone() } else { DocPlan::intact(v.swap_remove(r.below(v.len()))) }
          },
          6 => DocPlan::intact(lesser_doc(r)),
          7 => {
            // Written differently and damaged.
            let d = restyled(r, &d);
            with_other_content(r, d)
          },
          _ => with_other_content(r, d),
        };
        p.docs.push(first);
        p.docs.push(second);
      }
      p.tasks = (0..1 + r.below(3)).map(|_| vec![]).collect();
      for t in 0..p.tasks.len() {
        for _ in 0..3 + r.below(4) {
          let k = 2 * r.below(3);
          let (a, b) = match r.below(8) {
            0 => (k, k),
            1 => (k + 1, k + 1),
            2 => (k + 1, k),
            3 => (r.below(6), r.below(6)),
            _ => (k, k + 1),
          };
          p.tasks[t].push(Op::Equal { a, b });
        }
      }
    },
    _ => unreachable!(),
  }
  if matches!(prop, "C06" | "C07" | "C08" | "C09" | "C10") {
    p.rx = index % 4 == 3;
  }
  p
}
