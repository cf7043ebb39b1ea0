//! Executes a plan in a forked child and judges what happens.

use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::sync::atomic::Ordering::*;

use driver::{Action, Ctl, DateObs, Got, INJECTED, INJECTED_PANIC, RemotingMessage, Src, Step};
use simcore::{Any, Msg, Val, OpStats, Sched, any_of_msg, rng::hash_bytes, sut};

use crate::faults::{Shape, Claim, Delivered, DocPlan};
use crate::plan::*;
use crate::shm::{bump, shm};

/// Null entries that the bytes could declare at most: wherever a byte could be the record type of a run of nulls, its
/// count, but no more than the longest array that could have been declared before it.
pub fn nulls_in(b: &[u8]) -> u64 {
  let int = |at: usize| b.get(at..at + 4).map(|x| i32::from_le_bytes(x.try_into().unwrap()).max(0) as u64);
  let mut n = 0u64;
  let mut longest = 0u64;
  for i in 0..b.len() {
    match b[i] {
      13 if i + 1 < b.len() => n = n.saturating_add((b[i + 1] as u64).min(longest)),
      14 => n = n.saturating_add(int(i + 1).unwrap_or(0).min(longest)),
      16 | 17 => longest = longest.max(int(i + 5).unwrap_or(0)),
      7 => {
        let rank = int(i + 6).unwrap_or(0);
        if rank <= b.len() as u64 / 4 {
          let product = (0..rank).try_fold(1u64, |p, k| Some(p.saturating_mul(int(i + 10 + 4 * k as usize)?)));
          longest = longest.max(product.unwrap_or(0));
        }
      },
      _ => (),
    }
  }
  n
}

/// Beyond this, memory and time proportional to the declared nulls are legitimate but not worth simulating.
pub const NULLS_MAX: u64 = 160_000;

pub const STEP_BASE: u64 = 60_000;
pub const STEP_PER_BYTE: u64 = 800;
pub const MEM_BASE: u64 = 512 << 10;
pub const MEM_PER_BYTE: u64 = 2048;
pub const MEM_PER_NULL: u64 = 600;

/// Elsewhere: only to end what would never end.
const FAR: u64 = 400_000_000;

#[derive(Clone, Debug)]
pub enum Taken {
  Msg(Msg, Vec<DateObs>),
  Got(Got),
  Err(String),
  Panic(String),
}

/// A comparable outcome.
#[derive(Clone, Debug, PartialEq)]
pub struct Out {
  kind: String,
  hash: u64,
  text: String,
}

impl Out {
  fn new(kind: &str, text: String, compare_text: bool) -> Out {
    let hash = if compare_text { hash_bytes(text.as_bytes()) } else { 0 };
    let text: String = text.chars().take(300).collect();
    Out { kind: kind.into(), hash, text: if compare_text { text } else { String::new() } }
  }
}

fn out_of(t: &Taken, parse: bool) -> Out {
  match t {
    Taken::Msg(m, d) => Out::new("value", format!("{m:?} {d:?}"), true),
    Taken::Got(g) => Out::new("value", format!("{g:?}"), true),
    Taken::Err(e) => Out::new("error", e.clone(), parse),
    Taken::Panic(p) => Out::new("panic", p.clone(), true),
  }
}

struct Env {
  plan: &'static Plan,
  docs: Vec<&'static Delivered>,
  shared: Vec<Option<&'static RemotingMessage<'static>>>,
  baseline: HashMap<String, Out>,
  firsts: HashMap<String, Out>,
  nontrivial: bool,
  max_steps_ratio: u64,
}

struct Cell0(UnsafeCell<Option<Env>>);
unsafe impl Sync for Cell0 {}
static ENV: Cell0 = Cell0(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
fn env() -> &'static mut Env {
  unsafe { (*ENV.0.get()).as_mut().unwrap() }
}

fn prop() -> &'static str {
  &env().plan.prop
}

fn fail(class: &str, text: String) -> ! {
  simcore::end_episode(1, class, &text)
}

fn nontrivial() {
  env().nontrivial = true;
}

fn hex(b: &[u8]) -> String {
  let mut s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
  if b.len() > 400 {
    s.push_str(&format!("... ({} bytes)", b.len()));
  }
  s
}

fn short<T: std::fmt::Debug>(t: &T) -> String {
  let s = format!("{t:?}");
  if s.chars().count() > 3000 { s.chars().take(3000).collect::<String>() + "..." } else { s }
}

fn faults_of(doc: usize) -> String {
  let d = &env().plan.docs[doc];
  let mut v: Vec<String> = d.fields.iter().map(|f| format!("{} (field {})", f.what, f.ord)).collect();
  v.extend(d.medium.iter().map(|m| m.name().to_string()));
  if v.is_empty() { "undamaged".into() } else { v.join(", ") }
}

// ---------------------------------------------------------------------------------------------------------------

fn take_raw(bytes: &'static [u8], via: Via) -> Taken {
  match via {
    Via::Parse => match driver::parse(bytes) {
      Ok(m) => {
        let (c, d) = driver::canon(&m);
        Taken::Msg(c, d)
      },
      Err(e) => Taken::Err(driver::error_text(&e).0),
    },
    Via::Slice(t) => match driver::deser(Src::Bytes(bytes), t) {
      Ok(g) => Taken::Got(g),
      Err(e) => Taken::Err(e),
    },
    Via::Msg(t) => match driver::parse(bytes) {
      Ok(m) => match driver::deser(Src::Msg(m), t) {
        Ok(g) => Taken::Got(g),
        Err(e) => Taken::Err(e),
      },
      Err(e) => Taken::Err(driver::error_text(&e).0),
    },
  }
}

fn run(limit: u64, f: impl FnOnce() -> Taken) -> (Taken, OpStats) {
  let (r, s) = sut(limit, f);
  bump("operations", 1);
  (r.unwrap_or_else(Taken::Panic), s)
}

fn take(bytes: &'static [u8], via: Via) -> Taken {
  run(FAR, || take_raw(bytes, via)).0
}

/// What the reference model expects. `None`: no claim.
fn expected(m: &Msg, via: Via) -> Option<Result<Taken, ()>> {
  let t = match via {
    Via::Parse => return Some(Ok(Taken::Msg(m.clone(), vec![]))),
    Via::Slice(t) | Via::Msg(t) => t,
  };
  driver::expect(m, t).map(|r| r.map(Taken::Got))
}

/// Ticks and kind must be a split of the raw 64 bits into 62 and 2.
fn date_ok((raw, ticks, kind): DateObs) -> bool {
  let k = |b: i64| if b == 3 { 0 } else { b as u8 };
  (ticks == raw >> 2 && kind == k(raw & 3))
    || ((ticks == (raw << 2) >> 2 || ticks == raw & (i64::MAX >> 1)) && kind == k((raw >> 62) & 3))
}

fn judge_exact(class: &str, doc: usize, msg: &Msg, via: Via, got: &Taken) {
  let Some(want) = expected(msg, via) else { return };
  let good = match (&want, got) {
    (Ok(Taken::Msg(a, _)), Taken::Msg(b, d)) => {
      if a == b {
        if let Some(d) = d.iter().find(|d| !date_ok(**d)) {
          fail(class, format!("date-time {:#018x} is reported as ticks {} kind {}", d.0, d.1, d.2));
        }
        true
      } else {
        false
      }
    },
    (Ok(Taken::Got(a)), Taken::Got(b)) => a == b,
    (Err(()), Taken::Err(_)) => true,
    _ => false,
  };
  if !good {
    fail(
      class,
      format!(
        "message {doc} ({}) via {via:?}: expected {}, got {}\nbytes {}",
        faults_of(doc),
        match &want {
          Ok(t) => short(t),
          Err(()) => "an error".into(),
        },
        short(got),
        hex(&env().docs[doc].bytes)
      ),
    );
  }
}

fn must_err(class: &str, what: String, bytes: &[u8], got: &Taken) {
  if !matches!(got, Taken::Err(_)) {
    fail(class, format!("{what}: expected an error, got {}\nbytes {}", short(got), hex(bytes)));
  }
}

fn key(op: &Op) -> String {
  serde_json::to_string(op).unwrap()
}

/// Compares with what the same operation gave when it ran alone (C05) or first (C06).
fn judge_same(op: &Op, out: Out) {
  let k = key(op);
  match prop() {
    "C05" => match env().baseline.get(&k) {
      Some(b) if *b == out => (),
      Some(b) => fail(
        "differs from running alone",
        format!("{k}\nalone: {} {}\nhere:  {} {}\n", b.kind, b.text, out.kind, out.text),
      ),
      None => (),
    },
    "C06" => match env().firsts.get(&k) {
      Some(b) if *b == out => (),
      Some(b) => fail(
        "differs under other hash keys",
        format!("{k}\nfirst: {} {}\nnow:   {} {}\n", b.kind, b.text, out.kind, out.text),
      ),
      None => {
        env().firsts.insert(k, out);
      },
    },
    _ => (),
  }
}

fn pure(doc: usize) -> bool {
  let d = &env().plan.docs[doc];
  d.fields.is_empty() && d.medium.is_empty() && d.shape.is_none() && env().docs[doc].claim == Claim::Content
}

/// Delivers a message: where it lies, or into the one buffer of the task.
fn receive(doc: usize) -> &'static [u8] {
  thread_local! {
    static RX: std::cell::Cell<(*mut u8, usize)> = const { std::cell::Cell::new((std::ptr::null_mut(), 0)) };
  }
  let b = &env().docs[doc].bytes;
  if !env().plan.rx {
    return b;
  }
  let (mut at, mut size) = RX.get();
  if at.is_null() || size < b.len() {
    size = env().docs.iter().map(|d| d.bytes.len()).max().unwrap_or(0).max(b.len()) + 16;
    at = leak(vec![0; size]).as_ptr().cast_mut();
    RX.set((at, size));
  }
  bump("receive buffer overwritten", 1);
  unsafe {
    std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
    std::slice::from_raw_parts(at, b.len())
  }
}

/// What is kept of several messages does not change, whatever happens in between.
fn do_held(docs: &'static [usize]) {
  let mut kept = vec![];
  for d in docs {
    let bytes: &'static [u8] = &env().docs[*d].bytes;
    kept.push(sut(FAR, || driver::parse(bytes)).0);
    bump("operations", 1);
  }
  for (d, r) in docs.iter().zip(kept).rev() {
    let op = Op::Take { doc: *d, via: Via::Parse };
    let (got, _) = run(FAR, || match r {
      Ok(Ok(m)) => {
        let (c, d) = driver::canon(&m);
        Taken::Msg(c, d)
      },
      Ok(Err(e)) => Taken::Err(driver::error_text(&e).0),
      Err(p) => Taken::Panic(p),
    });
    judge_same(&op, out_of(&got, true));
    if prop() == "C11" && pure(*d) {
      judge_exact("not what was sent", *d, &env().docs[*d].msg, Via::Parse, &got);
    }
  }
}

fn do_take(op: &Op, doc: usize, via: Via) {
  let d = env().docs[doc];
  let got = take(receive(doc), via);
  match &got {
    Taken::Err(_) => bump("outcome: error", 1),
    Taken::Panic(_) => bump("outcome: panic", 1),
    _ => bump("outcome: value", 1),
  }
  match prop() {
    "C05" => judge_same(op, out_of(&got, via == Via::Parse)),
    "C06" => {
      judge_same(op, out_of(&got, false));
      if d.claim == Claim::Content {
        judge_exact("not what was sent", doc, &d.msg, via, &got);
        if has_object(&d.msg) {
          nontrivial();
        }
      }
    },
    "C07" if d.claim == Claim::Content => judge_exact("uninterrupted consumer", doc, &d.msg, via, &got),
    "C08" if d.claim == Claim::Reject => {
      nontrivial();
      bump("damaged messages delivered", 1);
      must_err("rule broken but accepted", format!("message {doc} ({}) via {via:?}", faults_of(doc)), &d.bytes, &got);
    },
    "C09" if d.claim == Claim::Content => {
      if !pure(doc) {
        nontrivial();
        bump("damaged messages delivered", 1);
      }
      judge_exact("damage not contained", doc, &d.msg, via, &got);
    },
    "C11" if pure(doc) => {
      if env().plan.docs.iter().any(|d| !d.fields.is_empty() || !d.medium.is_empty()) || env().plan.tasks.len() > 1 {
        nontrivial();
      }
      judge_exact("not what was sent", doc, &d.msg, via, &got);
    },
    "C10" => nontrivial(),
    _ => (),
  }
  // Dropping the outcome belongs to the operation.
  drop(got);
}

fn has_object(m: &Msg) -> bool {
  use simcore::Val;
  fn v(x: &Val) -> bool {
    match x {
      Val::Obj { members, .. } => members.len() > 1 || members.values().any(v),
      Val::Arr(a) => a.iter().any(v),
      _ => false,
    }
  }
  match m {
    Msg::Value(x) => v(x),
    Msg::Call { args: Some(a), .. } | Msg::Return { args: Some(a), .. } => a.iter().any(v),
    _ => false,
  }
}

fn leak(b: Vec<u8>) -> &'static [u8] {
  Box::leak(b.into_boxed_slice())
}

fn accepted(bytes: &'static [u8]) -> bool {
  matches!(take(bytes, Via::Parse), Taken::Msg(..))
}

fn do_cuts(doc: usize, from: u32, to: u32) {
  let d = env().docs[doc];
  let n = d.bytes.len();
  if n == 0 || !accepted(&d.bytes) {
    return;
  }
  let (from, to) = if to == u32::MAX { (0, n) } else { (from as usize % n, (from as usize % n + (to - from) as usize).min(n)) };
  for k in from..to {
    // A copy of its own: what lies behind the cut must not matter, and is not there.
    let cut = leak(d.bytes[..k].to_vec());
    bump("fault: message cut short", 1);
    nontrivial();
    simcore::set_note(format!("message {doc} cut to {k} of {n} bytes"));
    let what = || format!("message {doc} cut to {k} of {n} bytes");
    let via = [Via::Parse, Via::Slice(0), Via::Slice(22), Via::Slice(1 + (k % 27) as u8)];
    for v in &via[..if k % 4 == 0 { 4 } else { 2 }] {
      let got = take(cut, *v);
      must_err("prefix accepted", format!("{} via {v:?}", what()), cut, &got);
    }
    unsafe { drop(Box::from_raw(cut as *const [u8] as *mut [u8])) };
  }
}

/// A checksum (0 to 6) or the length (7 to 12) of a message.
fn seal(k: u8, b: &[u8]) -> Vec<u8> {
  let crc = || {
    !b.iter().fold(!0u32, |c, x| {
      (0..8).fold(c ^ *x as u32, |c, _| if c & 1 == 1 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 })
    })
  };
  let sum = b.iter().fold(0u32, |s, x| s.wrapping_add(*x as u32));
  let n = b.len();
  match k {
    0 => vec![sum as u8],
    1 => vec![b.iter().fold(0, |s, x| s ^ x)],
    2 => (sum as u16).to_le_bytes().to_vec(),
    3 => sum.to_le_bytes().to_vec(),
    4 => crc().to_le_bytes().to_vec(),
    5 => crc().to_be_bytes().to_vec(),
    6 => {
      let (x, y) = b.iter().fold((1u32, 0u32), |(x, y), b| {
        let x = (x + *b as u32) % 65521;
        (x, (y + x) % 65521)
      });
      (y << 16 | x).to_be_bytes().to_vec()
    },
    7 => (n as u32).to_le_bytes().to_vec(),
    8 => (n as u32).to_be_bytes().to_vec(),
    9 => (n as u16).to_le_bytes().to_vec(),
    10 => (n as u16).to_be_bytes().to_vec(),
    11 => (n as u64).to_le_bytes().to_vec(),
    _ => vec![n as u8],
  }
}

fn do_tail(doc: usize, tail: &Tail) {
  let d = env().docs[doc];
  if d.bytes.is_empty() || !accepted(&d.bytes) {
    return;
  }
  let tails: Vec<Vec<u8>> = match tail {
    Tail::Twice => vec![d.bytes.clone()],
    Tail::Next(k) => vec![env().docs[*k].bytes.clone()],
    Tail::Stale(n) => {
      let n = (*n as usize % d.bytes.len()).max(1);
      vec![d.bytes[d.bytes.len() - n..].to_vec()]
    },
    Tail::Bytes(b) => vec![b.clone()],
    Tail::EveryByte => (0..=255).map(|b| vec![b]).collect(),
    Tail::Zeros(n) => vec![vec![0; *n as usize]],
    Tail::Fill(b, n) => vec![vec![*b; *n as usize - d.bytes.len() % *n as usize]],
    Tail::Part(k, n) => {
      let next = &env().docs[*k].bytes;
      vec![next[..next.len().min(*n as usize)].to_vec()]
    },
    Tail::Seal(k) => vec![seal(*k, &d.bytes)],
    Tail::Frame(k, style, n) => {
      let next = &env().docs[*k].bytes;
      vec![[seal(7 + *style % 6, next), next[..next.len().min(*n as usize)].to_vec()].concat()]
    },
  };
  for t in tails {
    if t.is_empty() {
      continue;
    }
    let mut b = d.bytes.clone();
    b.extend_from_slice(&t);
    let b = leak(b);
    nontrivial();
    bump(
      match tail {
        Tail::Twice => "fault: delivered twice, coalesced",
        Tail::Next(_) => "fault: coalesced with the next message",
        Tail::Stale(_) => "fault: stale tail of the same message",
        Tail::Bytes(_) => "fault: trailing bytes",
        Tail::EveryByte => "fault: one trailing byte",
        Tail::Zeros(_) => "fault: trailing zeros",
        Tail::Fill(..) => "fault: filled up to a block",
        Tail::Part(..) => "fault: coalesced with a part of the next message",
        Tail::Seal(_) => "fault: followed by the checksum or length a channel adds",
        Tail::Frame(..) => "fault: coalesced with the next frame",
      },
      1,
    );
    for v in [Via::Parse, Via::Slice(0), Via::Slice(22)] {
      let got = take(b, v);
      must_err("trailing bytes swallowed", format!("message {doc} of {} bytes followed by {} via {v:?}", d.bytes.len(), hex(&t)), b, &got);
    }
    unsafe { drop(Box::from_raw(b as *const [u8] as *mut [u8])) };
  }
}

fn note_panic(t: &Taken, what: &str, bytes: &[u8]) {
  if let Taken::Panic(p) = t {
    fail("panic", format!("{what}: {p}\nbytes {}", hex(bytes)));
  }
}

/// Every null may be a row of its own in as many dimensions as there are, which are at most 32 where messages come from.
fn dimensions(doc: usize) -> u64 {
  match env().plan.docs[doc].shape {
    Some(Shape::Rows(_, rank)) => u64::from(rank.min(32)) - 1,
    _ => 0,
  }
}

fn do_abuse(doc: usize, targets: &[u8]) {
  let d = env().docs[doc];
  let nulls = nulls_in(&d.bytes);
  if nulls > NULLS_MAX {
    bump("skipped: declares very many nulls", 1);
    return;
  }
  if !pure(doc) || env().plan.docs[doc].shape.is_some() {
    nontrivial();
  }
  let size = d.bytes.len() as u64 + nulls * (1 + dimensions(doc));
  let limit = STEP_BASE + STEP_PER_BYTE * size;
  let bytes: &'static [u8] = &d.bytes;
  let mut most = 0;
  let mut step = |what: &str, f: &mut dyn FnMut() -> Taken| {
    simcore::set_note(format!("{what}, message {doc} ({} bytes, at most {nulls} nulls, limit {limit} steps)", bytes.len()));
    let (t, s) = run(limit, f);
    note_panic(&t, what, bytes);
    most = most.max(s.steps * 100 / (STEP_BASE + size * STEP_PER_BYTE));
    max("steps per byte", s.steps.saturating_sub(5000) / (size + 1));
    bump("max: stack bytes", 0);
    max("max stack", s.stack as u64);
    t
  };
  // Parsing and dropping; then everything else on top of it.
  step("parse", &mut || match driver::parse(bytes) {
    Ok(_) => Taken::Got(Got::Text(String::new())),
    Err(e) => {
      let _ = driver::error_text(&e);
      Taken::Err(String::new())
    },
  });
  if matches!(env().plan.docs[doc].shape, Some(Shape::Long(..))) {
    // A consumer may well copy or format a name as often as it gets it; the library may not.
    step("from_slice into target 22", &mut || take_raw(bytes, Via::Slice(22)));
    env().max_steps_ratio = env().max_steps_ratio.max(most);
    return;
  }
  let ok = matches!(step("parse and read", &mut || take_raw(bytes, Via::Parse)), Taken::Msg(..));
  if ok {
    bump("outcome: value", 1);
    step("format, clone, compare", &mut || match driver::parse(bytes) {
      Ok(m) => {
        driver::inspect(&m);
        Taken::Err(String::new())
      },
      Err(_) => Taken::Err(String::new()),
    });
  } else {
    bump("outcome: error", 1);
  }
  for t in targets {
    step(&format!("from_slice into target {t}"), &mut || take_raw(bytes, Via::Slice(*t)));
    if ok && t % 3 == 0 {
      step(&format!("deserialise message into target {t}"), &mut || take_raw(bytes, Via::Msg(*t)));
    }
  }
  env().max_steps_ratio = env().max_steps_ratio.max(most);
}

/// Maxima are kept as histograms of powers of two.
fn max(name: &str, v: u64) {
  bump(&format!("{name} < 2^{}", 64 - v.leading_zeros()), 1);
}

fn do_weigh(doc: usize, targets: &[u8]) {
  let d = env().docs[doc];
  let nulls = nulls_in(&d.bytes);
  let plan = &env().plan.docs[doc];
  if nulls > NULLS_MAX {
    bump("skipped: declares very many nulls", 1);
    return;
  }
  if !pure(doc) || plan.shape.is_some() {
    nontrivial();
  }
  let bytes: &'static [u8] = &d.bytes;
  let limit = MEM_BASE + MEM_PER_BYTE * bytes.len() as u64 + (MEM_PER_NULL + 250 * dimensions(doc)) * nulls;
  let step = |what: &str, f: &mut dyn FnMut() -> Taken| {
    simcore::set_note(format!("{what}, message {doc} ({} bytes, at most {nulls} nulls, limit {limit} bytes)", bytes.len()));
    simcore::CAP.store(simcore::LIVE.load(Relaxed) + limit as usize, Relaxed);
    let (t, s) = run(FAR, f);
    simcore::CAP.store(usize::MAX, Relaxed);
    max("peak bytes", s.peak as u64);
    let per = (s.peak as u64).saturating_sub(200 << 10) / (bytes.len() as u64 + nulls + 1);
    max("peak per byte", per);
    t
  };
  let t = step("parse", &mut || match driver::parse(bytes) {
    Ok(_) => Taken::Got(Got::Text(String::new())),
    Err(e) => {
      let _ = driver::error_text(&e);
      Taken::Err(String::new())
    },
  });
  bump(if matches!(t, Taken::Err(_)) { "outcome: error" } else { "outcome: value" }, 1);
  // A consumer may well copy a string as often as it is referred to; the library may not.
  let targets = if matches!(plan.shape, Some(Shape::SharedString(_) | Shape::Long(..))) { &[22][..] } else { targets };
  for t in targets {
    step(&format!("from_slice into target {t}"), &mut || take_raw(bytes, Via::Slice(*t)));
  }
}

struct Interrupted {
  got: Taken,
  fired: bool,
  late: u32,
  count: u32,
  stopped: Option<(Vec<Step>, usize)>,
}

fn consume(bytes: &'static [u8], hint: u8, msg: bool, at: u32, action: Action, nest: Option<Box<dyn FnMut()>>) -> Interrupted {
  driver::set_ctl(Some(Ctl { at, action, nest, count: 0, fired: false, late: 0, path: vec![], stopped: None }));
  let got = take(bytes, if msg { Via::Msg(hint) } else { Via::Slice(hint) });
  let c = driver::set_ctl(None).unwrap();
  Interrupted { got, fired: c.fired, late: c.late, count: c.count, stopped: c.stopped }
}

fn lookup<'a>(a: &'a Any, path: &[Step]) -> Option<&'a Any> {
  let Some(s) = path.first() else { return Some(a) };
  let next = match (s, a) {
    (Step::Idx(i), Any::Seq(v)) => v.get(*i)?,
    (Step::Key(k), Any::Map(m)) => &m.iter().find(|(n, _)| n == k)?.1,
    _ => return None,
  };
  lookup(next, &path[1..])
}

fn do_interrupt(doc: usize, hint: u8, act: Act, at: u32, span: u32, msg: bool) {
  let d = env().docs[doc];
  let model = if d.claim == Claim::Content { any_of_msg(&d.msg, hint == 1) } else { None };
  let judged = prop() == "C07";
  // How many callbacks there are.
  let whole = consume(receive(doc), hint, msg, u32::MAX, Action::Nest, None);
  if judged && d.claim == Claim::Content {
    judge_exact("uninterrupted consumer", doc, &d.msg, Via::Slice(hint), &whole.got);
  }
  let n = whole.count;
  if n == 0 {
    return;
  }
  let action = match act {
    Act::Fail => Action::Fail,
    Act::Panic => Action::Panic,
    Act::Stop => Action::Stop,
  };
  let start = at % n;
  for at in start..(start + span.max(1)).min(n) {
    simcore::set_note(format!("message {doc}, hint {hint}, {act:?} at callback {at} of {n}"));
    let r = consume(receive(doc), hint, msg, at, action, None);
    if r.fired {
      bump(
        match act {
          Act::Fail => "fault: consumer failed",
          Act::Panic => "fault: consumer panicked",
          Act::Stop => "fault: consumer stopped early",
        },
        1,
      );
      nontrivial();
    }
    if !judged {
      continue;
    }
    let ctx = || format!("message {doc}, hint {hint}, {act:?} at callback {at} of {n}, got {}\nbytes {}", short(&r.got), hex(&d.bytes));
    if !r.fired {
      // Only possible when the message itself was in error before, or the order of members is not repeated.
      if let Some(m) = &model {
        match (m, &r.got) {
          (Ok(a), Taken::Got(Got::Any(b))) if a == b => (),
          (Err(()), Taken::Err(_)) => (),
          _ => fail("uninterrupted consumer", ctx()),
        }
      }
      continue;
    }
    match act {
      Act::Fail => {
        if !matches!(&r.got, Taken::Err(e) if e.contains(INJECTED)) {
          fail("failure of the consumer not reported", ctx());
        }
        if r.late > 0 {
          fail("delivery went on after the consumer failed", ctx());
        }
      },
      Act::Panic => {
        if !matches!(&r.got, Taken::Panic(e) if e.contains(INJECTED_PANIC)) {
          fail("panic of the consumer not propagated", ctx());
        }
        if r.late > 0 {
          fail("delivery went on after the consumer failed", ctx());
        }
      },
      Act::Stop => {
        let (Some(model), Some((path, taken))) = (&model, &r.stopped) else { continue };
        // A list whose elements are all fine but which is rejected for its size is rejected either way.
        let total = match model {
          Ok(a) => match lookup(a, path) {
            Some(Any::Seq(v)) => v.len(),
            Some(Any::Map(m)) => m.len(),
            _ => fail("consumer saw something that is not there", format!("at {path:?}: {}", ctx())),
          },
          Err(()) => usize::MAX,
        };
        if *taken < total {
          if !matches!(r.got, Taken::Err(_)) {
            fail("short read reported as success", format!("took {taken} of {total} at {path:?}: {}", ctx()));
          }
        } else if let Ok(a) = model {
          if !matches!(&r.got, Taken::Got(Got::Any(b)) if a == b) {
            fail("complete read not delivered", format!("took all {taken} at {path:?}: {}", ctx()));
          }
        }
      },
    }
  }
}

fn do_nest(doc: usize, hint: u8, at: u32, inner: &'static Op) {
  let d = env().docs[doc];
  let outer = Op::Take { doc, via: Via::Slice(hint) };
  let whole = consume(receive(doc), hint, false, u32::MAX, Action::Nest, None);
  if whole.count == 0 {
    return;
  }
  for k in 0..4 {
    nest_once(doc, &outer, hint, at.wrapping_add(k) % whole.count, inner);
  }
}

fn nest_once(doc: usize, outer: &Op, hint: u8, at: u32, inner: &'static Op) {
  let d = env().docs[doc];
  let ran = std::rc::Rc::new(std::cell::Cell::new(false));
  let ran2 = ran.clone();
  let r = consume(
    receive(doc),
    hint,
    false,
    at,
    Action::Nest,
    Some(Box::new(move || {
      ran2.set(true);
      simcore::harness(|| bump("fault: library used inside a consumer", 1));
      if let Op::Take { doc, via } = inner {
        let bytes: &'static [u8] = &simcore::harness(|| env().docs[*doc]).bytes;
        let (got, _) = sut(FAR, || take_raw(bytes, *via));
        simcore::harness(|| {
          let got = got.unwrap_or_else(Taken::Panic);
          match prop() {
            "C05" => judge_same(inner, out_of(&got, *via == Via::Parse)),
            "C11" if pure(*doc) => judge_exact("not what was sent", *doc, &env().docs[*doc].msg, *via, &got),
            _ => (),
          }
        });
      }
    })),
  );
  if ran.get() {
    nontrivial();
  }
  match prop() {
    "C05" => judge_same(outer, out_of(&r.got, false)),
    "C11" if pure(doc) => judge_exact("not what was sent", doc, &d.msg, Via::Slice(hint), &r.got),
    _ => (),
  }
}

fn use_shared(m: &'static RemotingMessage<'static>, use_: Use) -> (Taken, bool) {
  match use_ {
    Use::Deser(t) => (
      run(FAR, || match driver::deser(Src::Msg(m.clone()), t) {
        Ok(g) => Taken::Got(g),
        Err(e) => Taken::Err(e),
      })
      .0,
      false,
    ),
    Use::Clone => (
      run(FAR, || {
        let c = m.clone();
        let (a, d) = driver::canon(&c);
        Taken::Msg(a, d)
      })
      .0,
      true,
    ),
    Use::Compare => (
      run(FAR, || {
        let c = m.clone();
        Taken::Got(Got::Text(format!("{} {}", *m == c, c == *m)))
      })
      .0,
      true,
    ),
    Use::Inspect => (run(FAR, || Taken::Got(Got::Text(format!("{:?}", driver::inspect(m))))).0, true),
    Use::Read => (
      run(FAR, || {
        let (a, d) = driver::canon(m);
        Taken::Msg(a, d)
      })
      .0,
      true,
    ),
  }
}

/// Whether two values have the same content. `None`: no claim.
fn same_val(a: &Val, b: &Val) -> Option<bool> {
  fn all(mut it: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    // A certain difference settles it.
    let v: Vec<_> = it.by_ref().collect();
    if v.contains(&Some(false)) {
      Some(false)
    } else if v.contains(&None) {
      None
    } else {
      Some(true)
    }
  }
  match (a, b) {
    (Val::Obj { class, lib, members }, Val::Obj { class: c2, lib: l2, members: m2 }) => {
      if class != c2 || lib != l2 || !members.keys().eq(m2.keys()) {
        return Some(false);
      }
      all(members.values().zip(m2.values()).map(|(a, b)| same_val(a, b)))
    },
    (Val::Arr(a), Val::Arr(b)) => {
      if a.len() != b.len() {
        return Some(false);
      }
      all(a.iter().zip(b).map(|(a, b)| same_val(a, b)))
    },
    (Val::F64(a), Val::F64(b)) => {
      let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
      if a.is_nan() && b.is_nan() { None } else { Some(a == b) }
    },
    (Val::F32(a), Val::F32(b)) => {
      let (a, b) = (f32::from_bits(*a), f32::from_bits(*b));
      if a.is_nan() && b.is_nan() { None } else { Some(a == b) }
    },
    (Val::Dec(a), Val::Dec(b)) => {
      // Numbers written differently: whether 1.0 is 1.00 is not this property's business.
      let norm = |s: &str| {
        let t = if s.contains('.') { s.trim_end_matches('0').trim_end_matches('.') } else { s };
        if t.trim_start_matches('-').is_empty() || t == "-0" { "0".to_string() } else { t.to_string() }
      };
      if a == b {
        Some(true)
      } else if norm(a) == norm(b) {
        None
      } else {
        Some(false)
      }
    },
    (Val::Dt(a), Val::Dt(b)) => {
      // Two of the four kinds mean the same.
      // Wherever in the number the kind is.
      let same = |kind: u32, a: i64, b: i64| (a ^ b) & !(3 << kind) == 0 && [a, b].iter().all(|x| matches!(x >> kind & 3, 0 | 3));
      if a == b {
        Some(true)
      } else if same(0, *a, *b) || same(62, *a, *b) {
        None
      } else {
        Some(false)
      }
    },
    (a, b) => Some(a == b),
  }
}

fn same_msg(a: &Msg, b: &Msg) -> Option<bool> {
  // Everything as one value.
  fn val(m: &Msg) -> Val {
    let s = |s: &String| Val::Str(s.clone());
    let o = |v: Option<Val>| match v {
      Some(v) => Val::Arr(vec![v]),
      None => Val::Arr(vec![]),
    };
    let args = |a: &Option<Vec<Val>>| o(a.clone().map(Val::Arr));
    match m {
      Msg::Value(v) => Val::Arr(vec![v.clone()]),
      Msg::Call { method, typ, ctx, args: a } => {
        Val::Arr(vec![Val::Bool(true), s(method), s(typ), o(ctx.as_ref().map(s)), args(a)])
      },
      Msg::Return { value, ctx, args: a } => {
        Val::Arr(vec![Val::Bool(false), o(value.clone()), o(ctx.as_ref().map(s)), args(a), Val::Null])
      },
    }
  }
  match (a, b) {
    (Msg::Value(a), Msg::Value(b)) => same_val(a, b),
    (Msg::Value(_), _) | (_, Msg::Value(_)) => Some(false),
    _ => same_val(&val(a), &val(b)),
  }
}

/// Strings stay where they were received. The buffer is one of many, in use for this delivery only.
fn do_borrow(doc: usize) {
  let d = env().docs[doc];
  let buffer: &'static [u8] = leak(d.bytes.clone());
  let live = simcore::LIVE.load(Relaxed);
  let (r, s) = sut(FAR, || driver::parse(buffer).ok());
  bump("operations", 1);
  match r {
    Ok(Some(m)) => {
      bump("outcome: value", 1);
      let kept = simcore::LIVE.load(Relaxed).saturating_sub(live);
      let (foreign, total) = driver::foreign_strings(&m, buffer);
      if total > 0 {
        nontrivial();
        bump("bytes of text looked up", total as u64);
      }
      if let Some(f) = foreign.first() {
        fail("string is not in the caller's buffer", format!("message {doc} ({}): {f}\nbytes {}", faults_of(doc), hex(buffer)));
      }
      // Text that is most of the message must not be copied even for a while.
      let rest = d.bytes.len().saturating_sub(total).saturating_add(nulls_in(&d.bytes) as usize);
      if env().plan.tasks.len() == 1 && total > 20_000 && total / 2 > rest.saturating_mul(600).saturating_add(8192) {
        bump("long texts weighed", 1);
        if s.peak.max(kept) > total / 2 {
          fail(
            "text was copied",
            format!("message {doc} of {} bytes with {total} bytes of text: {} bytes allocated", d.bytes.len(), s.peak),
          );
        }
      }
      for how in 0..5 {
        let (r, _) = sut(FAR, || driver::foreign_borrowed(m.clone(), buffer, how));
        if let Ok(v) = r {
          if let Some(f) = v.first() {
            fail("borrowed string is not in the caller's buffer", format!("message {doc}: {f:?}\nbytes {}", hex(buffer)));
          }
        }
      }
      let _ = sut(FAR, move || drop(m));
    },
    Ok(None) => bump("outcome: error", 1),
    Err(_) => bump("outcome: panic", 1),
  }
  // The buffer is used again for something else.
  unsafe { drop(Box::from_raw(buffer as *const [u8] as *mut [u8])) };
}

/// One receiver parses and then deserialises what it got, one does both at once.
fn do_ways(doc: usize, targets: &[u8], swap: bool) {
  let d = env().docs[doc];
  let bytes: &'static [u8] = &d.bytes;
  let parsed = take(bytes, Via::Parse);
  for t in targets {
    let vias = if swap { [Via::Msg(*t), Via::Slice(*t)] } else { [Via::Slice(*t), Via::Msg(*t)] };
    let mut seen = vias.map(|v| take(bytes, v));
    if swap {
      seen.reverse();
    }
    let [once, twice] = &seen;
    let good = match (&parsed, once, twice) {
      (Taken::Err(e), Taken::Err(a), Taken::Err(b)) => {
        nontrivial();
        bump("outcome: error", 1);
        b == e && a.contains(e.as_str())
      },
      (Taken::Msg(m, _), Taken::Err(a), Taken::Err(b)) => {
        bump("outcome: deserialisation failed", 1);
        // Which of several members is found wrong first is a matter of their order.
        has_object(m) || a == b
      },
      (Taken::Msg(m, _), Taken::Got(a), Taken::Got(b)) => {
        if !matches!(m, Msg::Value(Val::Null)) {
          nontrivial();
        }
        bump("outcome: value", 1);
        format!("{a:?}") == format!("{b:?}")
      },
      // Crashes are another property's business, but not that only one way crashes.
      (_, Taken::Panic(_), Taken::Panic(_)) => true,
      _ => false,
    };
    if !good {
      fail(
        "the two ways of receiving disagree",
        format!(
          "message {doc} ({}), target {t}\nparsed: {}\nfrom_slice: {}\nparsed, then deserialised: {}\nbytes {}",
          faults_of(doc),
          short(&parsed),
          short(once),
          short(twice),
          hex(bytes)
        ),
      );
    }
  }
}

/// A receiver built with the serde feature and one built without it.
fn do_builds(doc: usize, swap: bool) {
  let d = env().docs[doc];
  let bytes: &'static [u8] = &d.bytes;
  let mut seen = vec![];
  for k in 0..2 {
    let serde = (k == 0) != swap;
    let (r, _) = sut(FAR, || if serde { driver::seen_with_serde(bytes) } else { driver::seen_without_serde(bytes) });
    bump("operations", 1);
    seen.push(r);
  }
  match &seen[0] {
    Ok(driver::Seen::Message(m)) => {
      bump("outcome: value", 1);
      if m.len() > 1 {
        nontrivial();
      }
    },
    Ok(_) => {
      bump("outcome: error", 1);
      nontrivial();
    },
    Err(_) => bump("outcome: panic", 1),
  }
  if seen[0] != seen[1] {
    let (a, b) = if swap { (&seen[1], &seen[0]) } else { (&seen[0], &seen[1]) };
    fail(
      "receivers of the two builds disagree",
      format!("message {doc} ({})\nwith serde: {}\nwithout: {}\nbytes {}", faults_of(doc), short(a), short(b), hex(bytes)),
    );
  }
}

fn do_equal(a: usize, b: usize) {
  let (da, db) = (env().docs[a], env().docs[b]);
  let shared = env().shared.get(b).copied().flatten();
  bump(if shared.is_some() { "compared with a shared message" } else { "compared with a message of the same thread" }, 1);
  let bytes_a: &'static [u8] = leak(da.bytes.clone());
  let bytes_b: &'static [u8] = &db.bytes;
  let ctx = |what: &str| {
    format!("{what}: messages {a} ({}) and {b} ({})\nbytes {}\nbytes {}", faults_of(a), faults_of(b), hex(bytes_a), hex(bytes_b))
  };
  let same_bytes = da.bytes == db.bytes;
  let (r, _) = sut(FAR, || driver::equal(bytes_a, bytes_b, shared));
  bump("operations", 1);
  let r = match r {
    Ok(r) => r,
    Err(p) => fail("comparison panicked", ctx(&p)),
  };
  match r {
    driver::Equality::Errors { eq, clone } => {
      bump("outcome: error", 1);
      if same_bytes && !(eq[0] && eq[1]) {
        fail("equal errors compare unequal", ctx("both rejected"));
      }
      if !clone {
        fail("copy of an error differs", ctx("error"));
      }
    },
    driver::Equality::Mixed => {
      bump("outcome: error", 1);
      if same_bytes {
        fail("same bytes, different outcome", ctx("one accepted, one rejected"));
      }
    },
    driver::Equality::Values { content, eq, clone_content, clone_eq, clone_reads_other } => {
      bump("outcome: value", 1);
      let (ca, cb) = (&content[0], &content[1]);
      let want = same_msg(ca, cb);
      if want == Some(false) || has_object(ca) {
        nontrivial();
      }
      bump(
        match want {
          Some(true) => "pairs of equal content",
          Some(false) => "pairs of different content",
          None => "pairs without a claim",
        },
        1,
      );
      if same_bytes && ca != cb {
        fail("same bytes, different content", ctx(&format!("{} and {}", short(ca), short(cb))));
      }
      if eq[0] != eq[1] || eq[0] == eq[2] || eq[1] == eq[3] {
        fail("equality is not symmetric or not the opposite of inequality", ctx(&format!("{eq:?}")));
      }
      if let Some(w) = want {
        if eq[0] != w {
          let what = if w { "equal content compares unequal" } else { "different content compares equal" };
          fail(what, ctx(&format!("{} and {}", short(ca), short(cb))));
        }
      }
      if clone_content[0] != *ca || clone_content[1] != *ca || clone_content[2] != *cb {
        fail("copy differs from the original", ctx(&format!("{clone_content:?} of {} and {}", short(ca), short(cb))));
      }
      if same_msg(ca, ca) == Some(true) && !(clone_eq[0] && clone_eq[1]) {
        fail("copy compares unequal", ctx(&format!("{clone_eq:?} {}", short(ca))));
      }
      if want.is_some() && clone_reads_other != eq[0] {
        fail("copy compares unlike its original", ctx(&short(ca)));
      }
    },
  }
  unsafe { drop(Box::from_raw(bytes_a as *const [u8] as *mut [u8])) };
}

fn do_op(op: &'static Op) {
  let note = format!("{op:?}");
  simcore::set_note(note.chars().take(400).collect());
  match op {
    Op::Take { doc, via } => do_take(op, *doc, *via),
    Op::Cuts { doc, from, to } => do_cuts(*doc, *from, *to),
    Op::Tail { doc, tail } => do_tail(*doc, tail),
    Op::Abuse { doc, targets } => do_abuse(*doc, targets),
    Op::Weigh { doc, targets } => do_weigh(*doc, targets),
    Op::Interrupt { doc, hint, act, at, span, msg } => do_interrupt(*doc, *hint, *act, *at, *span, *msg),
    Op::Nest { doc, hint, at, inner } => do_nest(*doc, *hint, *at, inner),
    Op::Shared { doc, use_ } => {
      if let Some(m) = env().shared.get(*doc).copied().flatten() {
        let (t, text) = use_shared(m, *use_);
        bump("shared message used", 1);
        judge_same(op, out_of(&t, text));
        if prop() == "C11" && pure(*doc) {
          let d = env().docs[*doc];
          match use_ {
            Use::Deser(h) => judge_exact("not what was sent", *doc, &d.msg, Via::Msg(*h), &t),
            Use::Clone | Use::Read => judge_exact("not what was sent", *doc, &d.msg, Via::Parse, &t),
            _ => (),
          }
        }
      }
    },
    Op::Equal { a, b } => do_equal(*a, *b),
    Op::Held { docs } => do_held(docs),
    Op::Builds { doc, swap } => do_builds(*doc, *swap),
    Op::Ways { doc, targets, swap } => do_ways(*doc, targets, *swap),
    Op::Borrow { doc } => do_borrow(*doc),
    Op::Repeat { times, op } => {
      bump("fault: long history", 1);
      for _ in 0..*times {
        do_op(op);
      }
    },
  }
}

// ---------------------------------------------------------------------------------------------------------------
// Baselines (C05)

fn basic_ops(op: &Op, out: &mut Vec<Op>) {
  match op {
    Op::Take { .. } | Op::Shared { .. } => out.push(op.clone()),
    Op::Nest { doc, hint, inner, .. } => {
      out.push(Op::Take { doc: *doc, via: Via::Slice(*hint) });
      basic_ops(inner, out);
    },
    Op::Repeat { op, .. } => basic_ops(op, out),
    Op::Held { docs } => out.extend(docs.iter().map(|d| Op::Take { doc: *d, via: Via::Parse })),
    _ => (),
  }
}

/// Runs one operation alone in a process of its own.
fn alone(plan: &'static Plan, op: &Op) -> Out {
  let mut fds = [0i32; 2];
  unsafe {
    if libc::pipe(fds.as_mut_ptr()) != 0 {
      simcore::abort_episode(simcore::Abort::Harness);
    }
  }
  let pid = unsafe { libc::fork() };
  if pid < 0 {
    simcore::abort_episode(simcore::Abort::Harness);
  }
  if pid == 0 {
    let scratch = crate::shm::map(crate::shm::REPORT);
    unsafe {
      libc::close(fds[0]);
      simcore::set_report(scratch, crate::shm::REPORT);
      simcore::set_coverage_map(crate::shm::map(simcore::COV_MAX));
    }
    // At another time, too.
    simcore::set_clock(0);
    let op: &'static Op = Box::leak(Box::new(op.clone()));
    let fd = fds[1];
    let f: Box<dyn FnOnce() + Send> = Box::new(move || {
      let out = match op {
        Op::Take { doc, via } => out_of(&take(&env().docs[*doc].bytes, *via), *via == Via::Parse),
        Op::Shared { doc, use_ } => {
          parse_shared(&[*doc]);
          match env().shared[*doc] {
            Some(m) => {
              let (t, text) = use_shared(m, *use_);
              out_of(&t, text)
            },
            None => Out::new("absent", String::new(), false),
          }
        },
        _ => unreachable!(),
      };
      let s = serde_json::to_vec(&(out.kind, out.hash, out.text)).unwrap();
      unsafe { libc::write(fd, s.as_ptr().cast(), s.len()) };
    });
    simcore::run_tasks(Sched::Explicit(vec![]), plan.stack_kib as usize * 1024, &plan.hash, vec![f]);
    unsafe { libc::_exit(0) }
  }
  let mut buf = vec![];
  unsafe {
    libc::close(fds[1]);
    let mut b = [0u8; 4096];
    loop {
      let n = libc::read(fds[0], b.as_mut_ptr().cast(), b.len());
      if n <= 0 {
        break;
      }
      buf.extend_from_slice(&b[..n as usize]);
    }
    libc::close(fds[0]);
    let mut st = 0;
    libc::waitpid(pid, &mut st, 0);
  }
  match serde_json::from_slice::<(String, u64, String)>(&buf) {
    Ok((kind, hash, text)) => Out { kind, hash, text },
    Err(_) => Out::new("died", String::new(), false),
  }
}

fn parse_shared(docs: &[usize]) {
  for d in docs {
    let e = env();
    if e.shared[*d].is_none() {
      let bytes: &'static [u8] = &e.docs[*d].bytes;
      let (r, _) = sut(FAR, || driver::parse(bytes).ok().map(|m| &*Box::leak(Box::new(m))));
      e.shared[*d] = r.ok().flatten();
    }
  }
}

struct Ptr<T>(T);
unsafe impl<T> Send for Ptr<T> {}

/// Whether a parsed message may be shared between threads at all.
fn sync_probe() -> bool {
  #[allow(dead_code)]
  trait No {
    const YES: bool = false;
  }
  impl<T: ?Sized> No for T {}
  struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
  #[allow(dead_code)]
  impl<T: ?Sized + Send + Sync> Probe<T> {
    const YES: bool = true;
  }
  Probe::<RemotingMessage<'static>>::YES
}

// ---------------------------------------------------------------------------------------------------------------

/// Whether there is another round: a workload that has left anything behind late is repeated much longer.
fn go_on(plan: &Plan, round: u32, lives: &[usize]) -> bool {
  let n = lives.len();
  round < plan.rounds.max(1)
    || plan.prop == "C10" && n >= 5 && round < 6 * plan.rounds && (5..n).any(|i| lives[i] > lives[i - 1])
}

/// Content that differs from round to round while the shape stays.
fn vary(d: &DocPlan, round: u32) -> DocPlan {
  let mut d = d.clone();
  if round > 0 {
    crate::reduce::each_text(&mut d.doc, &mut |s: &mut String| {
      // Same length, so that damage keeps hitting the same places; one-to-one, so that names stay distinct.
      let t: String = s
        .chars()
        .map(|c| if c.is_ascii_lowercase() { ((c as u8 - b'a' + (round % 26) as u8) % 26 + b'a') as char } else { c })
        .collect();
      *s = t;
    });
  }
  d
}

/// Runs the plan in this process, which must be a fresh fork. Never returns.
pub fn episode(plan: Plan) -> ! {
  let plan: &'static Plan = Box::leak(Box::new(plan));
  simcore::install_panic_hook();
  simcore::JUNK.store(plan.junk as u32, Relaxed);
  simcore::set_clock(plan.clock);
  let docs: Vec<&'static Delivered> = plan.docs.iter().map(|d| &*Box::leak(Box::new(d.deliver()))).collect();
  let n = docs.len();
  unsafe {
    *ENV.0.get() = Some(Env {
      plan,
      docs,
      shared: vec![None; n],
      baseline: HashMap::new(),
      firsts: HashMap::new(),
      nontrivial: false,
      max_steps_ratio: 0,
    })
  };
  for d in &plan.docs {
    for f in &d.fields {
      bump(&format!("field fault: {}", f.what), 1);
    }
    for m in &d.medium {
      bump(&format!("fault: {}", m.name()), 1);
    }
    match d.shape {
      Some(Shape::Soup(..)) => bump("records of any kind in any places", 1),
      Some(_) => bump("big messages", 1),
      None => (),
    }
  }
  bump("messages", n as u64);
  let stack = plan.stack_kib as usize * 1024;
  let mut shared = vec![];
  for op in plan.tasks.iter().flatten() {
    let mut ops = vec![];
    basic_ops(op, &mut ops);
    for o in ops {
      if let Op::Shared { doc, .. } = o {
        if !shared.contains(&doc) {
          shared.push(doc);
        }
      }
    }
  }
  if plan.prop == "C17" {
    // Every second message is also parsed beforehand, by another thread.
    shared = (0..n).filter(|d| d % 2 == 1).collect();
  }
  if plan.prop == "C05" {
    if !sync_probe() {
      fail("parsed messages cannot be shared between threads", String::new());
    }
    for op in plan.tasks.iter().flatten() {
      let mut ops = vec![];
      basic_ops(op, &mut ops);
      for o in ops {
        let k = key(&o);
        if !env().baseline.contains_key(&k) {
          let b = alone(plan, &o);
          env().baseline.insert(k, b);
          bump("baseline runs", 1);
        }
      }
    }
  }
  if !shared.is_empty() {
    let f: Box<dyn FnOnce() + Send> = Box::new(move || parse_shared(&shared));
    simcore::run_tasks(Sched::Explicit(vec![]), stack, &plan.hash, vec![f]);
  }
  let mut lives: Vec<usize> = vec![];
  let mut trace = vec![];
  if plan.one_thread {
    // All rounds on one thread, which never ends: what it keeps to itself counts, too.
    let out: &'static mut Vec<usize> = Box::leak(Box::default());
    let shared = Ptr(out as *mut Vec<usize>);
    let f: Box<dyn FnOnce() + Send> = Box::new(move || {
      let shared = shared;
      let mut round = 0;
      let lives = unsafe { &mut *shared.0 };
      while go_on(plan, round, lives) {
        env().docs = plan.docs.iter().map(|d| &*Box::leak(Box::new(vary(d, round).deliver()))).collect();
        plan.tasks.iter().flatten().for_each(do_op);
        lives.push(simcore::LIVE.load(Relaxed));
        round += 1;
      }
    });
    let ran = simcore::run_tasks(Sched::Explicit(vec![]), stack, &plan.hash, vec![f]);
    trace = ran.trace;
    lives = out.clone();
    bump("rounds on one thread", plan.rounds as u64);
  }
  let mut round = 0;
  while !plan.one_thread && go_on(plan, round, &lives) {
    if plan.rounds > 1 {
      let e = env();
      e.docs = plan.docs.iter().map(|d| &*Box::leak(Box::new(vary(d, round).deliver()))).collect();
    }
    let fs: Vec<Box<dyn FnOnce() + Send>> = plan
      .tasks
      .iter()
      .map(|ops| {
        let ops = Ptr(ops);
        Box::new(move || {
          let ops = ops;
          for op in ops.0.iter() {
            do_op(op);
          }
        }) as Box<dyn FnOnce() + Send>
      })
      .collect();
    let mode = match &plan.sched {
      SchedPlan::Random { seed, mean } => Sched::Random { seed: seed.wrapping_add(round as u64), mean: *mean },
      SchedPlan::Explicit(v) => Sched::Explicit(v.clone()),
    };
    let ran = simcore::run_tasks(mode, stack, &plan.hash, fs);
    bump("preemptions", ran.switches);
    if plan.tasks.len() > 1 {
      if ran.switches > plan.tasks.len() as u64 && plan.prop == "C05" {
        nontrivial();
      }
      shm().scheds.add(hash_bytes(format!("{:?}", ran.trace).as_bytes()));
      bump("threads run", plan.tasks.len() as u64);
    }
    trace = ran.trace;
    lives.push(simcore::LIVE.load(Relaxed));
    round += 1;
  }
  if plan.prop == "C10" && lives.len() as u32 > plan.rounds {
    bump("long workloads", 1);
    let n = lives.len();
    // What is allocated once, whenever that may be, is no leak.
    let growths = (n / 3..n).filter(|i| lives[*i] > lives[i - 1]).count();
    if growths >= 3 && lives[n - 1] > lives[n / 3] && lives[n - 1] > lives[2 * n / 3] {
      simcore::report("class memory left behind");
      simcore::report("trace []");
      simcore::report(&format!("bytes still allocated after each round of the same workload: {lives:?}"));
      simcore::finish_episode(1);
    }
  }
  bump("steps", simcore::TOTAL_STEPS.load(Relaxed));
  bump("allocations", simcore::ALLOCS.load(Relaxed));
  bump("hash keys drawn", simcore::GETRANDOM.load(Relaxed));
  bump("clock readings", simcore::CLOCK_READS.load(Relaxed));
  bump("fault: clock jumped between readings", simcore::CLOCK_JUMPS.load(Relaxed));
  bump("fault: clocks set to another time", (plan.clock != 0) as u64);
  bump("lock waits", simcore::FUTEX_WAITS.load(Relaxed));
  if env().nontrivial {
    shm().cases.add(hash_bytes(format!("{:?}", (&plan.docs, &plan.tasks, &plan.hash, &plan.sched)).as_bytes()));
    bump("nontrivial episodes", 1);
  }
  if env().max_steps_ratio > 0 {
    bump(&format!("steps up to {}% of the limit", env().max_steps_ratio.div_ceil(5) * 5), 1);
  }
  // For the determinism test.
  simcore::report("class ok");
  simcore::report(&format!("trace {trace:?}"));
  simcore::report(&format!("steps {} allocs {} live {:?}", simcore::TOTAL_STEPS.load(Relaxed), simcore::ALLOCS.load(Relaxed), lives));
  simcore::finish_episode(7)
}
