//! The consumers: everything that touches the library's public API. Instrumented like the library itself, so that
//! consumer callbacks are preemption points too.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;

use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, de::IgnoredAny};
use simcore::{Any, Msg, Val, harness};

mod model_de;

pub use nrbf::{self, RemotingMessage, Value};

pub const INJECTED: &str = "injected consumer failure";
pub const INJECTED_PANIC: &str = "injected consumer panic";

// ---------------------------------------------------------------------------------------------------------------
// Canonical form of a parsed message

/// (raw, ticks, kind)
pub type DateObs = (i64, i64, u8);

fn serde_any(v: Value<'_>) -> Any {
  AnyVal::deserialize(RemotingMessage::Value(v)).map(|a| a.0).unwrap_or(Any::Unit)
}

fn canon_value(v: &Value<'_>, dates: &mut Vec<DateObs>) -> Val {
  match v {
    Value::Object(o) => Val::Obj {
      class: o.class.to_string(),
      lib: o.library.map(|l| l.to_string()),
      members: {
        let mut m: Vec<_> = o.members.iter().collect();
        m.sort_by_key(|(k, _)| **k);
        m.into_iter().map(|(k, v)| (k.to_string(), canon_value(v, dates))).collect()
      },
    },
    Value::Array(a) => Val::Arr(a.iter().map(|v| canon_value(v, dates)).collect()),
    Value::Boolean(x) => Val::Bool(*x),
    Value::Byte(x) => Val::U8(*x),
    Value::Char(x) => Val::Char(*x),
    Value::Decimal(x) => match serde_any(Value::Decimal(x.clone())) {
      Any::Str(s) => Val::Dec(s),
      other => Val::Str(format!("decimal delivered as {other:?}")),
    },
    Value::Double(x) => Val::F64(x.to_bits()),
    Value::Int16(x) => Val::I16(*x),
    Value::Int32(x) => Val::I32(*x),
    Value::Int64(x) => Val::I64(*x),
    Value::SByte(x) => Val::I8(*x),
    Value::Single(x) => Val::F32(x.to_bits()),
    Value::TimeSpan(x) => Val::Ts(x.value()),
    Value::DateTime(x) => match serde_any(Value::DateTime(*x)) {
      Any::I64(raw) => {
        let kind = match x.kind() {
          Some(nrbf::value::DateTimeKind::Utc) => 1,
          Some(nrbf::value::DateTimeKind::Local) => 2,
          None => 0,
        };
        dates.push((raw, x.ticks(), kind));
        Val::Dt(raw)
      },
      other => Val::Str(format!("date-time delivered as {other:?}")),
    },
    Value::UInt16(x) => Val::U16(*x),
    Value::UInt32(x) => Val::U32(*x),
    Value::UInt64(x) => Val::U64(*x),
    Value::String(s) => Val::Str(s.to_string()),
    Value::Null => Val::Null,
  }
}

pub fn canon(m: &RemotingMessage<'_>) -> (Msg, Vec<DateObs>) {
  let mut d = vec![];
  let args = |a: &Option<Vec<Value<'_>>>, d: &mut Vec<DateObs>| {
    a.as_ref().map(|a| a.iter().map(|v| canon_value(v, d)).collect::<Vec<_>>())
  };
  let m = match m {
    RemotingMessage::Value(v) => Msg::Value(canon_value(v, &mut d)),
    RemotingMessage::MethodCall(c) => Msg::Call {
      method: c.method_name.to_string(),
      typ: c.type_name.to_string(),
      ctx: c.call_context.map(|s| s.to_string()),
      args: args(&c.args, &mut d),
    },
    RemotingMessage::MethodReturn(r) => Msg::Return {
      value: r.return_value.as_ref().map(|v| canon_value(v, &mut d)),
      ctx: r.call_context.map(|s| s.to_string()),
      args: args(&r.args, &mut d),
    },
  };
  (m, d)
}

pub fn parse(b: &[u8]) -> Result<RemotingMessage<'_>, nrbf::Error<'_>> {
  RemotingMessage::parse(b)
}

// ---------------------------------------------------------------------------------------------------------------
// Scripted consumer

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Action {
  Fail,
  Panic,
  /// Return early from a sequence or map at the next opportunity.
  Stop,
  /// Use the library from inside the consumer.
  Nest,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
  Idx(usize),
  Key(String),
}

pub struct Ctl {
  pub at: u32,
  pub action: Action,
  pub nest: Option<Box<dyn FnMut()>>,
  pub count: u32,
  pub fired: bool,
  /// Callbacks after the failure fired.
  pub late: u32,
  pub path: Vec<Step>,
  pub stopped: Option<(Vec<Step>, usize)>,
}

thread_local! {
  static CTL: RefCell<Option<Ctl>> = const { RefCell::new(None) };
  static HINT: std::cell::Cell<(u8, u32)> = const { std::cell::Cell::new((0, 0)) };
}

pub fn set_ctl(c: Option<Ctl>) -> Option<Ctl> {
  CTL.with(|x| std::mem::replace(&mut *x.borrow_mut(), c))
}

pub fn set_hint(h: u8) {
  HINT.set((h, 0));
}

fn cb<E: de::Error>() -> Result<(), E> {
  let act = harness(|| {
    CTL.with(|c| {
      let mut c = c.borrow_mut();
      let c = c.as_mut()?;
      if c.fired {
        c.late += 1;
        return None;
      }
      let n = c.count;
      c.count += 1;
      if n == c.at && c.action != Action::Stop {
        if c.action != Action::Nest {
          c.fired = true;
        }
        return Some(c.action);
      }
      None
    })
  });
  match act {
    Some(Action::Fail) => Err(E::custom(INJECTED)),
    Some(Action::Panic) => panic!("{INJECTED_PANIC}"),
    Some(Action::Nest) => {
      let c = harness(|| set_ctl(None));
      if let Some(mut c) = c {
        let h = HINT.get();
        if let Some(f) = c.nest.as_mut() {
          f();
        }
        HINT.set(h);
        harness(|| set_ctl(Some(c)));
      }
      Ok(())
    },
    _ => Ok(()),
  }
}

/// Before asking for the next element: whether to stop instead.
fn stop_here(taken: usize) -> bool {
  harness(|| {
    CTL.with(|c| {
      let mut c = c.borrow_mut();
      let Some(c) = c.as_mut() else { return false };
      if c.fired {
        c.late += 1;
        return false;
      }
      let n = c.count;
      c.count += 1;
      if c.action == Action::Stop && n >= c.at {
        c.fired = true;
        c.stopped = Some((c.path.clone(), taken));
        return true;
      }
      false
    })
  })
}

fn path_push(s: impl FnOnce() -> Step) {
  harness(|| {
    CTL.with(|c| {
      if let Some(c) = c.borrow_mut().as_mut() {
        c.path.push(s());
      }
    })
  })
}

fn path_pop() {
  harness(|| {
    CTL.with(|c| {
      if let Some(c) = c.borrow_mut().as_mut() {
        c.path.pop();
      }
    })
  })
}

/// Accepts everything.
#[derive(Debug)]
pub struct AnyVal(pub Any);

struct AnySeed;
struct AnyVisitor;

impl<'de> DeserializeSeed<'de> for AnySeed {
  type Value = Any;

  fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
    cb()?;
    let (mode, n) = HINT.get();
    HINT.set((mode, n.wrapping_add(1)));
    let v = AnyVisitor;
    match mode {
      1 => d.deserialize_struct("Any", &["a", "b"], v),
      2 => d.deserialize_option(v),
      3 => match n % 12 {
        0 => d.deserialize_map(v),
        1 => d.deserialize_seq(v),
        2 => d.deserialize_str(v),
        3 => d.deserialize_i32(v),
        4 => d.deserialize_tuple(2, v),
        5 => d.deserialize_newtype_struct("N", v),
        6 => d.deserialize_enum("E", &["A"], v),
        7 => d.deserialize_unit(v),
        8 => d.deserialize_ignored_any(v),
        9 => d.deserialize_string(v),
        10 => d.deserialize_option(v),
        _ => d.deserialize_identifier(v),
      },
      _ => d.deserialize_any(v),
    }
  }
}

impl<'de> Deserialize<'de> for AnyVal {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    AnySeed.deserialize(d).map(AnyVal)
  }
}

macro_rules! visit {
  ($($f:ident $t:ty => $e:expr;)*) => {
    $(fn $f<E: de::Error>(self, v: $t) -> Result<Any, E> { cb()?; #[allow(clippy::redundant_closure_call)] Ok(($e)(v)) })*
  };
}

impl<'de> Visitor<'de> for AnyVisitor {
  type Value = Any;

  fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("anything")
  }

  visit! {
    visit_bool bool => Any::Bool;
    visit_i8 i8 => Any::I8;
    visit_i16 i16 => Any::I16;
    visit_i32 i32 => Any::I32;
    visit_i64 i64 => Any::I64;
    visit_u8 u8 => Any::U8;
    visit_u16 u16 => Any::U16;
    visit_u32 u32 => Any::U32;
    visit_u64 u64 => Any::U64;
    visit_f32 f32 => |v: f32| Any::F32(v.to_bits());
    visit_f64 f64 => |v: f64| Any::F64(v.to_bits());
    visit_char char => Any::Char;
    visit_str &str => |v: &str| Any::Str(v.to_string());
    visit_borrowed_str &'de str => |v: &str| Any::Str(v.to_string());
    visit_string String => Any::Str;
    visit_bytes &[u8] => |v: &[u8]| Any::Str(format!("bytes {v:?}"));
  }

  fn visit_none<E: de::Error>(self) -> Result<Any, E> {
    cb()?;
    Ok(Any::Unit)
  }

  fn visit_unit<E: de::Error>(self) -> Result<Any, E> {
    cb()?;
    Ok(Any::Unit)
  }

  fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
    cb()?;
    d.deserialize_any(AnyVisitor)
  }

  fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
    cb()?;
    d.deserialize_any(AnyVisitor)
  }

  fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
    cb()?;
    let mut out = vec![];
    loop {
      if stop_here(out.len()) {
        return Ok(Any::Seq(out));
      }
      path_push(|| Step::Idx(out.len()));
      match a.next_element_seed(AnySeed)? {
        Some(v) => out.push(v),
        None => break,
      }
      path_pop();
    }
    path_pop();
    Ok(Any::Seq(out))
  }

  fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
    cb()?;
    let mut out: Vec<(String, Any)> = vec![];
    loop {
      if stop_here(out.len()) {
        break;
      }
      let Some(k) = a.next_key_seed(KeySeed)? else { break };
      path_push(|| Step::Key(k.clone()));
      let v = a.next_value_seed(AnySeed)?;
      path_pop();
      out.push((k, v));
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(Any::Map(out))
  }

  fn visit_enum<A: EnumAccess<'de>>(self, _a: A) -> Result<Any, A::Error> {
    Err(de::Error::custom("enum access"))
  }
}

struct KeySeed;

impl<'de> DeserializeSeed<'de> for KeySeed {
  type Value = String;

  fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
    cb()?;
    d.deserialize_identifier(KeyVisitor)
  }
}

struct KeyVisitor;

impl<'de> Visitor<'de> for KeyVisitor {
  type Value = String;

  fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("a key")
  }

  fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
    cb()?;
    Ok(v.to_string())
  }
}

// ---------------------------------------------------------------------------------------------------------------
// Typed consumers

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Abcd {
  a: Option<AnyVal>,
  b: Option<AnyVal>,
  c: Option<AnyVal>,
  d: Option<AnyVal>,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Required {
  a: AnyVal,
  b: AnyVal,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Wrapper {
  m_value: AnyVal,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct RawList {
  _items: Vec<AnyVal>,
  _size: i32,
  _version: i32,
}

#[derive(Deserialize, Debug)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged {
  I(i64),
  S(String),
  B(bool),
  V(Vec<AnyVal>),
  M(BTreeMap<String, AnyVal>),
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Flat {
  a: AnyVal,
  #[serde(flatten)]
  rest: BTreeMap<String, AnyVal>,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Strict {
  #[serde(default)]
  a: i64,
  #[serde(default)]
  b: String,
}

#[derive(Deserialize, Debug)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Denying {
  a: Option<AnyVal>,
  b: Option<AnyVal>,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Tree {
  #[serde(default)]
  value: Option<i32>,
  #[serde(default)]
  name: Option<String>,
  #[serde(default)]
  next: Option<Box<Tree>>,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Borrowing<'a> {
  #[serde(borrow, default)]
  name: Option<&'a str>,
  #[serde(default)]
  value: Option<i64>,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Rows {
  #[serde(default)]
  a: Vec<i32>,
  #[serde(default)]
  b: Vec<Option<String>>,
  #[serde(default)]
  c: Option<Vec<Tree>>,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct New(AnyVal);

#[derive(Deserialize, Debug)]
struct Unit;

#[derive(Deserialize, Debug)]
#[serde(tag = "a")]
#[allow(dead_code)]
enum Tagged {
  #[serde(rename = "x")]
  X { b: AnyVal },
  #[serde(other)]
  Else,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
enum Chosen {
  #[serde(rename = "a")]
  A(AnyVal),
  #[serde(rename = "b")]
  B,
  C,
}

pub const TARGETS: u8 = 56;
/// Those up to here are the common ones.
pub const COMMON: u8 = 28;
/// Where the model makes no claim at the top: options, newtypes, enums.
const UNCLAIMED: [u8; 5] = [40, 46, 47, 48, 54];

/// What a target received, in a form that can be compared.
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
  Any(Any),
  Text(String),
}

pub enum Src<'a> {
  Bytes(&'a [u8]),
  Msg(RemotingMessage<'a>),
  /// Not the library but the reference model.
  Model(&'a Msg),
}

fn go<'a, T: Deserialize<'a>>(s: Src<'a>, f: impl FnOnce(&T) -> Got) -> Result<Got, String> {
  let r: Result<T, de::value::Error> = match s {
    Src::Bytes(b) => nrbf::from_slice(b),
    Src::Msg(m) => T::deserialize(m),
    Src::Model(m) => T::deserialize(model_de::MsgDe(m)),
  };
  match r {
    Ok(v) => Ok(f(&v)),
    Err(e) => Err(e.to_string()),
  }
}

fn dbg<T: fmt::Debug>(v: &T) -> Got {
  Got::Text(format!("{v:?}"))
}

/// Deserialises into target number `t`.
pub fn deser(s: Src<'_>, t: u8) -> Result<Got, String> {
  // Whatever an earlier consumer, perhaps a panicking one, has left behind.
  set_hint(if t <= 3 { t } else { 0 });
  match t {
    0..=3 => go::<AnyVal>(s, |a| Got::Any(a.0.clone())),
    4 => go::<BTreeMap<String, AnyVal>>(s, dbg),
    5 => go::<Abcd>(s, dbg),
    6 => go::<Vec<AnyVal>>(s, dbg),
    7 => go::<String>(s, dbg),
    8 => go::<&str>(s, dbg),
    9 => go::<i32>(s, dbg),
    10 => go::<i64>(s, dbg),
    11 => go::<u8>(s, dbg),
    12 => go::<f64>(s, dbg),
    13 => go::<bool>(s, dbg),
    14 => go::<char>(s, dbg),
    15 => go::<Wrapper>(s, dbg),
    16 => go::<RawList>(s, dbg),
    17 => go::<[AnyVal; 2]>(s, dbg),
    18 => go::<(AnyVal, AnyVal, AnyVal)>(s, dbg),
    19 => go::<Untagged>(s, dbg),
    20 => go::<Flat>(s, dbg),
    21 => go::<Required>(s, dbg),
    22 => go::<IgnoredAny>(s, |_| Got::Text("ignored".into())),
    23 => go::<Tree>(s, dbg),
    24 => go::<BTreeMap<&str, i32>>(s, dbg),
    25 => go::<HashMap<String, i32>>(s, |m| {
      let m: BTreeMap<_, _> = m.iter().collect();
      Got::Text(format!("{m:?}"))
    }),
    26 => go::<Strict>(s, dbg),
    27 => go::<Denying>(s, dbg),
    28 => go::<i8>(s, dbg),
    29 => go::<i16>(s, dbg),
    30 => go::<u16>(s, dbg),
    31 => go::<u32>(s, dbg),
    32 => go::<u64>(s, dbg),
    33 => go::<f32>(s, dbg),
    34 => go::<i128>(s, dbg),
    35 => go::<Vec<i32>>(s, dbg),
    36 => go::<Vec<String>>(s, dbg),
    37 => go::<Vec<Option<i64>>>(s, dbg),
    38 => go::<()>(s, dbg),
    39 => go::<&[u8]>(s, dbg),
    40 => go::<Option<AnyVal>>(s, dbg),
    41 => go::<Vec<Vec<i32>>>(s, dbg),
    42 => go::<BTreeMap<String, Option<String>>>(s, dbg),
    43 => go::<Borrowing>(s, dbg),
    44 => go::<Rows>(s, dbg),
    45 => go::<Vec<&str>>(s, dbg),
    46 => go::<New>(s, dbg),
    47 => go::<Chosen>(s, dbg),
    48 => go::<Tagged>(s, dbg),
    49 => go::<Unit>(s, dbg),
    50 => go::<Vec<u8>>(s, dbg),
    51 => go::<BTreeMap<String, BTreeMap<String, AnyVal>>>(s, dbg),
    52 => go::<Vec<Tree>>(s, dbg),
    53 => go::<u128>(s, dbg),
    54 => go::<Option<i64>>(s, dbg),
    55 => go::<(i64, String)>(s, dbg),
    _ => unreachable!(),
  }
}

/// What target `t` is to receive from `m`. `None`: no claim.
pub fn expect(m: &Msg, t: u8) -> Option<Result<Got, ()>> {
  if UNCLAIMED.contains(&t) {
    return None;
  }
  let h = HINT.get();
  let r = model_de::claimed(|| deser(Src::Model(m), t).map_err(|_| ()));
  HINT.set(h);
  r
}

/// Touches everything a user may touch without consuming: formatting, cloning, comparing.
pub fn inspect(m: &RemotingMessage<'_>) -> (usize, bool) {
  let c = m.clone();
  let text = format!("{m:?}");
  let same = &c == m;
  (text.len(), same)
}

/// Strings of a message that are not where the message was received, and the length of all.
pub fn foreign_strings(m: &RemotingMessage<'_>, buffer: &[u8]) -> (Vec<String>, usize) {
  struct Look<'b> {
    range: std::ops::Range<*const u8>,
    out: Vec<String>,
    total: usize,
    seen: std::collections::BTreeSet<*const u8>,
    buffer: std::marker::PhantomData<&'b [u8]>,
  }
  impl Look<'_> {
    fn text(&mut self, what: &str, s: &str) {
      let r = s.as_bytes().as_ptr_range();
      if self.seen.insert(r.start) {
        self.total += s.len();
      }
      // An empty string, too, has its place there.
      if r.start < self.range.start || r.end > self.range.end {
        self.out.push(format!("{what} {:?}", s.chars().take(60).collect::<String>()));
      }
    }

    fn value(&mut self, v: &Value<'_>) {
      match v {
        Value::Object(o) => {
          self.text("class", o.class);
          o.library.iter().for_each(|l| self.text("library", l));
          for (k, v) in &o.members {
            self.text("member", k);
            self.value(v);
          }
        },
        Value::Array(a) => a.iter().for_each(|v| self.value(v)),
        Value::String(s) => self.text("string", s),
        _ => (),
      }
    }
  }
  let mut l = Look { range: buffer.as_ptr_range(), out: vec![], total: 0, seen: Default::default(), buffer: std::marker::PhantomData };
  match m {
    RemotingMessage::Value(v) => l.value(v),
    RemotingMessage::MethodCall(c) => {
      l.text("method", c.method_name);
      l.text("type", c.type_name);
      c.call_context.iter().for_each(|s| l.text("context", s));
      c.args.iter().flatten().for_each(|v| l.value(v));
    },
    RemotingMessage::MethodReturn(r) => {
      r.call_context.iter().for_each(|s| l.text("context", s));
      r.return_value.iter().for_each(|v| l.value(v));
      r.args.iter().flatten().for_each(|v| l.value(v));
    },
  }
  l.out.sort();
  (l.out, l.total)
}

/// Borrowed strings that a consumer was given; those that are elsewhere.
pub fn foreign_borrowed(m: RemotingMessage<'_>, buffer: &[u8], how: u8) -> Vec<String> {
  let range = buffer.as_ptr_range();
  let inside = |s: &&&str| {
    let r = s.as_bytes().as_ptr_range();
    r.start >= range.start && r.end <= range.end
  };
  let given: Vec<&str> = match how {
    0 => <&str>::deserialize(m).into_iter().collect(),
    1 => BTreeMap::<&str, IgnoredAny>::deserialize(m).map(|m| m.into_keys().collect()).unwrap_or_default(),
    2 => Vec::<Option<&str>>::deserialize(m).map(|v| v.into_iter().flatten().collect()).unwrap_or_default(),
    3 => BTreeMap::<&str, &str>::deserialize(m).map(|m| m.into_iter().flat_map(|(k, v)| [k, v]).collect()).unwrap_or_default(),
    _ => Borrowing::deserialize(m).ok().and_then(|b| b.name).into_iter().collect(),
  };
  given.iter().filter(|s| !inside(s)).map(|s| s.to_string()).collect()
}

/// What a receiver sees of a delivery, for receivers of either build.
#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
  Message(Vec<String>),
  Error(String, String),
}

macro_rules! receiver {
  ($name:ident, $krate:ident) => {
    /// Parses and writes down everything, in an order of its own.
    pub fn $name(b: &[u8]) -> Seen {
      use $krate::{RemotingMessage, Value, value::DateTimeKind};
      fn value(v: &Value<'_>, out: &mut Vec<String>) {
        match v {
          Value::Object(o) => {
            out.push(format!("object {:?} {:?} {}", o.class, o.library, o.members.len()));
            let mut m: Vec<_> = o.members.iter().collect();
            m.sort_by_key(|(k, _)| **k);
            for (k, v) in m {
              out.push(format!("member {k:?}"));
              value(v, out);
            }
          },
          Value::Array(a) => {
            out.push(format!("array {}", a.len()));
            a.iter().for_each(|v| value(v, out));
          },
          Value::DateTime(d) => {
            let k = match d.kind() {
              Some(DateTimeKind::Utc) => "utc",
              Some(DateTimeKind::Local) => "local",
              None => "none",
            };
            out.push(format!("{d:?} {} {k}", d.ticks()));
          },
          Value::TimeSpan(t) => out.push(format!("{t:?} {}", t.value())),
          Value::Double(x) => out.push(format!("double {:x}", x.to_bits())),
          Value::Single(x) => out.push(format!("single {:x}", x.to_bits())),
          v => out.push(format!("{v:?}")),
        }
      }
      fn values(v: &Option<Vec<Value<'_>>>, out: &mut Vec<String>) {
        match v {
          Some(v) => {
            out.push(format!("arguments {}", v.len()));
            v.iter().for_each(|v| value(v, out));
          },
          None => out.push("no arguments".into()),
        }
      }
      match RemotingMessage::parse(b) {
        Ok(m) => {
          let mut out = vec![];
          match &m {
            RemotingMessage::Value(v) => value(v, &mut out),
            RemotingMessage::MethodCall(c) => {
              out.push(format!("call {:?} {:?} {:?}", c.method_name, c.type_name, c.call_context));
              values(&c.args, &mut out);
            },
            RemotingMessage::MethodReturn(r) => {
              out.push(format!("return {:?} {}", r.call_context, r.return_value.is_some()));
              r.return_value.iter().for_each(|v| value(v, &mut out));
              values(&r.args, &mut out);
            },
          }
          Seen::Message(out)
        },
        Err(e) => Seen::Error(e.to_string(), format!("{e:?}")),
      }
    }
  };
}

receiver!(seen_with_serde, nrbf);
receiver!(seen_without_serde, nrbf_plain);

#[derive(Debug)]
pub enum Equality {
  Errors { eq: [bool; 2], clone: bool },
  Mixed,
  /// `eq`: a == b, b == a, a != b, b != a. `clone_content`: a copy of a before and after a is gone, a copy of b.
  Values { content: [Msg; 2], eq: [bool; 4], clone_content: [Msg; 3], clone_eq: [bool; 2], clone_reads_other: bool },
}

/// Parses both (the second one unless it is given) and compares and copies them in every way.
pub fn equal<'a>(a: &'a [u8], b: &'a [u8], shared: Option<&RemotingMessage<'a>>) -> Equality {
  let a = RemotingMessage::parse(a);
  let own;
  let b = match shared {
    Some(m) => Ok(m),
    None => {
      own = RemotingMessage::parse(b);
      own.as_ref()
    },
  };
  match (a, b) {
    (Ok(a), Ok(b)) => {
      let (ca, cb) = (canon(&a).0, canon(b).0);
      let eq = [a == *b, *b == a, a != *b, *b != a];
      let copy = a.clone();
      let before = canon(&copy).0;
      let clone_eq = [copy == a, a == copy];
      drop(a);
      let after = canon(&copy).0;
      let clone_reads_other = copy == *b;
      drop(copy);
      let copy = b.clone();
      Equality::Values {
        content: [ca, cb],
        eq,
        clone_content: [before, after, canon(&copy).0],
        clone_eq,
        clone_reads_other,
      }
    },
    (Err(a), Err(b)) => {
      let copy = a.clone();
      Equality::Errors { eq: [a == *b, *b == a], clone: copy == a && a == copy }
    },
    _ => Equality::Mixed,
  }
}

/// The text of a parse error and the length of its debug form.
pub fn error_text(e: &nrbf::Error<'_>) -> (String, usize) {
  let c = e.clone();
  (e.to_string(), format!("{c:?}").len())
}
