//! Generates messages. Every choice comes from the given generator.

use std::collections::BTreeMap;

use simcore::Rng;

use crate::dict;
use crate::doc::*;

#[derive(Clone, Debug)]
pub struct Cfg {
  pub max_depth: usize,
  pub max_elems: usize,
  /// Percent of objects that are system wrappers or lists.
  pub special: usize,
  pub calls: usize,
  pub extras: usize,
  pub reuse: usize,
  pub late_places: usize,
  pub shared: usize,
  pub long: usize,
  /// Percent of members and elements whose slot is typed with a class.
  pub classy: usize,
  /// Percent of names that are made up.
  pub odd: usize,
}

impl Cfg {
  /// Swarm: each run gets its own mixture.
  pub fn swarm(r: &mut Rng) -> Cfg {
    Cfg {
      max_depth: 1 + r.below(4),
      max_elems: 1 + r.below(6),
      special: *r.pick(&[0, 15, 50]),
      calls: *r.pick(&[0, 30, 60]),
      extras: *r.pick(&[0, 1, 3]),
      reuse: *r.pick(&[0, 30, 70]),
      late_places: *r.pick(&[0, 40, 80]),
      shared: *r.pick(&[0, 0, 40]),
      long: *r.pick(&[0, 0, 0, 4]),
      classy: *r.pick(&[0, 10, 40]),
      odd: *r.pick(&[0, 10, 60]),
    }
  }
}

pub const PRIMS: [u8; 15] = [1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];

const NAMES: [&str; 22] = [
  "a", "b", "c", "d", "name", "value", "next", "m_value", "_items", "_size", "_version", "Δx", "key with space", "e",
  "f", "<Id>k__BackingField", "\u{0b}", "A", "x1", "x2", "x3", "",
];

const CLASSES: [&str; 12] = [
  "Foo",
  "Ns.Customer",
  "Ns.Address",
  "Point`2[[System.Int32]]",
  "Ünïcode",
  "System.Version",
  "System.Guid",
  "System.Uri",
  "System.Collections.Hashtable",
  "Bar+Nested",
  "App.Order",
  "Z",
];

const WRAPPERS: [(&str, u8); 12] = [
  ("System.Boolean", 1),
  ("System.Byte", 2),
  ("System.SByte", 10),
  ("System.Char", 3),
  ("System.Double", 6),
  ("System.Single", 11),
  ("System.Int32", 8),
  ("System.UInt32", 15),
  ("System.Int64", 9),
  ("System.UInt64", 16),
  ("System.Int16", 7),
  ("System.UInt16", 14),
];

/// Classes of the framework, with the members they are written with.
fn framework(r: &mut Rng) -> (&'static str, Vec<(&'static str, Slot)>) {
  use Slot::{Obj, ObjArr, Prim, PrimArr, Str};
  let int = || Prim(8);
  match r.below(26) {
    0 => ("System.Collections.Generic.KeyValuePair`2[[System.String, mscorlib],[System.Int32, mscorlib]]", vec![("key", Str), ("value", int())]),
    1 => (
      "System.Collections.Generic.Dictionary`2[[System.String, mscorlib],[System.Object, mscorlib]]",
      vec![("Version", int()), ("Comparer", Obj), ("HashSize", int()), ("KeyValuePairs", ObjArr)],
    ),
    2 => (
      "System.Collections.Hashtable",
      vec![
        ("LoadFactor", Prim(11)),
        ("Version", int()),
        ("Comparer", Obj),
        ("HashCodeProvider", Obj),
        ("HashSize", int()),
        ("Keys", ObjArr),
        ("Values", ObjArr),
      ],
    ),
    3 => ("System.Collections.ArrayList", vec![("_items", ObjArr), ("_size", int()), ("_version", int())]),
    4 => ("System.Collections.Generic.HashSet`1[[System.Int32]]", vec![("Version", int()), ("Comparer", Obj), ("Capacity", int()), ("Elements", ObjArr)]),
    5 => ("System.Collections.Generic.Queue`1[[System.Object]]", vec![("_array", ObjArr), ("_head", int()), ("_tail", int()), ("_size", int()), ("_version", int())]),
    6 => ("System.Collections.Generic.Stack`1[[System.String]]", vec![("_array", Slot::StrArr), ("_size", int()), ("_version", int())]),
    7 => (
      "System.Guid",
      vec![
        ("_a", int()),
        ("_b", Prim(7)),
        ("_c", Prim(7)),
        ("_d", Prim(2)),
        ("_e", Prim(2)),
        ("_f", Prim(2)),
        ("_g", Prim(2)),
        ("_h", Prim(2)),
        ("_i", Prim(2)),
        ("_j", Prim(2)),
        ("_k", Prim(2)),
      ],
    ),
    8 => ("System.Version", vec![("_Major", int()), ("_Minor", int()), ("_Build", int()), ("_Revision", int())]),
    9 => ("System.DateTime", vec![("ticks", Prim(9)), ("dateData", Prim(16))]),
    10 => ("System.TimeSpan", vec![("_ticks", Prim(9))]),
    11 => ("System.Decimal", vec![("flags", int()), ("hi", int()), ("lo", int()), ("mid", int())]),
    12 => ("System.Nullable`1[[System.Int32, mscorlib]]", vec![("hasValue", Prim(1)), ("value", int())]),
    13 => ("System.Tuple`2[[System.String],[System.Object]]", vec![("m_Item1", Str), ("m_Item2", Obj)]),
    14 => ("System.UnitySerializationHolder", vec![("Data", Str), ("UnityType", int()), ("AssemblyName", Str)]),
    15 => ("System.DayOfWeek", vec![("value__", int())]),
    16 => (
      "System.Exception",
      vec![
        ("ClassName", Str),
        ("Message", Str),
        ("Data", Obj),
        ("InnerException", Obj),
        ("HelpURL", Str),
        ("StackTraceString", Str),
        ("HResult", int()),
        ("Source", Str),
      ],
    ),
    17 => ("System.IntPtr", vec![("value", Prim(9))]),
    18 => ("System.UIntPtr", vec![("value", Prim(16))]),
    19 => ("System.Object", vec![]),
    20 => ("System.String", vec![("m_stringLength", int()), ("m_firstChar", Prim(3))]),
    21 => ("System.Text.StringBuilder", vec![("m_MaxCapacity", int()), ("Capacity", int()), ("m_StringValue", Str), ("m_currentThread", int())]),
    22 => ("System.Uri", vec![("AbsoluteUri", Str)]),
    23 => ("System.Collections.Generic.LinkedList`1[[System.Object]]", vec![("Version", int()), ("Count", int()), ("Data", ObjArr)]),
    24 => ("System.Numerics.BigInteger", vec![("_sign", int()), ("_bits", PrimArr(15))]),
    _ => ("System.DBNull", vec![("m_value", Obj)]),
  }
}

const LIBS: [&str; 4] =
  ["App, Version=1.0.0.0", "Lib, Version=2.1.0.0, Culture=neutral", "mscorlib", "Söme.Lib"];

/// Bytes that mean something elsewhere in the format.
const MAGIC: [u8; 16] = [0, 1, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 255];

struct Shape {
  class: String,
  lib: u8,
  typed: bool,
  members: Vec<(String, Slot)>,
}

pub struct Gen<'r> {
  pub r: &'r mut Rng,
  pub cfg: Cfg,
  shapes: Vec<Shape>,
  uniq: u32,
}

pub fn string(r: &mut Rng, long: usize) -> String {
  let plain = r.below(14);
  if plain == 12 {
    if let Some(s) = dict::text(r) {
      return s;
    }
  }
  let n = match plain {
    0 => 0,
    1 => 1,
    13 if r.one_in(3) => dict::size(r, if long > 0 { 20_000 } else { 700 }).unwrap_or(3),
    2 if long > 0 => {
      let n = *r.pick(&[126, 127, 128, 129, 255, 256, 300, 16383, 16384]);
      if r.one_in(4) || n <= 300 { n } else { n / 8 }
    },
    _ => 2 + r.below(9),
  };
  let style = r.below(6);
  (0..n)
    .map(|_| match style {
      0 => (b'a' + r.below(26) as u8) as char,
      1 => *r.pick(&['ä', '€', '😀', 'z', '\u{0}', '\u{b}', '\u{c}', '\u{6}', '"']),
      2 => (0x20 + r.below(0x5f) as u8) as char,
      3 => any_char(r, true),
      4 => {
        // Mostly plain text.
        if r.one_in(5) { any_char(r, true) } else { (b'a' + r.below(26) as u8) as char }
      },
      _ => *r.pick(&[' ', 'S', 'y', 's', '.', '`', '1']),
    })
    .collect()
}

/// Any character, whatever its length in UTF-8.
pub fn any_char(r: &mut Rng, astral: bool) -> char {
  let top = [0x80, 0x800, 0x1_0000, 0x11_0000];
  let k = r.below(if astral { 4 } else { 3 });
  let (low, high) = (if k == 0 { 0 } else { top[k - 1] }, top[k]);
  let edge = r.below(6);
  let c = match edge {
    0 => low,
    1 => high - 1,
    _ => low + r.below((high - low) as usize) as u32,
  };
  char::from_u32(c).unwrap_or('\u{d7ff}')
}

fn bits(r: &mut Rng) -> u64 {
  match r.below(9) {
    8 => dict::number_near(r).unwrap_or(7),
    0 => 0,
    1 => u64::MAX,
    2 => *r.pick(&MAGIC) as u64,
    3 => *r.pick(&MAGIC) as u64 | (*r.pick(&MAGIC) as u64) << 8,
    4 => 1 << r.below(64),
    5 => (1u64 << r.below(64)).wrapping_sub(1),
    _ => r.next(),
  }
}

/// A text that is almost the given one.
fn near(r: &mut Rng, s: &str) -> String {
  let mut c: Vec<char> = s.chars().collect();
  match r.below(6) {
    0 => return s.to_ascii_lowercase(),
    1 => return s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    2 => c.push(*r.pick(&[' ', '\u{0}', 's', '\u{301}', '\n'])),
    3 => drop(c.pop()),
    4 => c.insert(0, *r.pick(&[' ', 'x', '\u{feff}'])),
    _ => match c.len() {
      0 => c.push('_'),
      n => {
        let at = *r.pick(&[0, n / 2, n - 1]);
        c[at] = if c[at] == 'Q' { 'q' } else { 'Q' };
      },
    },
  }
  c.into_iter().collect()
}

fn decimal(r: &mut Rng) -> String {
  if r.one_in(4) {
    // Long ones that differ in one place.
    let mut s = *r.pick(&["1234567890.123456789", "987654321.00000001", "10000000000000000000", "0.0000000000000000001"]);
    if r.one_in(2) {
      s = "7000000.123456";
    }
    let mut b = s.as_bytes().to_vec();
    let at = match r.below(3) {
      0 => 0,
      1 => b.len() - 1,
      _ => r.below(b.len()),
    };
    if b[at] != b'.' {
      b[at] = b'1' + r.below(9) as u8;
    }
    let s = String::from_utf8(b).unwrap();
    return if valid_decimal(&s) { s } else { "2.50".into() };
  }
  let mut s = String::new();
  if r.one_in(3) {
    s.push('-');
  }
  let most = *r.pick(&[5, 5, 5, 20, 28]);
  let n = 1 + r.below(most);
  if r.one_in(3) {
    s.push('0');
  } else {
    s.push((b'1' + r.below(9) as u8) as char);
    for _ in 1..n {
      s.push((b'0' + r.below(10) as u8) as char);
    }
  }
  if r.one_in(2) {
    s.push('.');
    let digits = if r.one_in(6) { 27 } else { 6 };
    for _ in 0..1 + r.below(digits) {
      s.push((b'0' + r.below(10) as u8) as char);
    }
  }
  if valid_decimal(&s) { s } else { "1.50".into() }
}

pub fn prim(r: &mut Rng, code: u8) -> P {
  // The lowest and highest of a width, too.
  let width = match code {
    2 | 10 => 8,
    7 | 14 => 16,
    8 | 11 | 15 => 32,
    _ => 64,
  };
  let b = if r.one_in(12) { (1u64 << (width - 1)).wrapping_sub(r.below(2) as u64) } else { bits(r) };
  match code {
    1 => P::Bool(b & 1 == 1),
    2 => P::U8(b as u8),
    3 => P::Char(match r.below(7) {
      6 => dict::text(r).and_then(|s| s.chars().next()).filter(|c| *c <= '\u{ffff}').unwrap_or('\u{feff}'),
      5 => any_char(r, false),
      0 => 'ä',
      1 => '€',
      2 => *r.pick(&['\u{0}', '\u{b}', '\u{c}', '\u{7f}', '\u{85}', '\u{a0}', '\u{301}', '\u{200b}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{ffff}']),
      _ => (0x20 + (b % 0x5f) as u8) as char,
    }),
    5 => P::Dec(decimal(r)),
    6 => P::F64(if r.one_in(2) { (b as i16 as f64 / 4.0).to_bits() } else { b }),
    7 => P::I16(b as i16),
    8 => P::I32(b as i32),
    9 => P::I64(b as i64),
    10 => P::I8(b as i8),
    11 => P::F32(if r.one_in(2) { (b as i16 as f32 / 4.0).to_bits() } else { b as u32 }),
    12 => P::Ts(b as i64),
    13 => P::Dt(if r.one_in(2) { (b >> 2) as i64 | ((r.below(3) as i64) << 62) } else { b as i64 }),
    14 => P::U16(b as u16),
    15 => P::U32(b as u32),
    _ => P::U64(b),
  }
}

impl<'r> Gen<'r> {
  pub fn new(r: &'r mut Rng, cfg: Cfg) -> Self {
    Gen { r, cfg, shapes: vec![], uniq: 0 }
  }

  fn chance(&mut self, percent: usize) -> bool {
    self.r.below(100) < percent
  }

  fn place(&mut self) -> Place {
    if self.chance(self.cfg.late_places) {
      if self.r.one_in(3) { Place::Before } else { Place::After }
    } else {
      Place::Inline
    }
  }

  fn str_node(&mut self) -> Node {
    if self.chance(self.cfg.shared) {
      let k = 1 + self.r.below(2) as u8;
      return Node::Str { s: format!("shared{k}"), place: Place::Inline, share: k };
    }
    let s = string(self.r, self.cfg.long);
    // Most strings are written in their slot.
    let place = if self.r.one_in(3) { self.place() } else { Place::Inline };
    Node::Str { s, place, share: 0 }
  }

  fn count(&mut self) -> usize {
    self.r.below(self.cfg.max_elems + 1)
  }

  fn names(&mut self, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
      let s = if self.chance(self.cfg.odd) || self.r.one_in(12) { string(self.r, self.cfg.long) } else { self.name() };
      if !v.contains(&s) {
        v.push(s);
      } else if v.len() > 8 {
        v.push(format!("m{}", v.len()));
      }
    }
    v
  }

  fn name(&mut self) -> String {
    if self.r.one_in(14) {
      if let Some(s) = dict::text(self.r) {
        return s;
      }
    }
    self.r.pick(&NAMES).to_string()
  }

  fn new_shape(&mut self, depth: usize) -> usize {
    if self.chance(self.cfg.special) {
      return self.special_shape();
    }
    self.uniq += 1;
    if self.r.one_in(7) {
      let (class, members) = framework(self.r);
      let lib = if self.r.one_in(6) { 3 } else { 0 };
      if self.r.one_in(4) || !self.shapes.iter().any(|s| s.class == class && s.lib == lib) {
        let members = members.into_iter().map(|(n, s)| (n.to_string(), s)).collect();
        let typed = !self.r.one_in(4);
        self.shapes.push(Shape { class: class.into(), lib, typed, members });
        return self.shapes.len() - 1;
      }
    }
    let lib = if self.r.one_in(2) { 1 + self.r.below(3) as u8 } else { 0 };
    let mut class = if lib != 0 && self.r.one_in(8) {
      // A user class that merely looks like a system class.
      self.r.pick(&["System.Int32", "System.Collections.Generic.List`1", "System.String"]).to_string()
    } else if self.chance(self.cfg.odd) {
      string(self.r, self.cfg.long)
    } else if !self.shapes.is_empty() && self.r.one_in(8) {
      let k = self.r.below(self.shapes.len());
      near(self.r, &self.shapes[k].class.clone())
    } else {
      let known = if self.r.one_in(10) { dict::text(self.r) } else { None };
      known.unwrap_or_else(|| self.r.pick(&CLASSES).to_string())
    };
    // Classes of one name may differ in their members, as those of ISerializable objects do.
    if self.shapes.iter().any(|s| s.class == class && s.lib == lib) && !self.r.one_in(4) {
      class = format!("C{}", self.uniq);
    }
    let typed = !self.r.one_in(4);
    let n = self.count().min(8);
    let names = self.names(n);
    let members = names
      .into_iter()
      .map(|n| {
        let slot = self.slot(depth);
        (n, slot)
      })
      .collect();
    self.shapes.push(Shape { class, lib, typed, members });
    self.shapes.len() - 1
  }

  fn special_shape(&mut self) -> usize {
    let typed = !self.r.one_in(4);
    if self.r.one_in(2) {
      let (class, code) = *self.r.pick(&WRAPPERS);
      let mut members = vec![("m_value".to_string(), Slot::Prim(code))];
      if self.r.one_in(12) {
        members.push(("a".into(), Slot::Prim(8)));
      }
      if self.r.one_in(20) {
        members[0].0 = "value".into();
      }
      self.shapes.push(Shape { class: class.into(), lib: 0, typed, members });
    } else {
      let items = match self.r.below(4) {
        0 => Slot::PrimArr(8),
        1 => Slot::StrArr,
        2 => Slot::ObjArr,
        _ => Slot::PrimArr(*self.r.pick(&PRIMS)),
      };
      let mut members = vec![
        ("_items".to_string(), items),
        ("_size".to_string(), Slot::Prim(8)),
        ("_version".to_string(), Slot::Prim(8)),
      ];
      let k = self.r.below(3);
      members.rotate_left(k);
      if self.r.one_in(15) {
        members.push(("_extra".into(), Slot::Obj));
      }
      let class = self.r.pick(&[
        "System.Collections.Generic.List`1[[System.Int32, mscorlib]]",
        "System.Collections.Generic.List`1[[System.String, mscorlib]]",
        "System.Collections.Generic.List`1",
      ]);
      self.shapes.push(Shape { class: class.to_string(), lib: 0, typed, members });
    }
    self.shapes.len() - 1
  }

  fn slot(&mut self, depth: usize) -> Slot {
    if depth > 0 && self.chance(self.cfg.classy) {
      let k = self.any_shape(depth - 1);
      return self.class_slot(k);
    }
    match self.r.below(11) {
      0..=3 => Slot::Prim(*self.r.pick(&PRIMS)),
      4 | 5 => Slot::Str,
      6 => Slot::Obj,
      7 => Slot::ObjArr,
      8 => Slot::StrArr,
      9 => Slot::PrimArr(*self.r.pick(&PRIMS)),
      _ => {
        if depth == 0 {
          return Slot::Obj;
        }
        let k = self.any_shape(depth - 1);
        self.class_slot(k)
      },
    }
  }

  fn class_slot(&self, k: usize) -> Slot {
    let s = &self.shapes[k];
    if s.lib == 0 { Slot::Sys(s.class.clone()) } else { Slot::Cls(s.class.clone(), s.lib) }
  }

  fn any_shape(&mut self, depth: usize) -> usize {
    if !self.shapes.is_empty() && self.chance(self.cfg.reuse) {
      self.r.below(self.shapes.len())
    } else {
      self.new_shape(depth)
    }
  }

  fn instance(&mut self, k: usize, depth: usize, place: Place) -> Node {
    let (class, lib, typed) = (self.shapes[k].class.clone(), self.shapes[k].lib, self.shapes[k].typed);
    let members: Vec<(String, Slot)> = self.shapes[k].members.clone();
    let list = lib == 0 && class.starts_with("System.Collections.Generic.List");
    let mut out: Vec<Member> = vec![];
    for (name, slot) in members {
      let mut node = self.node(&slot, depth.saturating_sub(1));
      let room = matches!(slot, Slot::Obj | Slot::ObjArr | Slot::StrArr | Slot::PrimArr(_));
      if list && room && name == "_items" && matches!(node, Node::Null) && !self.r.one_in(6) {
        let n = self.count();
        node = self.array_for(&slot, n, depth.saturating_sub(1));
      }
      out.push(Member { name, slot, node });
    }
    if list {
      let len = out
        .iter()
        .find_map(|m| match &m.node {
          Node::Arr(a) if m.name == "_items" => Some(match &a.body {
            ArrBody::Prim(_, v) => v.len(),
            ArrBody::Obj(v) | ArrBody::Str(v) => v.len(),
            ArrBody::Bin { dims, .. } => dims[0] as usize,
          }),
          _ => None,
        })
        .unwrap_or(0) as i32;
      let size = match self.r.below(8) {
        0 => len + 1,
        1 => *self.r.pick(&[-1, i32::MIN, i32::MAX, len + 2]),
        2 => 0,
        3 | 4 => len,
        _ => self.r.below(len as usize + 1) as i32,
      };
      for m in &mut out {
        if m.name == "_size" && m.slot == Slot::Prim(8) {
          m.node = Node::P(P::I32(size));
        }
      }
    }
    let with_id = self.chance(self.cfg.reuse);
    Node::Obj(Box::new(Obj { class, lib, typed, with_id, place, members: out }))
  }

  fn prims(&mut self, code: u8, n: usize) -> Vec<P> {
    (0..n).map(|_| prim(self.r, code)).collect()
  }

  fn elems(&mut self, slot: &Slot, n: usize, depth: usize) -> Vec<Node> {
    let mut v = vec![];
    while v.len() < n {
      if !matches!(slot, Slot::Prim(_)) && self.r.one_in(4) {
        let run = match self.r.below(20) {
          0 => 1 + self.r.below(300),
          1 => dict::size(self.r, 300).unwrap_or(2),
          _ => 1 + self.r.below(4),
        };
        for _ in 0..run.min(n - v.len()) {
          v.push(Node::Null);
        }
      } else {
        v.push(self.node(slot, depth));
      }
    }
    v
  }

  fn bin(&mut self, depth: usize) -> ArrBody {
    let slot = self.slot(depth);
    let kind = self.r.below(6) as u8;
    let rank = match kind {
      2 | 5 if self.r.one_in(4) => 4 + self.r.below(3),
      2 | 5 if self.r.one_in(40) => 32,
      2 | 5 => 1 + self.r.below(3),
      _ => 1,
    };
    // Not too many elements in all.
    let mut room = 36;
    let mut dims: Vec<u32> = (0..rank)
      .map(|_| {
        let d = (1 + self.r.below(3) as u32).min(room);
        room = (room / d).max(1);
        d
      })
      .collect();
    if rank > 3 {
      // The large ones are not always first.
      let by = self.r.below(rank);
      dims.rotate_left(by);
    }
    if self.r.one_in(10) {
      dims[0] = 0;
    }
    if rank == 1 {
      dims[0] = self.count() as u32;
    }
    let bounds = (0..rank).map(|_| if self.r.one_in(4) { bits(self.r) as i32 } else { self.r.below(9) as i32 - 4 }).collect();
    let n = dims.iter().product::<u32>() as usize;
    let elems = self.elems(&slot, n, depth);
    ArrBody::Bin { kind, dims, bounds, slot, elems }
  }

  fn array_for(&mut self, slot: &Slot, n: usize, depth: usize) -> Node {
    let place = if self.r.one_in(4) { Place::Before } else { Place::After };
    let n = match self.r.below(80) {
      0 => n + self.r.below(400),
      1 if depth < 3 => dict::size(self.r, 1100).unwrap_or(n),
      _ => n,
    };
    let body = match slot {
      Slot::PrimArr(c) => ArrBody::Prim(*c, self.prims(*c, n)),
      Slot::StrArr => ArrBody::Str(self.elems(&Slot::Str, n, depth)),
      Slot::ObjArr => ArrBody::Obj(self.elems(&Slot::Obj, n, depth)),
      _ => match self.r.below(4) {
        0 => {
          let c = *self.r.pick(&PRIMS);
          ArrBody::Prim(c, self.prims(c, n))
        },
        1 => ArrBody::Str(self.elems(&Slot::Str, n, depth)),
        2 => ArrBody::Obj(self.elems(&Slot::Obj, n, depth)),
        _ => self.bin(depth),
      },
    };
    Node::Arr(Box::new(Arr { place, body }))
  }

  pub fn node(&mut self, slot: &Slot, depth: usize) -> Node {
    if !matches!(slot, Slot::Prim(_)) && self.r.one_in(6) {
      return Node::Null;
    }
    match slot {
      Slot::Prim(c) => Node::P(prim(self.r, *c)),
      Slot::Str => self.str_node(),
      Slot::Obj => {
        let k = if depth == 0 { self.r.below(2) } else { self.r.below(5) };
        match k {
          0 => {
            let c = *self.r.pick(&PRIMS);
            Node::P(prim(self.r, c))
          },
          1 => self.str_node(),
          2 => {
            let n = self.count();
            self.array_for(slot, n, depth - 1)
          },
          _ => {
            let k = self.any_shape(depth - 1);
            let place = self.place();
            self.instance(k, depth - 1, place)
          },
        }
      },
      Slot::Sys(_) | Slot::Cls(..) => {
        if depth == 0 && self.r.one_in(2) {
          return Node::Null;
        }
        let found = (0..self.shapes.len()).find(|k| self.class_slot(*k) == *slot);
        match found {
          Some(k) if self.shapes[k].members.is_empty() || depth > 0 => {
            let place = self.place();
            self.instance(k, depth.saturating_sub(1), place)
          },
          _ => Node::Null,
        }
      },
      Slot::ObjArr | Slot::StrArr | Slot::PrimArr(_) => {
        let n = self.count();
        self.array_for(slot, n, depth.saturating_sub(1))
      },
    }
  }

  /// A node that can stand at top level.
  pub fn top(&mut self) -> Node {
    let depth = self.cfg.max_depth;
    match self.r.below(8) {
      0 => Node::Str { s: string(self.r, self.cfg.long), place: Place::Inline, share: 0 },
      1 | 2 => {
        let n = self.count();
        let k = self.array_for(&Slot::Obj, n, depth - 1);
        k
      },
      3 => {
        let body = self.bin(depth - 1);
        Node::Arr(Box::new(Arr { place: Place::After, body }))
      },
      _ => {
        let k = self.any_shape(depth);
        self.instance(k, depth, Place::Inline)
      },
    }
  }

  fn extras(&mut self) -> Vec<Node> {
    let n = self.r.below(self.cfg.extras + 1);
    (0..n).map(|_| self.top()).collect()
  }

  fn inline_args(&mut self) -> Vec<P> {
    (0..self.count())
      .map(|_| match self.r.below(5) {
        0 => P::Null,
        1 => P::Str(string(self.r, self.cfg.long)),
        _ => {
          let c = *self.r.pick(&PRIMS);
          prim(self.r, c)
        },
      })
      .collect()
  }

  fn args(&mut self) -> Args {
    match self.r.below(5) {
      0 => Args::Absent,
      1 => Args::No,
      2 => Args::Inline(self.inline_args()),
      k => {
        let n = self.count();
        let e = self.elems(&Slot::Obj, n, self.cfg.max_depth - 1);
        if k == 3 { Args::IsArray(e) } else { Args::InArray(e) }
      },
    }
  }

  fn entry(&mut self) -> Node {
    let d = self.cfg.max_depth - 1;
    self.node(&Slot::Obj, d)
  }

  fn more(&mut self, call: bool) -> More {
    let mut items = vec![];
    if self.r.one_in(3) {
      for flag in if call { &[0x8000, 0x80, 0x40, 0x100][..] } else { &[0x40, 0x100] } {
        if self.r.one_in(2) {
          let n = self.entry();
          items.push((*flag, n));
        }
      }
    }
    More { items, args_before: self.r.one_in(4) }
  }

  pub fn doc(&mut self) -> Doc {
    let pre = self.extras();
    let call = self.chance(self.cfg.calls);
    let body = if call {
      let args = self.args();
      let ctx = if self.r.one_in(3) { Some(string(self.r, self.cfg.long)) } else { None };
      let no_ctx_flag = self.r.one_in(2);
      let root = if self.r.one_in(2) { 0 } else { 1 + self.r.below(1000) as i32 };
      if self.r.one_in(2) {
        Body::Call {
          method: string(self.r, self.cfg.long),
          typ: string(self.r, self.cfg.long),
          ctx,
          no_ctx_flag,
          args,
          extra: 0,
          root,
          more: self.more(true),
        }
      } else {
        let value = match self.r.below(7) {
          5 | 6 => Ret::InArray({
            let d = self.cfg.max_depth - 1;
            self.node(&Slot::Obj, d)
          }),
          0 => Ret::Absent,
          1 => Ret::No,
          2 => Ret::Void,
          _ => Ret::Inline({
            let v = self.inline_args();
            v.into_iter().next().unwrap_or(P::Null)
          }),
        };
        let mut more = self.more(false);
        let (mut value, mut args) = (value, args);
        if self.r.one_in(10) {
          // The method has thrown: neither arguments nor a return value.
          (value, args) = (Ret::Absent, Args::Absent);
          let n = self.entry();
          more.items.insert(0, (0x2000, n));
        }
        Body::Return { value, ctx, no_ctx_flag, args, extra: 0, root, more }
      }
    } else if self.r.one_in(30) {
      Body::Empty
    } else {
      Body::Root(self.top())
    };
    let mut post = self.extras();
    let no_array = matches!(body, Body::Call { .. } | Body::Return { .. }) && body.call_items().is_none();
    if no_array {
      // Directly after a call without a call array, an object array would be taken for one.
      post.retain(|n| !matches!(n, Node::Arr(a) if matches!(a.body, ArrBody::Obj(_))));
      let mut keep = vec![];
      for n in post {
        if !has_backward_array(&n) {
          keep.push(n);
        }
      }
      post = keep;
    }
    let spare_libs = if self.r.one_in(6) { vec![1 + self.r.below(4) as u8] } else { vec![] };
    let mut libs: Vec<String> = LIBS.iter().map(|s| s.to_string()).collect();
    if self.r.one_in(4) {
      let s = string(self.r, self.cfg.long);
      if !libs.contains(&s) {
        let k = self.r.below(libs.len());
        libs[k] = s;
      }
    }
    if self.r.one_in(5) {
      let (j, k) = (self.r.below(libs.len()), self.r.below(libs.len()));
      let s = near(self.r, &libs[j].clone());
      if !libs.contains(&s) {
        libs[k] = s;
      }
    }
    let (id_base, id_step) = match self.r.below(10) {
      0 => (i32::MAX - 100_000, 1 + self.r.below(3) as i32),
      1 => (256 * (1 + self.r.below(1000) as i32), 256),
      2 => (2 + self.r.below(100) as i32, 3),
      3 => (dict::size(self.r, 1 << 30).unwrap_or(7) as i32, 1),
      _ => (1, 1),
    };
    Doc {
      header_id: if self.r.one_in(8) { bits(self.r) as i32 } else { *self.r.pick(&[-1, -1, 0, 1, i32::MIN, i32::MAX]) },
      id_base,
      id_step,
      libs,
      spare_libs,
      null_mode: self.r.below(4) as u8,
      pre,
      body,
      post,
      near_libs: self.r.one_in(2),
      early_libs: if self.r.one_in(3) {
        (0..1 + self.r.below(3)).map(|_| (self.r.below(8) as u32, 1 + self.r.below(4) as u8)).collect()
      } else {
        BTreeMap::new()
      },
    }
  }
}

/// Whether something is written in front of the node that could be an object array.
fn has_backward_array(n: &Node) -> bool {
  match n {
    Node::Obj(o) => o.members.iter().any(|m| has_backward_array(&m.node)),
    Node::Arr(a) => {
      a.place == Place::Before
        || matches!(a.body, ArrBody::Obj(_))
        || match &a.body {
          ArrBody::Obj(e) | ArrBody::Str(e) => e.iter().any(has_backward_array),
          ArrBody::Bin { elems, .. } => elems.iter().any(has_backward_array),
          _ => false,
        }
    },
    _ => false,
  }
}

/// A message with one large part: sizes around the widths in which counts could be kept.
/// Nulls, with something at either end or in the middle.
fn null_run(r: &mut Rng, mut d: Doc, n: usize) -> Doc {
  let mut v = vec![Node::Null; n];
  for _ in 0..r.below(3) {
    let i = if r.one_in(2) { *r.pick(&[0, v.len()]) } else { r.below(v.len() + 1) };
    v.insert(i, Node::P(P::I32(bits(r) as i32)));
  }
  d.null_mode = *r.pick(&[1, 2, 2, 2, 3]);
  let body = match r.below(3) {
    0 => ArrBody::Obj(v),
    1 => {
      v.iter_mut().filter(|n| **n != Node::Null).for_each(|n| {
        *n = Node::Str { s: "x".into(), place: Place::Inline, share: 0 };
      });
      ArrBody::Str(v)
    },
    _ => ArrBody::Bin { kind: 0, dims: vec![v.len() as u32], bounds: vec![], slot: Slot::Obj, elems: v },
  };
  d.body = Body::Root(Node::Arr(Box::new(Arr { place: Place::After, body })));
  d
}

/// Runs of nulls about the limits of the integers that may count them.
pub fn null_doc(r: &mut Rng) -> Doc {
  let mut cfg = Cfg::swarm(r);
  cfg.max_depth = 2;
  cfg.max_elems = 2;
  cfg.calls = 0;
  cfg.extras = 1;
  cfg.long = 0;
  let d = Gen::new(r, cfg).doc();
  let known = if r.one_in(5) { dict::size(r, 70_000) } else { None };
  let n = known.unwrap_or_else(|| *r.pick(&[126, 127, 128, 254, 255, 256, 257, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000]));
  null_run(r, d, n)
}

pub fn wide_doc(r: &mut Rng, most: usize) -> Doc {
  let kind = r.below(12);
  wide(r, most, kind)
}

/// An object of many members.
pub fn wide_object(r: &mut Rng, most: usize) -> Doc {
  wide(r, most, 4)
}

fn wide(r: &mut Rng, most: usize, kind: usize) -> Doc {
  let sizes: Vec<usize> =
    [127, 128, 129, 255, 256, 257, 511, 512, 700, 1024, 1025, 4096, 16384, 32767, 32768, 65535, 65536, 70000]
      .into_iter()
      .filter(|n| *n <= most)
      .collect();
  let n = if r.one_in(4) { dict::size(r, most) } else { None }.unwrap_or_else(|| *r.pick(&sizes));
  let arr = |body| Node::Arr(Box::new(Arr { place: Place::After, body }));
  let num = |r: &mut Rng| Node::P(P::I32(bits(r) as i32));
  let mut cfg = Cfg::swarm(r);
  cfg.max_depth = 2;
  cfg.max_elems = 2;
  cfg.calls = 0;
  cfg.extras = 1;
  cfg.long = 0;
  let mut d = Gen::new(r, cfg).doc();
  let few = n.min(if most > 30_000 && r.one_in(3) { 9000 } else { 1100 });
  match kind {
    0 => {
      let c = *r.pick(&PRIMS);
      d.body = Body::Root(arr(ArrBody::Prim(c, (0..n).map(|_| prim(r, c)).collect())));
    },
    1 | 2 => return null_run(r, d, n),
    3 => {
      let s: String = if r.one_in(2) { "y".repeat(n) } else { "ß".repeat(n / 2) + &"y".repeat(n % 2) };
      d.body = Body::Root(Node::Str { s, place: Place::Inline, share: 0 });
    },
    4 => {
      let typed = r.one_in(2);
      let members = (0..few)
        .map(|k| Member { name: format!("m{k}"), slot: Slot::Prim(8), node: num(r) })
        .collect();
      d.body = Body::Root(Node::Obj(Box::new(Obj {
        class: "Wide".into(),
        lib: r.below(2) as u8,
        typed,
        with_id: false,
        place: Place::Inline,
        members,
      })));
    },
    5 => {
      let args = (0..few).map(|_| P::I32(bits(r) as i32)).collect();
      d.body = Body::Call {
        method: "m".into(),
        typ: "t".into(),
        ctx: None,
        no_ctx_flag: true,
        args: Args::Inline(args),
        extra: 0,
        root: 0,
        more: More::default(),
      };
      d.post.clear();
    },
    6 => {
      let v = (0..few).map(|_| num(r)).collect();
      d.body = Body::Return {
        value: Ret::Void,
        ctx: None,
        no_ctx_flag: true,
        args: if r.one_in(2) { Args::InArray(v) } else { Args::IsArray(v) },
        extra: 0,
        root: 0,
        more: More::default(),
      };
    },
    7 => {
      // Long and thin in either direction.
      let (a, b) = *r.pick(&[(1, 0), (2, 1), (3, 1)]);
      let m = few / 2 + 1;
      let dims = if b == 0 { vec![m as u32, a] } else { vec![a, m as u32] };
      let n = dims.iter().product::<u32>() as usize;
      d.body = Body::Root(arr(ArrBody::Bin {
        kind: 2,
        dims,
        bounds: vec![],
        slot: Slot::Prim(2),
        elems: (0..n).map(|_| Node::P(P::U8(r.next() as u8))).collect(),
      }));
    },
    8 => {
      // Many objects of few classes.
      let v = (0..few)
        .map(|k| {
          Node::Obj(Box::new(Obj {
            class: format!("K{}", k % 3),
            lib: (k % 2) as u8,
            typed: true,
            with_id: true,
            place: *r.pick(&[Place::Inline, Place::After, Place::Before]),
            members: vec![Member { name: "v".into(), slot: Slot::Prim(8), node: Node::P(P::I32(k as i32)) }],
          }))
        })
        .collect();
      d.body = Body::Root(arr(ArrBody::Obj(v)));
    },
    9 => {
      // Many strings, some of them shared.
      let v = (0..few)
        .map(|k| Node::Str {
          s: format!("s{}", k % 50),
          place: *r.pick(&[Place::Inline, Place::After, Place::Before]),
          share: *r.pick(&[0, 0, 1, 2]),
        })
        .collect();
      d.body = Body::Root(arr(if r.one_in(2) { ArrBody::Obj(v) } else { ArrBody::Str(v) }));
    },
    10 => {
      // A chain.
      let mut node = num(r);
      let links = if r.one_in(4) { dict::size(r, 120) } else { None }.unwrap_or_else(|| 40 + r.below(60));
      for k in 0..links {
        node = match r.below(3) {
          0 => Node::Arr(Box::new(Arr {
            place: *r.pick(&[Place::After, Place::Before]),
            body: ArrBody::Obj(vec![num(r), node]),
          })),
          _ => Node::Obj(Box::new(Obj {
            class: format!("C{k}"),
            lib: 0,
            typed: false,
            with_id: false,
            place: *r.pick(&[Place::Inline, Place::After, Place::Before]),
            members: vec![
              Member { name: "a".into(), slot: Slot::Obj, node: num(r) },
              Member { name: "next".into(), slot: Slot::Obj, node },
            ],
          })),
        };
      }
      if matches!(node, Node::P(_)) {
        node = arr(ArrBody::Obj(vec![node]));
      }
      d.body = Body::Root(node);
    },
    _ => {
      // Many messages' worth of unrelated objects in front.
      d.pre = (0..few)
        .map(|k| Node::Str { s: format!("p{k}"), place: Place::Inline, share: 0 })
        .collect();
    },
  }
  d
}

pub fn doc(r: &mut Rng) -> Doc {
  let cfg = Cfg::swarm(r);
  Gen::new(r, cfg).doc()
}

pub fn small_doc(r: &mut Rng) -> Doc {
  let mut cfg = Cfg::swarm(r);
  cfg.max_depth = cfg.max_depth.min(2);
  cfg.max_elems = cfg.max_elems.min(3);
  cfg.extras = cfg.extras.min(1);
  cfg.long = 0;
  Gen::new(r, cfg).doc()
}
