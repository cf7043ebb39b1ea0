//! The fault catalogue: what the medium between sender and receiver does to a message, and what may be concluded.

use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};
use simcore::{Msg, Rng};

use crate::doc::{self, Doc, Encoded, Kind, SlotKind, varint};
use crate::generate;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Claim {
  /// The message must be rejected.
  Reject,
  /// Only content changed (or nothing at all); the reference model says what to expect.
  Content,
  /// No claim.
  Unknown,
}

/// Damage to one field, addressed by its position in the encoding.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FieldFault {
  pub ord: u32,
  pub bytes: Vec<u8>,
  pub claim: Claim,
  pub what: String,
}

/// Damage to the byte stream; positions are taken modulo its length.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Medium {
  Flip { off: u32, bit: u8 },
  Set { off: u32, byte: u8 },
  Lose { off: u32, len: u32 },
  Repeat { off: u32, len: u32 },
  Swap { off: u32, len: u32, to: u32 },
  Insert { off: u32, bytes: Vec<u8> },
  Zero { off: u32, len: u32 },
  Torn { len: u32 },
  /// The tail is that of another message (a torn write over older content).
  Splice { off: u32, other: Box<Doc> },
  /// A record is lost.
  LoseRecord { index: u32, claim: Claim },
  /// A record arrives twice.
  TwiceRecord { index: u32, claim: Claim },
  /// A record that cannot stand between two others arrives there.
  StrayRecord { index: u32, bytes: Vec<u8>, claim: Claim },
}

impl Medium {
  pub fn name(&self) -> &'static str {
    match self {
      Medium::Flip { .. } => "bit flip",
      Medium::Set { .. } => "byte overwritten",
      Medium::Lose { .. } => "bytes lost",
      Medium::Repeat { .. } => "bytes duplicated",
      Medium::Swap { .. } => "blocks reordered",
      Medium::Insert { .. } => "bytes inserted",
      Medium::Zero { .. } => "block zeroed",
      Medium::Torn { .. } => "tail lost",
      Medium::Splice { .. } => "stale tail",
      Medium::LoseRecord { .. } => "record lost",
      Medium::TwiceRecord { .. } => "record duplicated",
      Medium::StrayRecord { .. } => "stray record",
    }
  }
}

/// Messages that are large in one direction.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Shape {
  FlatStrings(u32),
  WideClass(u32),
  ObjArray(u32),
  PrimArray(u32),
  Nulls(u32),
  Libraries(u32),
  Objects(u32),
  References(u32),
  LongString(u32),
  Rank(u32),
  Dims(u32, u32),
  NestInline(u32),
  NestAfter(u32),
  NestArrays(u32),
  Args(u32),
  /// Levels, width: every level refers to the one before it several times.
  Dag(u32, u32),
  /// One array of n elements, referred to n times.
  SharedArray(u32),
  SharedObject(u32),
  SharedString(u32),
  CallArray(u32),
  ReturnArray(u32),
  NestTyped(u32),
  /// One class, n objects of it.
  Reuse(u32),
  StringArray(u32),
  BinArray(u32),
  SameNames(u32),
  Decimals(u32),
  /// n classes with a typed member whose class is defined by the next.
  Lists(u32),
  /// Objects of one class (how many), with one name of so many bytes: of the class, its member, its library, or the
  /// class its member is declared with; or each holds the next.
  Long(u8, u32, u32),
  /// So many nulls in a BinaryArray of so many dimensions, all but the first of length one.
  Rows(u32, u32),
  /// Any records in almost any places; seed and size.
  Soup(u64, u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct DocPlan {
  pub doc: Doc,
  #[serde(default)]
  pub shape: Option<Shape>,
  #[serde(default)]
  pub fields: Vec<FieldFault>,
  #[serde(default)]
  pub medium: Vec<Medium>,
}

pub struct Delivered {
  pub bytes: Vec<u8>,
  pub claim: Claim,
  pub msg: Msg,
  pub enc: Encoded,
}

impl DocPlan {
  pub fn intact(doc: Doc) -> DocPlan {
    DocPlan { doc, shape: None, fields: vec![], medium: vec![] }
  }

  pub fn deliver(&self) -> Delivered {
    let over: BTreeMap<u32, Vec<u8>> = self.fields.iter().map(|f| (f.ord, f.bytes.clone())).collect();
    let enc = doc::encode(&self.doc, &over);
    let mut claim = Claim::Content;
    if enc.illegal {
      claim = Claim::Reject;
    }
    for f in &self.fields {
      match f.claim {
        Claim::Reject => claim = Claim::Reject,
        Claim::Unknown => {
          claim = Claim::Unknown;
          break;
        },
        Claim::Content => (),
      }
    }
    if enc.unknown {
      claim = Claim::Unknown;
    }
    let mut bytes = enc.bytes.clone();
    if let Some(s) = &self.shape {
      bytes = shape(s);
      claim = Claim::Unknown;
    }
    for m in &self.medium {
      bytes = apply(m, bytes, &enc);
      claim = match m {
        Medium::LoseRecord { claim: Claim::Reject, .. }
        | Medium::TwiceRecord { claim: Claim::Reject, .. }
        | Medium::StrayRecord { claim: Claim::Reject, .. }
          if self.medium.len() == 1 && claim != Claim::Unknown =>
        {
          Claim::Reject
        },
        _ => Claim::Unknown,
      };
    }
    Delivered { bytes, claim, msg: enc.msg.clone(), enc }
  }
}

fn cut(bytes: &[u8], off: u32, len: u32) -> (usize, usize) {
  let n = bytes.len();
  if n == 0 {
    return (0, 0);
  }
  let a = off as usize % n;
  (a, (a + len as usize).min(n))
}

fn apply(m: &Medium, mut b: Vec<u8>, enc: &Encoded) -> Vec<u8> {
  match m {
    Medium::Flip { off, bit } => {
      let (a, _) = cut(&b, *off, 1);
      if let Some(x) = b.get_mut(a) {
        *x ^= 1 << (bit & 7);
      }
    },
    Medium::Set { off, byte } => {
      let (a, _) = cut(&b, *off, 1);
      if let Some(x) = b.get_mut(a) {
        *x = *byte;
      }
    },
    Medium::Lose { off, len } => {
      let (a, e) = cut(&b, *off, *len);
      b.drain(a..e);
    },
    Medium::Repeat { off, len } => {
      let (a, e) = cut(&b, *off, *len);
      let piece = b[a..e].to_vec();
      b.splice(e..e, piece);
    },
    Medium::Swap { off, len, to } => {
      let (a, e) = cut(&b, *off, *len);
      let piece: Vec<u8> = b.drain(a..e).collect();
      let at = if b.is_empty() { 0 } else { *to as usize % (b.len() + 1) };
      b.splice(at..at, piece);
    },
    Medium::Insert { off, bytes } => {
      let at = *off as usize % (b.len() + 1);
      b.splice(at..at, bytes.iter().copied());
    },
    Medium::Zero { off, len } => {
      let (a, e) = cut(&b, *off, *len);
      b[a..e].fill(0);
    },
    Medium::Torn { len } => {
      let n = *len as usize % (b.len() + 1);
      b.truncate(n);
    },
    Medium::Splice { off, other } => {
      let o = doc::encode(other, &BTreeMap::new()).bytes;
      let at = *off as usize % (b.len() + 1);
      b.truncate(at);
      if o.len() > at {
        b.extend_from_slice(&o[at..]);
      }
    },
    Medium::LoseRecord { index, .. } => {
      if !enc.spans.is_empty() {
        let s = &enc.spans[*index as usize % enc.spans.len()];
        if s.off + s.len <= b.len() {
          b.drain(s.off..s.off + s.len);
        }
      }
    },
    Medium::TwiceRecord { index, .. } => {
      if !enc.spans.is_empty() {
        let s = &enc.spans[*index as usize % enc.spans.len()];
        if s.off + s.len <= b.len() {
          let piece = b[s.off..s.off + s.len].to_vec();
          b.splice(s.off + s.len..s.off + s.len, piece);
        }
      }
    },
    Medium::StrayRecord { index, bytes, .. } => {
      let at: Vec<usize> = boundaries(enc);
      let at = at[*index as usize % at.len()];
      if at <= b.len() {
        b.splice(at..at, bytes.iter().copied());
      }
    },
  }
  b
}

/// Where one record of top level ends and the next begins.
fn boundaries(enc: &Encoded) -> Vec<usize> {
  let top = ["before", "top", "method", "call array", "spare array", "end"];
  enc.spans.iter().filter(|s| top.contains(&s.what)).map(|s| s.off).collect()
}

pub fn medium(r: &mut Rng) -> Medium {
  let off = r.next() as u32;
  let len = match r.below(4) {
    0 => 1,
    1 => 1 + r.below(4) as u32,
    2 => 1 + r.below(16) as u32,
    _ => 1 + r.below(64) as u32,
  };
  match r.below(12) {
    0 | 1 => Medium::Flip { off, bit: r.below(8) as u8 },
    2 | 3 => {
      Medium::Set { off, byte: *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 21, 22, 127, 128, 255]) }
    },
    4 => Medium::Lose { off, len },
    5 => Medium::Repeat { off, len },
    6 => Medium::Swap { off, len, to: r.next() as u32 },
    7 => {
      let n = 1 + r.below(9);
      Medium::Insert { off, bytes: (0..n).map(|_| if r.one_in(2) { r.below(23) as u8 } else { r.next() as u8 }).collect() }
    },
    8 => Medium::Zero { off, len },
    9 => Medium::Torn { len: off },
    10 => Medium::Splice { off, other: Box::new(generate::small_doc(r)) },
    _ => {
      if r.one_in(2) {
        Medium::LoseRecord { index: off, claim: Claim::Unknown }
      } else {
        Medium::TwiceRecord { index: off, claim: Claim::Unknown }
      }
    },
  }
}

/// A lost or duplicated record that breaks a rule of the format.
pub fn record_fault(r: &mut Rng, enc: &Encoded) -> Option<Medium> {
  if r.one_in(3) {
    let some = |r: &mut Rng| enc.ids.iter().nth(r.below(enc.ids.len().max(1))).copied().unwrap_or(1);
    let call = enc.spans.iter().any(|s| s.what == "method");
    let bytes = match r.below(8) {
      0 => vec![10],
      1 => [vec![9], le(some(r))].concat(),
      2 => [vec![8, 8], le(r.next() as i32)].concat(),
      3 => vec![8, 1, 1],
      4 => vec![13, 1 + r.below(4) as u8],
      5 => [vec![14], le(1 + r.below(4) as i32)].concat(),
      6 if call => [vec![22], le(0x411)].concat(),
      6 => vec![11],
      _ => [vec![0], le(1), le(-1), le(1), le(0)].concat(),
    };
    return Some(Medium::StrayRecord { index: r.next() as u32, bytes, claim: Claim::Reject });
  }
  let lose: Vec<usize> = (0..enc.spans.len()).filter(|i| enc.spans[*i].needed).collect();
  let twice: Vec<usize> = (0..enc.spans.len()).filter(|i| enc.spans[*i].twice_bad).collect();
  if r.one_in(2) && !lose.is_empty() {
    Some(Medium::LoseRecord { index: *r.pick(&lose) as u32, claim: Claim::Reject })
  } else if !twice.is_empty() {
    Some(Medium::TwiceRecord { index: *r.pick(&twice) as u32, claim: Claim::Reject })
  } else {
    None
  }
}

fn le(v: i32) -> Vec<u8> {
  v.to_le_bytes().to_vec()
}

fn read(enc: &Encoded, ord: usize) -> i32 {
  let f = &enc.fields[ord];
  i32::from_le_bytes(enc.bytes[f.off..f.off + 4].try_into().unwrap())
}

fn negative(r: &mut Rng) -> i32 {
  match r.below(4) {
    0 => -1,
    1 => i32::MIN,
    2 => -(1 + r.below(300) as i32),
    _ => i32::MIN | r.next() as i32,
  }
}

fn fresh(r: &mut Rng, enc: &Encoded, ord: usize) -> i32 {
  // Different for each field, so that no two faults of one message end up with the same identifier.
  const SPAN: i32 = 1 << 14;
  let ord = ord as i32 % SPAN;
  loop {
    let v = match r.below(4) {
      0 => i32::MAX - ord,
      1 => SPAN * r.below(8) as i32 + ord,
      _ => SPAN * (r.next() as i32 & 0x1fffe) + ord,
    };
    // The range next to the maximum is kept for the first case.
    if v > 0 && !enc.ids.contains(&v) && !enc.lib_ids.contains(&v) {
      return v;
    }
  }
}

/// Text of the same length that differs.
fn other_text(r: &mut Rng, old: &[u8]) -> Option<Vec<u8>> {
  if old.is_empty() {
    return None;
  }
  let s = std::str::from_utf8(old).ok()?;
  let mut out: Vec<char> = s.chars().collect();
  match r.below(8) {
    0 => {
      // One bit of one character.
      let mut b = old.to_vec();
      let any = r.below(b.len());
      let i = *r.pick(&[0, b.len() - 1, any]);
      if b[i] < 0x80 {
        b[i] ^= 1 << r.below(7);
        return Some(b);
      }
    },
    1 => {
      // Two neighbours have changed places.
      if out.len() > 1 {
        let i = r.below(out.len() - 1);
        out.swap(i, i + 1);
        let b = out.iter().collect::<String>().into_bytes();
        return if b == old { None } else { Some(b) };
      }
    },
    2 if s.is_ascii() => {
      // Overwritten with another text.
      if let Some(t) = crate::dict::text(r).filter(|t| !t.is_empty() && t.len() <= old.len()) {
        let mut b = old.to_vec();
        let any = r.below(old.len() - t.len() + 1);
        let at = *r.pick(&[0, old.len() - t.len(), any]);
        b[at..at + t.len()].copy_from_slice(t.as_bytes());
        return if b == old { None } else { Some(b) };
      }
    },
    _ => (),
  }
  for _ in 0..1 + r.below(3) {
    let i = r.below(out.len());
    out[i] = match out[i].len_utf8() {
      1 => *r.pick(&['a', 'Z', '0', '_', '.', '`', '\u{0}', '\u{b}', '\u{c}', ' ', 'q', 'S']),
      2 => *r.pick(&['ä', 'ß', '\u{7ff}', '\u{80}']),
      3 => *r.pick(&['€', '\u{800}', '\u{ffff}', '\u{feff}']),
      _ => *r.pick(&['😀', '\u{10000}', '\u{10ffff}']),
    };
  }
  let b = out.into_iter().collect::<String>().into_bytes();
  if b == old { None } else { Some(b) }
}

/// Bytes of the same length that are not UTF-8.
fn bad_text(r: &mut Rng, old: &[u8]) -> Option<Vec<u8>> {
  if old.is_empty() {
    return None;
  }
  for _ in 0..20 {
    let mut b = old.to_vec();
    let i = match r.below(3) {
      0 => 0,
      1 => b.len() - 1,
      _ => r.below(b.len()),
    };
    match r.below(5) {
      0 => b[i] = 0xFF,
      1 => b[i] = 0xC0,
      2 => b[i] |= 0x80,
      3 => b[i] = 0xF8,
      _ => {
        // A surrogate, if there is room.
        if i + 3 <= b.len() {
          b[i..i + 3].copy_from_slice(&[0xED, 0xA0, 0x80]);
        } else {
          b[i] = 0xFE;
        }
      },
    }
    if std::str::from_utf8(&b).is_err() {
      return Some(b);
    }
  }
  None
}

/// Damage that breaks a rule of the format, if the field has one.
pub fn break_rule(r: &mut Rng, enc: &Encoded, ord: usize) -> Option<FieldFault> {
  let f = &enc.fields[ord];
  let old = &enc.bytes[f.off..f.off + f.len];
  let total = enc.bytes.len() as i32;
  let rest = total - f.off as i32;
  let huge = |r: &mut Rng, min: i32| match r.below(4) {
    0 => i32::MAX,
    1 => min.max(1 << (20 + r.below(11))),
    2 => min + r.below(1000) as i32,
    _ => min.max((r.next() as i32) & i32::MAX),
  };
  let (bytes, what): (Vec<u8>, &str) = match &f.kind {
    Kind::HeaderTag => (vec![1 + r.below(255) as u8], "header tag"),
    Kind::RootId { value, array } => {
      if r.one_in(2) {
        (le(negative(r)), "negative root id")
      } else if *value && old != [0; 4] {
        (le(fresh(r, enc, ord)), "unknown root id")
      } else if *array {
        (le(if r.one_in(3) { 0 } else { fresh(r, enc, ord) }), "root id is not the call array")
      } else {
        (le(negative(r)), "negative root id")
      }
    },
    Kind::HeaderId => return None,
    Kind::Version => {
      let o = read(enc, ord);
      let v = match r.below(5) {
        0 => o + 1,
        1 => o ^ (1 << r.below(32)),
        2 => 1 - o,
        3 => o | 0x100,
        _ => r.next() as i32,
      };
      if v == o {
        return None;
      }
      (le(v), "version")
    },
    Kind::Tag => (
      vec![*r.pick(&[0, 18, 19, 20, 23, 24, 64, 127, 128, 200, 255])],
      "undefined record type",
    ),
    Kind::Null { slot, .. } if *slot != SlotKind::Any && r.one_in(2) => {
      let id = le(fresh(r, enc, ord));
      let record = match (slot, r.below(4)) {
        (_, 0) => vec![8, 8, 1, 2, 3, 4],
        (_, 1) => [&[17], &id[..], &[0; 4]].concat(),
        (SlotKind::Class | SlotKind::Prims, 2) => [&[6], &id[..], &[1, b'x']].concat(),
        _ => [&[2], &id[..], &[9], b"No.Such.C", &[0; 4]].concat(),
      };
      (record, "record of another kind than declared")
    },
    Kind::Null { left, .. } => match (left, r.below(4)) {
      // A run of nulls in place of a member.
      (None, 0) => (vec![13, 2 + r.below(254) as u8], "run of nulls as a member"),
      (None, 1) => ([vec![14], le(2 + r.below(1000) as i32)].concat(), "run of nulls as a member"),
      (Some(l), 0) if *l < 255 => (vec![13, (*l + 1 + r.below(255 - *l as usize) as u32) as u8], "more nulls than fit"),
      (Some(l), 1) => ([vec![14], le(huge(r, *l as i32 + 1))].concat(), "more nulls than fit"),
      // A run of none in front of the null.
      (_, 2) => (vec![13, 0, 10], "null count 0"),
      _ => ([vec![14], le(0), vec![10]].concat(), "null count 0"),
    },
    Kind::EndTag => {
      let b = r.next() as u8;
      if b == 11 {
        return None;
      }
      (vec![b], "no message end")
    },
    Kind::ObjId { used, classes } => match r.below(4) {
      3 => {
        let before = &enc.class_ids[..classes.unwrap_or(0) as usize];
        let taken: Vec<i32> = before.iter().filter(|c| c.1).map(|c| c.0).collect();
        if taken.is_empty() {
          return None;
        }
        (le(*r.pick(&taken)), "id of a class that is defined already")
      },
      0 => (le(0), "object id 0"),
      1 => (le(negative(r)), "negative object id"),
      _ if *used => (le(fresh(r, enc, ord)), "object referred to by another id"),
      _ => (le(0), "object id 0"),
    },
    Kind::RefId => match r.below(4) {
      0 => (le(0), "reference to 0"),
      1 => (le(negative(r)), "negative reference"),
      _ => (le(fresh(r, enc, ord)), "dangling reference"),
    },
    Kind::MetaId { own } => match r.below(5) {
      4 => {
        let others: Vec<i32> =
          enc.ids.iter().copied().filter(|i| i != own && !enc.class_ids.iter().any(|c| c.0 == *i)).take(1000).collect();
        if others.is_empty() {
          return None;
        }
        (le(*r.pick(&others)), "metadata id of what is no class")
      },
      0 => (le(0), "metadata id 0"),
      1 => (le(negative(r)), "negative metadata id"),
      2 => (le(*own), "metadata id is the object's own"),
      _ => (le(fresh(r, enc, ord)), "unknown metadata id"),
    },
    Kind::LibDef { used } => match r.below(4) {
      0 => (le(0), "library id 0"),
      1 => (le(negative(r)), "negative library id"),
      2 if enc.lib_ids.len() > 1 => {
        let o = read(enc, ord);
        let others: Vec<i32> = enc.lib_ids.iter().copied().filter(|x| *x != o).collect();
        (le(*r.pick(&others)), "duplicate library id")
      },
      _ if *used => (le(fresh(r, enc, ord)), "library known by another id"),
      _ => (le(0), "library id 0"),
    },
    Kind::LibUse { bound } => match r.below(4) {
      3 if *bound => {
        let o = read(enc, ord);
        let len = enc.libs.iter().find(|l| l.0 == o)?.1;
        let others: Vec<i32> = enc.libs.iter().filter(|l| l.1 != len).map(|l| l.0).collect();
        if others.is_empty() {
          return None;
        }
        (le(*r.pick(&others)), "object of another library than declared")
      },
      0 => (le(0), "library id 0"),
      1 => (le(negative(r)), "negative library id"),
      _ => (le(fresh(r, enc, ord)), "unknown library id"),
    },
    Kind::SlotType => (vec![8 + r.below(248) as u8], "undefined binary type"),
    Kind::PrimType { strict } => (
      vec![*r.pick(if *strict { &[0, 4, 17, 18, 19, 20, 128, 255][..] } else { &[0, 4, 19, 20, 64, 128, 255][..] })],
      "primitive type",
    ),
    Kind::StrCode => {
      let b = *r.pick(&[0, 1, 8, 17, 19, 255, 6, 4]);
      (vec![b], "no string where a string must be")
    },
    Kind::ArrKind => (vec![6 + r.below(250) as u8], "undefined array kind"),
    Kind::Rank => (le(negative(r)), "negative rank"),
    Kind::Len { elem, nullable } => {
      if r.one_in(2) {
        (le(negative(r)), "negative length")
      } else {
        let slack = if *nullable { enc.nulls as i32 } else { 0 };
        (le(huge(r, (rest + slack) / *elem as i32 + 1)), "impossible length")
      }
    },
    Kind::Dim { zero_elsewhere, nullable } => {
      if r.one_in(2) || *zero_elsewhere {
        (le(negative(r)), "negative dimension")
      } else {
        let slack = if *nullable { enc.nulls as i32 } else { 0 };
        (le(huge(r, rest + slack + 1)), "impossible dimension")
      }
    },
    Kind::Bound => return None,
    Kind::NullRun { left, wide } => {
      if *wide {
        match r.below(5) {
          0 => (le(0), "null count 0"),
          1 => (le(negative(r)), "negative null count"),
          // A run of none in front of the run.
          3 => ([le(0), vec![14], old.to_vec()].concat(), "null count 0"),
          4 => ([le(negative(r)), vec![14], old.to_vec()].concat(), "negative null count"),
          _ => (le(huge(r, *left as i32 + 1)), "more nulls than fit"),
        }
      } else if *left < 255 && r.one_in(2) {
        (vec![(*left + 1 + r.below(255 - *left as usize) as u32) as u8], "more nulls than fit")
      } else if r.one_in(2) {
        ([vec![0, 13], old.to_vec()].concat(), "null count 0")
      } else {
        (vec![0], "null count 0")
      }
    },
    Kind::Count => {
      if r.one_in(2) {
        (le(negative(r)), "negative count")
      } else {
        (le(huge(r, rest + 1)), "impossible count")
      }
    },
    Kind::StrLen { len } => match r.below(4) {
      0 => (varint(huge(r, rest + 1) as u32), "impossible text length"),
      1 => {
        // More than 31 bits, of which the lower ones may be right.
        let n = if r.one_in(2) { *len } else { r.next() as u32 };
        let mut v: Vec<u8> = (0..4).map(|i| 0x80 | (n >> (7 * i)) as u8).collect();
        v.push(((1 + r.below(31)) << 3) as u8 | (n >> 28 & 7) as u8);
        (v, "overlong text length")
      },
      2 => (vec![0xFF, 0xFF, 0xFF, 0xFF, 0x07], "impossible text length"),
      _ => (varint(rest as u32 + r.below(5) as u32), "impossible text length"),
    },
    Kind::Text { bound, .. } => {
      if *bound && r.one_in(2) {
        (other_text(r, old)?, "object of another class than declared")
      } else {
        (bad_text(r, old)?, "text is not UTF-8")
      }
    },
    Kind::Prim(1) => (vec![2 + r.below(254) as u8], "boolean that is neither 0 nor 1"),
    Kind::Prim(3) => {
      let b = match old.len() {
        1 => vec![*r.pick(&[0xFF, 0xC0, 0xC1, 0x80, 0xBF, 0xF8])],
        2 => vec![*r.pick(&[0x80, 0xBF, 0xFF, 0xC0]), old[1]],
        _ => vec![0xED, 0xA0, 0x80],
      };
      (b, "character that is not UTF-8")
    },
    Kind::Prim(5) => {
      let mut b = old.to_vec();
      let i = r.below(b.len());
      b[i] = *r.pick(&[b'x', b' ', b'/', 0, 0xFF, b':', b',']);
      (b, "decimal that is not a number")
    },
    Kind::Prim(_) => return None,
    Kind::Flags { call, array, items, args, alone } => {
      let o = read(enc, ord);
      let v = match r.below(9) {
        // A return value in a call array that does not have one.
        8 if !*call && o & 0x2800 == 0 && *items <= (*args as u32) => (o & !0x1E00) | 0x1000,
        // Arguments in an array which the call array does not have.
        8 if *array && !*args && !*alone && *items == 0 => (o & !0xF) | 8,
        // Two of one category.
        0 => o | *r.pick(&[0x3, 0x5, 0x9, 0x6, 0xA, 0xC, 0xF]),
        1 => o | *r.pick(&[0x30, 0x50, 0x60, 0x70]),
        2 => o | *r.pick(&[0x600, 0xA00, 0x1200, 0xC00, 0x1400, 0x1800, 0x1E00]),
        // Exclusive categories.
        3 => o | 0x1 | 0x2000,
        4 => o | *r.pick(&[0x200, 0x400, 0x800, 0x1000]) | 0x2000,
        5 => o | *r.pick(&[0x200, 0x400, 0x800, 0x1000]) | 0x80,
        6 => o | 0x2000 | 0x80,
        _ => {
          if *array {
            o | 0x3
          } else {
            // Arguments announced in a call array that does not follow.
            (o & !0xF) | *r.pick(&[4, 8])
          }
        },
      };
      if v == o {
        return None;
      }
      (le(v), "flags")
    },
  };
  if bytes == old {
    return None;
  }
  Some(FieldFault { ord: ord as u32, bytes, claim: Claim::Reject, what: what.to_string() })
}

/// Damage that only changes content, or nothing.
pub fn harmless(r: &mut Rng, enc: &Encoded, ord: usize) -> Option<FieldFault> {
  let f = &enc.fields[ord];
  let old = &enc.bytes[f.off..f.off + f.len];
  let (bytes, what): (Vec<u8>, &str) = match &f.kind {
    Kind::HeaderId => (le(r.next() as i32), "header id"),
    Kind::Bound => (le(r.next() as i32), "lower bound"),
    Kind::RootId { value: false, array: false } => (le((r.next() as i32) & i32::MAX), "root id of a call without call array"),
    Kind::ObjId { used: false, .. } => (le(fresh(r, enc, ord)), "id of an object nobody refers to"),
    Kind::LibDef { used: false } => (le(fresh(r, enc, ord)), "id of an unused library"),
    Kind::Text { bound: false, name } => (other_text(r, old)?, if *name { "name" } else { "text" }),
    Kind::Prim(1) => (vec![old[0] ^ 1], "boolean"),
    Kind::Prim(3) => (other_text(r, old)?, "character"),
    Kind::Prim(5) => {
      let mut b = old.to_vec();
      let i = r.below(b.len());
      if !b[i].is_ascii_digit() {
        return None;
      }
      b[i] = b'0' + r.below(10) as u8;
      if !doc::valid_decimal(std::str::from_utf8(&b).ok()?) {
        return None;
      }
      (b, "decimal")
    },
    Kind::Prim(code) => {
      let mut b = old.to_vec();
      match r.below(5) {
        3 => {
          // One bit at either end.
          let last = b.len() - 1;
          let (i, bit) = *r.pick(&[(0, 1), (0, 2), (last, 0x80), (last, 0x40)]);
          b[i] ^= bit;
        },
        0 => {
          let p = generate::prim(r, *code);
          let mut e = vec![];
          use doc::P;
          match p {
            P::U8(x) => e.push(x),
            P::I8(x) => e.push(x as u8),
            P::I16(x) => e.extend(x.to_le_bytes()),
            P::U16(x) => e.extend(x.to_le_bytes()),
            P::I32(x) => e.extend(x.to_le_bytes()),
            P::U32(x) => e.extend(x.to_le_bytes()),
            P::F32(x) => e.extend(x.to_le_bytes()),
            P::F64(x) => e.extend(x.to_le_bytes()),
            P::U64(x) => e.extend(x.to_le_bytes()),
            P::I64(x) | P::Ts(x) | P::Dt(x) => e.extend(x.to_le_bytes()),
            _ => return None,
          }
          if e.len() != b.len() {
            return None;
          }
          b = e;
        },
        1 => {
          let i = r.below(b.len());
          b[i] ^= 1 << r.below(8);
        },
        2 => {
          // A byte that means something elsewhere, first.
          b[0] = *r.pick(&[6, 8, 9, 10, 11, 12, 13, 14]);
        },
        _ => {
          for x in &mut b {
            *x = r.next() as u8;
          }
        },
      }
      (b, "number")
    },
    _ => return None,
  };
  if bytes == old {
    return None;
  }
  Some(FieldFault { ord: ord as u32, bytes, claim: Claim::Content, what: what.to_string() })
}

/// Overwrites a count-like field with something large (or anything at all).
pub fn inflate(r: &mut Rng, enc: &Encoded, ord: usize, nulls_too: bool) -> Option<FieldFault> {
  let f = &enc.fields[ord];
  let old = &enc.bytes[f.off..f.off + f.len];
  let v = match r.below(7) {
    0 => i32::MAX,
    1 => 1 << (10 + r.below(21)),
    2 => 65_536 * (1 + r.below(30000) as i32),
    3 => 100_000 + r.below(1_000_000) as i32,
    4 => 0x0FFF_FFFF,
    5 => (r.next() as i32) & i32::MAX,
    _ => r.below(10_000) as i32,
  };
  let small = r.below(20_000) as i32;
  let (bytes, what) = match &f.kind {
    Kind::Len { .. } => (le(v), "array length"),
    Kind::Dim { .. } => (le(v), "array dimension"),
    Kind::Rank => (le(v), "array rank"),
    Kind::Count => (le(v), "count"),
    Kind::NullRun { wide: true, .. } => (le(if nulls_too { v } else { small }), "null count"),
    Kind::NullRun { wide: false, .. } => (vec![r.next() as u8], "null count"),
    Kind::StrLen { .. } => (varint(v as u32), "text length"),
    // The recorded size of a list is a number like any other.
    Kind::Prim(8) => (le(v), "number"),
    _ => return None,
  };
  if bytes == old {
    return None;
  }
  Some(FieldFault { ord: ord as u32, bytes, claim: Claim::Unknown, what: format!("inflated {what}") })
}

// ---------------------------------------------------------------------------------------------------------------

fn lps(out: &mut Vec<u8>, s: &str) {
  out.extend(varint(s.len() as u32));
  out.extend_from_slice(s.as_bytes());
}

fn i(out: &mut Vec<u8>, v: u32) {
  out.extend((v as i32).to_le_bytes());
}

/// A number none of whose bytes could be taken for the record type of a run of nulls or of an array.
fn id(k: u32) -> u32 {
  let d = |n: u32| 0x20 + (k / n) % 95;
  d(1) | d(95) << 8 | d(95 * 95) << 16 | d(95 * 95 * 95) << 24
}

/// Builds a large message directly.
pub fn shape(s: &Shape) -> Vec<u8> {
  if let Shape::Soup(seed, size) = s {
    return crate::soup::soup(*seed, *size);
  }
  let mut b = vec![0u8];
  i(&mut b, id(1));
  i(&mut b, u32::MAX);
  i(&mut b, 1);
  i(&mut b, 0);
  let sys_class = |b: &mut Vec<u8>, n: u32, members: &[&str]| {
    b.push(2);
    i(b, id(n));
    lps(b, "N");
    i(b, members.len() as u32);
    members.iter().for_each(|m| lps(b, m));
  };
  match *s {
    Shape::FlatStrings(n) => {
      for k in 1..=n {
        b.push(6);
        i(&mut b, id(k));
        lps(&mut b, "x");
      }
    },
    Shape::WideClass(n) => {
      b.push(4);
      i(&mut b, id(1));
      lps(&mut b, "W");
      i(&mut b, n);
      for k in 0..n {
        lps(&mut b, &format!("m{k}"));
      }
      b.extend(std::iter::repeat_n(0, n as usize));
      b.extend(std::iter::repeat_n(8, n as usize));
      for k in 0..n {
        i(&mut b, id(k));
      }
    },
    Shape::ObjArray(n) => {
      b.push(16);
      i(&mut b, id(1));
      i(&mut b, n);
      for k in 0..n {
        b.extend([8, 8]);
        i(&mut b, id(k));
      }
    },
    Shape::PrimArray(n) => {
      b.push(15);
      i(&mut b, id(1));
      i(&mut b, n);
      b.push(2);
      b.extend((0..n).map(|k| 0x20 | k as u8));
    },
    Shape::Nulls(n) => {
      b.push(16);
      i(&mut b, id(1));
      i(&mut b, n);
      b.push(14);
      i(&mut b, n);
    },
    Shape::Libraries(n) => {
      for k in 0..n {
        b.push(12);
        i(&mut b, id(1_000_000 + k));
        lps(&mut b, "L");
        sys_class(&mut b, k + 1, &[]);
      }
    },
    Shape::Objects(n) => {
      for k in 0..n {
        sys_class(&mut b, k + 1, &["a", "b"]);
        b.extend([10, 8, 2, 0x20 | k as u8]);
      }
    },
    Shape::References(n) => {
      // All defined before the array that refers to them.
      for k in 0..n {
        b.push(6);
        i(&mut b, id(2 + k));
        lps(&mut b, "r");
      }
      b.push(16);
      i(&mut b, id(1));
      i(&mut b, n);
      for k in 0..n {
        b.push(9);
        i(&mut b, id(2 + k));
      }
    },
    Shape::LongString(n) => {
      b.push(6);
      i(&mut b, id(1));
      lps(&mut b, &"s".repeat(n as usize));
    },
    Shape::Rank(n) => {
      b.push(7);
      i(&mut b, id(1));
      b.push(2);
      i(&mut b, n);
      for _ in 0..n {
        i(&mut b, 1);
      }
      b.extend([0, 2, 7]);
    },
    Shape::Dims(x, y) => {
      b.push(7);
      i(&mut b, id(1));
      b.push(2);
      i(&mut b, 2);
      i(&mut b, x);
      i(&mut b, y);
      b.extend([0, 2]);
      b.extend((0..x * y).map(|k| 0x20 | k as u8));
    },
    Shape::NestInline(n) => {
      for k in 0..n {
        sys_class(&mut b, k + 1, &["a"]);
      }
      b.push(10);
    },
    Shape::NestAfter(n) => {
      for k in 0..n {
        sys_class(&mut b, k + 1, &["a"]);
        b.push(9);
        i(&mut b, id(k + 2));
      }
      b.push(6);
      i(&mut b, id(n + 1));
      lps(&mut b, "end");
    },
    Shape::NestArrays(n) => {
      for k in 0..n {
        b.push(16);
        i(&mut b, id(k + 1));
        i(&mut b, 1);
        b.push(9);
        i(&mut b, id(k + 2));
      }
      b.push(6);
      i(&mut b, id(n + 1));
      lps(&mut b, "end");
    },
    Shape::Args(n) => {
      b.push(21);
      i(&mut b, 2);
      for s in ["m", "t"] {
        b.push(18);
        lps(&mut b, s);
      }
      i(&mut b, n);
      for k in 0..n {
        b.push(8);
        i(&mut b, id(k));
      }
    },
    _ => mixed(s, &mut b),
  }
  b.push(11);
  b
}

/// Writes a shape that holds more than one kind of record.
fn mixed(s: &Shape, b: &mut Vec<u8>) {
  let obj_array = |b: &mut Vec<u8>, n: u32, len: u32| {
    b.push(16);
    i(b, id(n));
    i(b, len);
  };
  let refer = |b: &mut Vec<u8>, n: u32| {
    b.push(9);
    i(b, id(n));
  };
  match *s {
    Shape::Dag(levels, width) => {
      b.push(15);
      i(b, id(levels + 1));
      i(b, 4);
      b.extend([2, 1, 2, 3, 4]);
      for k in (1..=levels).rev() {
        obj_array(b, k, width);
        for _ in 0..width {
          refer(b, k + 1);
        }
      }
    },
    Shape::SharedArray(n) => {
      obj_array(b, 2, n);
      b.push(14);
      i(b, n);
      obj_array(b, 1, n);
      for _ in 0..n {
        refer(b, 2);
      }
    },
    Shape::SharedObject(n) => {
      b.push(2);
      i(b, id(2));
      lps(b, "S");
      i(b, n);
      for k in 0..n {
        lps(b, &format!("m{k}"));
      }
      b.extend(std::iter::repeat_n(10, n as usize));
      obj_array(b, 1, n);
      for _ in 0..n {
        refer(b, 2);
      }
    },
    Shape::SharedString(n) => {
      b.push(6);
      i(b, id(2));
      lps(b, &"s".repeat(n as usize * 4));
      obj_array(b, 1, n);
      for _ in 0..n {
        refer(b, 2);
      }
    },
    Shape::CallArray(n) | Shape::ReturnArray(n) => {
      if matches!(s, Shape::CallArray(_)) {
        b.push(21);
        i(b, 4 | 16);
        for s in ["m", "t"] {
          b.push(18);
          lps(b, s);
        }
      } else {
        b.push(22);
        i(b, 8 | 16 | 0x1000);
      }
      if matches!(s, Shape::CallArray(_)) {
        obj_array(b, 1, n);
      } else {
        obj_array(b, 1, 2);
        refer(b, 2);
        refer(b, 3);
        obj_array(b, 2, n);
      }
      for k in 0..n {
        b.extend([8, 8]);
        i(b, id(k));
      }
      if matches!(s, Shape::ReturnArray(_)) {
        obj_array(b, 3, n);
        for k in 0..n {
          b.extend([8, 2, k as u8]);
        }
      }
    },
    Shape::NestTyped(n) => {
      for k in 0..n {
        b.push(4);
        i(b, id(k + 1));
        lps(b, "N");
        i(b, 1);
        lps(b, "a");
        b.push(3);
        lps(b, "N");
      }
      b.push(10);
    },
    Shape::Reuse(n) => {
      b.push(4);
      i(b, id(1));
      lps(b, "R");
      i(b, 2);
      lps(b, "a");
      lps(b, "b");
      b.extend([0, 1, 8, 1, 0, 0, 0, 10]);
      for k in 1..n {
        b.push(1);
        i(b, id(1 + k));
        i(b, id(1));
        i(b, id(k));
        b.push(10);
      }
    },
    Shape::StringArray(n) => {
      b.push(17);
      i(b, id(1));
      i(b, n);
      for k in 0..n {
        b.push(6);
        i(b, id(2 + k));
        lps(b, "e");
      }
    },
    Shape::BinArray(n) => {
      b.push(7);
      i(b, id(1));
      b.push(0);
      i(b, 1);
      i(b, n);
      b.push(2);
      for k in 0..n {
        b.extend([8, 2, k as u8]);
      }
    },
    Shape::SameNames(n) => {
      b.push(2);
      i(b, id(1));
      lps(b, "S");
      i(b, n);
      for _ in 0..n {
        lps(b, "m");
      }
      b.extend(std::iter::repeat_n(10, n as usize));
    },
    Shape::Decimals(n) => {
      b.push(15);
      i(b, id(1));
      i(b, n);
      b.push(5);
      for k in 0..n {
        lps(b, &format!("{}.{}", k % 7, k % 10));
      }
    },
    Shape::Lists(n) => {
      obj_array(b, 1, n);
      for k in 0..n {
        refer(b, 2 + 2 * k);
      }
      for k in 0..n {
        let (o, a) = (2 + 2 * k, 3 + 2 * k);
        if k == 0 {
          b.push(4);
          i(b, id(o));
          lps(b, "System.Collections.Generic.List`1[[System.Object]]");
          i(b, 3);
          for m in ["_items", "_size", "_version"] {
            lps(b, m);
          }
          b.extend([5, 0, 0, 8, 8]);
        } else {
          b.push(1);
          i(b, id(o));
          i(b, id(2));
        }
        refer(b, a);
        i(b, 2);
        i(b, 9);
        obj_array(b, a, 4);
        b.extend([8, 2, 1, 10, 13, 2]);
      }
    },
    Shape::Rows(n, rank) => {
      b.push(7);
      i(b, id(1));
      b.push(2);
      i(b, rank);
      i(b, n);
      for _ in 1..rank {
        i(b, 1);
      }
      b.extend([2, 14]);
      i(b, n);
    },
    Shape::Long(kind, n, len) => {
      let long = "l".repeat(len as usize);
      let name = |k: u8, short: &str| if kind == k { long.clone() } else { short.to_string() };
      let nested = kind >= 4;
      b.push(12);
      i(b, id(1_000_000));
      lps(b, &name(2, "L"));
      if !nested {
        obj_array(b, 1, n);
      }
      // Of the class that is declared, and then all others.
      b.push(5);
      i(b, id(if nested { 1 } else { 2 }));
      lps(b, &name(if nested { kind } else { 0 }, "C"));
      i(b, 1);
      lps(b, &name(1, "a"));
      b.push(if nested { 2 } else { 4 });
      if !nested {
        lps(b, &name(3, "D"));
        i(b, id(1_000_000));
      }
      i(b, id(1_000_000));
      if !nested {
        b.push(10);
      }
      for k in 1..n {
        b.push(1);
        i(b, id(2 + k));
        i(b, id(if nested { 1 } else { 2 }));
        if !nested {
          b.push(10);
        }
      }
      if nested {
        b.push(10);
      }
    },
    _ => (),
  }
}

/// Many objects and one long name.
pub fn long_shape(r: &mut Rng) -> Shape {
  let kind = r.below(5) as u8;
  let n = if kind == 4 { 60 + r.below(120) } else { *r.pick(&[500, 2000, 6000]) };
  Shape::Long(kind, n as u32, *r.pick(&[3000, 10_000, 40_000]))
}

pub fn big_shape(r: &mut Rng) -> Shape {
  let n = *r.pick(&[1000, 3000, 8000, 20000]);
  match r.below(29) {
    28 => Shape::Rows(n, 2 + r.below(7) as u32),
    0 => Shape::FlatStrings(n),
    1 => Shape::WideClass(n),
    2 => Shape::ObjArray(n),
    3 => Shape::PrimArray(n * 4),
    4 => Shape::Nulls(n),
    5 => Shape::Libraries(n / 2),
    6 => Shape::Objects(n / 2),
    7 => Shape::References(n),
    8 => Shape::LongString(n * 10),
    9 => Shape::Rank(1 + r.below(200) as u32),
    10 => {
      let a = 1 + r.below(200) as u32;
      if r.one_in(2) { Shape::Dims(n / a, a) } else { Shape::Dims(a, n / a) }
    },
    11 => Shape::NestInline(1 + r.below(200) as u32),
    12 => Shape::NestAfter(1 + r.below(200) as u32),
    13 => Shape::NestArrays(1 + r.below(200) as u32),
    14 => Shape::Args(n),
    15 => Shape::Dag(r.range(2, 40) as u32, r.range(2, 5) as u32),
    16 => Shape::SharedArray(n / 4),
    17 => Shape::SharedObject(n / 8),
    18 => Shape::SharedString(n / 2),
    19 => Shape::CallArray(n),
    20 => Shape::ReturnArray(n / 2),
    21 => Shape::NestTyped(1 + r.below(200) as u32),
    22 => Shape::Reuse(n),
    23 => Shape::StringArray(n),
    24 => Shape::BinArray(n),
    25 => Shape::SameNames(n),
    26 => Shape::Decimals(n),
    _ => Shape::Lists(n / 2),
  }
}
