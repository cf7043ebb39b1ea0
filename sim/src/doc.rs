//! The reference sender: a logical message, its encoding as an MS-NRBF stream, and - computed in the same pass, from
//! what was actually written - the value a receiver must end up with.

use std::collections::{BTreeMap, BTreeSet, HashMap};

use serde::{Deserialize, Serialize};
use simcore::{Msg, Val};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum P {
  Bool(bool),
  U8(u8),
  Char(char),
  Dec(String),
  F64(u64),
  I16(i16),
  I32(i32),
  I64(i64),
  I8(i8),
  F32(u32),
  Ts(i64),
  Dt(i64),
  U16(u16),
  U32(u32),
  U64(u64),
  /// Only in method arguments and return values.
  Str(String),
  Null,
}

impl P {
  pub fn code(&self) -> u8 {
    match self {
      P::Bool(_) => 1,
      P::U8(_) => 2,
      P::Char(_) => 3,
      P::Dec(_) => 5,
      P::F64(_) => 6,
      P::I16(_) => 7,
      P::I32(_) => 8,
      P::I64(_) => 9,
      P::I8(_) => 10,
      P::F32(_) => 11,
      P::Ts(_) => 12,
      P::Dt(_) => 13,
      P::U16(_) => 14,
      P::U32(_) => 15,
      P::U64(_) => 16,
      P::Null => 17,
      P::Str(_) => 18,
    }
  }

  pub fn val(&self) -> Val {
    match self {
      P::Bool(x) => Val::Bool(*x),
      P::U8(x) => Val::U8(*x),
      P::Char(x) => Val::Char(*x),
      P::Dec(x) => Val::Dec(x.clone()),
      P::F64(x) => Val::F64(*x),
      P::I16(x) => Val::I16(*x),
      P::I32(x) => Val::I32(*x),
      P::I64(x) => Val::I64(*x),
      P::I8(x) => Val::I8(*x),
      P::F32(x) => Val::F32(*x),
      P::Ts(x) => Val::Ts(*x),
      P::Dt(x) => Val::Dt(*x),
      P::U16(x) => Val::U16(*x),
      P::U32(x) => Val::U32(*x),
      P::U64(x) => Val::U64(*x),
      P::Str(x) => Val::Str(x.clone()),
      P::Null => Val::Null,
    }
  }
}

/// Where a string, object or array is written.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Place {
  /// In the slot itself (arrays cannot be).
  Inline,
  /// Referenced; written directly after the record that refers to it.
  After,
  /// Referenced; written at top level before the top-level record that (indirectly) refers to it.
  Before,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Slot {
  Prim(u8),
  Str,
  Obj,
  Sys(String),
  Cls(String, u8),
  ObjArr,
  StrArr,
  PrimArr(u8),
}

impl Slot {
  pub fn code(&self) -> u8 {
    match self {
      Slot::Prim(_) => 0,
      Slot::Str => 1,
      Slot::Obj => 2,
      Slot::Sys(_) => 3,
      Slot::Cls(..) => 4,
      Slot::ObjArr => 5,
      Slot::StrArr => 6,
      Slot::PrimArr(_) => 7,
    }
  }

  fn kind(&self) -> SlotKind {
    match self {
      Slot::Str | Slot::StrArr => SlotKind::Text,
      Slot::Sys(_) | Slot::Cls(..) => SlotKind::Class,
      Slot::PrimArr(_) => SlotKind::Prims,
      _ => SlotKind::Any,
    }
  }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Node {
  Null,
  P(P),
  /// `share`: equal non-zero numbers (and texts) are written once and referenced from then on.
  Str { s: String, place: Place, share: u8 },
  Obj(Box<Obj>),
  Arr(Box<Arr>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Obj {
  pub class: String,
  /// 0: a system class; otherwise library number lib-1.
  pub lib: u8,
  pub typed: bool,
  /// Written as ClassWithId when an equal class has been written before.
  pub with_id: bool,
  pub place: Place,
  pub members: Vec<Member>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Member {
  pub name: String,
  pub slot: Slot,
  pub node: Node,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Arr {
  pub place: Place,
  pub body: ArrBody,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ArrBody {
  Prim(u8, Vec<P>),
  Obj(Vec<Node>),
  Str(Vec<Node>),
  /// Array kind 0..=5, dimensions, lower bounds, element slot, elements (row major).
  Bin { kind: u8, dims: Vec<u32>, bounds: Vec<i32>, slot: Slot, elems: Vec<Node> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Args {
  /// No flag of the argument category.
  Absent,
  No,
  Inline(Vec<P>),
  IsArray(Vec<Node>),
  InArray(Vec<Node>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ret {
  Absent,
  No,
  Void,
  Inline(P),
  InArray(Node),
}

/// Further entries of the call array, in the order in which they follow the arguments (and the return value).
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct More {
  /// Flag and entry: generic arguments 0x8000, signature 0x80, exception 0x2000, context 0x40, properties 0x100.
  pub items: Vec<(i32, Node)>,
  /// The array of arguments inside the call array is written before the method record.
  pub args_before: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Body {
  /// Root id 0: nothing.
  Empty,
  Root(Node),
  Call {
    method: String,
    typ: String,
    ctx: Option<String>,
    no_ctx_flag: bool,
    args: Args,
    extra: i32,
    root: i32,
    #[serde(default)]
    more: More,
  },
  Return {
    value: Ret,
    ctx: Option<String>,
    no_ctx_flag: bool,
    args: Args,
    extra: i32,
    root: i32,
    #[serde(default)]
    more: More,
  },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Doc {
  pub header_id: i32,
  pub id_base: i32,
  pub id_step: i32,
  pub libs: Vec<String>,
  /// Library numbers written at top level although nothing needs them yet, before `pre`.
  pub spare_libs: Vec<u8>,
  /// 0: ObjectNull each; 1: ObjectNullMultiple256 runs; 2: ObjectNullMultiple runs; 3: a mixture.
  pub null_mode: u8,
  pub pre: Vec<Node>,
  pub body: Body,
  pub post: Vec<Node>,
  /// A library that is the only one missing is announced directly in front of the record whose types mention it.
  #[serde(default)]
  pub near_libs: bool,
  /// Libraries announced early: number of the place where one may stand, and the library.
  #[serde(default)]
  pub early_libs: BTreeMap<u32, u8>,
}

impl Default for Doc {
  fn default() -> Self {
    Doc {
      header_id: -1,
      id_base: 1,
      id_step: 1,
      libs: vec![],
      spare_libs: vec![],
      null_mode: 0,
      pre: vec![],
      body: Body::Empty,
      post: vec![],
      near_libs: false,
      early_libs: BTreeMap::new(),
    }
  }
}

impl Body {
  /// The entries of the call array, if there is one.
  pub fn call_items(&self) -> Option<Vec<Node>> {
    let (args, more, ret) = match self {
      Body::Call { args, more, .. } => (args, more, None),
      Body::Return { args, more, value, .. } => (args, more, Some(value)),
      _ => return None,
    };
    if let Args::IsArray(ns) = args {
      return Some(ns.clone());
    }
    let mut items = vec![];
    if let Args::InArray(ns) = args {
      let place = if more.args_before { Place::Before } else { Place::After };
      items.push(Node::Arr(Box::new(Arr { place, body: ArrBody::Obj(ns.clone()) })));
    }
    if let Some(Ret::InArray(n)) = ret {
      items.push(n.clone());
    }
    items.extend(more.items.iter().map(|(_, n)| n.clone()));
    if items.is_empty() && !matches!(args, Args::InArray(_)) { None } else { Some(items) }
  }
}

// ---------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
  HeaderTag,
  RootId { value: bool, array: bool },
  HeaderId,
  Version,
  /// Record tag of a record at top level or in a slot.
  Tag,
  EndTag,
  /// The id of an object, whether anything refers to it, and whether it is an object of a class, in front of which so
  /// many classes were defined.
  ObjId { used: bool, classes: Option<u32> },
  RefId,
  MetaId { own: i32 },
  LibDef { used: bool },
  /// `bound`: the library of a class and that of a slot holding an object of it.
  LibUse { bound: bool },
  SlotType,
  /// `strict`: the codes of Null and String are not allowed here.
  PrimType { strict: bool },
  StrCode,
  ArrKind,
  Rank,
  /// Array length or dimension; `elem` is the least size of an element.
  Len { elem: u32, nullable: bool },
  Dim { zero_elsewhere: bool, nullable: bool },
  Bound,
  NullRun { left: u32, wide: bool },
  /// Number of members or inline arguments.
  Count,
  StrLen { len: u32 },
  /// `bound`: a class name that some typed slot repeats. `name`: not a value. Class id for member names.
  Text { bound: bool, name: bool },
  Prim(u8),
  /// `items`: entries of the call array if there is one; `args`: whether the first holds the arguments.
  Flags { call: bool, array: bool, items: u32, args: bool, alone: bool },
  /// The record type of an entry that is null, in an array with room for `left` entries (None: a class member).
  Null { left: Option<u32>, slot: SlotKind },
}

/// What a slot declares about its value.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SlotKind {
  Any,
  Text,
  Class,
  Prims,
}

#[derive(Clone, Debug)]
pub struct Field {
  pub off: usize,
  pub len: usize,
  pub kind: Kind,
}

#[derive(Clone, Debug)]
pub struct Span {
  pub off: usize,
  pub len: usize,
  pub what: &'static str,
  /// Losing the record breaks the message / writing it twice breaks the message.
  pub needed: bool,
  pub twice_bad: bool,
}

#[derive(Clone, Debug)]
pub struct Encoded {
  pub bytes: Vec<u8>,
  pub fields: Vec<Field>,
  pub spans: Vec<Span>,
  /// What an undisturbed receiver must return.
  pub msg: Msg,
  /// An override made a primitive or text illegal.
  pub illegal: bool,
  /// The message left the region in which the reference model makes a claim.
  pub unknown: bool,
  pub ids: BTreeSet<i32>,
  pub lib_ids: BTreeSet<i32>,
  /// Identifier and length of the name of each library.
  pub libs: Vec<(i32, usize)>,
  /// Identifiers of the classes in the order of their definitions, and whether anything refers to them.
  pub class_ids: Vec<(i32, bool)>,
  /// Null entries written as runs or otherwise.
  pub nulls: usize,
}

struct ClassDef {
  key: String,
  id: i32,
  actual_name: String,
  actual_members: Vec<String>,
  actual_lib: Option<String>,
  name_field: usize,
  lib_field: Option<usize>,
  bound: bool,
  lib_bound: bool,
  /// Field of the class name in the type information of each member.
  slot_fields: Vec<Option<usize>>,
}

struct Enc<'d> {
  doc: &'d Doc,
  over: &'d BTreeMap<u32, Vec<u8>>,
  out: Vec<u8>,
  fields: Vec<Field>,
  spans: Vec<Span>,
  illegal: bool,
  unknown: bool,
  next: i32,
  ids: BTreeSet<i32>,
  used_ids: BTreeSet<i32>,
  id_fields: HashMap<i32, (usize, Option<u32>)>,
  class_ids: Vec<i32>,
  lib_ids: BTreeMap<u8, (i32, String, usize, usize)>,
  lib_used: BTreeSet<u8>,
  classes: Vec<ClassDef>,
  before: HashMap<*const Node, (i32, Val)>,
  shared: HashMap<(u8, String), (i32, String)>,
  nulls: usize,
  places: u32,
  /// Where the last library record ends; no other may follow directly.
  lib_end: usize,
}

pub fn varint(mut n: u32) -> Vec<u8> {
  let mut v = vec![];
  while n >= 128 {
    v.push((n & 127) as u8 | 128);
    n >>= 7;
  }
  v.push(n as u8);
  v
}

pub fn valid_decimal(s: &str) -> bool {
  let t = s.strip_prefix('-').unwrap_or(s);
  let digits = t.bytes().filter(u8::is_ascii_digit).count();
  let dots = t.bytes().filter(|b| *b == b'.').count();
  digits > 0
    && digits <= 28
    && dots <= 1
    && digits + dots == t.len()
    && !t.starts_with('.')
    && !t.ends_with('.')
    && (t.len() == 1 || !t.starts_with('0') || t.starts_with("0."))
    && !(s.starts_with('-') && t.bytes().all(|b| b == b'0' || b == b'.'))
}

fn place_of(n: &Node, in_inline: bool) -> Place {
  let p = match n {
    Node::Str { place, .. } => *place,
    Node::Obj(o) => o.place,
    Node::Arr(a) => {
      if a.place == Place::Before {
        Place::Before
      } else {
        Place::After
      }
    },
    _ => Place::Inline,
  };
  if p == Place::After && in_inline { Place::Before } else { p }
}

impl<'d> Enc<'d> {
  fn put(&mut self, kind: Kind, bytes: Vec<u8>) -> Vec<u8> {
    let ord = self.fields.len() as u32;
    let b = match self.over.get(&ord) {
      Some(o) => o.clone(),
      None => bytes,
    };
    self.fields.push(Field { off: self.out.len(), len: b.len(), kind });
    self.out.extend_from_slice(&b);
    b
  }

  fn tag(&mut self, t: u8) {
    self.put(Kind::Tag, vec![t]);
  }

  fn i32(&mut self, kind: Kind, v: i32) {
    self.put(kind, v.to_le_bytes().to_vec());
  }

  fn new_id(&mut self) -> i32 {
    let id = self.next;
    self.next += self.doc.id_step.max(1);
    self.ids.insert(id);
    id
  }

  fn obj_id(&mut self, id: i32) {
    self.id_fields.insert(id, (self.fields.len(), None));
    self.i32(Kind::ObjId { used: false, classes: None }, id);
  }

  fn class_obj_id(&mut self, id: i32) {
    self.id_fields.insert(id, (self.fields.len(), Some(self.class_ids.len() as u32)));
    self.i32(Kind::ObjId { used: false, classes: None }, id);
  }

  fn text(&mut self, s: &str, bound: bool, name: bool) -> (String, usize) {
    self.put(Kind::StrLen { len: s.len() as u32 }, varint(s.len() as u32));
    let f = self.fields.len();
    let b = self.put(Kind::Text { bound, name }, s.as_bytes().to_vec());
    match String::from_utf8(b) {
      Ok(s) => (s, f),
      Err(_) => {
        self.illegal = true;
        (s.to_string(), f)
      },
    }
  }

  fn prim(&mut self, p: &P) -> Val {
    let code = p.code();
    macro_rules! num {
      ($x:expr, $t:ty, $v:expr) => {{
        let b = self.put(Kind::Prim(code), $x.to_le_bytes().to_vec());
        match <[u8; std::mem::size_of::<$t>()]>::try_from(&b[..]) {
          Ok(b) => $v(<$t>::from_le_bytes(b)),
          Err(_) => {
            self.unknown = true;
            Val::Null
          },
        }
      }};
    }
    match p {
      P::Bool(x) => {
        let b = self.put(Kind::Prim(code), vec![*x as u8]);
        match b[..] {
          [0] => Val::Bool(false),
          [1] => Val::Bool(true),
          _ => {
            self.illegal = true;
            Val::Null
          },
        }
      },
      P::U8(x) => num!(x, u8, Val::U8),
      P::Char(x) => {
        let mut buf = [0; 4];
        let b = self.put(Kind::Prim(code), x.encode_utf8(&mut buf).as_bytes().to_vec());
        match std::str::from_utf8(&b) {
          Ok(s) if s.chars().count() == 1 => Val::Char(s.chars().next().unwrap()),
          Ok(_) => {
            self.unknown = true;
            Val::Null
          },
          Err(e) => {
            if e.valid_up_to() == 0 && (e.error_len().is_some() || b.len() > 3) {
              self.illegal = true;
            } else {
              self.unknown = true;
            }
            Val::Null
          },
        }
      },
      P::Dec(x) => {
        self.put(Kind::StrLen { len: x.len() as u32 }, varint(x.len() as u32));
        let b = self.put(Kind::Prim(code), x.as_bytes().to_vec());
        match String::from_utf8(b) {
          Ok(s) if valid_decimal(&s) => Val::Dec(s),
          Ok(s) => {
            // Clearly not a number, or something the model does not want to judge (spellings, roundings).
            if s.bytes().any(|b| !(b.is_ascii_digit() || b"+-._eE".contains(&b))) {
              self.illegal = true;
            } else {
              self.unknown = true;
            }
            Val::Null
          },
          Err(_) => {
            self.illegal = true;
            Val::Null
          },
        }
      },
      P::F64(x) => num!(x, u64, Val::F64),
      P::I16(x) => num!(x, i16, Val::I16),
      P::I32(x) => num!(x, i32, Val::I32),
      P::I64(x) => num!(x, i64, Val::I64),
      P::I8(x) => num!(x, i8, Val::I8),
      P::F32(x) => num!(x, u32, Val::F32),
      P::Ts(x) => num!(x, i64, Val::Ts),
      P::Dt(x) => num!(x, i64, Val::Dt),
      P::U16(x) => num!(x, u16, Val::U16),
      P::U32(x) => num!(x, u32, Val::U32),
      P::U64(x) => num!(x, u64, Val::U64),
      P::Str(s) => Val::Str(self.text(s, false, false).0),
      P::Null => Val::Null,
    }
  }

  fn value_with_code(&mut self, p: &P) -> Val {
    self.put(Kind::PrimType { strict: false }, vec![p.code()]);
    self.prim(p)
  }

  fn str_with_code(&mut self, s: &str) -> String {
    self.put(Kind::StrCode, vec![18]);
    self.text(s, false, true).0
  }

  fn span(&mut self, start: usize, what: &'static str, needed: bool, twice_bad: bool) {
    self.spans.push(Span { off: start, len: self.out.len() - start, what, needed, twice_bad });
  }

  /// Writes the library record unless it has been written.
  fn library(&mut self, lib: u8) {
    if lib == 0 || self.lib_ids.contains_key(&lib) {
      return;
    }
    let name = self.doc.libs.get(lib as usize - 1).cloned().unwrap_or_else(|| format!("L{lib}"));
    let id = self.new_id();
    self.ids.remove(&id);
    let start = self.out.len();
    self.tag(12);
    let f = self.fields.len();
    self.i32(Kind::LibDef { used: false }, id);
    let (actual, _) = self.text(&name, false, true);
    let span = self.spans.len();
    self.span(start, "library", false, true);
    self.lib_end = self.out.len();
    self.lib_ids.insert(lib, (id, actual, f, span));
  }

  /// A place where the grammar allows a library in front of what follows, `own` being the library that must stand
  /// there anyway.
  fn lib_place(&mut self, own: u8) {
    let k = self.places;
    self.places += 1;
    if own != 0 && !self.lib_ids.contains_key(&own) || self.lib_end == self.out.len() {
      return;
    }
    if let Some(l) = self.doc.early_libs.get(&k) {
      self.library(*l);
    }
  }

  fn lib_use(&mut self, lib: u8) -> (i32, String) {
    match self.lib_ids.get(&lib) {
      Some((id, name, ..)) => {
        self.lib_used.insert(lib);
        (*id, name.clone())
      },
      None => {
        // Not yet written: a later record will carry the next id. Reserve it.
        unreachable!("library {lib} used before it was written")
      },
    }
  }

  /// Libraries that must exist before the record of `o` is written.
  fn libs_for(&mut self, o: &Obj) {
    self.library(o.lib);
  }

  fn class_key(o: &Obj) -> String {
    let names: Vec<&str> = o.members.iter().map(|m| m.name.as_str()).collect();
    let slots: Vec<String> =
      if o.typed { o.members.iter().map(|m| format!("{:?}", m.slot)).collect() } else { vec![] };
    format!("{:?}|{}|{}|{:?}|{:?}", o.class, o.lib, o.typed, names, slots)
  }

  fn slot_info(&mut self, slot: &Slot) -> Option<(String, usize)> {
    match slot {
      Slot::Prim(c) => {
        self.put(Kind::PrimType { strict: false }, vec![*c]);
        None
      },
      Slot::PrimArr(c) => {
        self.put(Kind::PrimType { strict: false }, vec![*c]);
        None
      },
      Slot::Sys(n) => Some(self.text(n, false, true)),
      Slot::Cls(n, lib) => {
        let r = self.text(n, false, true);
        let (id, _) = self.lib_use(*lib);
        self.i32(Kind::LibUse { bound: false }, id);
        Some(r)
      },
      _ => None,
    }
  }

  /// Libraries mentioned in the type information of slots are written before the record that mentions them; at most
  /// one library record may precede a record, so they go to top level, ahead of `top`.
  fn typed_libs(&self, n: &Node, out: &mut Vec<u8>) {
    match n {
      Node::Obj(o) => {
        for m in &o.members {
          if o.typed {
            if let Slot::Cls(_, l) = &m.slot {
              out.push(*l);
            }
          }
          self.typed_libs(&m.node, out);
        }
      },
      Node::Arr(a) => match &a.body {
        ArrBody::Obj(e) | ArrBody::Str(e) => e.iter().for_each(|n| self.typed_libs(n, out)),
        ArrBody::Bin { slot, elems, .. } => {
          if let Slot::Cls(_, l) = slot {
            out.push(*l);
          }
          elems.iter().for_each(|n| self.typed_libs(n, out));
        },
        _ => (),
      },
      _ => (),
    }
  }

  /// A library record needs a class or array after it: writes each as `library, spare array`.
  fn top_library(&mut self, lib: u8) {
    if lib == 0 || self.lib_ids.contains_key(&lib) {
      return;
    }
    self.library(lib);
    let id = self.new_id();
    let start = self.out.len();
    self.tag(17);
    self.obj_id(id);
    self.i32(Kind::Len { elem: 1, nullable: true }, 0);
    self.span(start, "spare array", false, false);
  }

  /// The libraries that the type information below `n` mentions.
  fn hoist(&mut self, n: &Node) {
    let mut libs = vec![];
    self.typed_libs(n, &mut libs);
    libs.retain(|l| *l != 0 && !self.lib_ids.contains_key(l));
    libs.sort();
    libs.dedup();
    if let ([l], true) = (&libs[..], self.doc.near_libs) {
      let own = match n {
        Node::Obj(o) => o.lib,
        _ => 0,
      };
      if own == 0 || own == *l || self.lib_ids.contains_key(&own) {
        self.library(*l);
        return;
      }
    }
    libs.into_iter().for_each(|l| self.top_library(l));
  }

  fn befores(&mut self, n: &'d Node, in_inline: bool, out: &mut Vec<&'d Node>) {
    let each = |s: &mut Self, c: &'d Node, inl: bool, out: &mut Vec<&'d Node>| {
      let p = place_of(c, inl);
      if p == Place::Before && !matches!(c, Node::Str { share, .. } if *share > 0) {
        out.push(c);
      } else {
        let inl = match c {
          Node::Obj(_) => p == Place::Inline || (inl && p != Place::After),
          _ => false,
        };
        s.befores(c, inl, out);
      }
    };
    match n {
      Node::Obj(o) => o.members.iter().for_each(|m| each(self, &m.node, in_inline, out)),
      Node::Arr(a) => match &a.body {
        ArrBody::Obj(e) | ArrBody::Str(e) => e.iter().for_each(|c| each(self, c, false, out)),
        ArrBody::Bin { elems, .. } => elems.iter().for_each(|c| each(self, c, false, out)),
        _ => (),
      },
      _ => (),
    }
  }

  fn write_befores(&mut self, nodes: &[&'d Node]) {
    for n in nodes {
      let mut out = vec![];
      self.befores(n, false, &mut out);
      self.write_befores(&out);
      self.hoist(n);
      let id = self.new_id();
      self.used_ids.insert(id);
      let start = self.out.len();
      let v = self.record(n, id);
      self.span(start, "before", true, false);
      self.before.insert(*n as *const Node, (id, v));
    }
  }

  /// A record at top level, preceded by everything it refers to backwards.
  fn top(&mut self, n: &'d Node, used: bool) -> (i32, Val) {
    let mut out = vec![];
    self.befores(n, false, &mut out);
    self.write_befores(&out);
    self.hoist(n);
    let id = self.new_id();
    if used {
      self.used_ids.insert(id);
    }
    let start = self.out.len();
    let v = self.record(n, id);
    self.span(start, "top", used, false);
    (id, v)
  }

  /// A referenceable with everything that follows it depth first.
  fn record(&mut self, n: &'d Node, id: i32) -> Val {
    match n {
      Node::Obj(o) => self.lib_place(o.lib),
      Node::Arr(_) => self.lib_place(0),
      _ => (),
    }
    match n {
      Node::Str { s, .. } => {
        self.tag(6);
        self.obj_id(id);
        Val::Str(self.text(s, false, false).0)
      },
      Node::Obj(o) => {
        let mut after = vec![];
        let (mut v, names) = self.object(o, id, false, None, &mut after);
        for (i, id, n) in after {
          let x = self.record(n, id);
          if let Val::Obj { members, .. } = &mut v {
            members.insert(names[i].clone(), x);
          }
        }
        v
      },
      Node::Arr(a) => self.array(a, id, false),
      Node::Null | Node::P(_) => {
        // Not referenceable; stands in for what minimisation removed.
        self.tag(6);
        self.obj_id(id);
        Val::Str(self.text("", false, false).0)
      },
    }
  }

  fn object(
    &mut self,
    o: &'d Obj,
    id: i32,
    inline: bool,
    bound_to: Option<(&str, Option<&str>)>,
    after: &mut Vec<(usize, i32, &'d Node)>,
  ) -> (Val, Vec<String>) {
    let key = Self::class_key(o);
    let known = if o.with_id { self.classes.iter().position(|c| c.key == key) } else { None };
    let (class, lib, names);
    match known {
      Some(k) => {
        self.tag(1);
        self.class_obj_id(id);
        let meta = self.classes[k].id;
        self.used_ids.insert(meta);
        self.i32(Kind::MetaId { own: id }, meta);
        class = self.classes[k].actual_name.clone();
        lib = self.classes[k].actual_lib.clone();
        names = self.classes[k].actual_members.clone();
        if let Some((_, l)) = bound_to {
          self.classes[k].bound = true;
          self.classes[k].lib_bound |= l.is_some();
        }
        let fields = self.classes[k].slot_fields.clone();
        self.bind_slots(o, inline, &fields);
      },
      None => {
        // The class's own library may be announced directly in front of the record.
        self.libs_for(o);
        self.tag(match (o.typed, o.lib != 0) {
          (false, false) => 2,
          (false, true) => 3,
          (true, false) => 4,
          (true, true) => 5,
        });
        self.class_obj_id(id);
        self.class_ids.push(id);
        let (c, name_field) = self.text(&o.class, bound_to.is_some(), true);
        class = c;
        self.i32(Kind::Count, o.members.len() as i32);
        let mut ns = vec![];
        let mut slot_fields = vec![];
        for m in &o.members {
          ns.push(self.text(&m.name, false, true).0);
        }
        if o.typed {
          for m in &o.members {
            self.put(Kind::SlotType, vec![m.slot.code()]);
          }
          for m in &o.members {
            slot_fields.push(self.slot_info(&m.slot).map(|(_, f)| f));
          }
        }
        let mut lib_field = None;
        lib = if o.lib != 0 {
          let (lid, lname) = self.lib_use(o.lib);
          lib_field = Some(self.fields.len());
          self.i32(Kind::LibUse { bound: matches!(bound_to, Some((_, Some(_)))) }, lid);
          Some(lname)
        } else {
          None
        };
        let distinct: BTreeSet<&String> = ns.iter().collect();
        if distinct.len() != ns.len() {
          self.unknown = true;
        }
        names = ns;
        self.bind_slots(o, inline, &slot_fields);
        if !self.classes.iter().any(|c| c.key == key) {
          self.classes.push(ClassDef {
            slot_fields,
            key,
            id,
            actual_name: class.clone(),
            actual_members: names.clone(),
            actual_lib: lib.clone(),
            name_field,
            lib_field,
            bound: bound_to.is_some(),
            lib_bound: matches!(bound_to, Some((_, Some(_)))),
          });
        }
      },
    }
    let mut members = BTreeMap::new();
    for (i, m) in o.members.iter().enumerate() {
      let slot = if o.typed { m.slot.clone() } else { Slot::Obj };
      let v = self.slot(&m.node, &slot, inline, i, after);
      members.insert(names[i].clone(), v);
    }
    (Val::Obj { class, lib, members }, names)
  }

  /// The class names in slots that hold an inline object must repeat the object's class.
  fn bind_slots(&mut self, o: &Obj, inline: bool, fields: &[Option<usize>]) {
    for (m, f) in o.members.iter().zip(fields) {
      if let (Some(f), Node::Obj(_)) = (f, &m.node) {
        if place_of(&m.node, inline) == Place::Inline {
          self.bind(*f, &m.slot);
        }
      }
    }
  }

  /// The class that a slot declares is that of an object in it.
  fn bind(&mut self, f: usize, slot: &Slot) {
    self.fields[f].kind = Kind::Text { bound: true, name: true };
    if let Slot::Cls(..) = slot {
      self.fields[f + 1].kind = Kind::LibUse { bound: true };
    }
  }

  /// One member or element. Null runs are written by `elements`.
  fn slot(
    &mut self,
    n: &'d Node,
    slot: &Slot,
    in_inline: bool,
    i: usize,
    after: &mut Vec<(usize, i32, &'d Node)>,
  ) -> Val {
    if !matches!(slot, Slot::Prim(_) | Slot::StrArr) {
      let own = match n {
        Node::Obj(o) if place_of(n, in_inline) == Place::Inline => o.lib,
        _ => 0,
      };
      self.lib_place(own);
    }
    match n {
      Node::Null => {
        if let Slot::Prim(c) = slot {
          // Minimised away: a zero of the declared type.
          return self.prim(&zero(*c));
        }
        self.nulls += 1;
        self.put(Kind::Null { left: None, slot: slot.kind() }, vec![10]);
        Val::Null
      },
      Node::P(p) => {
        if let Slot::Prim(c) = slot {
          if *c != p.code() {
            return self.prim(&zero(*c));
          }
          return self.prim(p);
        }
        self.tag(8);
        self.put(Kind::PrimType { strict: true }, vec![p.code()]);
        self.prim(p)
      },
      Node::Str { s, share, .. } => {
        if *share > 0 {
          if let Some((id, text)) = self.shared.get(&(*share, s.clone())).cloned() {
            self.used_ids.insert(id);
            self.tag(9);
            self.i32(Kind::RefId, id);
            return Val::Str(text);
          }
          let id = self.new_id();
          self.tag(6);
          self.obj_id(id);
          let text = self.text(s, false, false).0;
          self.shared.insert((*share, s.clone()), (id, text.clone()));
          return Val::Str(text);
        }
        match place_of(n, in_inline) {
          Place::Inline => {
            let id = self.new_id();
            self.tag(6);
            self.obj_id(id);
            Val::Str(self.text(s, false, false).0)
          },
          Place::After => self.defer(n, i, after),
          Place::Before => self.refer(n),
        }
      },
      Node::Obj(o) => match place_of(n, in_inline) {
        Place::Inline => {
          let id = self.new_id();
          let bound = match slot {
            Slot::Sys(s) => Some((s.as_str(), None)),
            Slot::Cls(s, _) => Some((s.as_str(), Some(""))),
            _ => None,
          };
          let mut none = vec![];
          let v = self.object(o, id, true, bound, &mut none).0;
          debug_assert!(none.is_empty());
          v
        },
        Place::After => self.defer(n, i, after),
        Place::Before => self.refer(n),
      },
      Node::Arr(_) => match place_of(n, in_inline) {
        Place::Before => self.refer(n),
        _ => self.defer(n, i, after),
      },
    }
  }

  fn defer(&mut self, n: &'d Node, i: usize, after: &mut Vec<(usize, i32, &'d Node)>) -> Val {
    let id = self.new_id();
    self.used_ids.insert(id);
    self.tag(9);
    self.i32(Kind::RefId, id);
    after.push((i, id, n));
    Val::Null
  }

  fn refer(&mut self, n: &'d Node) -> Val {
    let (id, v) = self.before.get(&(n as *const Node)).cloned().expect("written before");
    self.tag(9);
    self.i32(Kind::RefId, id);
    v
  }

  fn elements(&mut self, elems: &'d [Node], slot: &Slot) -> Vec<Val> {
    let mut after = vec![];
    let mut vals: Vec<Val> = vec![];
    let (mut i, mut run_end) = (0, 0);
    while i < elems.len() {
      if matches!(elems[i], Node::Null) && !matches!(slot, Slot::Prim(_)) {
        if run_end <= i {
          run_end = i + 1;
          while run_end < elems.len() && matches!(elems[run_end], Node::Null) {
            run_end += 1;
          }
        }
        let run = run_end - i;
        let mode = match self.doc.null_mode {
          3 => (i + run) as u8 % 3,
          m => m,
        };
        let left = (elems.len() - i) as u32;
        let take;
        match mode {
          0 => {
            take = 1;
            self.put(Kind::Null { left: Some(left), slot: slot.kind() }, vec![10]);
          },
          1 => {
            take = if self.doc.null_mode == 3 { run.min(1 + run / 2) } else { run }.min(255);
            self.tag(13);
            self.put(Kind::NullRun { left, wide: false }, vec![take as u8]);
          },
          _ => {
            take = run;
            self.tag(14);
            self.put(Kind::NullRun { left, wide: true }, (take as i32).to_le_bytes().to_vec());
          },
        }
        self.nulls += take;
        for _ in 0..take {
          vals.push(Val::Null);
        }
        i += take;
      } else {
        let v = self.slot(&elems[i], slot, false, i, &mut after);
        vals.push(v);
        i += 1;
      }
    }
    for (i, id, n) in after {
      vals[i] = self.record(n, id);
    }
    vals
  }

  fn array(&mut self, a: &'d Arr, id: i32, call: bool) -> Val {
    match &a.body {
      ArrBody::Prim(code, ps) => {
        self.tag(15);
        self.obj_id(id);
        let elem = match code {
          7 | 14 => 2,
          8 | 11 | 15 => 4,
          6 | 9 | 12 | 13 | 16 => 8,
          _ => 1,
        };
        self.i32(Kind::Len { elem, nullable: false }, ps.len() as i32);
        self.put(Kind::PrimType { strict: !ps.is_empty() }, vec![*code]);
        let v = ps.iter().map(|p| if p.code() == *code { self.prim(p) } else { self.prim(&zero(*code)) }).collect();
        Val::Arr(v)
      },
      ArrBody::Obj(e) => {
        self.tag(16);
        self.obj_id(id);
        let _ = call;
        self.i32(Kind::Len { elem: 1, nullable: true }, e.len() as i32);
        Val::Arr(self.elements(e, &Slot::Obj))
      },
      ArrBody::Str(e) => {
        self.tag(17);
        self.obj_id(id);
        self.i32(Kind::Len { elem: 1, nullable: true }, e.len() as i32);
        Val::Arr(self.elements(e, &Slot::Str))
      },
      ArrBody::Bin { kind, dims, bounds, slot, elems } => {
        self.tag(7);
        self.obj_id(id);
        self.put(Kind::ArrKind, vec![*kind]);
        self.i32(Kind::Rank, dims.len() as i32);
        let nullable = !matches!(slot, Slot::Prim(_));
        let zeros = dims.iter().filter(|d| **d == 0).count();
        for d in dims {
          let zero_elsewhere = zeros > (*d == 0) as usize;
          self.i32(Kind::Dim { zero_elsewhere, nullable }, *d as i32);
        }
        if *kind >= 3 {
          for i in 0..dims.len() {
            self.i32(Kind::Bound, bounds.get(i).copied().unwrap_or(0));
          }
        }
        self.put(Kind::SlotType, vec![slot.code()]);
        if let Some((_, f)) = self.slot_info(slot) {
          if elems.iter().any(|e| matches!(e, Node::Obj(_)) && place_of(e, false) == Place::Inline) {
            self.bind(f, slot);
          }
        }
        let mut vals = self.elements(elems, slot);
        for d in dims.iter().skip(1).rev() {
          let d = (*d).max(1) as usize;
          vals = vals.chunks(d).map(|c| Val::Arr(c.to_vec())).collect();
        }
        Val::Arr(vals)
      },
    }
  }
}

/// The zero of a primitive type.
pub fn zero(code: u8) -> P {
  match code {
    1 => P::Bool(false),
    2 => P::U8(0),
    3 => P::Char('0'),
    5 => P::Dec("0".into()),
    6 => P::F64(0),
    7 => P::I16(0),
    8 => P::I32(0),
    9 => P::I64(0),
    10 => P::I8(0),
    11 => P::F32(0),
    12 => P::Ts(0),
    13 => P::Dt(0),
    14 => P::U16(0),
    15 => P::U32(0),
    _ => P::U64(0),
  }
}

pub fn encode(doc: &Doc, over: &BTreeMap<u32, Vec<u8>>) -> Encoded {
  let items = doc.body.call_items();
  let mut e = Enc {
    doc,
    over,
    out: vec![],
    fields: vec![],
    spans: vec![],
    illegal: false,
    unknown: false,
    next: doc.id_base.max(1),
    ids: BTreeSet::new(),
    used_ids: BTreeSet::new(),
    id_fields: HashMap::new(),
    class_ids: vec![],
    lib_ids: BTreeMap::new(),
    lib_used: BTreeSet::new(),
    classes: vec![],
    before: HashMap::new(),
    shared: HashMap::new(),
    nulls: 0,
    places: 0,
    lib_end: 0,
  };
  e.put(Kind::HeaderTag, vec![0]);
  let value = matches!(doc.body, Body::Empty | Body::Root(_));
  let array = items.is_some();
  let root_field = e.fields.len();
  e.put(Kind::RootId { value, array }, vec![0; 4]);
  e.i32(Kind::HeaderId, doc.header_id);
  e.i32(Kind::Version, 1);
  e.i32(Kind::Version, 0);
  e.span(0, "header", true, true);
  let mut root_id = 0;
  for l in &doc.spare_libs {
    e.top_library(*l);
  }
  for n in &doc.pre {
    e.top(n, false);
  }
  let msg = match &doc.body {
    Body::Empty => Msg::Value(Val::Null),
    Body::Root(n) => {
      let (id, v) = e.top(n, true);
      root_id = id;
      Msg::Value(v)
    },
    Body::Call { ctx, no_ctx_flag, args, extra, root, more, .. }
    | Body::Return { ctx, no_ctx_flag, args, extra, root, more, .. } => {
      root_id = *root;
      // Everything the call array refers to backwards comes before the call.
      let mut pre = vec![];
      if let Some(ns) = &items {
        for n in ns {
          let p = place_of(n, false);
          if p == Place::Before && !matches!(n, Node::Str { share, .. } if *share > 0) {
            pre.push(n);
          } else {
            e.befores(n, matches!(n, Node::Obj(_)) && p == Place::Inline, &mut pre);
          }
        }
        e.write_befores(&pre);
        let mut libs = vec![];
        ns.iter().for_each(|n| e.typed_libs(n, &mut libs));
        libs.into_iter().for_each(|l| e.top_library(l));
      }
      let call = matches!(doc.body, Body::Call { .. });
      let mut flags = *extra;
      flags |= match args {
        Args::Absent => 0,
        Args::No => 1,
        Args::Inline(_) => 2,
        Args::IsArray(_) => 4,
        Args::InArray(_) => 8,
      };
      let alone = matches!(args, Args::IsArray(_));
      if !alone {
        more.items.iter().for_each(|(f, _)| flags |= f);
      }
      let in_array = flags & 0x40 != 0;
      flags |= match (ctx, no_ctx_flag) {
        _ if in_array => 0,
        (Some(_), _) => 0x20,
        (None, true) => 0x10,
        _ => 0,
      };
      let ctx = if in_array { &None } else { ctx };
      if let Body::Return { value, .. } = &doc.body {
        flags |= match value {
          Ret::Absent => 0,
          Ret::No => 0x200,
          Ret::Void => 0x400,
          Ret::Inline(_) => 0x800,
          Ret::InArray(_) if alone => 0x400,
          Ret::InArray(_) => 0x1000,
        };
      }
      e.lib_place(0);
      let start = e.out.len();
      e.tag(if call { 21 } else { 22 });
      let count = items.as_ref().map_or(0, |v| v.len() as u32);
      e.i32(Kind::Flags { call, array, items: count, args: matches!(args, Args::InArray(_)), alone }, flags);
      let (mut method, mut typ, mut value) = (String::new(), String::new(), None);
      match &doc.body {
        Body::Call { method: m, typ: t, .. } => {
          method = e.str_with_code(m);
          typ = e.str_with_code(t);
        },
        Body::Return { value: Ret::Inline(p), .. } => value = Some(e.value_with_code(p)),
        _ => (),
      }
      let ctx = ctx.as_ref().map(|c| e.str_with_code(c));
      let mut out_args = None;
      if let Args::Inline(ps) = args {
        e.i32(Kind::Count, ps.len() as i32);
        out_args = Some(ps.iter().map(|p| e.value_with_code(p)).collect::<Vec<_>>());
      }
      e.span(start, "method", false, true);
      if let Some(ns) = &items {
        let start = e.out.len();
        e.lib_place(0);
        let id = e.new_id();
        e.used_ids.insert(id);
        root_id = id;
        e.tag(16);
        e.obj_id(id);
        e.i32(Kind::Len { elem: 1, nullable: true }, ns.len() as i32);
        let vals = e.elements(ns, &Slot::Obj);
        let mut index = 0;
        match args {
          Args::IsArray(_) => out_args = Some(vals.clone()),
          Args::InArray(_) => {
            if let Some(Val::Arr(v)) = vals.first() {
              out_args = Some(v.clone());
            }
            index = 1;
          },
          _ => (),
        }
        if let (Body::Return { value: Ret::InArray(_), .. }, false) = (&doc.body, alone) {
          value = vals.get(index).cloned();
        }
        // Only what flags ask for is needed.
        let needed = alone || flags & 0x1008 != 0;
        e.span(start, "call array", needed, false);
      }
      if call {
        Msg::Call { method, typ, ctx, args: out_args }
      } else {
        Msg::Return { value, ctx, args: out_args }
      }
    },
  };
  for n in &doc.post {
    e.top(n, false);
  }
  let start = e.out.len();
  e.put(Kind::EndTag, vec![11]);
  e.span(start, "end", true, true);

  let root_bytes = match over.get(&(root_field as u32)) {
    Some(b) => b.clone(),
    None => root_id.to_le_bytes().to_vec(),
  };
  let f = &e.fields[root_field];
  e.out[f.off..f.off + 4].copy_from_slice(&root_bytes[..4]);
  for (id, (f, classes)) in &e.id_fields {
    e.fields[*f].kind = Kind::ObjId { used: e.used_ids.contains(id), classes: *classes };
  }
  let mut lib_ids = BTreeSet::new();
  let mut libs = vec![];
  for (lib, (id, name, f, span)) in &e.lib_ids {
    lib_ids.insert(*id);
    libs.push((*id, name.len()));
    e.fields[*f].kind = Kind::LibDef { used: e.lib_used.contains(lib) };
    e.spans[*span].needed = e.lib_used.contains(lib);
  }
  for c in &e.classes {
    if c.bound {
      e.fields[c.name_field].kind = Kind::Text { bound: true, name: true };
    }
    if let (true, Some(f)) = (c.lib_bound, c.lib_field) {
      e.fields[f].kind = Kind::LibUse { bound: true };
    }
  }
  let class_ids = e.class_ids.iter().map(|id| (*id, e.used_ids.contains(id))).collect();
  Encoded {
    libs,
    class_ids,
    bytes: e.out,
    fields: e.fields,
    spans: e.spans,
    msg,
    illegal: e.illegal,
    unknown: e.unknown,
    ids: e.ids,
    lib_ids,
    nulls: e.nulls,
  }
}
