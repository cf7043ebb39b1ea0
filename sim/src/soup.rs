//! Messages made of any records in almost any places, among them many that the sender of `doc.rs` never writes: flags
//! in any combination, call arrays without what the flags promise, references to anything, classes and members that do
//! not fit. Nothing is claimed about them. A soup is a function of its seed and size.

use simcore::Rng;

use crate::doc::varint;

#[derive(Clone, Debug, PartialEq)]
enum Ty {
  Prim(u8),
  Str,
  Obj,
  Sys(u8),
  Cls(u8, u32),
  ObjArr,
  StrArr,
  PrimArr(u8),
}

struct Class {
  id: u32,
  name: u8,
  lib: Option<u32>,
  members: Vec<Ty>,
}

struct Soup {
  r: Rng,
  b: Vec<u8>,
  next: u32,
  /// Records that may still be written.
  budget: i32,
  /// One choice in so many is a wrong one.
  rate: usize,
  libs: Vec<u32>,
  classes: Vec<Class>,
  seen: Vec<u32>,
  later: Vec<(u32, Ty)>,
}

const NAMES: [&str; 12] = [
  "C", "D", "Point", "System.Int32", "System.Collections.Generic.List`1", "System.Boolean", "System.Char", "Ns.E", "", "System.Collections.Generic.List`1[[System.String]]",
  "System.UInt64", "Häuser",
];
const MEMBERS: [&str; 10] = ["a", "b", "m_value", "_items", "_size", "_version", "name", "value", "", "a"];

impl Soup {
  fn wrong(&mut self) -> bool {
    self.rate < 1000 && self.r.one_in(self.rate)
  }

  fn i(&mut self, v: u32) {
    self.b.extend(v.to_le_bytes());
  }

  fn text(&mut self, s: &str) {
    self.b.extend(varint(s.len() as u32));
    self.b.extend_from_slice(s.as_bytes());
  }

  fn id(&mut self) -> u32 {
    if self.wrong() {
      return match self.r.below(4) {
        0 => 0,
        1 => u32::MAX,
        _ => 1 + self.r.below(8) as u32,
      };
    }
    self.next += 1;
    self.next
  }

  fn count(&mut self, most: usize) -> u32 {
    self.budget -= 1;
    if self.budget <= 0 {
      return 0;
    }
    self.r.below(most) as u32
  }

  fn prim_code(&mut self) -> u8 {
    *self.r.pick(&[1, 2, 3, 5, 6, 7, 8, 8, 8, 9, 10, 11, 12, 13, 14, 15, 16])
  }

  fn prim(&mut self, code: u8) {
    let n = match code {
      1 | 2 | 10 => 1,
      7 | 14 => 2,
      8 | 11 | 15 => 4,
      3 => {
        let s = *self.r.pick(&["a", "ß", "€", "😀", "\u{0}"]);
        self.b.extend_from_slice(s.as_bytes());
        0
      },
      5 => {
        let s = *self.r.pick(&["0", "-1.50", "79228162514264337593543950335", "1e5", "+1", " 1", "1_0", ".5", "1."]);
        self.text(s);
        0
      },
      17 => 0,
      18 => {
        let s = *self.r.pick(&["", "s", "text", "ümlaut"]);
        self.text(s);
        0
      },
      _ => 8,
    };
    let v = if self.r.one_in(3) { self.r.next() } else { self.r.below(3) as u64 };
    let v = if code == 1 && !self.wrong() { v & 1 } else { v };
    self.b.extend_from_slice(&v.to_le_bytes()[..n]);
  }

  fn ty(&mut self) -> Ty {
    match self.r.below(12) {
      0..=3 => Ty::Prim(self.prim_code()),
      4 | 5 => Ty::Str,
      6 | 7 => Ty::Obj,
      8 => Ty::Sys(self.r.below(NAMES.len()) as u8),
      9 => {
        let lib = if self.libs.is_empty() || self.wrong() { 70 + self.r.below(3) as u32 } else { *self.r.pick(&self.libs) };
        Ty::Cls(self.r.below(NAMES.len()) as u8, lib)
      },
      10 => {
        if self.r.one_in(2) {
          Ty::ObjArr
        } else {
          Ty::StrArr
        }
      },
      _ => Ty::PrimArr(self.prim_code()),
    }
  }

  fn ty_code(&mut self, t: &Ty) {
    self.b.push(match t {
      Ty::Prim(_) => 0,
      Ty::Str => 1,
      Ty::Obj => 2,
      Ty::Sys(_) => 3,
      Ty::Cls(..) => 4,
      Ty::ObjArr => 5,
      Ty::StrArr => 6,
      Ty::PrimArr(_) => 7,
    });
  }

  fn ty_info(&mut self, t: &Ty) {
    match *t {
      Ty::Prim(p) | Ty::PrimArr(p) => self.b.push(p),
      Ty::Sys(n) => self.text(NAMES[n as usize]),
      Ty::Cls(n, lib) => {
        self.text(NAMES[n as usize]);
        self.i(lib);
      },
      _ => (),
    }
  }

  fn library(&mut self, id: u32) {
    if self.libs.contains(&id) && !self.wrong() {
      return;
    }
    if self.wrong() {
      return;
    }
    self.libs.push(id);
    self.b.push(12);
    self.i(id);
    let s = *self.r.pick(&["Lib", "lib", "mscorlib", ""]);
    self.text(s);
  }

  fn object(&mut self, id: u32, want: Option<(u8, Option<u32>)>, depth: usize) {
    self.budget -= 1;
    let known: Vec<usize> = (0..self.classes.len()).filter(|k| want.is_none_or(|w| (self.classes[*k].name, self.classes[*k].lib) == w)).collect();
    let members;
    if !known.is_empty() && self.r.one_in(2) {
      let k = *self.r.pick(&known);
      self.b.push(1);
      self.i(id);
      let class = if self.wrong() { self.r.below(9) as u32 } else { self.classes[k].id };
      self.i(class);
      members = self.classes[k].members.clone();
    } else {
      let (name, lib) = want.unwrap_or_else(|| {
        let name = self.r.below(NAMES.len()) as u8;
        (name, if self.r.one_in(2) { Some(70 + self.r.below(3) as u32) } else { None })
      });
      let name = if self.wrong() { self.r.below(NAMES.len()) as u8 } else { name };
      if let Some(lib) = lib {
        self.library(lib);
      }
      let typed = !self.r.one_in(3);
      self.b.push(match (typed, lib.is_some()) {
        (true, true) => 5,
        (true, false) => 4,
        (false, true) => 3,
        (false, false) => 2,
      });
      self.i(id);
      self.text(NAMES[name as usize]);
      let list = NAMES[name as usize].contains("List") && !self.wrong();
      let wrapper = NAMES[name as usize].starts_with("System.") && !list && !self.wrong();
      let mut names: Vec<&str> = vec![];
      let mut m: Vec<Ty> = vec![];
      if list {
        names = vec!["_items", "_size", "_version"];
        m = vec![Ty::ObjArr, Ty::Prim(8), Ty::Prim(8)];
      } else if wrapper {
        names = vec!["m_value"];
        m = vec![Ty::Prim(self.prim_code())];
      } else {
        for _ in 0..self.count(5) {
          names.push(*self.r.pick(&MEMBERS));
          let t = self.ty();
          m.push(if typed { t } else { Ty::Obj });
        }
      }
      if !typed {
        m.iter_mut().for_each(|t| *t = Ty::Obj);
      }
      self.i(m.len() as u32);
      names.iter().for_each(|n| self.text(n));
      if typed {
        for t in &m {
          self.ty_code(t);
        }
        for t in &m {
          self.ty_info(t);
        }
      }
      if let Some(lib) = lib {
        self.i(lib);
      }
      self.classes.push(Class { id, name, lib, members: m.clone() });
      members = m;
    }
    self.values(&members, depth);
  }

  /// Values one after the other, and then what they refer to.
  fn values(&mut self, types: &[Ty], depth: usize) {
    let outer = std::mem::take(&mut self.later);
    for t in types {
      self.value(t, depth);
    }
    let later = std::mem::replace(&mut self.later, outer);
    for (id, t) in later {
      if !self.wrong() {
        self.referenceable(id, &t, depth + 1);
      }
    }
  }

  fn refer(&mut self, t: &Ty) {
    self.b.push(9);
    if !self.seen.is_empty() && (self.wrong() || self.r.one_in(6)) {
      let id = *self.r.pick(&self.seen);
      self.i(id);
    } else {
      let id = self.id();
      self.i(id);
      self.later.push((id, t.clone()));
    }
  }

  fn null(&mut self) {
    match self.r.below(12) {
      0 => self.b.extend([13, 1]),
      1 => self.b.extend([14, 1, 0, 0, 0]),
      2 if self.wrong() => {
        let n = self.r.below(4) as u8;
        self.b.extend([13, n]);
      },
      _ => self.b.push(10),
    }
  }

  fn value(&mut self, t: &Ty, depth: usize) {
    let t = if self.wrong() { self.ty() } else { t.clone() };
    if depth > 5 || self.budget <= 0 {
      return match t {
        Ty::Prim(p) => self.prim(p),
        _ => self.null(),
      };
    }
    self.budget -= 1;
    match t {
      Ty::Prim(p) => self.prim(p),
      Ty::Str => match self.r.below(4) {
        0 => self.null(),
        1 => self.refer(&Ty::Str),
        _ => self.string(),
      },
      Ty::Obj => match self.r.below(6) {
        0 => self.null(),
        1 => self.string(),
        2 => {
          let p = self.prim_code();
          self.b.extend([8, p]);
          self.prim(p);
        },
        3 => {
          let t = self.ty();
          self.refer(&t);
        },
        _ => {
          let id = self.id();
          self.object(id, None, depth + 1);
        },
      },
      Ty::Sys(_) | Ty::Cls(..) => match self.r.below(4) {
        0 => self.null(),
        1 => self.refer(&t),
        _ => {
          let id = self.id();
          self.object(id, Some(class_of(&t)), depth + 1);
        },
      },
      Ty::ObjArr | Ty::StrArr | Ty::PrimArr(_) => {
        if self.r.one_in(4) {
          self.null()
        } else {
          self.refer(&t)
        }
      },
    }
  }

  fn string(&mut self) {
    let id = self.id();
    self.b.push(6);
    self.i(id);
    let s = *self.r.pick(&["", "x", "text", "\u{0b}", "grüße"]);
    self.text(s);
    self.seen.push(id);
  }

  fn elements(&mut self, t: &Ty, n: u32, depth: usize) {
    let mut types = vec![];
    let mut left = n;
    // Runs of nulls come first or last; both are common.
    let run = if matches!(t, Ty::Prim(_)) || left == 0 || !self.r.one_in(4) { 0 } else { 1 + self.r.below(left as usize) as u32 };
    let first = self.r.one_in(2);
    let run = if self.wrong() { run + 1 } else { run };
    if run > 0 && first {
      self.b.extend([13, run as u8]);
    }
    left -= run.min(left);
    types.resize(left as usize, t.clone());
    if run > 0 && !first {
      // What the values refer to comes after the run.
      let outer = std::mem::take(&mut self.later);
      types.iter().for_each(|t| self.value(t, depth));
      self.b.extend([13, run as u8]);
      let later = std::mem::replace(&mut self.later, outer);
      for (id, t) in later {
        self.referenceable(id, &t, depth + 1);
      }
    } else {
      self.values(&types, depth);
    }
  }

  fn referenceable(&mut self, id: u32, t: &Ty, depth: usize) {
    self.budget -= 1;
    let t = if self.wrong() { self.ty() } else { t.clone() };
    match t {
      Ty::Str => {
        self.b.push(6);
        self.i(id);
        self.text("later");
        self.seen.push(id);
      },
      Ty::Sys(_) | Ty::Cls(..) => self.object(id, Some(class_of(&t)), depth),
      Ty::Obj => self.object(id, None, depth),
      Ty::ObjArr | Ty::StrArr | Ty::PrimArr(_) | Ty::Prim(_) if self.r.one_in(3) => {
        let kind = self.r.below(6) as u8;
        let rank = if matches!(kind, 2 | 5) || self.wrong() { self.r.below(4) as u32 + u32::from(self.rate > 30) } else { 1 };
        self.b.push(7);
        self.i(id);
        self.b.push(kind);
        self.i(rank);
        let mut n = 1;
        for _ in 0..rank {
          let l = self.count(4);
          n *= l;
          self.i(l);
        }
        if kind >= 3 {
          for _ in 0..rank {
            let v = self.r.below(3) as u32;
            self.i(v.wrapping_sub(1));
          }
        }
        let e = match &t {
          Ty::PrimArr(p) | Ty::Prim(p) => Ty::Prim(*p),
          Ty::StrArr => Ty::Str,
          _ => self.ty(),
        };
        self.ty_code(&e);
        self.ty_info(&e);
        self.elements(&e, n, depth);
      },
      Ty::ObjArr => {
        self.b.push(16);
        self.i(id);
        let n = self.count(5);
        self.i(n);
        self.elements(&Ty::Obj, n, depth);
      },
      Ty::StrArr => {
        self.b.push(17);
        self.i(id);
        let n = self.count(5);
        self.i(n);
        self.elements(&Ty::Str, n, depth);
      },
      Ty::PrimArr(p) | Ty::Prim(p) => {
        self.b.push(15);
        self.i(id);
        let n = self.count(6);
        self.i(n);
        self.b.push(p);
        self.elements(&Ty::Prim(p), n, depth);
      },
    }
    if !self.seen.contains(&id) && self.r.one_in(20) {
      self.seen.push(id);
    }
  }

  fn with_code(&mut self) {
    let p = match self.r.below(8) {
      0 => 17,
      1 | 2 => 18,
      _ => self.prim_code(),
    };
    self.b.push(p);
    self.prim(p);
  }

  fn method(&mut self, root: u32, is_return: bool) {
    let args = *self.r.pick(&[1, 2, 4, 4, 8, 8, 8]);
    let ctx = *self.r.pick(&[0x10, 0x10, 0x20, 0x40]);
    let mut flags = args | ctx;
    if is_return {
      flags |= *self.r.pick(&[0x200, 0x400, 0x800, 0x1000, 0x1000]);
    }
    for f in [0x80, 0x100, 0x8000] {
      if self.r.one_in(6) {
        flags |= f;
      }
    }
    if self.r.one_in(12) {
      flags = flags & !0xf | 0x2000;
    }
    if self.wrong() {
      flags ^= 1 << self.r.below(17);
    }
    self.b.push(if is_return { 22 } else { 21 });
    self.i(flags);
    let string = |s: &mut Soup, t: &str| {
      s.b.push(18);
      s.text(t);
    };
    if is_return {
      if flags & 0x800 != 0 {
        self.with_code();
      }
    } else {
      string(self, "Method");
      string(self, "Type, Lib");
    }
    if flags & 0x20 != 0 {
      string(self, "context");
    }
    if flags & 2 != 0 {
      let n = self.count(4);
      self.i(n);
      for _ in 0..n {
        self.with_code();
      }
    }
    if flags & (4 | 8 | 0x40 | 0x80 | 0x100 | 0x1000 | 0x2000 | 0x8000) != 0 || self.wrong() {
      if self.wrong() {
        self.library(70);
      }
      self.b.push(16);
      let id = if self.wrong() { self.id() } else { root };
      self.i(id);
      let mut types = vec![];
      if flags & 8 != 0 && !self.r.one_in(8) {
        types.push(Ty::ObjArr);
      }
      if flags & 0x1000 != 0 && !self.r.one_in(8) {
        types.push(Ty::Obj);
      }
      for _ in 0..self.r.below(3) {
        types.push(Ty::Obj);
      }
      if self.r.one_in(8) {
        types.clear();
      }
      self.i(types.len() as u32);
      // Arguments are referred to.
      let outer = std::mem::take(&mut self.later);
      for t in &types {
        match t {
          Ty::ObjArr if !self.r.one_in(8) => self.refer(t),
          _ => self.value(t, 1),
        }
      }
      let later = std::mem::replace(&mut self.later, outer);
      for (id, t) in later {
        self.referenceable(id, &t, 1);
      }
    }
  }
}

fn class_of(t: &Ty) -> (u8, Option<u32>) {
  match *t {
    Ty::Cls(n, lib) => (n, Some(lib)),
    Ty::Sys(n) => (n, None),
    _ => (0, None),
  }
}

pub fn soup(seed: u64, size: u32) -> Vec<u8> {
  let mut r = Rng::new(seed);
  let rate = *r.pick(&[8, 25, 25, 80, 1000, 1000]);
  let mut s = Soup {
    r,
    b: vec![0],
    next: 1,
    budget: size as i32,
    rate,
    libs: vec![],
    classes: vec![],
    seen: vec![],
    later: vec![],
  };
  let method = s.r.one_in(2);
  let root = if s.wrong() { s.r.below(3) as u32 } else { 1 };
  s.i(root);
  s.i(u32::MAX);
  s.i(1);
  s.i(0);
  let some = |s: &mut Soup, n: usize| {
    for _ in 0..s.r.below(n) {
      if s.budget > 0 {
        let id = s.id();
        let t = s.ty();
        s.referenceable(id, &t, 1);
      }
    }
  };
  if s.r.one_in(3) {
    some(&mut s, 3);
  }
  if method {
    let is_return = s.r.one_in(2);
    s.method(root, is_return);
  } else {
    let t = s.ty();
    s.referenceable(root, &t, 0);
  }
  if s.r.one_in(3) {
    some(&mut s, 3);
  }
  s.b.push(11);
  s.b
}
