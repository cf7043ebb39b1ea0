//! The reference model as a source of deserialisation: what a consumer of any type is to receive from a message that
//! carries a given value, written from the documentation of the data formats and not from the library's code.

use std::cell::Cell;

use serde::de::value::{Error, MapDeserializer, SeqDeserializer};
use serde::de::{Deserializer, Error as _, IntoDeserializer, Visitor};
use serde::forward_to_deserialize_any;
use simcore::{Msg, Val};

thread_local! {
  static NO_CLAIM: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f`; `None` if it met something the model makes no claim about.
pub fn claimed<T>(f: impl FnOnce() -> T) -> Option<T> {
  NO_CLAIM.set(false);
  let r = f();
  if NO_CLAIM.get() { None } else { Some(r) }
}

#[derive(Clone, Copy)]
pub struct ModelDe<'de>(pub &'de Val);

#[derive(Clone, Copy)]
pub struct MsgDe<'de>(pub &'de Msg);

impl<'de> IntoDeserializer<'de, Error> for ModelDe<'de> {
  type Deserializer = Self;

  fn into_deserializer(self) -> Self {
    self
  }
}

#[derive(Clone, Copy)]
struct Key<'de>(&'de str);

impl<'de> IntoDeserializer<'de, Error> for Key<'de> {
  type Deserializer = serde::de::value::BorrowedStrDeserializer<'de, Error>;

  fn into_deserializer(self) -> Self::Deserializer {
    serde::de::value::BorrowedStrDeserializer::new(self.0)
  }
}

fn seq<'de, V: Visitor<'de>>(items: &'de [Val], v: V) -> Result<V::Value, Error> {
  let mut d = SeqDeserializer::new(items.iter().map(ModelDe));
  let r = v.visit_seq(&mut d)?;
  d.end()?;
  Ok(r)
}

fn map<'de, V: Visitor<'de>>(o: &'de Val, v: V) -> Result<V::Value, Error> {
  let Val::Obj { members, .. } = o else { unreachable!() };
  let mut d = MapDeserializer::new(members.iter().map(|(k, v)| (Key(k), ModelDe(v))));
  let r = v.visit_map(&mut d)?;
  d.end()?;
  Ok(r)
}

impl<'de> Deserializer<'de> for ModelDe<'de> {
  type Error = Error;

  fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
    match self.0 {
      Val::Bool(x) => v.visit_bool(*x),
      Val::U8(x) => v.visit_u8(*x),
      Val::Char(x) => v.visit_char(*x),
      Val::Dec(x) => v.visit_string(x.clone()),
      Val::F64(x) => v.visit_f64(f64::from_bits(*x)),
      Val::I16(x) => v.visit_i16(*x),
      Val::I32(x) => v.visit_i32(*x),
      Val::I64(x) | Val::Ts(x) | Val::Dt(x) => v.visit_i64(*x),
      Val::I8(x) => v.visit_i8(*x),
      Val::F32(x) => v.visit_f32(f32::from_bits(*x)),
      Val::U16(x) => v.visit_u16(*x),
      Val::U32(x) => v.visit_u32(*x),
      Val::U64(x) => v.visit_u64(*x),
      Val::Str(x) => v.visit_borrowed_str(x),
      Val::Null => v.visit_unit(),
      Val::Arr(x) => seq(x, v),
      Val::Obj { lib: Some(_), .. } => map(self.0, v),
      Val::Obj { class, members, .. } => {
        let one = || if members.len() == 1 { members.get("m_value") } else { None };
        let wrong = |m: Option<&Val>| {
          // A value of another primitive type: whether it converts is not this model's business.
          if !matches!(m, None | Some(Val::Obj { .. } | Val::Arr(_) | Val::Null)) {
            NO_CLAIM.set(true);
          }
          Err(Error::custom("not a value of the class"))
        };
        macro_rules! wrap {
          ($p:pat) => {
            match one() {
              Some(x @ $p) => ModelDe(x).deserialize_any(v),
              m => wrong(m),
            }
          };
        }
        match class.split('`').next().unwrap_or("") {
          "System.Boolean" => wrap!(Val::Bool(_)),
          "System.Byte" => wrap!(Val::U8(_)),
          "System.SByte" => wrap!(Val::I8(_)),
          "System.Char" => wrap!(Val::Char(_)),
          "System.Double" => wrap!(Val::F64(_)),
          "System.Single" => wrap!(Val::F32(_)),
          "System.Int32" => wrap!(Val::I32(_)),
          "System.UInt32" => wrap!(Val::U32(_)),
          "System.Int64" => wrap!(Val::I64(_)),
          "System.UInt64" => wrap!(Val::U64(_)),
          "System.Int16" => wrap!(Val::I16(_)),
          "System.UInt16" => wrap!(Val::U16(_)),
          "System.Collections.Generic.List" => {
            let (3, Some(Val::Arr(items)), Some(Val::I32(size)), Some(Val::I32(_))) =
              (members.len(), members.get("_items"), members.get("_size"), members.get("_version"))
            else {
              return Err(Error::custom("not a list"));
            };
            match usize::try_from(*size) {
              Ok(n) if n <= items.len() => seq(&items[..n], v),
              _ => {
                // Whatever the consumer does, the list is not what it says; but it may be asked first.
                Err(Error::custom("size of the list"))
              },
            }
          },
          _ => map(self.0, v),
        }
      },
    }
  }

  fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
    if *self.0 == Val::Null { v.visit_none() } else { v.visit_some(self) }
  }

  fn deserialize_struct<V: Visitor<'de>>(
    self,
    _: &'static str,
    _: &'static [&'static str],
    v: V,
  ) -> Result<V::Value, Error> {
    match self.0 {
      Val::Obj { .. } => map(self.0, v),
      _ => self.deserialize_any(v),
    }
  }

  forward_to_deserialize_any! {
    bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
    newtype_struct seq tuple tuple_struct map enum identifier ignored_any
  }
}

impl<'de> Deserializer<'de> for MsgDe<'de> {
  type Error = Error;

  fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
    match self.0 {
      Msg::Value(x) => ModelDe(x).deserialize_any(v),
      _ => Err(Error::custom("not a value")),
    }
  }

  fn deserialize_struct<V: Visitor<'de>>(
    self,
    n: &'static str,
    f: &'static [&'static str],
    v: V,
  ) -> Result<V::Value, Error> {
    match self.0 {
      Msg::Value(x) => ModelDe(x).deserialize_struct(n, f, v),
      _ => Err(Error::custom("not a value")),
    }
  }

  forward_to_deserialize_any! {
    bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
    newtype_struct seq tuple tuple_struct map enum identifier ignored_any
  }
}
