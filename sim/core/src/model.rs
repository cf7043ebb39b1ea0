//! Canonical forms of what the library returns, shared by the reference model and the driver.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
  Obj { class: String, lib: Option<String>, members: BTreeMap<String, Val> },
  Arr(Vec<Val>),
  Bool(bool),
  U8(u8),
  Char(char),
  Dec(String),
  F64(u64),
  I16(i16),
  I32(i32),
  I64(i64),
  I8(i8),
  F32(u32),
  Ts(i64),
  Dt(i64),
  U16(u16),
  U32(u32),
  U64(u64),
  Str(String),
  Null,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
  Value(Val),
  Call { method: String, typ: String, ctx: Option<String>, args: Option<Vec<Val>> },
  Return { value: Option<Val>, ctx: Option<String>, args: Option<Vec<Val>> },
}

/// What a consumer that accepts everything receives.
#[derive(Clone, Debug, PartialEq)]
pub enum Any {
  Bool(bool),
  I8(i8),
  I16(i16),
  I32(i32),
  I64(i64),
  U8(u8),
  U16(u16),
  U32(u32),
  U64(u64),
  F32(u32),
  F64(u64),
  Char(char),
  Str(String),
  Unit,
  Seq(Vec<Any>),
  /// Sorted by key, duplicates kept.
  Map(Vec<(String, Any)>),
}

/// The consumer's view of a value. `None`: no claim is made (an ill-formed system object).
pub fn any_of(v: &Val, as_struct: bool) -> Option<Result<Any, ()>> {
  Some(Ok(match v {
    Val::Bool(x) => Any::Bool(*x),
    Val::U8(x) => Any::U8(*x),
    Val::Char(x) => Any::Char(*x),
    Val::Dec(x) => Any::Str(x.clone()),
    Val::F64(x) => Any::F64(*x),
    Val::I16(x) => Any::I16(*x),
    Val::I32(x) => Any::I32(*x),
    Val::I64(x) | Val::Ts(x) | Val::Dt(x) => Any::I64(*x),
    Val::I8(x) => Any::I8(*x),
    Val::F32(x) => Any::F32(*x),
    Val::U16(x) => Any::U16(*x),
    Val::U32(x) => Any::U32(*x),
    Val::U64(x) => Any::U64(*x),
    Val::Str(x) => Any::Str(x.clone()),
    Val::Null => Any::Unit,
    Val::Arr(xs) => {
      let mut out = vec![];
      for x in xs {
        match any_of(x, as_struct)? {
          Ok(a) => out.push(a),
          Err(()) => return Some(Err(())),
        }
      }
      Any::Seq(out)
    },
    Val::Obj { class, lib, members } => {
      if !as_struct && lib.is_none() {
        let name = class.split('`').next().unwrap_or("");
        let wrapper = match name {
          "System.Boolean" => Some(0),
          "System.Byte" => Some(1),
          "System.SByte" => Some(2),
          "System.Char" => Some(3),
          "System.Double" => Some(4),
          "System.Single" => Some(5),
          "System.Int32" => Some(6),
          "System.UInt32" => Some(7),
          "System.Int64" => Some(8),
          "System.UInt64" => Some(9),
          "System.Int16" => Some(10),
          "System.UInt16" => Some(11),
          _ => None,
        };
        if let Some(w) = wrapper {
          if members.len() != 1 {
            return Some(Err(()));
          }
          let Some(m) = members.get("m_value") else { return Some(Err(())) };
          return match (w, m) {
            (0, Val::Bool(_))
            | (1, Val::U8(_))
            | (2, Val::I8(_))
            | (3, Val::Char(_))
            | (4, Val::F64(_))
            | (5, Val::F32(_))
            | (6, Val::I32(_))
            | (7, Val::U32(_))
            | (8, Val::I64(_))
            | (9, Val::U64(_))
            | (10, Val::I16(_))
            | (11, Val::U16(_)) => any_of(m, as_struct),
            (_, Val::Obj { .. } | Val::Arr(_) | Val::Null) => Some(Err(())),
            // A value of another primitive type: whether it converts is not this model's business.
            _ => None,
          };
        }
        if name == "System.Collections.Generic.List" {
          if members.len() != 3 {
            return Some(Err(()));
          }
          let (Some(Val::Arr(items)), Some(Val::I32(size)), Some(Val::I32(_))) =
            (members.get("_items"), members.get("_size"), members.get("_version"))
          else {
            return Some(Err(()));
          };
          let Ok(size) = usize::try_from(*size) else { return Some(Err(())) };
          if size > items.len() {
            return Some(Err(()));
          }
          return any_of(&Val::Arr(items[..size].to_vec()), as_struct);
        }
      }
      let mut out = vec![];
      for (k, x) in members {
        match any_of(x, as_struct)? {
          Ok(a) => out.push((k.clone(), a)),
          Err(()) => return Some(Err(())),
        }
      }
      Any::Map(out)
    },
  }))
}

pub fn any_of_msg(m: &Msg, as_struct: bool) -> Option<Result<Any, ()>> {
  match m {
    Msg::Value(v) => any_of(v, as_struct),
    _ => Some(Err(())),
  }
}
