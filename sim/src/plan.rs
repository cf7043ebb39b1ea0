//! An episode's plan: everything that will happen, as data. Two runs of one plan are identical.

use serde::{Deserialize, Serialize};

use crate::faults::DocPlan;

/// How a message is consumed.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Via {
  /// `RemotingMessage::parse`, read in full.
  Parse,
  /// `from_slice` into a target of the driver.
  Slice(u8),
  /// Parsed, then the message deserialised into a target.
  Msg(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tail {
  /// Delivered twice, coalesced.
  Twice,
  /// The next message follows directly.
  Next(usize),
  /// Stale bytes: the last n bytes of the message again.
  Stale(u32),
  Bytes(Vec<u8>),
  /// One more byte, of every value in turn.
  EveryByte,
  Zeros(u32),
  /// The byte repeated up to the next multiple of the block size.
  Fill(u8, u32),
  /// The beginning of the next message.
  Part(usize, u32),
  /// What a channel adds to a message: a checksum, or its length.
  Seal(u8),
  /// The next message in the framing of a channel: its length in the given style, and as much of itself.
  Frame(usize, u8, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
  Fail,
  Panic,
  Stop,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Use {
  Deser(u8),
  Clone,
  Compare,
  Inspect,
  Read,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
  Take { doc: usize, via: Via },
  /// The message cut at every length in from..to (modulo its length).
  Cuts { doc: usize, from: u32, to: u32 },
  Tail { doc: usize, tail: Tail },
  /// Everything a user may do with the bytes, within the limits of time and stack.
  Abuse { doc: usize, targets: Vec<u8> },
  /// Parsing and deserialising within the limit of memory.
  Weigh { doc: usize, targets: Vec<u8> },
  /// A consumer that misbehaves at callbacks at..at+span.
  Interrupt { doc: usize, hint: u8, act: Act, at: u32, span: u32, msg: bool },
  /// The library used from inside a consumer.
  Nest { doc: usize, hint: u8, at: u32, inner: Box<Op> },
  /// Uses a message parsed beforehand and shared by all tasks.
  Shared { doc: usize, use_: Use },
  /// Two messages compared and copied; the second one shared by all tasks when there is one.
  Equal { a: usize, b: usize },
  /// The same delivery to two receivers, one of each build; which of them is first.
  Builds { doc: usize, swap: bool },
  /// The same delivery received in one step and in two.
  Ways { doc: usize, targets: Vec<u8>, swap: bool },
  /// Where the strings of a message are.
  Borrow { doc: usize },
  /// Several messages or errors kept at the same time, and read in reverse order.
  Held { docs: Vec<usize> },
  Repeat { times: u32, op: Box<Op> },
}

impl Op {
  pub fn docs(&self, out: &mut Vec<usize>) {
    match self {
      Op::Take { doc, .. }
      | Op::Cuts { doc, .. }
      | Op::Abuse { doc, .. }
      | Op::Weigh { doc, .. }
      | Op::Builds { doc, .. }
      | Op::Ways { doc, .. }
      | Op::Borrow { doc }
      | Op::Interrupt { doc, .. }
      | Op::Shared { doc, .. } => out.push(*doc),
      Op::Tail { doc, tail } => {
        out.push(*doc);
        if let Tail::Next(d) | Tail::Part(d, _) | Tail::Frame(d, ..) = tail {
          out.push(*d);
        }
      },
      Op::Equal { a, b } => out.extend([*a, *b]),
      Op::Held { docs } => out.extend(docs),
      Op::Nest { doc, inner, .. } => {
        out.push(*doc);
        inner.docs(out);
      },
      Op::Repeat { op, .. } => op.docs(out),
    }
  }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SchedPlan {
  Random { seed: u64, mean: u64 },
  Explicit(Vec<(u32, u64)>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
  pub prop: String,
  pub docs: Vec<DocPlan>,
  pub tasks: Vec<Vec<Op>>,
  pub sched: SchedPlan,
  /// Seeds of the hash keys, per task.
  pub hash: Vec<u64>,
  /// The tasks are run this often, with fresh threads and varied content.
  pub rounds: u32,
  /// All rounds and tasks one after the other on a single thread.
  #[serde(default)]
  pub one_thread: bool,
  /// Every task has one receive buffer, which each delivery overwrites.
  #[serde(default)]
  pub rx: bool,
  pub stack_kib: u32,
  pub junk: u8,
  /// Where the clocks start and how they jump; 0 is a plain clock.
  #[serde(default)]
  pub clock: u64,
}
