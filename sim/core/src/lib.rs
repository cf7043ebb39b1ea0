//! The simulator's kernel. Nothing in this crate is instrumented.
//!
//! * `sut(..)` runs a piece of code under test on a simulated task: every basic-block edge it executes calls
//!   [`__sanitizer_cov_trace_pc_guard`], which is the virtual clock and the preemption point.
//! * Tasks are OS threads of which exactly one holds the baton; who gets it next, and for how many edges, is decided
//!   by a seeded generator or by an explicit list of segments (replay).
//! * libc's `getrandom`, `clock_gettime` and `syscall` (futex) are interposed; the global allocator is ours.
//! * An episode that breaks a hard limit writes its report to shared memory and ends its process.

#![allow(static_mut_refs)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub mod model;
pub mod rng;
pub use model::*;
pub use rng::Rng;

// ---------------------------------------------------------------------------------------------------------------
// Tasks

#[repr(C)]
pub struct Task {
  pub id: usize,
  in_sut: Cell<bool>,
  fuel: Cell<u64>,
  /// Edges executed by the current operation up to the last refill.
  op_steps: Cell<u64>,
  granted: Cell<u64>,
  op_limit: Cell<u64>,
  /// Edges left in the current scheduling segment (u64::MAX: no preemption).
  seg_left: Cell<u64>,
  seg_done: Cell<u64>,
  stack_floor: Cell<usize>,
  stack_top: Cell<usize>,
  stack_min: Cell<usize>,
  hash_rng: Cell<u64>,
  go: AtomicU32,
  done: Cell<bool>,
  note: RefCell<String>,
}

unsafe impl Sync for Task {}
unsafe impl Send for Task {}

thread_local! {
  static CUR: Cell<*const Task> = const { Cell::new(std::ptr::null()) };
  static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

#[inline]
fn cur() -> Option<&'static Task> {
  let p = CUR.get();
  if p.is_null() { None } else { Some(unsafe { &*p }) }
}

// ---------------------------------------------------------------------------------------------------------------
// Edges

pub const COV_MAX: usize = 1 << 17;
static GUARDS: AtomicU32 = AtomicU32::new(0);
static mut COV: *mut u8 = std::ptr::null_mut();
pub static TOTAL_STEPS: AtomicU64 = AtomicU64::new(0);

pub fn guards() -> u32 {
  GUARDS.load(Relaxed)
}

/// # Safety
/// `p` points to COV_MAX writable bytes that stay mapped.
pub unsafe fn set_coverage_map(p: *mut u8) {
  unsafe { COV = p }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
  let t = CUR.get();
  if t.is_null() {
    return;
  }
  let t = unsafe { &*t };
  if !t.in_sut.get() {
    return;
  }
  unsafe {
    let c = COV;
    if !c.is_null() {
      *c.add(*g as usize & (COV_MAX - 1)) = 1;
    }
  }
  let sp = (&raw const g) as usize;
  if sp < t.stack_min.get() {
    t.stack_min.set(sp);
    if sp < t.stack_floor.get() {
      abort_episode(Abort::Stack);
    }
  }
  let f = t.fuel.get() - 1;
  t.fuel.set(f);
  if f == 0 {
    slow(t);
  }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
  unsafe {
    if s == e || *s != 0 {
      return;
    }
    while s < e {
      *s = GUARDS.fetch_add(1, Relaxed) + 1;
      s = s.add(1);
    }
  }
}

fn account(t: &Task) {
  let used = t.granted.get() - t.fuel.get();
  t.op_steps.set(t.op_steps.get() + used);
  t.seg_done.set(t.seg_done.get() + used);
  if t.seg_left.get() != u64::MAX {
    t.seg_left.set(t.seg_left.get() - used.min(t.seg_left.get()));
  }
  TOTAL_STEPS.fetch_add(used, Relaxed);
  t.granted.set(0);
  t.fuel.set(0);
}

fn refill(t: &Task) {
  let left = t.op_limit.get().saturating_sub(t.op_steps.get()).max(1);
  let g = left.min(t.seg_left.get()).min(1 << 40);
  t.granted.set(g);
  t.fuel.set(g);
}

#[cold]
fn slow(t: &'static Task) {
  t.in_sut.set(false);
  account(t);
  if t.op_steps.get() >= t.op_limit.get() {
    abort_episode(Abort::Steps);
  }
  if t.seg_left.get() == 0 {
    reschedule(t, true);
  }
  refill(t);
  t.in_sut.set(true);
}

// ---------------------------------------------------------------------------------------------------------------
// Scheduler

#[derive(Clone, Debug)]
pub enum Sched {
  /// Preempt after a random number of edges around the given mean.
  Random { seed: u64, mean: u64 },
  /// Exactly these segments (task, edges); afterwards every task runs to completion in turn.
  Explicit(Vec<(u32, u64)>),
}

struct Scheduler {
  tasks: Vec<&'static Task>,
  mode: Sched,
  rng: Rng,
  pos: usize,
  trace: Vec<(u32, u64)>,
  switches: u64,
  wait_mark: u64,
  waits: u32,
}

struct Shared(UnsafeCell<Option<Scheduler>>);
unsafe impl Sync for Shared {}
static SCHED: Shared = Shared(UnsafeCell::new(None));
static ALL_DONE: AtomicU32 = AtomicU32::new(0);

fn sched() -> &'static mut Scheduler {
  unsafe { (*SCHED.0.get()).as_mut().unwrap() }
}

unsafe extern "C" {
  fn __errno_location() -> *mut i32;
}

#[inline]
unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  let r: i64;
  unsafe {
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
      in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
  }
  r
}

fn futex_wait(a: &AtomicU32, v: u32) {
  unsafe { raw_syscall(libc::SYS_futex, a as *const _ as i64, 128, v as i64, 0, 0, 0) };
}

fn futex_wake(a: &AtomicU32) {
  unsafe { raw_syscall(libc::SYS_futex, a as *const _ as i64, 129, 1, 0, 0, 0) };
}

fn grant(t: &'static Task) {
  t.go.store(1, SeqCst);
  futex_wake(&t.go);
}

fn take(t: &'static Task) {
  while t.go.load(SeqCst) == 0 {
    futex_wait(&t.go, 0);
  }
  t.go.store(0, SeqCst);
}

/// Chooses the next segment among the tasks that are not done. Returns the task.
fn choose(s: &mut Scheduler, avoid: Option<usize>) -> &'static Task {
  let live: Vec<&'static Task> = s.tasks.iter().copied().filter(|t| !t.done.get()).collect();
  let pick = |s: &mut Scheduler, pool: &[&'static Task]| pool[(s.rng.next() % pool.len() as u64) as usize];
  let t;
  let mut quantum = u64::MAX;
  if live.len() == 1 {
    t = live[0];
    if let Sched::Explicit(l) = &s.mode {
      s.pos = l.len();
    }
  } else {
    let pool: Vec<&'static Task> = live.iter().copied().filter(|t| Some(t.id) != avoid).collect();
    let pool = if pool.is_empty() { live.clone() } else { pool };
    match &s.mode {
      Sched::Random { mean, .. } => {
        let mean = *mean;
        t = pick(s, &pool);
        // A wide mixture: mostly short slices, sometimes very long ones.
        let k = s.rng.next() % 8;
        quantum = match k {
          0 => 1 + s.rng.next() % 8,
          7 => 1 + s.rng.next() % (mean * 16),
          _ => 1 + s.rng.next() % (mean * 2),
        };
      },
      Sched::Explicit(l) => {
        let mut found = None;
        while s.pos < l.len() {
          let (id, q) = l[s.pos];
          s.pos += 1;
          if let Some(x) = live.iter().find(|t| t.id == id as usize) {
            found = Some((*x, q));
            break;
          }
        }
        match found {
          Some((x, q)) => {
            t = x;
            quantum = q.max(1);
          },
          None => {
            // Past the end of the list: keep going with the first live task that is not to be avoided.
            t = pool[0];
          },
        }
      },
    }
  }
  t.seg_left.set(quantum);
  t.seg_done.set(0);
  t
}

fn reschedule(t: &'static Task, _preempted: bool) {
  let s = sched();
  s.trace.push((t.id as u32, t.seg_done.get()));
  let next = choose(s, None);
  if next.id != t.id {
    s.switches += 1;
    grant(next);
    take(t);
  }
}

/// A task that would block lets the others run.
fn block(t: &'static Task) {
  let was = t.in_sut.get();
  t.in_sut.set(false);
  account(t);
  let s = sched();
  let now = TOTAL_STEPS.load(Relaxed);
  if now == s.wait_mark {
    s.waits += 1;
  } else {
    s.waits = 0;
    s.wait_mark = now;
  }
  if s.waits > 256 {
    abort_episode(Abort::Deadlock);
  }
  // One more than was executed: on replay the task must reach the point where it blocks.
  s.trace.push((t.id as u32, t.seg_done.get() + 1));
  let next = choose(s, Some(t.id));
  if next.id != t.id {
    s.switches += 1;
    grant(next);
    take(t);
  }
  refill(t);
  t.in_sut.set(was);
}

pub struct Ran {
  pub trace: Vec<(u32, u64)>,
  pub switches: u64,
}

/// Runs the closures as simulated tasks until all have finished.
pub fn run_tasks(mode: Sched, stack: usize, seeds: &[u64], fs: Vec<Box<dyn FnOnce() + Send>>) -> Ran {
  let rng = match &mode {
    Sched::Random { seed, .. } => Rng::new(*seed),
    _ => Rng::new(0),
  };
  let tasks: Vec<&'static Task> = (0..fs.len())
    .map(|id| {
      &*Box::leak(Box::new(Task {
        id,
        in_sut: Cell::new(false),
        fuel: Cell::new(0),
        op_steps: Cell::new(0),
        granted: Cell::new(0),
        op_limit: Cell::new(u64::MAX),
        seg_left: Cell::new(u64::MAX),
        seg_done: Cell::new(0),
        stack_floor: Cell::new(0),
        stack_top: Cell::new(0),
        stack_min: Cell::new(usize::MAX),
        hash_rng: Cell::new(seeds[id % seeds.len()]),
        go: AtomicU32::new(0),
        done: Cell::new(false),
        note: RefCell::new(String::new()),
      }))
    })
    .collect();
  ALL_DONE.store(0, SeqCst);
  unsafe {
    *SCHED.0.get() =
      Some(Scheduler { tasks: tasks.clone(), mode, rng, pos: 0, trace: vec![], switches: 0, wait_mark: u64::MAX, waits: 0 })
  };
  let mut handles = vec![];
  for (t, f) in tasks.iter().copied().zip(fs) {
    let h = std::thread::Builder::new()
      .stack_size(stack)
      .spawn(move || {
        take(t);
        let here = 0usize;
        let top = (&raw const here) as usize;
        t.stack_top.set(top);
        t.stack_floor.set(top - (stack - (48 << 10)));
        CUR.set(t);
        f();
        CUR.set(std::ptr::null());
        account(t);
        t.done.set(true);
        let s = sched();
        s.trace.push((t.id as u32, t.seg_done.get() + 1));
        if s.tasks.iter().any(|t| !t.done.get()) {
          let next = choose(s, None);
          grant(next);
        } else {
          ALL_DONE.store(1, SeqCst);
          futex_wake(&ALL_DONE);
        }
      })
      .expect("spawn");
    handles.push(h);
  }
  let first = choose(sched(), None);
  grant(first);
  while ALL_DONE.load(SeqCst) == 0 {
    futex_wait(&ALL_DONE, 0);
  }
  for h in handles {
    let _ = h.join();
  }
  let s = sched();
  Ran { trace: std::mem::take(&mut s.trace), switches: s.switches }
}

// ---------------------------------------------------------------------------------------------------------------
// Running code under test

pub struct OpStats {
  pub steps: u64,
  pub stack: usize,
  pub peak: usize,
  pub max_single: usize,
}

/// Runs `f` as code under test. `Err` holds the message of a panic.
pub fn sut<R>(limit: u64, f: impl FnOnce() -> R) -> (Result<R, String>, OpStats) {
  let t = cur().expect("sut outside of a task");
  let nested = t.in_sut.get();
  if nested {
    // Called from inside a consumer: runs within the outer operation's budget.
    let r = catch_unwind(AssertUnwindSafe(f));
    t.in_sut.set(true);
    let r = r.map_err(|p| {
      harness(|| {
        drop(p);
        PANIC.with(|m| std::mem::take(&mut *m.borrow_mut()))
      })
    });
    return (r, OpStats { steps: 0, stack: 0, peak: 0, max_single: 0 });
  }
  t.op_steps.set(0);
  t.op_limit.set(limit);
  t.stack_min.set(usize::MAX);
  let base = LIVE.load(Relaxed);
  PEAK.store(base, Relaxed);
  MAX_SINGLE.store(0, Relaxed);
  if t.seg_left.get() == 0 {
    // The segment ended exactly at the end of the previous operation.
    reschedule(t, true);
  }
  refill(t);
  t.in_sut.set(true);
  let r = catch_unwind(AssertUnwindSafe(f));
  t.in_sut.set(false);
  account(t);
  let stats = OpStats {
    steps: t.op_steps.get(),
    stack: t.stack_top.get().saturating_sub(t.stack_min.get()),
    peak: PEAK.load(Relaxed).saturating_sub(base),
    max_single: MAX_SINGLE.load(Relaxed),
  };
  t.op_limit.set(u64::MAX);
  let r = r.map_err(|p| {
    drop(p);
    PANIC.with(|m| std::mem::take(&mut *m.borrow_mut()))
  });
  (r, stats)
}

/// Runs a piece of the harness from inside code under test (a consumer's bookkeeping).
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
  match cur() {
    Some(t) => {
      let was = t.in_sut.replace(false);
      let r = f();
      t.in_sut.set(was);
      r
    },
    None => f(),
  }
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    if cur().is_none() {
      eprintln!("harness panic: {info}");
      abort_episode(Abort::Harness);
    }
    harness(|| {
      let msg = info
        .payload()
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| info.payload().downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into());
      let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
      PANIC.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
      if HARNESS_PANIC_LOUD.load(Relaxed) {
        eprintln!("panic: {msg} at {loc}");
      }
    })
  }));
}

pub static HARNESS_PANIC_LOUD: AtomicBool = AtomicBool::new(false);

// ---------------------------------------------------------------------------------------------------------------
// Reports

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
pub enum Abort {
  Steps = 2,
  Memory = 3,
  Stack = 4,
  Deadlock = 5,
  Harness = 6,
}

/// Layout of the report area: status u32, len u32, text.
static mut REPORT: *mut u8 = std::ptr::null_mut();
static mut REPORT_CAP: usize = 0;

/// # Safety
/// `p` points to `cap` writable shared bytes.
pub unsafe fn set_report(p: *mut u8, cap: usize) {
  unsafe {
    REPORT = p;
    REPORT_CAP = cap;
  }
}

pub fn report(text: &str) {
  unsafe {
    let len = *(REPORT.add(4) as *mut u32) as usize;
    if len + 9 >= REPORT_CAP {
      return;
    }
    let room = REPORT_CAP - (8 + len + 1);
    let n = text.len().min(room);
    std::ptr::copy_nonoverlapping(text.as_ptr(), REPORT.add(8 + len), n);
    *REPORT.add(8 + len + n) = b'\n';
    *(REPORT.add(4) as *mut u32) = (len + n + 1) as u32;
  }
}

pub fn finish_episode(status: u32) -> ! {
  unsafe {
    std::ptr::write_volatile(REPORT as *mut u32, status);
    libc::_exit(0)
  }
}

/// What the current task is doing, for the report.
pub fn set_note(s: String) {
  if let Some(t) = cur() {
    *t.note.borrow_mut() = s;
  }
}

pub fn note() -> String {
  cur().map(|t| t.note.borrow().clone()).unwrap_or_default()
}

/// The segments executed so far; the last one is open-ended.
pub fn trace_so_far() -> Vec<(u32, u64)> {
  let Some(t) = cur() else { return vec![] };
  let mut v = sched().trace.clone();
  v.push((t.id as u32, u32::MAX as u64));
  v
}

/// Ends the episode with a status after writing the report.
pub fn end_episode(status: u32, class: &str, text: &str) -> ! {
  if let Some(t) = cur() {
    t.in_sut.set(false);
  }
  report(&format!("class {class}"));
  report(&format!("trace {:?}", trace_so_far()));
  report(&format!("task {} in: {}", cur().map(|t| t.id as i64).unwrap_or(-1), note()));
  report(text);
  finish_episode(status)
}

pub fn abort_episode(a: Abort) -> ! {
  let class = match a {
    Abort::Steps => "too many steps",
    Abort::Memory => "too much memory",
    Abort::Stack => "stack overflow",
    Abort::Deadlock => "deadlock",
    Abort::Harness => "harness error",
  };
  end_episode(a as u32, class, class)
}

// ---------------------------------------------------------------------------------------------------------------
// Allocator

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static MAX_SINGLE: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static JUNK: AtomicU32 = AtomicU32::new(0);

pub struct Alloc;

#[global_allocator]
static GLOBAL: Alloc = Alloc;

const SUT_TAG: u64 = 0x5355_5453_5554_5355;
const HAR_TAG: u64 = 0x4841_5248_4152_4841;

fn prefix(l: &Layout) -> usize {
  l.align().max(16)
}

unsafe impl GlobalAlloc for Alloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let t = CUR.get();
    let is_sut = !t.is_null() && unsafe { (*t).in_sut.get() };
    let pre = prefix(&l);
    if is_sut {
      ALLOCS.fetch_add(1, Relaxed);
      let live = LIVE.fetch_add(l.size(), Relaxed) + l.size();
      PEAK.fetch_max(live, Relaxed);
      MAX_SINGLE.fetch_max(l.size(), Relaxed);
      if live > CAP.load(Relaxed) {
        abort_episode(Abort::Memory);
      }
    }
    unsafe {
      let Ok(full) = Layout::from_size_align(l.size() + pre, pre) else { return std::ptr::null_mut() };
      let p = System.alloc(full);
      if p.is_null() {
        return p;
      }
      *(p.add(pre - 8) as *mut u64) = if is_sut { SUT_TAG } else { HAR_TAG };
      if is_sut {
        std::ptr::write_bytes(p.add(pre), 0xA7 ^ JUNK.load(Relaxed) as u8, l.size().min(1 << 16));
      }
      p.add(pre)
    }
  }

  unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
    let pre = prefix(&l);
    unsafe {
      let p = q.sub(pre);
      if *(p.add(pre - 8) as *mut u64) == SUT_TAG {
        LIVE.fetch_sub(l.size(), Relaxed);
        std::ptr::write_bytes(q, 0xD9, l.size().min(1 << 16));
      }
      System.dealloc(p, Layout::from_size_align_unchecked(l.size() + pre, pre));
    }
  }
}

// ---------------------------------------------------------------------------------------------------------------
// Interposed libc functions

/// Block copies execute no edge: the clock advances by one per 64 bytes instead.
#[inline(always)]
fn charge(n: usize) {
  if n >= 64 {
    let t = CUR.get();
    if !t.is_null() {
      let t = unsafe { &*t };
      if t.in_sut.get() {
        let f = t.fuel.get();
        t.fuel.set(f.saturating_sub(n as u64 / 64).max(1));
      }
    }
  }
}

#[inline(always)]
unsafe fn forward(d: *mut u8, s: *const u8, n: usize) {
  unsafe { std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags)) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
  charge(n);
  unsafe { forward(d, s, n) };
  d
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
  charge(n);
  unsafe {
    if (d as usize).wrapping_sub(s as usize) >= n {
      forward(d, s, n);
    } else {
      std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _,
        inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
  }
  d
}

#[inline(always)]
unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
  charge(n);
  unsafe {
    let mut k = 0;
    while k + 8 <= n && a.add(k).cast::<u64>().read_unaligned() == b.add(k).cast::<u64>().read_unaligned() {
      k += 8;
    }
    while k < n {
      let d = i32::from(*a.add(k)) - i32::from(*b.add(k));
      if d != 0 {
        return d;
      }
      k += 1;
    }
  }
  0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
  unsafe { compare(a, b, n) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
  unsafe { compare(a, b, n) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(b: *mut u8, l: usize, _f: u32) -> isize {
  let mut s = match cur() {
    Some(t) => t.hash_rng.get(),
    None => 0x1234_5678,
  };
  for i in 0..l {
    if i % 8 == 0 {
      s = rng::mix(s.wrapping_add(0x9E37_79B9_7F4A_7C15));
    }
    unsafe { *b.add(i) = (s >> (8 * (i % 8))) as u8 };
  }
  if let Some(t) = cur() {
    t.hash_rng.set(s);
  }
  GETRANDOM.fetch_add(1, Relaxed);
  l as isize
}

pub static GETRANDOM: AtomicU64 = AtomicU64::new(0);

/// The clocks an episode sees, in microseconds. With seed 0 both run with the steps from a fixed start; otherwise
/// each starts anywhere and readings jump: the clock of the day either way, the monotonic one forward only.
static CLOCK_SEED: AtomicU64 = AtomicU64::new(0);
static CLOCK_DAY: AtomicI64 = AtomicI64::new(1_700_000_000_000_000);
static CLOCK_MONO: AtomicI64 = AtomicI64::new(1_700_000_000_000_000);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_JUMPS: AtomicU64 = AtomicU64::new(0);

pub fn set_clock(seed: u64) {
  CLOCK_SEED.store(seed, Relaxed);
  let (day, mono) = match seed {
    0 => (1_700_000_000_000_000, 1_700_000_000_000_000),
    // Up to the year 2242, and up to 3 years since the machine was started.
    _ => ((rng::mix(seed) >> 10) % (1 << 53), (rng::mix(!seed) >> 10) % 100_000_000_000_000),
  };
  CLOCK_DAY.store(day as i64, Relaxed);
  CLOCK_MONO.store(mono as i64, Relaxed);
}

fn read_clock(steps: u64, day: bool) -> i64 {
  CLOCK_READS.fetch_add(1, Relaxed);
  let seed = CLOCK_SEED.load(Relaxed);
  if seed != 0 {
    let s = rng::mix(seed.wrapping_add(0x9E37_79B9_7F4A_7C15));
    CLOCK_SEED.store(s | 1, Relaxed);
    if s.is_multiple_of(3) {
      CLOCK_JUMPS.fetch_add(1, Relaxed);
      // A microsecond up to half a year.
      let by = 1i64 << ((s >> 8) % 44);
      CLOCK_MONO.fetch_add(by, Relaxed);
      CLOCK_DAY.fetch_add(if (s >> 16) & 1 == 0 { by } else { -by }, Relaxed);
    }
  }
  let start = if day { &CLOCK_DAY } else { &CLOCK_MONO };
  (start.load(Relaxed) + steps as i64).max(0)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
  if let Some(t) = cur() {
    if t.in_sut.get() {
      let steps = TOTAL_STEPS.load(Relaxed) + (t.granted.get() - t.fuel.get());
      let day = clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE;
      let us = read_clock(steps, day);
      unsafe {
        (*ts).tv_sec = us / 1_000_000;
        (*ts).tv_nsec = us % 1_000_000 * 1000;
      }
      return 0;
    }
  }
  let r = unsafe { raw_syscall(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0) };
  if r < 0 {
    unsafe { *__errno_location() = -r as i32 };
    return -1;
  }
  0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut u8) -> i32 {
  let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  let r = unsafe { clock_gettime(libc::CLOCK_REALTIME, &mut ts) };
  if !tv.is_null() {
    unsafe {
      (*tv).tv_sec = ts.tv_sec;
      (*tv).tv_usec = ts.tv_nsec / 1000;
    }
  }
  r
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
  let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  unsafe { clock_gettime(libc::CLOCK_REALTIME, &mut ts) };
  if !out.is_null() {
    unsafe { *out = ts.tv_sec };
  }
  ts.tv_sec
}

pub static FUTEX_WAITS: AtomicU64 = AtomicU64::new(0);

#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  if n == libc::SYS_futex {
    if let Some(t) = cur() {
      let op = b & 0x7f;
      if t.in_sut.get() {
        if op == 0 || op == 9 {
          // FUTEX_WAIT / FUTEX_WAIT_BITSET: a value that already changed returns at once, otherwise the task is
          // blocked: the others run, and it looks again when it is scheduled next.
          let word = unsafe { (*(a as *const AtomicU32)).load(SeqCst) };
          if word == c as u32 {
            FUTEX_WAITS.fetch_add(1, Relaxed);
            block(t);
            if d != 0 {
              // A timed wait that found nobody to wake it: its time is up.
              unsafe { *__errno_location() = libc::ETIMEDOUT };
              return -1;
            }
          }
          return 0;
        }
        if op == 1 || op == 10 {
          return 0;
        }
      }
    }
  }
  let r = unsafe { raw_syscall(n, a, b, c, d, e, f) };
  if r < 0 && r > -4096 {
    unsafe { *__errno_location() = -r as i32 };
    -1
  } else {
    r
  }
}
