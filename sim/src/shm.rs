//! Memory shared by the coordinator, the workers and the episodes: reports, counters, coverage.

use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::*};

use simcore::{COV_MAX, rng::hash_bytes};

pub const SLOTS: usize = 512;
pub const NAME: usize = 56;
pub const REPORT: usize = 1 << 20;
pub const HASHES: usize = 1 << 21;

#[repr(C)]
pub struct Slot {
  key: AtomicU64,
  n: AtomicU64,
  name: [AtomicU8; NAME],
}

#[repr(C)]
pub struct Set {
  pub n: AtomicU64,
  pub lost: AtomicU64,
  pub h: [AtomicU64; HASHES],
}

impl Set {
  pub fn add(&self, h: u64) {
    let i = self.n.fetch_add(1, Relaxed) as usize;
    if i < HASHES {
      self.h[i].store(h, Relaxed);
    } else {
      self.lost.fetch_add(1, Relaxed);
    }
  }

  pub fn distinct(&self) -> usize {
    let n = (self.n.load(Relaxed) as usize).min(HASHES);
    let mut v: Vec<u64> = self.h[..n].iter().map(|x| x.load(Relaxed)).collect();
    v.sort_unstable();
    v.dedup();
    v.len()
  }
}

#[repr(C)]
pub struct Shm {
  /// Lowest index of a violating episode.
  pub first: AtomicU64,
  pub done: AtomicU64,
  pub next: AtomicU64,
  pub errors: AtomicU64,
  pub slots: [Slot; SLOTS],
  pub cases: Set,
  pub scheds: Set,
  pub cov: [u8; COV_MAX],
}

static mut SHM: *const Shm = std::ptr::null();

pub fn shm() -> &'static Shm {
  unsafe { &*SHM }
}

pub fn map(len: usize) -> *mut u8 {
  let p = unsafe {
    libc::mmap(
      std::ptr::null_mut(),
      len,
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
      -1,
      0,
    )
  };
  if p == libc::MAP_FAILED {
    eprintln!("mmap failed");
    std::process::exit(2);
  }
  p as *mut u8
}

pub fn init() {
  unsafe {
    let p = map(std::mem::size_of::<Shm>());
    SHM = p as *const Shm;
    shm().first.store(u64::MAX, SeqCst);
    simcore::set_coverage_map((&raw const (*SHM).cov) as *mut u8);
  }
}

/// Adds to the counter of that name.
pub fn bump(name: &str, n: u64) {
  let h = hash_bytes(name.as_bytes()).max(1);
  let s = &shm().slots;
  let mut i = h as usize % SLOTS;
  for _ in 0..SLOTS {
    let k = s[i].key.load(Acquire);
    if k == h {
      s[i].n.fetch_add(n, Relaxed);
      return;
    }
    if k == 0 && s[i].key.compare_exchange(0, h, AcqRel, Acquire).is_ok() {
      for (a, b) in s[i].name.iter().zip(name.bytes()) {
        a.store(b, Relaxed);
      }
      s[i].n.fetch_add(n, Relaxed);
      return;
    }
    if s[i].key.load(Acquire) == h {
      s[i].n.fetch_add(n, Relaxed);
      return;
    }
    i = (i + 1) % SLOTS;
  }
}

pub fn counters() -> Vec<(String, u64)> {
  let mut v: Vec<(String, u64)> = shm()
    .slots
    .iter()
    .filter(|s| s.key.load(Relaxed) != 0)
    .map(|s| {
      let b: Vec<u8> = s.name.iter().map(|x| x.load(Relaxed)).take_while(|b| *b != 0).collect();
      (String::from_utf8_lossy(&b).into_owned(), s.n.load(Relaxed))
    })
    .collect();
  v.sort();
  v
}

pub fn edges() -> usize {
  shm().cov.iter().filter(|b| unsafe { std::ptr::read_volatile(*b) } != 0).count()
}
