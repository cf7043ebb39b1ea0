//! Deterministic simulation of nrbf-rs.
//!
//!   nrbf-sim run PROP TIER        a campaign (VERIF_SEED)
//!   nrbf-sim replay FILE          one recorded violation
//!   nrbf-sim selftest [N]         every plan twice, at two worker counts: reports must be identical
//!   nrbf-sim show PROP INDEX      the plan of an episode

mod campaign;
mod dict;
mod doc;
mod exec;
mod faults;
mod generate;
mod plan;
mod reduce;
mod shm;
mod soup;

use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::json;

use plan::{Plan, SchedPlan};
use shm::{REPORT, shm};

/// How an episode ended.
#[derive(Clone, Debug)]
struct Ending {
  class: String,
  trace: Option<Vec<(u32, u64)>>,
  text: String,
  /// The episode could not be judged.
  error: bool,
  held: bool,
}

struct Runner {
  area: *mut u8,
}

impl Runner {
  fn new() -> Runner {
    Runner { area: shm::map(REPORT) }
  }

  fn run(&self, plan: &Plan) -> Ending {
    unsafe {
      std::ptr::write_bytes(self.area, 0, 8);
      simcore::set_report(self.area, REPORT);
      let pid = libc::fork();
      if pid < 0 {
        return Ending { class: "fork failed".into(), trace: None, text: String::new(), error: true, held: false };
      }
      if pid == 0 {
        let cpu = libc::rlimit { rlim_cur: 60, rlim_max: 65 };
        libc::setrlimit(libc::RLIMIT_CPU, &cpu);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        let mem = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &mem);
        libc::alarm(400);
        simcore::CAP.store(2 << 30, Relaxed);
        exec::episode(plan.clone());
      }
      let mut st = 0;
      while libc::waitpid(pid, &mut st, 0) < 0 {
        if *libc::__errno_location() != libc::EINTR {
          break;
        }
      }
      let status = *(self.area as *const u32);
      let len = (*(self.area.add(4) as *const u32) as usize).min(REPORT - 8);
      let text = String::from_utf8_lossy(std::slice::from_raw_parts(self.area.add(8), len)).into_owned();
      let mut e = Ending { class: String::new(), trace: None, text: String::new(), error: false, held: false };
      let mut lines = text.splitn(3, '\n');
      e.class = lines.next().unwrap_or("").trim_start_matches("class ").to_string();
      e.trace = lines.next().and_then(|t| {
        let t = t.trim_start_matches("trace ").replace('(', "[").replace(')', "]");
        serde_json::from_str(&t).ok()
      });
      e.text = lines.next().unwrap_or("").to_string();
      if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        e.error = sig == libc::SIGALRM || sig == libc::SIGKILL;
        e.class = match sig {
          libc::SIGXCPU => "does not come to an end".into(),
          _ => format!("killed by signal {sig}"),
        };
        e.text = format!("{}\n{text}", e.class);
        e.trace = None;
        return e;
      }
      match status {
        7 => e.held = true,
        1..=5 => (),
        _ => {
          e.error = true;
          e.text = format!("status {status}, exit {st:#x}\n{text}");
        },
      }
      e
    }
  }
}

#[derive(Serialize, Deserialize)]
struct Replay {
  property: String,
  class: String,
  seed: u64,
  index: u64,
  /// What happened, for the reader.
  report: String,
  /// The messages as delivered, for the reader.
  messages: Vec<String>,
  plan: Plan,
}

fn minimise(plan: Plan, class: &str, budget: Duration) -> (Plan, String, u64) {
  let t0 = Instant::now();
  let r = Runner::new();
  let mut best = plan;
  let mut tried = 0;
  let mut text = String::new();
  let still = |p: &Plan, tried: &mut u64| -> Option<Ending> {
    *tried += 1;
    let e = r.run(p);
    if !e.held && !e.error && e.class == class { Some(e) } else { None }
  };
  if let Some(e) = still(&best, &mut tried) {
    text = e.text.clone();
    // The schedule as it was, explicitly.
    if let (SchedPlan::Random { .. }, Some(t)) = (&best.sched, e.trace) {
      if best.rounds == 1 {
        let mut q = best.clone();
        q.sched = SchedPlan::Explicit(if q.tasks.len() > 1 { t } else { vec![] });
        if let Some(e) = still(&q, &mut tried) {
          best = q;
          text = e.text;
        }
      }
    }
  }
  // After a success the search goes on where it was, with the candidates of the smaller plan; it ends once a whole
  // round has brought nothing.
  let mut seen = std::collections::HashSet::new();
  let (mut at, mut fruitless) = (0, 0);
  'outer: loop {
    let all = reduce::candidates(&best);
    if all.is_empty() {
      break;
    }
    loop {
      if fruitless > all.len() {
        break 'outer;
      }
      if t0.elapsed() > budget || tried > 6000 {
        break 'outer;
      }
      let c = &all[at % all.len()];
      at = at % all.len() + 1;
      fruitless += 1;
      let text_of = serde_json::to_string(c).unwrap_or_default();
      if *c == best || text_of.len() > 4 << 20 || !seen.insert(simcore::rng::hash_bytes(text_of.as_bytes())) {
        continue;
      }
      if let Some(e) = still(c, &mut tried) {
        best = c.clone();
        text = e.text;
        at -= 1;
        fruitless = 0;
        break;
      }
    }
  }
  let q = reduce::compact(&best);
  if let Some(e) = still(&q, &mut tried) {
    best = q;
    text = e.text;
  }
  (best, text, tried)
}

fn episodes(prop: &str, thorough: bool) -> u64 {
  let quick = match prop {
    "C01" => 2000,
    "C02" => 1300,
    "C03" => 2500,
    "C04" => 5000,
    "C05" => 7000,
    "C06" => 12000,
    "C07" => 14000,
    "C08" => 20000,
    "C09" => 16000,
    "C10" => 5000,
    "C13" => 20000,
    "C14" => 20000,
    "C17" => 16000,
    "C18" => 9000,
    _ => 11000,
  };
  if thorough { quick * 20 } else { quick }
}

fn workers() -> u64 {
  std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
    std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 16)
  })
}

fn seed() -> u64 {
  std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

/// Forks a worker per core; `f(worker, index)` returns whether to go on.
fn fan_out(n: u64, mut f: impl FnMut(u64) -> bool) {
  let w = workers();
  let mut pids = vec![];
  shm().next.store(0, SeqCst);
  for _ in 0..w {
    let pid = unsafe { libc::fork() };
    if pid == 0 {
      let next = || shm().next.fetch_add(1, SeqCst);
      let mut i = next();
      while i < n && f(i) {
        i = next();
      }
      unsafe { libc::_exit(0) }
    }
    pids.push(pid);
  }
  for p in pids {
    let mut st = 0;
    unsafe { libc::waitpid(p, &mut st, 0) };
    if st != 0 {
      shm().errors.fetch_add(1, Relaxed);
    }
  }
}

fn root() -> std::path::PathBuf {
  std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

fn run(prop: &str, tier: &str) -> i32 {
  let t0 = Instant::now();
  let seed = seed();
  let thorough = tier == "thorough";
  println!("seed {seed}");
  let n = std::env::var("VERIF_EPISODES").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| episodes(prop, thorough));
  let cap = Duration::from_secs(if thorough { 3600 } else { 200 });
  let mut code = 0;
  let known = known_findings(prop);
  let slow = std::env::var_os("VERIF_SLOW").is_some();
  fan_out(n, |i| {
    if i >= shm().first.load(Relaxed) || t0.elapsed() > cap {
      return false;
    }
    let t = Instant::now();
    let p = campaign::plan(prop, seed, i);
    if slow && t.elapsed() > Duration::from_secs(1) {
      eprintln!("plan {i} took {:.1} s", t.elapsed().as_secs_f64());
    }
    let e = Runner::new_once().run(&p);
    if slow && t.elapsed() > Duration::from_secs(1) {
      eprintln!("episode {i} took {:.1} s", t.elapsed().as_secs_f64());
    }
    shm().done.fetch_add(1, Relaxed);
    if e.error {
      shm().errors.fetch_add(1, Relaxed);
      eprintln!("episode {i} could not be judged: {}", e.text);
    } else if !e.held {
      shm().first.fetch_min(i, SeqCst);
    }
    true
  });
  let campaign_s = t0.elapsed().as_secs_f64();
  let first = shm().first.load(SeqCst);
  let errors = shm().errors.load(Relaxed);
  let counters = shm::counters();
  let stats = Stats {
    done: shm().done.load(Relaxed),
    distinct: shm().cases.distinct(),
    scheds: shm().scheds.distinct(),
    edges: shm::edges(),
    counters,
    campaign_s,
  };
  for k in &known {
    println!("{k}");
  }
  let mut violations = 0;
  if first != u64::MAX {
    violations = 1;
    let plan = campaign::plan(prop, seed, first);
    let e = Runner::new().run(&plan);
    let class = e.class.clone();
    // Whatever goes wrong here, the violation is reported.
    let budget = Duration::from_secs(if thorough { 300 } else { 100 });
    let (small, text, tried) = std::panic::catch_unwind(|| minimise(plan.clone(), &class, budget))
      .unwrap_or_else(|_| (plan.clone(), e.text.clone(), 0));
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{seed}-{first}.json"));
    let messages = |p: &Plan| -> Vec<String> {
      p.docs
        .iter()
        .map(|d| d.deliver().bytes.iter().take(2000).map(|b| format!("{b:02x}")).collect::<String>())
        .collect()
    };
    let write = |p: &Plan, text: &str| {
      let r = Replay {
        property: prop.into(),
        class: class.clone(),
        seed,
        index: first,
        report: text.into(),
        messages: messages(p),
        plan: p.clone(),
      };
      std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("replay file");
    };
    write(&small, &text);
    // In a fresh process.
    let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
    let good = matches!(&again, Ok(o) if o.status.code() == Some(1));
    if !good {
      write(&plan, &e.text);
    }
    println!("violated in episode {first}: {class} (minimised in {tried} runs, replays: {good})");
    println!("{text}");
    println!("VIOLATION property={prop} replay={}", path.display());
    code = 1;
  } else if errors > 0 && errors * 50 > stats.done {
    eprintln!("{errors} episodes could not be judged");
    code = 2;
  }
  evidence(prop, tier, seed, n, &stats, violations, errors, t0.elapsed().as_secs_f64());
  println!(
    "{prop}: {} episodes, {} distinct nontrivial, {} edges, {:.1} s{}",
    stats.done,
    stats.distinct,
    stats.edges,
    stats.campaign_s,
    if code == 0 { ", held" } else { "" }
  );
  code
}

impl Runner {
  fn new_once() -> &'static Runner {
    static mut R: Option<Runner> = None;
    #[allow(static_mut_refs)]
    unsafe {
      R.get_or_insert_with(Runner::new)
    }
  }
}

struct Stats {
  done: u64,
  distinct: usize,
  scheds: usize,
  edges: usize,
  counters: Vec<(String, u64)>,
  campaign_s: f64,
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, planned: u64, s: &Stats, violations: u64, errors: u64, wall: f64) {
  let get = |k: &str| s.counters.iter().find(|(n, _)| n == k).map(|x| x.1).unwrap_or(0);
  let faults: serde_json::Map<String, serde_json::Value> = s
    .counters
    .iter()
    .filter(|(n, _)| n.starts_with("fault: ") || n.starts_with("field fault: "))
    .map(|(n, v)| (n.clone(), json!(v)))
    .collect();
  let others: serde_json::Map<String, serde_json::Value> = s
    .counters
    .iter()
    .filter(|(n, _)| !(n.starts_with("fault: ") || n.starts_with("field fault: ")))
    .map(|(n, v)| (n.clone(), json!(v)))
    .collect();
  let samples: Vec<serde_json::Value> = [0, 1]
    .iter()
    .map(|i| {
      let p = campaign::plan(prop, seed, *i);
      let text = |s: String| s.chars().take(1500).collect::<String>();
      json!({
        "index": i,
        "operations": text(format!("{:?}", p.tasks)),
        "schedule": format!("{:?}", p.sched),
        "hash_keys": p.hash,
        "messages": p.docs.iter().take(3).map(|d| {
          let v = d.deliver();
          json!({
            "bytes": text(v.bytes.iter().map(|b| format!("{b:02x}")).collect()),
            "faults": format!("{:?} {:?} {:?}", d.shape, d.fields.iter().map(|f| (&f.what, f.ord)).collect::<Vec<_>>(),
              d.medium.iter().map(|m| m.name()).collect::<Vec<_>>()),
          })
        }).collect::<Vec<_>>(),
      })
    })
    .collect();
  let rule = "One evaluation is one simulated episode: a plan (messages from the reference sender, what the medium does \
    to each, the operations of 1-6 simulated caller threads, the schedule, the hash keys) generated from \
    (VERIF_SEED, property, index) and executed in a forked child of a process that never ran the code under test. \
    It is non-trivial when the thing the property is about really happened in it (a fault was delivered to an operation, \
    a consumer was interrupted, threads were preempted inside operations, an object with several members was read, \
    as the property requires); distinct ones are counted by a hash of messages, faults, operations, keys and schedule.";
  let v = json!({
    "property": prop,
    "tier": tier,
    "seed": seed,
    "level": "exploration",
    "wall_s": wall,
    "violations": violations,
    "coverage": {
      "evaluations": s.done,
      "distinct_nontrivial": s.distinct,
      "rule": rule,
      "samples": samples,
      "planned_episodes": planned,
      "episodes_not_judged": errors,
      "simulated_runs_per_hour": (s.done as f64 / s.campaign_s.max(0.001) * 3600.0) as u64,
      "seeds_per_hour": (s.done as f64 / s.campaign_s.max(0.001) * 3600.0) as u64,
      "simulated_time_steps": get("steps"),
      "simulated_time_rule": "the virtual clock advances by one microsecond per executed basic-block edge and per 64 bytes copied",
      "operations_on_the_library": get("operations"),
      "faults_injected": faults,
      "distinct_interleavings": s.scheds,
      "interleaving_rule": "hash of the complete sequence of (thread, edges executed) segments of an episode with several threads",
      "preemptions_inside_operations": get("preemptions"),
      "basic_block_edges_reached": s.edges,
      "basic_block_edges_instrumented": simcore::guards(),
      "counters": others,
      "real_code": ["nrbf (all of it, from /repo)", "nom", "serde", "rust_decimal", "std collections and hashing"],
      "stubs": ["sender and medium (reference encoder with fault catalogue)", "consumers (scripted serde visitors and derived types)",
        "thread scheduler", "getrandom", "clocks (clock_gettime, gettimeofday, time)", "futex", "global allocator (accounting, junk and poison)"],
    },
    "assumptions": [
      "preemption happens at basic-block edges of nrbf, nom, serde, rust_decimal and the consumers (sequentially consistent interleavings only)",
      "seeded sampling: a clean run is evidence, not proof",
    ],
  });
  let dir = root().join("evidence");
  let _ = std::fs::create_dir_all(&dir);
  std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&v).unwrap()).expect("evidence");
}

#[derive(Deserialize)]
struct Known {
  property: String,
  status: String,
  what: String,
  #[serde(default)]
  class: String,
  #[serde(default)]
  plan: Option<Plan>,
}

/// Runs the recorded findings of a property; those that still fail are reported as known.
fn known_findings(prop: &str) -> Vec<String> {
  let Ok(text) = std::fs::read_to_string(root().join("known-findings.json")) else { return vec![] };
  let all: Vec<Known> = serde_json::from_str(&text).expect("known-findings.json");
  let r = Runner::new();
  all
    .into_iter()
    .filter(|k| k.property == prop && k.status == "open")
    .filter_map(|k| {
      let e = r.run(k.plan.as_ref()?);
      if !e.held && e.class == k.class { Some(format!("KNOWN-FINDING: property={prop} {}", k.what)) } else { None }
    })
    .collect()
}

fn replay(path: &str) -> i32 {
  let r: Replay = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
    Ok(r) => r,
    Err(e) => {
      eprintln!("{path}: {e}");
      return 2;
    },
  };
  let e = Runner::new().run(&r.plan);
  if e.error {
    eprintln!("{}", e.text);
    return 2;
  }
  if e.held {
    println!("{} held on {path}", r.property);
    return 0;
  }
  println!("{}\n{}", e.class, e.text);
  println!("trace {:?}", e.trace);
  println!("VIOLATION property={} replay={path}", r.property);
  1
}

/// Every plan of a sample is run by several independent workers; everything observable must be the same.
fn selftest(n: u64) -> i32 {
  let seed = seed();
  let mut bad = 0;
  for prop in campaign::PROPS {
    let mut tables: Vec<Vec<u64>> = vec![];
    for w in [8, 3, 8] {
      unsafe { std::env::set_var("VERIF_WORKERS", w.to_string()) };
      let out = shm::map(8 * n as usize) as usize;
      fan_out(n, |i| {
        let p = campaign::plan(prop, seed, i);
        let e = Runner::new_once().run(&p);
        let h = simcore::rng::hash_bytes(format!("{} {:?} {} {}", e.class, e.trace, e.text, e.held).as_bytes());
        unsafe { *(out as *mut u64).add(i as usize) = h };
        true
      });
      tables.push(unsafe { std::slice::from_raw_parts(out as *const u64, n as usize) }.to_vec());
    }
    let d = (0..n as usize).filter(|i| tables[0][*i] != tables[1][*i] || tables[0][*i] != tables[2][*i]).collect::<Vec<_>>();
    println!("{prop}: {n} plans, 3 runs each, {} differ {:?}", d.len(), &d[..d.len().min(5)]);
    bad += d.len();
  }
  (bad > 0) as i32
}

fn main() {
  shm::init();
  dict::load();
  let a: Vec<String> = std::env::args().collect();
  let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
  let code = match arg(1) {
    "run" if campaign::PROPS.contains(&arg(2)) => run(arg(2), if arg(3) == "thorough" { "thorough" } else { "quick" }),
    "replay" => replay(arg(2)),
    "selftest" => selftest(arg(2).parse().unwrap_or(400)),
    // Which of the directly built messages are accepted.
    "shapes" => {
      let mut seen = std::collections::BTreeMap::new();
      for k in 0..2000 {
        let s = faults::big_shape(&mut simcore::Rng::new(k));
        let name: String = format!("{s:?}").chars().take_while(|c| c.is_alphabetic()).collect();
        seen.entry(name).or_insert(s);
      }
      for s in seen.values() {
        let b = faults::shape(s);
        println!("{s:?}: {} bytes, {}", b.len(), driver::parse(&b).map_or_else(|e| e.to_string(), |_| "accepted".into()));
      }
      0
    },
    "soups" => {
      let mut seen = std::collections::BTreeMap::<String, u32>::new();
      for k in 0..100_000u64 {
        let b = soup::soup(k.wrapping_mul(0x9e37_79b9_7f4a_7c15), [3, 6, 12, 30][(k % 4) as usize]);
        let e = driver::parse(&b).map_or_else(|e| e.to_string(), |m| format!("accepted, {}", format!("{m:?}").chars().take_while(|c| c.is_alphabetic()).collect::<String>()));
        *seen.entry(e).or_default() += 1;
      }
      println!("{seen:#?}");
      0
    },
    "dict" => {
      println!("{:#?}", dict::load());
      0
    },
    "show" => {
      let p = campaign::plan(arg(2), seed(), arg(3).parse().unwrap_or(0));
      println!("{}", serde_json::to_string_pretty(&p).unwrap());
      let e = Runner::new().run(&p);
      println!("{e:#?}");
      0
    },
    _ => {
      eprintln!("usage: nrbf-sim run PROP quick|thorough | replay FILE | selftest [N] | show PROP INDEX");
      2
    },
  };
  std::process::exit(code);
}
