//! Case execution, sharding over processes, shrinking, replay files and evidence.
use crate::tape::{self, Draw, Tape};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct CaseOut {
  /// violation text
  pub fail: Option<String>,
  /// exact signature of the violation, for the known-findings file
  pub sig: String,
  pub nontrivial: bool,
  pub discard: bool,
  /// identity of the case, for counting distinct ones
  pub key: u64,
  pub labels: Vec<String>,
  /// human readable description of the case
  pub desc: String,
}
impl CaseOut {
  pub fn label(&mut self, s: impl Into<String>) {
    self.labels.push(s.into());
  }
  pub fn fail(&mut self, m: impl Into<String>) {
    if self.fail.is_none() {
      self.fail = Some(m.into());
    }
  }
}

/// A family of generated cases.
pub struct Family {
  pub name: &'static str,
  pub f: fn() -> CaseOut,
  /// generated cases (quick, thorough)
  pub n: (u64, u64),
  /// >0: the inputs of each case are generated, and then all schedules with at most this many
  /// preemptions are enumerated (up to the cap `max_sched`)
  pub enum_bound: usize,
  pub max_sched: (u64, u64),
}
/// VP_SCALE: percentage of the quick counts (for experiments)
fn scaled(n: u64) -> u64 {
  n * std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100) / 100
}
pub fn fam(name: &'static str, f: fn() -> CaseOut, quick: u64, thorough: u64) -> Family {
  Family { name, f, n: (scaled(quick), thorough), enum_bound: 0, max_sched: (0, 0) }
}
pub fn fam_enum(
  name: &'static str,
  f: fn() -> CaseOut,
  quick: u64,
  thorough: u64,
  bound: usize,
  cap: (u64, u64),
) -> Family {
  Family { name, f, n: (scaled(quick), thorough), enum_bound: bound, max_sched: cap }
}

pub struct Prop {
  pub id: &'static str,
  pub rule: &'static str,
  pub families: Vec<Family>,
  pub assumptions: Vec<&'static str>,
}

pub fn verif_dir() -> PathBuf {
  PathBuf::from(std::env::var("VP_VERIF").unwrap_or_else(|_| "/verif".into()))
}
pub fn tier_thorough() -> bool {
  std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
pub fn seed() -> u64 {
  std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn case_seed(id: &str, fam: usize, idx: u64) -> u64 {
  let mut h = seed();
  for b in id.bytes() {
    h = tape::mix(h ^ b as u64);
  }
  tape::mix(h ^ tape::mix(fam as u64 * 0x10001 + 7) ^ tape::mix(idx.wrapping_mul(0x1234567)))
}

static PROG: std::sync::OnceLock<(std::fs::File, std::sync::atomic::AtomicU64)> = std::sync::OnceLock::new();
/// one case takes milliseconds; one that runs this long is tried again on its own
const HANG: Duration = Duration::from_secs(60);
/// address space of a process that runs cases: an endless allocation ends it, not the machine
const SPACE: u64 = 5 << 30;
extern "C" {
  fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
fn limit_space() {
  let (RLIMIT_AS, RLIMIT_CORE) = (9, 4);
  unsafe {
    setrlimit(RLIMIT_AS, &[SPACE, SPACE]);
    setrlimit(RLIMIT_CORE, &[0, 0]);
  }
}
/// Runs one case on its own, twice; true if it neither returns nor survives.
fn again(id: &str, n: u64, dir: &Path, f: u64, i: u64) -> bool {
  let mut bad = 0;
  for _ in 0..2 {
    if let Ok(mut ch) = spawn_shard(id, i % n, n, dir, Some((f, i)), None) {
      let t = Instant::now();
      loop {
        match ch.try_wait() {
          Ok(Some(st)) => {
            if st.signal().map(|s| s == 11 || s == 6 || s == 4 || s == 7).unwrap_or(false) {
              bad += 1;
            }
            break;
          }
          _ => {
            if t.elapsed() > HANG {
              let _ = ch.kill();
              let _ = ch.wait();
              bad += 1;
              break;
            }
            std::thread::sleep(Duration::from_millis(10));
          }
        }
      }
    }
  }
  bad == 2
}
/// (family, case, evaluations so far) of a shard
fn progress(dir: &Path, k: u64) -> Option<(u64, u64, u64)> {
  let b = std::fs::read(dir.join(format!("prog{}", k))).ok()?;
  if b.len() < 24 {
    return None;
  }
  let x = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
  Some((x(0), x(8), x(16)))
}

/// run one case on a draw source; returns result and the tape used
pub fn run_draw(f: fn() -> CaseOut, d: Draw) -> (CaseOut, Draw) {
  // sign of life for the watchdog
  if let Some((file, n)) = PROG.get() {
    let n = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let _ = file.write_all_at(&n.to_le_bytes(), 16);
  }
  tape::install(d);
  let r = std::panic::catch_unwind(f);
  let d = tape::take();
  let out = match r {
    Ok(o) => o,
    Err(p) => {
      let m = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
      eprintln!("HARNESS-ERROR: panic in the harness: {}", m);
      std::process::exit(70);
    }
  };
  (out, d)
}

struct Known {
  sigs: HashSet<String>,
}
fn known(id: &str) -> Known {
  let mut sigs = HashSet::new();
  if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
    for l in s.lines() {
      // finding: property=<id> sig=<signature> | text
      if let Some(r) = l.strip_prefix("finding: property=") {
        if let Some((p, rest)) = r.split_once(' ') {
          if p == id {
            if let Some(sg) = rest.strip_prefix("sig=") {
              let sg = sg.split(" | ").next().unwrap_or("").trim();
              sigs.insert(sg.to_string());
            }
          }
        }
      }
    }
  }
  Known { sigs }
}

fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 8);
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o
}

fn write_replay(p: &Prop, fam: usize, tape: &Tape, out: &CaseOut, path: &Path) {
  let mut s = String::new();
  s.push_str(&format!("property={}\nfamily={}\n", p.id, p.families[fam].name));
  let j = |v: &Vec<u32>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
  s.push_str(&format!("inp={}\nsch={}\n", j(&tape.inp), j(&tape.sch)));
  s.push_str(&format!("# {}\n", out.fail.clone().unwrap_or_default().replace('\n', "\n# ")));
  for l in out.desc.lines() {
    s.push_str(&format!("# {}\n", l));
  }
  let _ = std::fs::write(path, s);
}

fn parse_list(s: &str) -> Vec<u32> {
  s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

/// `vpcheck replay FILE`: 1 if the violation shows, 0 otherwise
pub fn replay(props: &[Prop], file: &str) -> i32 {
  let s = match std::fs::read_to_string(file) {
    Ok(s) => s,
    Err(e) => {
      eprintln!("cannot read {}: {}", file, e);
      return 2;
    }
  };
  let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|x| x.to_string()));
  let id = get("property").unwrap_or_default();
  let famn = get("family").unwrap_or_default();
  for p in props {
    if p.id == id {
      for f in &p.families {
        if f.name == famn {
          let t = Tape {
            inp: parse_list(&get("inp").unwrap_or_default()),
            sch: parse_list(&get("sch").unwrap_or_default()),
          };
          let d = match get("case").and_then(|c| c.parse::<u64>().ok()) {
            // a case that crashed
            Some(c) => {
              std::env::set_var("VERIF_SEED", get("seed").unwrap_or("1".into()));
              limit_space();
              let fi = p.families.iter().position(|x| x.name == famn).unwrap();
              Draw::generate(case_seed(p.id, fi, c))
            }
            None => Draw::replay(t),
          };
          let (o, _) = run_draw(f.f, d);
          println!("{}", o.desc);
          return match o.fail {
            Some(m) => {
              println!("FAILS: {}", m);
              println!("sig={}", o.sig);
              1
            }
            None => {
              println!("holds");
              0
            }
          };
        }
      }
    }
  }
  eprintln!("unknown property/family in {}", file);
  2
}

struct ShardStat {
  evaluations: u64,
  discards: u64,
  nontrivial: u64,
  keys: HashSet<u64>,
  labels: BTreeMap<String, u64>,
  samples: Vec<String>,
  known: BTreeMap<String, u64>,
  exhausted: BTreeMap<String, (u64, u64)>,
}

/// One shard: runs its slice of every family; on a violation shrinks it, writes the replay file
/// and stops.
pub fn shard(p: &Prop, k: u64, n: u64, dir: &Path, only: Option<(usize, u64)>) -> i32 {
  // a shard that continues where another process stopped: family, case, how many before it
  let (from_f, from_i, gen) = std::env::var("VP_FROM")
    .ok()
    .and_then(|s| {
      let v: Vec<u64> = s.split(':').filter_map(|x| x.parse().ok()).collect();
      Some((*v.first()? as usize, *v.get(1)?, *v.get(2)?))
    })
    .filter(|_| only.is_none())
    .unwrap_or((0, 0, 0));
  let thorough = tier_thorough();
  let kn = known(p.id);
  limit_space();
  let path = dir.join(if only.is_some() { format!("again{}", k) } else { format!("prog{}", k) });
  let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(path).unwrap();
  let _ = PROG.set((prog.try_clone().unwrap(), 0.into()));
  let mut st = ShardStat {
    evaluations: 0,
    discards: 0,
    nontrivial: 0,
    keys: HashSet::new(),
    labels: BTreeMap::new(),
    samples: vec![],
    known: BTreeMap::new(),
    exhausted: BTreeMap::new(),
  };
  let mut code = 0;
  'outer: for (fi, f) in p.families.iter().enumerate() {
    let total = if thorough { f.n.1 } else { f.n.0 };
    let cap = if thorough { f.max_sched.1 } else { f.max_sched.0 };
    if fi < from_f {
      continue;
    }
    let mut i = if fi == from_f { from_i.max(k) } else { k };
    let mut fam_samples = if gen > 0 && fi == from_f { 2 } else { 0 };
    while i < total {
      let idx = i;
      i += n;
      // what the cases leave behind (endless subscriptions, cycles) is given back by a new process
      if only.is_none() && (idx / n) % 64 == 63 && used_space() > RECYCLE {
        std::fs::write(dir.join(format!("next{}", k)), format!("{}:{}:{}", fi, idx, gen + 1)).unwrap();
        code = MORE;
        break 'outer;
      }
      if let Some((of, oi)) = only {
        if of != fi || oi != idx {
          continue;
        }
      }
      let mut b = [0u8; 16];
      b[..8].copy_from_slice(&(fi as u64).to_le_bytes());
      b[8..].copy_from_slice(&idx.to_le_bytes());
      let _ = prog.write_all_at(&b, 0);
      let (mut out, mut d) = run_draw(f.f, Draw::generate(case_seed(p.id, fi, idx)));
      let account = |st: &mut ShardStat, out: &CaseOut, d: &Draw| {
        st.evaluations += 1;
        if out.discard {
          st.discards += 1;
        } else if out.nontrivial {
          st.nontrivial += 1;
          let mut h = out.key ^ fi as u64;
          for x in &d.tape.sch {
            h = tape::mix(h ^ *x as u64);
          }
          if st.keys.len() < 400_000 {
            st.keys.insert(h);
          }
        }
        for l in &out.labels {
          *st.labels.entry(format!("{}:{}", f.name, l)).or_insert(0) += 1;
        }
      };
      account(&mut st, &out, &d);
      let mut tape_used = d.used();
      if f.enum_bound > 0 && out.fail.is_none() && !out.discard {
        // systematic part: all schedules of this input with few preemptions
        let inp = tape_used.inp.clone();
        let mut prefix = vec![];
        let mut cnt = 0;
        let mut complete = false;
        loop {
          let (o, dd) = run_draw(f.f, Draw::enumerate(inp.clone(), prefix.clone()));
          account(&mut st, &o, &dd);
          cnt += 1;
          if o.fail.is_some() {
            out = o;
            tape_used = dd.tape.clone();
            break;
          }
          let log = dd.en.as_ref().unwrap().1.clone();
          match tape::next_prefix(&log, f.enum_bound) {
            Some(p) if cnt < cap => prefix = p,
            Some(_) => break,
            None => {
              complete = true;
              break;
            }
          }
        }
        let e = st.exhausted.entry(f.name.to_string()).or_insert((0, 0));
        e.0 += complete as u64;
        e.1 += 1;
      }
      if fam_samples < 2 && out.nontrivial && !out.discard && k < 2 {
        fam_samples += 1;
        if st.samples.len() < 40 {
          st.samples.push(format!("[{} #{}] {}", f.name, idx, out.desc));
        }
      }
      if out.fail.is_some() {
        if kn.sigs.contains(&out.sig) {
          *st.known.entry(out.sig.clone()).or_insert(0) += 1;
          continue;
        }
        // shrink
        let t0 = Instant::now();
        let best = tape::shrink(tape_used, 4000, &mut |t| {
          if t0.elapsed() > Duration::from_secs(40) {
            return None;
          }
          let (o, dd) = run_draw(f.f, Draw::replay(t.clone()));
          if o.fail.is_some() && !kn.sigs.contains(&o.sig) {
            Some(dd.used())
          } else {
            None
          }
        });
        let (o, dd) = run_draw(f.f, Draw::replay(best.clone()));
        let (o, best) = if o.fail.is_some() { (o, dd.used()) } else { (out.clone(), d.used()) };
        let rp = dir.join(format!("fail{}", k));
        write_replay(p, fi, &best, &o, &rp);
        code = 1;
        break 'outer;
      }
      d.tape.inp.clear();
    }
  }
  // shard report
  let mut s = String::new();
  s.push_str(&format!("ev {}\ndis {}\nnt {}\n", st.evaluations, st.discards, st.nontrivial));
  for (l, c) in &st.labels {
    s.push_str(&format!("lab {} {}\n", c, l));
  }
  for (l, (a, b)) in &st.exhausted {
    s.push_str(&format!("exh {} {} {}\n", a, b, l));
  }
  for (l, c) in &st.known {
    s.push_str(&format!("kn {} {}\n", c, l));
  }
  for x in &st.samples {
    s.push_str(&format!("sam {}\n", esc(x)));
  }
  std::fs::write(dir.join(format!("rep{}.{}", k, gen)), s).unwrap();
  let mut kb = Vec::with_capacity(st.keys.len() * 8);
  for x in &st.keys {
    kb.extend_from_slice(&x.to_le_bytes());
  }
  std::fs::write(dir.join(format!("keys{}.{}", k, gen)), kb).unwrap();
  code
}

/// exit code of a shard that wants to be continued by a new process
const MORE: i32 = 5;
/// a process that has grown to this size is replaced
const RECYCLE: u64 = 3 << 29;
fn used_space() -> u64 {
  std::fs::read_to_string("/proc/self/statm")
    .ok()
    .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<u64>().ok()))
    .map(|x| x * 4096)
    .unwrap_or(0)
}
fn spawn_shard(
  id: &str,
  k: u64,
  n: u64,
  dir: &Path,
  only: Option<(u64, u64)>,
  from: Option<&str>,
) -> std::io::Result<std::process::Child> {
  let exe = std::env::current_exe()?;
  let mut c = Command::new(exe);
  c.arg("shard").arg(id).arg(k.to_string()).arg(n.to_string()).arg(dir);
  if let Some((f, i)) = only {
    c.arg(f.to_string()).arg(i.to_string());
  }
  c.env_remove("VP_FROM");
  if let Some(f) = from {
    c.env("VP_FROM", f);
  }
  c.stdin(Stdio::null()).stdout(Stdio::null());
  c.spawn()
}

/// Runs the check of one property; returns the exit code.
pub fn run(p: &Prop) -> i32 {
  let t0 = Instant::now();
  let thorough = tier_thorough();
  let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 700 });
  let n: u64 = std::env::var("VP_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
  let verif = verif_dir();
  let dir = verif.join("build").join("run").join(format!("{}-{}", p.id, std::process::id()));
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).unwrap();
  let replays = verif.join("build").join("replays");
  std::fs::create_dir_all(&replays).unwrap();
  let mut kids: Vec<(u64, Option<std::process::Child>)> =
    (0..n).map(|k| (k, Some(spawn_shard(p.id, k, n, &dir, None, None).unwrap()))).collect();
  let mut crashed: Vec<u64> = vec![];
  let mut parts: Vec<u64> = vec![1; n as usize];
  let mut error: Option<String> = None;
  let mut failed = false;
  let mut crash_fail: Option<(usize, u64)> = None;
  let mut last: Vec<(Option<(u64, u64, u64)>, Instant)> = (0..n).map(|_| (None, Instant::now())).collect();
  loop {
    let mut running = 0;
    for (k, c) in kids.iter_mut() {
      if let Some(ch) = c {
        match ch.try_wait() {
          Ok(Some(st)) => {
            if let Some(sig) = st.signal() {
              eprintln!("shard {} ended by signal {}", k, sig);
              crashed.push(*k);
            } else {
              match st.code() {
                Some(0) => {}
                Some(1) => failed = true,
                Some(MORE) => {
                  let from = std::fs::read_to_string(dir.join(format!("next{}", k))).unwrap_or_default();
                  parts[*k as usize] += 1;
                  match spawn_shard(p.id, *k, n, &dir, None, Some(&from)) {
                    Ok(ch) => {
                      *c = Some(ch);
                      last[*k as usize].1 = Instant::now();
                      running += 1;
                      continue;
                    }
                    Err(e) => error = Some(format!("spawn: {}", e)),
                  }
                }
                c => error = Some(format!("shard {} ended with {:?}", k, c)),
              }
            }
            *c = None;
          }
          Ok(None) => running += 1,
          Err(e) => error = Some(format!("wait: {}", e)),
        }
      }
    }
    if running == 0 || error.is_some() {
      break;
    }
    // a case that does not return (without ever reaching a scheduling point)
    for (k, c) in kids.iter_mut() {
      if c.is_some() && last[*k as usize].1.elapsed() > HANG {
        let p2 = progress(&dir, *k);
        if p2 == last[*k as usize].0 {
          if let Some((f, i, _)) = p2 {
            eprintln!("shard {} stands still in {} #{}", k, p.families[f as usize].name, i);
            if again(p.id, n, &dir, f, i) && progress(&dir, *k) == p2 {
              crash_fail = Some((f as usize, i));
            }
          }
        }
        last[*k as usize] = (progress(&dir, *k), Instant::now());
      }
    }
    if crash_fail.is_some() {
      break;
    }
    if t0.elapsed() > limit {
      let mut w = vec![];
      for (k, c) in kids.iter() {
        if c.is_some() {
          if let Some((f, i, _)) = progress(&dir, *k) {
            w.push(format!("shard {} in {} #{}", k, p.families[f as usize].name, i));
          }
        }
      }
      error = Some(format!("time limit: {}", w.join(", ")));
      break;
    }
    std::thread::sleep(Duration::from_millis(20));
  }
  for (_, c) in kids.iter_mut() {
    if let Some(ch) = c {
      let _ = ch.kill();
      let _ = ch.wait();
    }
  }
  // crashes: report only if the same case crashes again, twice, on its own
  for k in &crashed {
    if crash_fail.is_some() {
      break;
    }
    if let Some((f, i, _)) = progress(&dir, *k) {
      if again(p.id, n, &dir, f, i) {
        crash_fail = Some((f as usize, i));
        break;
      }
    }
    error = Some(format!("shard {} crashed and the crash did not reproduce", k));
  }
  // merge
  let mut ev = 0u64;
  let mut dis = 0u64;
  let mut nt = 0u64;
  let mut labels: BTreeMap<String, u64> = BTreeMap::new();
  let mut exh: BTreeMap<String, (u64, u64)> = BTreeMap::new();
  let mut kn: BTreeMap<String, u64> = BTreeMap::new();
  let mut samples: Vec<String> = vec![];
  let mut keys: HashSet<u64> = HashSet::new();
  for (k, part) in (0..n).flat_map(|k| (0..parts[k as usize]).map(move |g| (k, g))).collect::<Vec<_>>() {
    if let Ok(s) = std::fs::read_to_string(dir.join(format!("rep{}.{}", k, part))) {
      for l in s.lines() {
        let (a, b) = l.split_once(' ').unwrap_or((l, ""));
        match a {
          "ev" => ev += b.parse::<u64>().unwrap_or(0),
          "dis" => dis += b.parse::<u64>().unwrap_or(0),
          "nt" => nt += b.parse::<u64>().unwrap_or(0),
          "lab" => {
            if let Some((c, l)) = b.split_once(' ') {
              *labels.entry(l.into()).or_insert(0) += c.parse::<u64>().unwrap_or(0);
            }
          }
          "exh" => {
            let v: Vec<&str> = b.splitn(3, ' ').collect();
            let e = exh.entry(v[2].into()).or_insert((0, 0));
            e.0 += v[0].parse::<u64>().unwrap_or(0);
            e.1 += v[1].parse::<u64>().unwrap_or(0);
          }
          "kn" => {
            if let Some((c, l)) = b.split_once(' ') {
              *kn.entry(l.into()).or_insert(0) += c.parse::<u64>().unwrap_or(0);
            }
          }
          "sam" => samples.push(b.into()),
          _ => {}
        }
      }
    }
    if let Ok(b) = std::fs::read(dir.join(format!("keys{}.{}", k, part))) {
      for c in b.chunks_exact(8) {
        keys.insert(u64::from_le_bytes(c.try_into().unwrap()));
      }
    }
  }
  // smallest failing tape of all shards
  let mut violation: Option<PathBuf> = None;
  if failed {
    let mut best: Option<(usize, PathBuf)> = None;
    for k in 0..n {
      let fp = dir.join(format!("fail{}", k));
      if let Ok(s) = std::fs::read_to_string(&fp) {
        let l = s.lines().filter(|l| l.starts_with("inp=") || l.starts_with("sch=")).map(|l| l.len()).sum();
        if best.as_ref().map(|b| l < b.0).unwrap_or(true) {
          best = Some((l, fp));
        }
      }
    }
    if let Some((_, fp)) = best {
      let dst = replays.join(format!("{}-seed{}.replay", p.id, seed()));
      let _ = std::fs::copy(&fp, &dst);
      violation = Some(dst);
    } else {
      error = Some("a shard failed without a replay file".into());
    }
  }
  if violation.is_none() {
    if let Some((f, i)) = crash_fail {
      let dst = replays.join(format!("{}-seed{}.replay", p.id, seed()));
      let _ = std::fs::write(
        &dst,
        format!(
          "property={}\nfamily={}\ncase={}\nseed={}\n# the process crashed or did not return while running this case, three times\n# rerun: VERIF_SEED={} vpcheck shard {} {} {} DIR {} {}\n",
          p.id, p.families[f].name, i, seed(), seed(), p.id, i % n, n, f, i
        ),
      );
      violation = Some(dst);
    }
  }
  for (s, c) in &kn {
    println!("KNOWN-FINDING: property={} {} ({} cases)", p.id, s, c);
  }
  // evidence
  let evp = verif.join("evidence").join(format!("{}.json", p.id));
  let _ = std::fs::create_dir_all(verif.join("evidence"));
  let mut js = String::new();
  js.push_str(&format!(
    "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
    p.id,
    if thorough { "thorough" } else { "quick" },
    seed()
  ));
  js.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", ev, keys.len()));
  js.push_str(&format!("  \"rule\": \"{}\",\n", esc(p.rule)));
  js.push_str(&format!("  \"nontrivial\": {},\n  \"discarded\": {},\n", nt, dis));
  js.push_str("  \"families\": {");
  let mut first = true;
  for f in &p.families {
    js.push_str(&format!(
      "{}\n   \"{}\": {}",
      if first { "" } else { "," },
      f.name,
      if thorough { f.n.1 } else { f.n.0 }
    ));
    first = false;
  }
  js.push_str("\n  },\n  \"schedules_enumerated_completely\": {");
  first = true;
  for (l, (a, b)) in &exh {
    js.push_str(&format!("{}\n   \"{}\": \"{} of {} inputs\"", if first { "" } else { "," }, esc(l), a, b));
    first = false;
  }
  js.push_str("\n  },\n  \"classes\": {");
  first = true;
  for (l, c) in &labels {
    js.push_str(&format!("{}\n   \"{}\": {}", if first { "" } else { "," }, esc(l), c));
    first = false;
  }
  js.push_str("\n  },\n  \"samples\": [");
  first = true;
  for s in samples.iter().take(24) {
    js.push_str(&format!("{}\n   \"{}\"", if first { "" } else { "," }, s));
    first = false;
  }
  js.push_str("\n  ]\n },\n \"assumptions\": [");
  first = true;
  for a in &p.assumptions {
    js.push_str(&format!("{}\n  \"{}\"", if first { "" } else { "," }, esc(a)));
    first = false;
  }
  js.push_str(&format!(
    "\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
    t0.elapsed().as_secs_f64(),
    violation.is_some() as u32
  ));
  let _ = std::fs::write(&evp, js);
  let _ = std::fs::remove_dir_all(&dir);
  if let Some(v) = violation {
    if let Ok(s) = std::fs::read_to_string(&v) {
      for l in s.lines().filter(|l| l.starts_with('#')).take(60) {
        println!("{}", l);
      }
    }
    println!("VIOLATION property={} replay={}", p.id, v.display());
    let _ = std::io::stdout().flush();
    return 1;
  }
  if let Some(e) = error {
    eprintln!("ERROR: {}", e);
    return 3;
  }
  println!(
    "{}: held on {} evaluations ({} distinct non-trivial, {} discarded) in {:.1}s",
    p.id,
    ev,
    keys.len(),
    dis,
    t0.elapsed().as_secs_f64()
  );
  0
}
