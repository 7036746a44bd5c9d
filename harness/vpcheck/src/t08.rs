//! C08: the scheduler queue.
use crate::engine::CaseOut;
use crate::tape::{self, Draw};
use crate::th::*;
use crate::val::Sh;
use another_rxrust::prelude::*;
use another_rxrust::prelude::{new_thread_scheduler::NewThreadScheduler, scheduler::IScheduler};
use vp_std::vprt;

#[derive(Clone, Debug)]
enum Act {
  Post(usize),
  Abort,
  Yield,
  Sleep(u64),
  /// wait until nothing else can run, then everything posted must have run
  Settle,
}
#[derive(Clone, Debug, Default)]
struct Plan {
  /// script of the main thread, then of the other posters
  threads: Vec<Vec<Act>>,
  /// what task i does
  bodies: Vec<Vec<Act>>,
}
fn plan(d: &mut Draw, nthreads: u32, max: u32, with_abort: bool, nest: bool) -> Plan {
  let mut p = Plan::default();
  fn new_task(d: &mut Draw, p: &mut Plan, depth: u32, ab: bool, nest: bool) -> usize {
    let id = p.bodies.len();
    p.bodies.push(vec![]);
    let mut b = vec![];
    for _ in 0..d.below(3) {
      b.push(match d.weighted(&[4, if depth < 2 && nest { 3 } else { 0 }, if ab { 2 } else { 0 }, 1]) {
        0 => Act::Yield,
        1 => {
          let k = new_task(d, p, depth + 1, ab, nest);
          Act::Post(k)
        }
        2 => Act::Abort,
        _ => Act::Sleep(1 + d.below(3) as u64),
      });
    }
    p.bodies[id] = b;
    id
  }
  let n = 1 + d.below(nthreads);
  for t in 0..n {
    let mut v = vec![];
    for _ in 0..d.below(max + 1) {
      v.push(match d.weighted(&[10, if with_abort { 2 } else { 0 }, 2, 1, if t == 0 { 2 } else { 0 }]) {
        0 => Act::Post(new_task(d, &mut p, 0, with_abort, nest)),
        1 => Act::Abort,
        2 => Act::Yield,
        3 => Act::Sleep(1 + d.below(3) as u64),
        _ => Act::Settle,
      });
    }
    p.threads.push(v);
  }
  if max > 3 && d.chance(1, 400) {
    // a long queue
    let (t, k) = (d.below(n) as usize, *d.pick(&[20, 40, 70, 130, 260, 260]));
    let at = d.below(p.threads[t].len() as u32 + 1) as usize;
    let first = p.bodies.len();
    p.bodies.extend((0..k).map(|_| vec![]));
    p.threads[t].splice(at..at, (first..first + k).map(Act::Post));
  }
  p
}
#[derive(Clone, Debug, Default)]
struct Task {
  post: (u64, u64),
  /// (begin, end, thread)
  runs: Vec<(u64, u64, usize)>,
  poster: usize,
}
#[derive(Default)]
struct St {
  tasks: Vec<Task>,
  /// (begin, end, inside task)
  aborts: Vec<(u64, u64, Option<usize>)>,
  settles: Vec<u64>,
  posters: Vec<usize>,
  fail: Option<String>,
}
fn act(s: &Sh<St>, p: &Plan, q: &NewThreadScheduler<'static>, a: &Act, inside: Option<usize>) {
  match a {
    Act::Yield => vprt::yield_point(),
    Act::Sleep(n) => vprt::sleep_ns(n * MS),
    Act::Settle => {
      vprt::settle();
      // sleeping tasks may still be in progress
      vprt::sleep_ns(200 * MS);
      vprt::settle();
      let now = vprt::stamp();
      s.with(|s| s.settles.push(now));
    }
    Act::Abort => {
      let b = vprt::stamp();
      q.abort();
      let e = vprt::stamp();
      s.with(|s| s.aborts.push((b, e, inside)));
    }
    Act::Post(i) => {
      let i = *i;
      let (s2, p2, q2) = (s.clone(), p.clone(), Sh::new(q.clone()));
      let b = vprt::stamp();
      s.with(|s| {
        s.tasks[i].post = (b, u64::MAX);
        s.tasks[i].poster = vprt::cur_tid();
      });
      q.post(move || {
        let (b, tid) = (vprt::stamp(), vprt::cur_tid());
        let k = s2.with(|s| {
          s.tasks[i].runs.push((b, u64::MAX, tid));
          s.tasks[i].runs.len() - 1
        });
        let q = q2.get();
        vprt::yield_point();
        if k == 0 {
          for a in &p2.bodies[i] {
            act(&s2, &p2, &q, a, Some(i));
          }
        }
        let e = vprt::stamp();
        s2.with(|s| s.tasks[i].runs[k].1 = e);
      });
      let e = vprt::stamp();
      s.with(|s| s.tasks[i].post.1 = e);
    }
  }
}
fn scenario(p: Plan, spurious: u32) -> CaseOut {
  let mut o = case_out(format!(
    "threads: {:?}\nbodies: {:?}\nspurious wake-ups: {}",
    p.threads, p.bodies, spurious
  ));
  let s: Sh<St> = Sh::new(St { tasks: vec![Task::default(); p.bodies.len()], ..Default::default() });
  let (s2, p2) = (s.clone(), p.clone());
  let worker: Sh<usize> = Sh::new(0);
  let w2 = worker.clone();
  let cfg = vprt::Config { spurious, ..Default::default() };
  let out = run_sched(cfg, o.key, move || {
    let q = NewThreadScheduler::new();
    w2.set(1);
    let mut t = vec![];
    for k in 1..p2.threads.len() {
      let (s, p, q) = (s2.clone(), p2.clone(), Sh::new(q.clone()));
      t.push(spawn(move || {
        let q = q.get();
        s.with(|s| s.posters.push(vprt::cur_tid()));
        for a in &p.threads[k] {
          act(&s, &p, &q, a, None)
        }
      }));
    }
    for a in &p2.threads[0] {
      act(&s2, &p2, &q, a, None)
    }
    join_all(t);
    act(&s2, &p2, &q, &Act::Settle, None);
    // "exits after abort": everything ends with one
    let had = s2.with(|s| !s.aborts.is_empty());
    if had {
      if vprt::live_threads() != 0 {
        s2.with(|s| s.fail = Some("the worker is still alive after abort returned and all tasks ended".into()));
      }
    } else {
      if vprt::live_threads() == 0 {
        s2.with(|s| s.fail = Some("the worker has gone though nobody aborted".into()));
      }
      act(&s2, &p2, &q, &Act::Abort, None);
      vprt::settle();
      if vprt::live_threads() != 0 {
        s2.with(|s| s.fail = Some("the idle worker is still alive after abort returned".into()));
      }
    }
  });
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  s.with(|s| judge(s, &mut o));
  o
}
fn judge(s: &mut St, o: &mut CaseOut) {
  if let Some(f) = &s.fail {
    o.fail(f.clone());
  }
  let st = format!("tasks: {:?}\naborts: {:?}", s.tasks, s.aborts);
  let mut fail = |m: String| o.fail(format!("{}\n{}", m, st));
  let first_abort_begin = s.aborts.iter().map(|a| a.0).min().unwrap_or(u64::MAX);
  let first_abort_end = s.aborts.iter().map(|a| a.1).min().unwrap_or(u64::MAX);
  let mut runs: Vec<(u64, u64, usize, usize)> = vec![];
  for (i, t) in s.tasks.iter().enumerate() {
    if t.runs.len() > 1 {
      fail(format!("task {} ran {} times", i, t.runs.len()));
    }
    for r in &t.runs {
      runs.push((r.0, r.1, r.2, i));
      if r.1 == u64::MAX {
        fail(format!("task {} never returned", i));
      }
      if r.0 < t.post.0 {
        fail(format!("task {} ran before it was posted", i));
      }
      if r.2 == 0 || s.posters.contains(&r.2) {
        fail(format!("task {} ran on the thread of a poster", i));
      }
    }
  }
  runs.sort();
  for w in runs.windows(2) {
    if w[1].0 < w[0].1 {
      fail(format!("tasks {} and {} overlap", w[0].3, w[1].3));
    }
    if w[1].2 != w[0].2 {
      fail(format!("tasks {} and {} ran on different threads", w[0].3, w[1].3));
    }
  }
  for (i, a) in s.tasks.iter().enumerate() {
    if a.post.0 == 0 {
      continue;
    }
    for (j, b) in s.tasks.iter().enumerate() {
      if b.post.0 == 0 || a.post.1 >= b.post.0 || b.runs.is_empty() {
        continue;
      }
      // a was posted entirely before b, and b ran
      if a.runs.is_empty() {
        fail(format!("task {} ran but task {}, posted before it, did not", j, i));
      } else if a.runs[0].0 > b.runs[0].0 {
        fail(format!("task {} ran before task {}, which was posted first", j, i));
      }
    }
    for z in &s.settles {
      if a.post.1 < *z && *z < first_abort_begin && a.runs.first().map(|r| r.1 > *z).unwrap_or(true) {
        fail(format!("task {} posted, nothing aborted, but it did not run", i));
      }
    }
    if a.post.0 > first_abort_end && !a.runs.is_empty() {
      fail(format!("task {} was posted after abort had returned but ran", i));
    }
  }
  // at most one task, taken before the abort, may begin after it returned
  let late: Vec<_> = runs.iter().filter(|r| r.0 > first_abort_end).collect();
  let running = runs.iter().any(|r| r.0 < first_abort_end && r.1 > first_abort_end);
  if late.len() > 1 || (running && !late.is_empty()) {
    fail(format!("tasks {:?} began after abort had returned", late.iter().map(|r| r.3).collect::<Vec<_>>()));
  }
  let posted = s.tasks.iter().filter(|t| t.post.0 != 0).count();
  o.nontrivial = posted > 1 || (posted == 1 && first_abort_begin != u64::MAX);
  if first_abort_begin != u64::MAX {
    o.label("with abort");
  }
  if s.aborts.iter().any(|a| a.2.is_some()) {
    o.label("abort inside a task");
  }
  if s.tasks.iter().any(|t| t.post.0 > 0 && t.runs.is_empty()) {
    o.label("some task discarded");
  }
  if !late.is_empty() {
    o.label("a task taken before abort began after it");
  }
}
pub fn no_abort() -> CaseOut {
  let p = tape::with(|d| plan(d, 3, 4, false, true));
  let sp = tape::with(|d| d.below(4));
  scenario(p, sp)
}
pub fn with_abort() -> CaseOut {
  let p = tape::with(|d| plan(d, 3, 4, true, true));
  let sp = tape::with(|d| d.below(4));
  scenario(p, sp)
}
/// small inputs, all schedules with few preemptions
pub fn small() -> CaseOut {
  let p = tape::with(|d| plan(d, 2, 2, true, false));
  scenario(p, 0)
}
pub fn default_scheduler() -> CaseOut {
  let n = tape::with(|d| 1 + d.below(4)) as usize;
  let mut o = case_out(format!("{} nested posts on the default scheduler", n));
  let log: Sh<Vec<(usize, bool, usize)>> = Sh::new(vec![]);
  let l = log.clone();
  let out = run_sched(vprt::Config::default(), o.key, move || {
    fn go(l: &Sh<Vec<(usize, bool, usize)>>, n: usize) {
      if n == 0 {
        return;
      }
      let sc = (schedulers::default_scheduler())();
      let l2 = l.clone();
      l.with(|v| v.push((n, true, vprt::cur_tid())));
      sc.post(move || {
        l2.with(|v| v.push((n + 100, true, vprt::cur_tid())));
        go(&l2, n - 1);
        l2.with(|v| v.push((n + 100, false, vprt::cur_tid())));
      });
      l.with(|v| v.push((n, false, vprt::cur_tid())));
    }
    go(&l, n);
    let l3 = l.clone();
    let t = spawn(move || go(&l3, n));
    vprt::join_raw(t);
  });
  if let Some(t) = out.trouble() {
    o.fail(t);
  }
  let l = log.get();
  for tid in [0usize, 1] {
    // properly nested on one thread: post begins, task begins, ..., task ends, post ends
    let mine: Vec<(usize, bool)> = l.iter().filter(|x| x.2 == tid).map(|x| (x.0, x.1)).collect();
    let mut want = vec![];
    for k in (1..=n).rev() {
      want.push((k, true));
      want.push((k + 100, true));
    }
    for k in 1..=n {
      want.push((k + 100, false));
      want.push((k, false));
    }
    if mine != want {
      o.fail(format!("default scheduler: expected {:?} got {:?}", want, mine));
    }
  }
  o.nontrivial = true;
  o
}
