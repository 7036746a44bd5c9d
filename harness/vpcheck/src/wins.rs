//! Windows and groups, each watched on its own: some subscribed inside the callback that hands
//! them out, some later, some twice, some never, some left early.
use crate::engine::CaseOut;
use crate::tape;
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use vp_std::vprt;

#[derive(Clone, Copy, Debug, PartialEq)]
enum W {
  Window(usize),
  Group(u32),
}
/// one subscription to a window: how many source events after it was handed out (0: inside the
/// callback), and after how many more it is left
#[derive(Clone, Debug)]
struct Watch {
  delay: usize,
  leave: Option<usize>,
}
#[derive(Clone, Debug)]
struct Plan {
  op: W,
  events: Vec<Ev>,
  /// outer subscriptions: before which event each begins
  outers: Vec<usize>,
  /// by order of arrival, cyclic
  watch: Vec<Vec<Watch>>,
  /// in front of and behind the operator
  pre: bool,
  post: bool,
}
fn plan(d: &mut tape::Draw, outers: u32) -> Plan {
  let op = if d.chance(1, 2) { W::Window(1 + d.below(4) as usize) } else { W::Group(d.below(NKEY)) };
  let n = match d.burst() {
    Some(b) => b,
    None => d.below(12) as usize,
  };
  let mut events: Vec<Ev> = (0..n).map(|_| Ev::N(V::i(d.range(0, 7)))).collect();
  match d.weighted(&[3, 3, 2]) {
    0 => events.push(Ev::C),
    1 => events.push(Ev::E(Er::new(d.range(0, 3), 7))),
    _ => {}
  }
  let no = 1 + d.below(outers) as usize;
  let mut os = vec![0];
  for _ in 1..no {
    os.push(d.below(events.len() as u32 + 1) as usize);
  }
  let nw = 1 + d.below(4);
  let watch = (0..nw)
    .map(|_| {
      (0..d.weighted(&[1, 4, 2]))
        .map(|_| Watch {
          delay: d.weighted(&[5, 1, 1, 1]),
          leave: if d.chance(1, 4) { Some(d.below(5) as usize) } else { None },
        })
        .collect()
    })
    .collect();
  Plan { op, events, outers: os, watch, pre: d.chance(1, 4), post: d.chance(1, 4) }
}

struct Win {
  obl: Option<Observable<'static, V>>,
  at: usize,
  outer: usize,
  idx: usize,
}
struct Sub {
  win: usize,
  watch: usize,
  from: usize,
  inside: bool,
  left: Option<usize>,
  log: Vec<(usize, Ev)>,
  sb: Option<Subscription<'static>>,
}
#[derive(Default)]
struct State {
  step: usize,
  wins: Vec<Win>,
  subs: Vec<Sub>,
  outer: Vec<Vec<(usize, Option<Ev>)>>,
  srcs: Vec<Observer<'static, V>>,
  fails: Vec<String>,
}
fn attach(s: &Sh<State>, win: usize, watch: usize, inside: bool) {
  let (o, k, from) = s.with(|s| {
    let step = s.step;
    s.subs.push(Sub { win, watch, from: step, inside, left: None, log: vec![], sb: None });
    (s.wins[win].obl.clone().unwrap(), s.subs.len() - 1, step)
  });
  let _ = from;
  let (a, b, c) = (s.clone(), s.clone(), s.clone());
  let (t1, t2, t3) = (tok(), tok(), tok());
  let hit = move |s: &Sh<State>, e: Ev| {
    s.with(|s| {
      let step = s.step;
      s.subs[k].log.push((step, e.plain()))
    })
  };
  let (h1, h2, h3) = (hit, hit, hit);
  let sb = o.subscribe(
    move |v| {
      let _t = &t1;
      h1(&a, Ev::N(v))
    },
    move |e| {
      let _t = &t2;
      h2(&b, Ev::E(Er::from_rx(&e)))
    },
    move || {
      let _t = &t3;
      h3(&c, Ev::C)
    },
  );
  s.with(|s| s.subs[k].sb = Some(sb));
}
/// windows of the reference: when each is handed out, and its events with their steps
fn reference(p: &Plan, from: usize) -> (Vec<(usize, Vec<(usize, Ev)>)>, Vec<(usize, Option<Ev>)>) {
  let mut wins: Vec<(usize, Vec<(usize, Ev)>)> = vec![];
  let mut open: Vec<(i64, usize, usize)> = vec![];
  let mut outer = vec![];
  for (i, e) in p.events.iter().enumerate().skip(from) {
    match e {
      Ev::N(v) => {
        let k = match p.op {
          W::Window(_) => 0,
          W::Group(f) => key(f, v),
        };
        if !open.iter().any(|o| o.0 == k) {
          open.push((k, wins.len(), 0));
          wins.push((i, vec![]));
          outer.push((i, None));
        }
        let at = open.iter().position(|o| o.0 == k).unwrap();
        open[at].2 += 1;
        let w = open[at].1;
        wins[w].1.push((i, e.plain()));
        if p.op == W::Window(open[at].2) {
          wins[w].1.push((i, Ev::C));
          open.remove(at);
        }
      }
      t => {
        for o in &open {
          wins[o.1].1.push((i, t.plain()));
        }
        outer.push((i, Some(t.plain())));
        break;
      }
    }
  }
  (wins, outer)
}

fn run(p: Plan, leaks: bool, second: bool) -> CaseOut {
  let mut o = case_out(format!("{:?}", p));
  let st: Sh<State> = Sh::new(State::default());
  let before = live();
  let (p2, s2) = (p.clone(), st.clone());
  let plan_items = {
    let a = live();
    let t = p.clone();
    let b = live();
    drop(t);
    [b[0] - a[0], b[1] - a[1], b[2] - a[2]]
  };
  let out = vprt::run(
    vprt::Config { hash_seed: o.key, max_steps: 400_000 + 20_000 * p.events.len() as u64, ..Default::default() },
    None,
    Box::new(move || {
      let s = s2;
      let (sa, t) = (s.clone(), tok());
      let mut src: Observable<'static, V> = Observable::create(move |ob: Observer<'static, V>| {
        let _t = &t;
        sa.with(|s| s.srcs.push(ob))
      });
      if p2.pre {
        src = src.map(|v| v);
      }
      let t = tok();
      let mut ws: Observable<'static, Observable<'static, V>> = match p2.op {
        W::Window(n) => src.window_with_count(n),
        W::Group(f) => src.group_by(move |v| {
          let _t = &t;
          key(f, &v)
        }),
      };
      if p2.post {
        ws = ws.map(|w| w.map(|v| v));
      }
      let mut outs = vec![];
      for i in 0..=p2.events.len() {
        // what was to be joined or left before this event
        let todo: Vec<(usize, usize)> = s.with(|s| {
          let mut v = vec![];
          for (k, w) in s.wins.iter().enumerate() {
            for (j, x) in p2.watch[w.idx % p2.watch.len()].iter().enumerate() {
              if x.delay > 0 && w.at + x.delay == i {
                v.push((k, j))
              }
            }
          }
          v
        });
        s.with(|s| s.step = i);
        for (k, j) in todo {
          attach(&s, k, j, false);
        }
        let leave: Vec<(usize, Subscription<'static>)> = s.with(|s| {
          let mut v = vec![];
          for (k, x) in s.subs.iter().enumerate() {
            let w = &s.wins[x.win];
            if let Some(l) = p2.watch[w.idx % p2.watch.len()][x.watch].leave {
              if x.from + l + 1 == i && x.left.is_none() {
                v.push((k, x.sb.clone().unwrap()))
              }
            }
          }
          v
        });
        for (k, sb) in leave {
          sb.unsubscribe();
          s.with(|s| s.subs[k].left = Some(i));
        }
        for (q, at) in p2.outers.iter().enumerate() {
          if *at != i {
            continue;
          }
          s.with(|s| s.outer.push(vec![]));
          let (a, b, c, w) = (s.clone(), s.clone(), s.clone(), p2.watch.clone());
          let (t1, t2, t3) = (tok(), tok(), tok());
          let hit = move |s: &Sh<State>, e: Option<Ev>| {
            s.with(|s| {
              let step = s.step;
              let k = s.outer.len();
              s.outer[q.min(k - 1)].push((step, e))
            })
          };
          let (h1, h2, h3) = (hit, hit, hit);
          outs.push(ws.subscribe(
            move |x| {
              let _t = &t1;
              h1(&a, None);
              let (k, idx) = a.with(|s| {
                let idx = s.wins.iter().filter(|w| w.outer == q).count();
                let at = s.step;
                s.wins.push(Win { obl: Some(x), at, outer: q, idx });
                (s.wins.len() - 1, idx)
              });
              for (j, x) in w[idx % w.len()].iter().enumerate() {
                if x.delay == 0 {
                  attach(&a, k, j, true)
                }
              }
            },
            move |e| {
              let _t = &t2;
              h2(&b, Some(Ev::E(Er::from_rx(&e).plain())))
            },
            move || {
              let _t = &t3;
              h3(&c, Some(Ev::C))
            },
          ));
        }
        if i == p2.events.len() {
          break;
        }
        let srcs = s.with(|s| s.srcs.clone());
        for ob in srcs {
          if !ob.is_subscribed() {
            continue;
          }
          match &p2.events[i] {
            Ev::N(v) => ob.next(v.clone()),
            Ev::E(e) => ob.error(rx_error(e.code, e.uid)),
            Ev::C => ob.complete(),
          }
        }
        // is_subscribed of each window's subscription
        let subs: Vec<(usize, Option<Subscription<'static>>, bool)> = s.with(|s| {
          s.subs
            .iter()
            .enumerate()
            .map(|(k, x)| {
              let over = x.left.is_some() || x.log.last().map(|l| l.1.terminal()).unwrap_or(false);
              (k, x.sb.clone(), over)
            })
            .collect()
        });
        for (k, sb, over) in subs {
          let x = sb.unwrap().is_subscribed();
          if x && over {
            s.with(|s| s.fails.push(format!("after event {}: is_subscribed() of subscription {} is true though it is over", i, k)));
          }
        }
      }
      for x in outs {
        x.unsubscribe();
      }
      let subs = s.with(|s| s.subs.iter_mut().map(|x| x.sb.take()).collect::<Vec<_>>());
      for x in subs.into_iter().flatten() {
        x.unsubscribe();
      }
      let w = s.with(|s| {
        let a: Vec<_> = s.wins.iter_mut().map(|w| w.obl.take()).collect();
        (a, std::mem::take(&mut s.srcs))
      });
      drop(w);
    }),
  );
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  let log_items = st.with(|s| {
    let a = live();
    let t: Vec<_> = s.subs.iter().map(|x| x.log.clone()).collect();
    let t2 = s.outer.clone();
    let b = live();
    drop((t, t2));
    [b[0] - a[0], b[1] - a[1], b[2] - a[2]]
  });
  let _ = plan_items;
  let now = live();
  let mut left = [0; 3];
  for i in 0..3 {
    left[i] = now[i] - before[i] - log_items[i];
  }
  st.with(|s| {
    let mut fails = s.fails.clone();
    for q in 0..p.outers.len() {
      let (wins, outer) = reference(&p, p.outers[q]);
      if s.outer[q] != outer {
        fails.push(format!("subscriber {} of the windows: expected {:?} got {:?}", q, outer, s.outer[q]));
        continue;
      }
      for (k, x) in s.subs.iter().enumerate() {
        let w = &s.wins[x.win];
        if w.outer != q {
          continue;
        }
        let evs = &wins[w.idx].1;
        let over = evs.iter().any(|e| e.1.terminal() && e.0 < x.from);
        if over {
          // what a finished window tells a newcomer is left open, except that it has no items
          if x.log.iter().any(|l| !l.1.terminal()) || x.log.len() > 1 {
            fails.push(format!("window {} was over, but a late subscriber got {:?}", w.idx, x.log));
          }
          continue;
        }
        let want: Vec<(usize, Ev)> = evs
          .iter()
          .filter(|e| e.0 >= x.from && x.left.map(|l| e.0 < l).unwrap_or(true))
          .map(|e| (e.0, e.1.plain()))
          .collect();
        if !want.is_empty() && (q > 0 || !second) {
          o.nontrivial = true;
        }
        if want.iter().any(|e| matches!(e.1, Ev::E(_))) {
          o.label("a window failed");
        }
        if !x.inside {
          o.label("a window joined later");
        }
        if want != x.log {
          fails.push(format!(
            "subscriber {}, window {}, subscription {} (from event {}, left at {:?}): expected {:?} got {:?}",
            q, w.idx, k, x.from, x.left, want, x.log
          ));
        }
      }
    }
    if let Some(f) = fails.first() {
      o.fail(f.clone());
    } else if leaks && left.iter().any(|x| *x != 0) {
      o.fail(format!(
        "still owned by the library after the end: {} items, {} closures, {} errors",
        left[0], left[1], left[2]
      ));
    }
  });
  o
}
pub fn c02() -> CaseOut {
  run(tape::with(|d| plan(d, 1)), false, false)
}
pub fn c14() -> CaseOut {
  run(tape::with(|d| plan(d, 2)), false, true)
}
pub fn c17() -> CaseOut {
  run(tape::with(|d| plan(d, 2)), true, false)
}
