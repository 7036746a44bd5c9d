//! The checks.
use crate::engine::*;
use crate::{comb, par, seq, t08, t09, t10, t12, t13, t14, t15, t16, t18, vol, wins};

pub fn all() -> Vec<Prop> {
  vec![
    Prop {
      id: "C01",
      rule: "a subscriber got a terminal event (so something could follow it)",
      families: vec![
        fam("rude sources", seq::c01, 400_000, 6_000_000),
        fam("rude sources, operators with timers and threads", t14::c01, 200_000, 4_000_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C02",
      rule: "the reference output is not empty",
      families: vec![
        fam("one operator", seq::c02_one, 400_000, 6_000_000),
        fam("chains", seq::c02_chain, 400_000, 6_000_000),
        fam("long sequences", seq::c02_long, 160, 8_000),
        fam("windows and groups one by one", wins::c02, 100_000, 2_000_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C03",
      rule: "the reference output has more than one event",
      families: vec![
        fam("one combining operator", seq::c03_flat, 400_000, 6_000_000),
        fam("nested", seq::c03_nested, 400_000, 6_000_000),
        fam("volume", vol::c03, 160, 4_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C04",
      rule: "an error reached the subscriber or a source was subscribed again",
      families: vec![
        fam("errors everywhere", seq::c04, 400_000, 6_000_000),
        fam("recovery operators", seq::c04_recover, 400_000, 6_000_000),
        fam("operators with timers and threads", t14::c04, 200_000, 4_000_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C05",
      rule: "the subscription was live at the unsubscribe and a source emitted afterwards",
      families: vec![
        fam("sequential", seq::c05, 400_000, 6_000_000),
        fam("threads", par::c05, 400_000, 8_000_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C06",
      rule: "some source had to be torn down",
      families: vec![
        fam("teardown", seq::c06, 400_000, 6_000_000),
        fam("threads", par::c06, 400_000, 8_000_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C07",
      rule: "a callback re-entered the library",
      families: vec![
        fam("re-entrant", seq::c07_reentrant, 400_000, 6_000_000),
        fam("threads", par::c07, 400_000, 8_000_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C08",
      rule: "two or more tasks were posted, or a task met an abort",
      families: vec![
        fam("posts", t08::no_abort, 800_000, 8_000_000),
        fam("posts and aborts", t08::with_abort, 1_200_000, 8_000_000),
        fam_enum("all schedules with at most 2 preemptions", t08::small, 6_000, 8_000, 2, (1_200, 20_000)),
        fam("default scheduler", t08::default_scheduler, 200, 1_000),
        fam("volume", vol::c08, 120, 3_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C09",
      rule: "events arrived through a scheduler, undisturbed or cut short by an unsubscribe",
      families: vec![
        fam("sequences", t09::order, 400_000, 8_000_000),
        fam("unsubscribe", t09::unsub, 400_000, 8_000_000),
        fam_enum("all schedules with at most 2 preemptions", t09::small, 1_200, 8_000, 2, (1_600, 20_000)),
        fam("volume", vol::c09, 120, 3_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C10",
      rule: "some observer received something",
      families: vec![
        fam("call sequences", t10::plain, 1_200_000, 8_000_000),
        fam("callbacks subscribe and unsubscribe", t10::reactive, 1_200_000, 8_000_000),
        fam("callbacks emit", t10::nested, 800_000, 8_000_000),
        fam("volume", vol::c10, 160, 4_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C11",
      rule: "callbacks came from at least two threads",
      families: vec![
        fam("one combinator", comb::flat, 600_000, 8_000_000),
        fam("nested combinators", comb::nested, 400_000, 8_000_000),
        fam("an operator with a memory below", comb::downstream, 300_000, 4_000_000),
        fam_enum("all schedules with at most 2 preemptions", comb::small, 800, 8_000, 2, (3_000, 40_000)),
        fam("volume", vol::c11, 120, 3_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C12",
      rule: "something was delivered, and two pushes overlapped, or a push overlapped a subscribe or unsubscribe",
      families: vec![
        fam("producers and observers", t12::random, 1_200_000, 8_000_000),
        fam_enum("all schedules with at most 2 preemptions", t12::small, 800, 6_000, 2, (4_000, 40_000)),
        fam("volume", vol::c12, 120, 3_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C13",
      rule: "some subscriber received something",
      families: vec![
        fam("call sequences", t13::model, 1_200_000, 8_000_000),
        fam("threads", t13::threads, 800_000, 8_000_000),
        fam_enum("all schedules with at most 2 preemptions", t13::small, 600, 4_000, 2, (4_000, 40_000)),
        fam("volume", vol::c13, 160, 4_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C14",
      rule: "a second subscriber received something",
      families: vec![
        fam("several subscribers", seq::c14, 400_000, 6_000_000),
        fam("several subscribers, operators with timers and threads", t14::timed, 300_000, 6_000_000),
        fam("windows and groups one by one", wins::c14, 100_000, 2_000_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C15",
      rule: "a thread of the library was alive when the last subscription ended (accumulation: at some time)",
      families: vec![
        fam("random pipelines", par::c15, 400_000, 8_000_000),
        fam("one period after the end", t15::random, 800_000, 8_000_000),
        fam("repeated subscriptions", t15::repeat, 20_000, 600_000),
        fam_enum("smallest pipelines, all schedules with at most 2 preemptions", t15::small, 600, 4_000, 2, (4_000, 40_000)),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C16",
      rule: "a subscriber received at least two events",
      families: vec![
        fam("pipelines in virtual time", t16::random, 600_000, 8_000_000),
        fam_enum("one source and operator, all schedules with at most 2 preemptions", t16::small, 400, 2_000, 2, (4_000, 40_000)),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C17",
      rule: "a subscription ended and every handle was dropped",
      families: vec![
        fam("release", seq::c17, 400_000, 6_000_000),
        fam("threads", par::c17, 400_000, 8_000_000),
        fam("connectables", t13::release, 400_000, 8_000_000),
        fam("windows and groups one by one", wins::c17, 100_000, 2_000_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C18",
      rule: "the future was polled more than once",
      families: vec![
        fam("executors and sources", t18::random, 1_200_000, 8_000_000),
        fam_enum("all schedules with at most 2 preemptions", t18::small, 800, 4_000, 2, (4_000, 40_000)),
        fam("volume", vol::c18, 120, 3_000),
      ],
      assumptions: vec![],
    },
    Prop {
      id: "C19",
      rule: "something was delivered and the threads really interleaved",
      families: vec![
        fam("pipelines", par::c19, 400_000, 8_000_000),
        fam("pipelines with timers", par::c19_timed, 400_000, 8_000_000),
        fam_enum("two inputs, all schedules with at most 2 preemptions", par::c19_small, 600, 3_000, 2, (4_000, 40_000)),
        fam_enum("one observer shared by threads, all schedules with at most 2 preemptions", par::c19_shared, 300, 2_000, 2, (4_000, 40_000)),
      ],
      assumptions: vec![],
    },
  ]
}
