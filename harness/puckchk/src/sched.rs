//! Generated interleavings of client actions and processes of the simulated VM.
use kit::{Rng, Src};
use lunatic::sim::{RunEnd, Sim};
use serde::{Deserialize, Serialize};

/// Explicit choices first, then pseudo-random ones from `tail` (0: always the first option, which
/// is the process that ran last).  `stay` of 8 choices continue with the process that ran last.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub prefix: Vec<u8>,
    pub tail: u64,
    pub stay: u8,
}

pub fn gen_sched(s: &mut Src) -> Sched {
    Sched { prefix: if s.chance(1, 3) { s.vec(0, 60, |s| s.below(16) as u8) } else { vec![] }, tail: if s.chance(1, 6) { 0 } else { s.below(1 << 20) }, stay: s.below(8) as u8 }
}

pub struct Chooser {
    sched: Sched,
    at: usize,
    rng: Rng,
}
impl Chooser {
    pub fn new(s: &Sched) -> Chooser {
        Chooser { sched: s.clone(), at: 0, rng: Rng::new(s.tail) }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.at < self.sched.prefix.len() {
            self.at += 1;
            return self.sched.prefix[self.at - 1] as usize % n;
        }
        if self.sched.tail == 0 || self.rng.below(8) < self.sched.stay as u64 {
            return 0;
        }
        self.rng.below(n as u64) as usize
    }
}

/// Interleave the clients' action queues (each in its own order) with the processes until all
/// actions are done and nothing can run, or the budget is used up.
pub fn drive<A>(sim: &Sim, sched: &Sched, budget: u64, queues: Vec<std::collections::VecDeque<A>>, act: impl FnMut(&Sim, usize, A)) -> RunEnd {
    drive_when(sim, sched, budget, queues, |_, _, _| true, act)
}

/// As `drive`; a client waits while `may` forbids its next action.
pub fn drive_when<A>(
    sim: &Sim,
    sched: &Sched,
    budget: u64,
    mut queues: Vec<std::collections::VecDeque<A>>,
    may: impl Fn(&Sim, usize, &A) -> bool,
    mut act: impl FnMut(&Sim, usize, A),
) -> RunEnd {
    let mut ch = Chooser::new(sched);
    let mut left = budget;
    loop {
        let run = sim.runnable();
        let ready: Vec<usize> = (0..queues.len()).filter(|i| queues[*i].front().map_or(false, |a| may(sim, *i, a))).collect();
        if run.is_empty() && ready.is_empty() {
            // let the clock advance if anything sleeps
            if sim.advance_clock() {
                continue;
            }
            return RunEnd::Idle;
        }
        if left == 0 {
            return RunEnd::Budget;
        }
        left -= 1;
        // processes first, so that choice 0 keeps running what ran last; among them every client
        // a client may also keep everybody waiting until something times out
        let late = run.is_empty() && sim.timer_pending();
        let k = ch.choose(run.len() + ready.len() + late as usize);
        if k < run.len() {
            sim.step_pid(run[k]);
        } else if k == run.len() + ready.len() {
            sim.advance_clock();
        } else {
            let c = ready[k - run.len()];
            let a = queues[c].pop_front().unwrap();
            act(sim, c, a);
        }
    }
}
