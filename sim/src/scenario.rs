//! A scenario is one complete simulated execution, written down: running it twice does the same.

use serde::{Deserialize, Serialize};

use crate::report::RunOut;
use crate::rng::{hash_bytes, mix};
use crate::{cli, huge, profiles, stream, sys, threads, world};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum Scenario {
    World(world::World),
    Cli(cli::CliWorld),
    Stream(stream::Stream),
    Threads(threads::Threads),
    Huge(huge::Huge),
    /// several runs in one process, for what one run leaves behind for the next
    Seq { runs: Vec<Scenario> },
}

/// The seed of run `i` of property `prop`.
pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(hash_bytes(mix(seed), prop.as_bytes()) ^ mix(i))
}

pub fn generate(prop: &str, seed: u64, deep: bool) -> Scenario {
    match prop {
        "C13" => Scenario::Cli(cli::generate(seed, deep)),
        "C12" => Scenario::Threads(threads::generate(seed, deep)),
        "C17" => Scenario::Huge(huge::generate(seed)),
        "C11" => Scenario::Stream(stream::generate(seed, deep)),
        _ => Scenario::World(profiles::world(prop, seed, deep)),
    }
}

impl Scenario {
    fn hash_seed(&self) -> u64 {
        match self {
            Scenario::World(w) => w.hash_seed,
            Scenario::Cli(w) => w.hash_seed,
            Scenario::Stream(w) => w.hash_seed,
            Scenario::Threads(w) => w.hash_seed ^ w.flip,
            Scenario::Huge(w) => w.hash_seed,
            Scenario::Seq { .. } => 0,
        }
    }
    fn run_here(&self) -> RunOut {
        match self {
            Scenario::World(w) => world::run(w),
            Scenario::Cli(w) => cli::run(w),
            Scenario::Stream(w) => stream::run(w),
            Scenario::Threads(w) => threads::run(w),
            Scenario::Huge(w) => huge::run(w),
            Scenario::Seq { .. } => unreachable!(),
        }
    }
    /// Is this (possibly minimised) scenario still one the oracle is right about?
    pub fn sound(&self) -> bool {
        match self {
            Scenario::World(_) | Scenario::Stream(_) => true,
            Scenario::Huge(w) => w.sound(),
            Scenario::Threads(w) => w.worlds.len() < sys::MACHINES,
            Scenario::Seq { runs } => runs.iter().all(|r| r.sound()),
            Scenario::Cli(w) => {
                !w.includes.is_empty()
                    && w.steps.iter().all(|s| match s {
                        cli::CliStep::Run { inv, .. } => !inv.files.is_empty(),
                        _ => true,
                    })
            }
        }
    }
    /// Whether it wants a process in which nothing has happened yet.
    pub fn pristine(prop: &str) -> bool {
        prop == "C12"
    }
    /// Runs on a new thread, so that nothing thread-local survives from one run to the next.
    pub fn execute(&self) -> RunOut {
        if let Scenario::Seq { runs } = self {
            let mut out = RunOut::default();
            for r in runs {
                let o = r.execute();
                out.note(o.trace);
                out.violations.extend(o.violations);
            }
            return out;
        }
        let _turn = matches!(self, Scenario::Huge(_)).then(huge::turn);
        if let Scenario::Threads(t) = self {
            return threads::execute(t);
        }
        self.execute_here()
    }
    pub fn execute_here(&self) -> RunOut {
        let me = self.clone();
        let t = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                sys::enter(0, me.hash_seed());
                let out = me.run_here();
                sys::leave();
                out
            })
            .expect("spawn");
        match t.join() {
            Ok(o) => o,
            Err(_) => {
                eprintln!("SIM-INTERNAL: the simulator itself panicked");
                std::process::exit(2);
            }
        }
    }
}
