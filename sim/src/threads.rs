//! Several threads, each with compilers and a simulated machine of its own, in one process under the
//! baton scheduler. What they have in common is only what they must not influence each other through.

use serde::{Deserialize, Serialize};

use crate::model::Content;
use crate::profiles;
use crate::report::{RunOut, Violation};
use crate::rng::{mix, Rng};
use crate::scenario::Scenario;
use crate::sys::{self, SchedCfg, Sys, Vfs};
use crate::world::{self, World};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Threads {
    pub hash_seed: u64,
    pub sched: SchedCfg,
    /// runs before the threads, in the same process
    pub before: Vec<World>,
    pub worlds: Vec<World>,
    /// changes every hash table and the schedule, and nothing else
    #[serde(default)]
    pub flip: u64,
}

pub fn generate(seed: u64, deep: bool) -> Threads {
    let mut rng = Rng::new(seed);
    let hash_seed = rng.next();
    let sched = SchedCfg {
        seed: rng.next(),
        switch_pct: *rng.pick(&[10, 30, 60, 100]),
        alloc_every: *rng.pick(&[5, 30, 150, 1000]),
    };
    let n = if deep { rng.range(2, 6) } else { rng.range(2, 4) };
    let same = rng.pct(25);
    let one = rng.next();
    let kind = |rng: &mut Rng| *rng.pick(&["C02", "C04", "C05", "C06", "C07", "C08", "C09", "C15", "C16"]);
    let k0 = kind(&mut rng);
    let world = |rng: &mut Rng| {
        let (k, s) = if same { (k0, one) } else { (kind(rng), rng.next()) };
        let mut w = profiles::world(k, s, false);
        w.hash_seed = rng.next();
        if same && rng.pct(60) {
            twist(&mut w, rng);
        }
        w
    };
    let before = if rng.pct(25) { vec![world(&mut rng)] } else { vec![] };
    let worlds = (0..n).map(|_| world(&mut rng)).collect();
    Threads { hash_seed, sched, before, worlds, flip: 0 }
}

/// Files of the same names and lengths that say something else.
fn twist(w: &mut World, rng: &mut Rng) {
    let text = serde_json::to_string(w).unwrap();
    let top = text
        .match_indices("\"marker\":")
        .filter_map(|(i, m)| text[i + m.len()..].split(|c: char| !c.is_ascii_digit()).next()?.parse::<u32>().ok())
        .max()
        .unwrap_or(0);
    let mut marker = top;
    for (_, c) in &mut w.files {
        let Content::Spec(s) = c else { continue };
        if rng.pct(25) {
            continue;
        }
        let len = crate::gen::render(s).0.len();
        marker += 1;
        let mut v = s.clone();
        v.marker = marker;
        v.pad = 0;
        if rng.pct(70) {
            v.broken = None;
        }
        for _ in 0..15 {
            v.style = rng.next() as u32;
            v.exact = 0;
            if crate::gen::render(&v).0.len() <= len {
                v.exact = len as u32;
                *s = v;
                break;
            }
        }
    }
}

pub fn run(t: &Threads) -> RunOut {
    let mut out = RunOut::default();
    for w in &t.before {
        merge(&mut out, world::run(w), "before the threads");
    }
    let mut s = Sys::new(Vfs::new());
    s.sched = Some(t.sched.clone());
    s.sched_rng = Rng::new(t.sched.seed ^ t.flip);
    sys::install(Box::new(s));
    sys::baton_init(t.worlds.len());
    let flip = t.flip;
    let hs: Vec<_> = t
        .worlds
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, w)| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let tid = i as u32 + 1;
                    sys::enter(tid, w.hash_seed ^ mix(tid as u64) ^ flip);
                    sys::baton_start(tid);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| world::run(&w)));
                    sys::baton_end(tid);
                    sys::leave();
                    r
                })
                .expect("spawn")
        })
        .collect();
    for (i, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok(Ok(o)) => {
                out.probe("thread_finished");
                merge(&mut out, o, &format!("thread {i}"))
            }
            _ => {
                eprintln!("SIM-INTERNAL: the simulator itself panicked");
                std::process::exit(2);
            }
        }
    }
    out.answers = out.trace;
    let s = sys::uninstall();
    out.absorb_sys(&s);
    if s.switches > 0 {
        out.probe("threads_interleaved");
    }
    if s.futex_waits > 0 {
        out.probe("lock_contended");
    }
    out
}

fn merge(out: &mut RunOut, o: RunOut, who: &str) {
    for v in o.violations {
        out.violations.push(Violation { detail: format!("{who}: {}", v.detail), ..v });
    }
    for (k, v) in o.faults {
        *out.faults.entry(k).or_insert(0) += v;
    }
    for (k, v) in o.probes {
        *out.probes.entry(k).or_insert(0) += v;
    }
    for (k, v) in o.unmodelled {
        *out.unmodelled.entry(k).or_insert(0) += v;
    }
    out.calls += o.calls;
    out.sim_ns += o.sim_ns;
    out.note(o.trace);
    out.note_shape(&o.shape.to_string());
}

/// Runs it in a process of its own. What a world does wrong alone as well is not the fault of its company.
pub fn execute(t: &Threads) -> RunOut {
    let mut out = forked(&Scenario::Threads(t.clone()));
    if out.violations.is_empty() {
        // the same again, with other hash tables and another schedule
        if t.hash_seed % 5 < 2 {
            let again = |sched: bool| {
                let mut u = t.clone();
                u.flip = mix(t.hash_seed) | 1;
                if !sched {
                    u.sched.seed ^= u.flip;
                }
                forked(&Scenario::Threads(u))
            };
            let o = again(true);
            out.probe("compared_with_other_chances");
            if o.answers != out.answers || !o.violations.is_empty() {
                let by = again(false);
                let what = if by.answers != out.answers { "the seeds of hash tables" } else { "the schedule of the threads" };
                let more = o.violations.iter().map(|v| format!("; {}: {}", v.class, v.detail)).collect::<String>();
                out.violate("chance", &["C12"], format!("with the same files and calls, what the compilers give depends on {what}{more}"));
            }
        }
        return out;
    }
    let alone: Vec<Vec<String>> = t
        .worlds
        .iter()
        .chain(&t.before)
        .map(|w| {
            let all = forked(&Scenario::World(w.clone())).violations;
            if all.is_empty() {
                return vec![];
            }
            // compilers of one world are company for each other as well
            let apart = w.apart();
            if apart.len() < 2 {
                return all.into_iter().map(|v| v.class).collect();
            }
            apart.into_iter().flat_map(|w| forked(&Scenario::World(w)).violations).map(|v| v.class).collect()
        })
        .collect();
    for v in &mut out.violations {
        let by = match v.detail.strip_prefix("thread ").and_then(|r| r.split(':').next()).and_then(|n| n.parse::<usize>().ok()) {
            Some(i) => alone.get(i).into_iter().collect::<Vec<_>>(),
            None => alone.iter().collect(),
        };
        let own = by.iter().any(|c| c.contains(&v.class));
        if own {
            if v.props.iter().any(|p| p == "*") {
                v.props = vec!["alone".into()];
            }
        } else if !v.props.iter().any(|p| p == "C12" || p == "*") {
            v.props.push("C12".into());
        }
    }
    out
}

fn forked(s: &Scenario) -> RunOut {
    let dead = |class: &str, what: String| {
        let mut r = RunOut::default();
        r.violate(class, &["*"], what);
        r
    };
    unsafe {
        let mut fds = [0; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            crate::driver::arm_watchdog();
            let o = s.execute_here();
            let b = serde_json::to_vec(&o).unwrap();
            let mut at = 0;
            while at < b.len() {
                let n = libc::write(fds[1], b[at..].as_ptr() as *const libc::c_void, b.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::_exit(0)
        }
        libc::close(fds[1]);
        let t0 = std::time::Instant::now();
        let mut b = vec![];
        let mut hung = false;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, 1000);
            if r > 0 {
                let mut chunk = [0u8; 65536];
                let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut libc::c_void, chunk.len());
                if n <= 0 {
                    break;
                }
                b.extend_from_slice(&chunk[..n as usize]);
            } else if t0.elapsed().as_secs() > 60 {
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if hung {
            return dead("hang", "the process made no progress for a minute".into());
        }
        use std::os::unix::process::ExitStatusExt;
        let st = std::process::ExitStatus::from_raw(st);
        if st.success() {
            return serde_json::from_slice(&b).expect("outcome");
        }
        match crate::driver::death_class(Some(&st)) {
            Some(c) => dead(c, format!("the process died: {st:?}")),
            None => {
                eprintln!("SIM-INTERNAL: a run ended with {st:?}");
                std::process::exit(2)
            }
        }
    }
}
