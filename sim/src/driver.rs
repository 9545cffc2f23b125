//! Seeded search over many simulated runs, minimisation, replay and evidence.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::props;
use crate::report::{install_panic_hook, RunOut, Violation};
use crate::scenario::{generate, run_seed, Scenario};

pub const WORKERS: usize = 8;
const CPU_LIMIT_S: i64 = 40;

pub fn main(args: &[String]) -> i32 {
    install_panic_hook();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", prop, rest @ ..] => check(prop, rest.contains(&"thorough")),
        ["worker", prop, wid, seed, start, runs, secs, shm, deep] => worker(
            prop,
            wid.parse().unwrap(),
            seed.parse().unwrap(),
            start.parse().unwrap(),
            runs.parse().unwrap(),
            secs.parse().unwrap(),
            Path::new(shm),
            *deep == "1",
        ),
        ["run-one", file] => run_one(Path::new(file)),
        ["replay", file] => replay(Path::new(file)),
        ["gen", prop, seed, i] => {
            let s = generate(prop, run_seed(seed.parse().unwrap(), prop, i.parse().unwrap()), false);
            println!("{}", serde_json::to_string_pretty(&s).unwrap());
            0
        }
        ["traces", prop, seed, from, to] => {
            // one line per run: for comparing two executions of the same seeds
            if !Scenario::pristine(prop) {
                warm_up();
            }
            for i in from.parse::<u64>().unwrap()..to.parse().unwrap() {
                let o = generate(prop, run_seed(seed.parse().unwrap(), prop, i), false).execute();
                println!("{i} {:016x} {}", o.trace, o.violations.len());
            }
            0
        }
        _ => {
            eprintln!("usage: sim check PROP [--tier quick|thorough] | replay FILE | gen PROP SEED I");
            2
        }
    }
}

/// What must not happen inside a run because it happens once per process.
pub fn warm_up() {
    let _ = prost_reflect::ReflectMessage::descriptor(&prost_types::FileDescriptorSet::default());
}

pub fn arm_watchdog() {
    extern "C" fn on_alarm(_: libc::c_int) {
        let m = b"SIM-CPU-LIMIT\n";
        unsafe {
            libc::write(2, m.as_ptr() as *const libc::c_void, m.len());
            libc::_exit(98)
        }
    }
    let limit = std::env::var("SIM_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(CPU_LIMIT_S);
    unsafe {
        libc::signal(libc::SIGVTALRM, on_alarm as *const () as libc::sighandler_t);
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: limit, tv_usec: 0 },
        };
        setitimer(1, &t, std::ptr::null_mut());
    }
}
extern "C" {
    fn setitimer(which: libc::c_int, new: *const libc::itimerval, old: *mut libc::itimerval) -> libc::c_int;
}

/// Shared between the parent and its workers: [stop, index of the run each worker is in].
struct Shm(*mut AtomicU64);
impl Shm {
    fn open(p: &Path) -> Shm {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).expect("shm");
        f.set_len(4096).expect("shm");
        let m = unsafe {
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(m != libc::MAP_FAILED);
        Shm(m as *mut AtomicU64)
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(i) }
    }
}

#[derive(Default, Serialize, Deserialize)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    unmodelled: BTreeMap<String, u64>,
    calls: u64,
    sim_ns: u64,
    switches: u64,
    foreign: BTreeMap<String, (u64, String)>,
    traces: HashSet<u64>,
    shapes: HashSet<u64>,
    known: BTreeMap<String, u64>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Found {
    index: u64,
    violation: Violation,
    scenario: Scenario,
}

impl Stats {
    fn add(&mut self, o: &RunOut, nontrivial: bool) {
        self.runs += 1;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.unmodelled {
            *self.unmodelled.entry(k.clone()).or_insert(0) += v;
        }
        self.calls += o.calls;
        self.sim_ns += o.sim_ns;
        self.switches += o.switches;
        if nontrivial {
            self.nontrivial += 1;
            self.traces.insert(o.trace);
        }
        self.shapes.insert(o.shape);
    }
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.unmodelled {
            *self.unmodelled.entry(k).or_insert(0) += v;
        }
        self.calls += o.calls;
        self.sim_ns += o.sim_ns;
        self.switches += o.switches;
        for (k, v) in o.foreign {
            let e = self.foreign.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        self.traces.extend(o.traces);
        self.shapes.extend(o.shapes);
    }
}

fn concerns(v: &Violation, prop: &str) -> bool {
    if std::env::var_os("SIM_ALL").is_some() {
        return true;
    }
    v.props.iter().any(|p| p == "*" || p == prop)
}

#[allow(clippy::too_many_arguments)]
fn worker(prop: &str, wid: usize, seed: u64, start: u64, runs: u64, secs: u64, shm: &Path, deep: bool) -> i32 {
    if !Scenario::pristine(prop) {
        warm_up();
    }
    let shm = Shm::open(shm);
    let t0 = Instant::now();
    let mut st = Stats::default();
    let out = std::io::stdout();
    let mut found = 0;
    let known = known_findings(prop);
    let mut i = start;
    while i < runs && t0.elapsed() < Duration::from_secs(secs) && shm.at(0).load(Ordering::Relaxed) == 0 {
        shm.at(1 + wid).store(i, Ordering::Relaxed);
        arm_watchdog();
        let sc = generate(prop, run_seed(seed, prop, i), deep);
        let o = sc.execute();
        st.add(&o, props::nontrivial(prop, &o));
        let mut told: Vec<&str> = vec![];
        for v in &o.violations {
            if concerns(v, prop) {
                if let Some(k) = is_known(&known, v) {
                    *st.known.entry(known[k].text.clone()).or_insert(0) += 1;
                    continue;
                }
                // one scenario can fail in the same way for hundreds of files: it is reported once
                if told.contains(&v.class.as_str()) {
                    continue;
                }
                told.push(&v.class);
                let f = Found { index: i, violation: v.clone(), scenario: sc.clone() };
                let mut l = out.lock();
                let _ = writeln!(l, "V{}", serde_json::to_string(&f).unwrap());
                let _ = l.flush();
                found += 1;
            } else {
                let e = st.foreign.entry(format!("{} {:?}", v.class, v.props)).or_insert((0, v.detail.clone()));
                e.0 += 1;
            }
        }
        if found >= 4 {
            shm.at(0).store(1, Ordering::Relaxed);
        }
        i += WORKERS as u64;
    }
    let mut l = out.lock();
    let _ = writeln!(l, "S{}", serde_json::to_string(&st).unwrap());
    let _ = l.flush();
    0
}

/// Runs one scenario from a file; the outcome is one JSON line.
fn run_one(file: &Path) -> i32 {
    arm_watchdog();
    let sc: Scenario = match std::fs::read(file).map_err(|e| e.to_string()).and_then(|b| {
        serde_json::from_slice(&b).map_err(|e| e.to_string())
    }) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 3;
        }
    };
    if !matches!(sc, Scenario::Threads(_)) {
        warm_up();
    }
    let o = sc.execute();
    println!("{}", serde_json::to_string(&o).unwrap());
    0
}

fn scratch() -> PathBuf {
    let p = std::env::temp_dir().join(format!("protox-sim-{}", std::process::id()));
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

/// Runs a scenario in a process of its own. A process that dies is a violation as well.
fn run_in_child(sc: &Scenario, dir: &Path, tag: &str, limit: Duration) -> Option<RunOut> {
    run_limited(sc, dir, tag, limit, CPU_LIMIT_S)
}

fn run_limited(sc: &Scenario, dir: &Path, tag: &str, limit: Duration, cpu: i64) -> Option<RunOut> {
    let f = dir.join(format!("one-{tag}.json"));
    std::fs::write(&f, serde_json::to_vec(sc).ok()?).ok()?;
    let o = dir.join(format!("one-{tag}.out"));
    let mut ch = Command::new(std::env::current_exe().ok()?)
        .arg("run-one")
        .arg(&f)
        .env("SIM_CPU", cpu.to_string())
        .stdout(std::fs::File::create(&o).ok()?)
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    let status = loop {
        match ch.try_wait().ok()? {
            Some(s) => break Some(s),
            None if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_micros(500)),
        }
    };
    match status {
        Some(s) if s.success() => serde_json::from_slice(&std::fs::read(&o).ok()?).ok(),
        s => {
            let class = death_class(s.as_ref())?;
            let mut r = RunOut::default();
            r.violate(class, &["*"], format!("the process died: {s:?}"));
            Some(r)
        }
    }
}

pub fn death_class(s: Option<&std::process::ExitStatus>) -> Option<&'static str> {
    use std::os::unix::process::ExitStatusExt;
    match s {
        None => Some("hang"),
        Some(s) => match (s.code(), s.signal()) {
            (Some(98), _) => Some("cpu-livelock"),
            (Some(97), _) => Some("syscall-livelock"),
            (Some(96), _) => Some("deadlock"),
            (Some(2) | Some(3), _) => None,
            (None, Some(libc::SIGKILL)) => None,
            _ => Some("crash"),
        },
    }
}

// ------------------------------------------------------------------------------------------
// minimisation: structural, on the JSON form

/// Paths of arrays whose elements may be dropped.
fn arrays(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                if ["values", "oneofs", "Short", "layers_fixed"].contains(&k.as_str()) {
                    continue;
                }
                at.push(k.clone());
                arrays(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            // byte strings and tuples are not lists
            let bytes = a.len() > 3 && a.iter().all(|x| x.is_u64());
            if !bytes {
                out.push(at.clone());
                for (i, x) in a.iter().enumerate() {
                    at.push(i.to_string());
                    arrays(x, at, out);
                    at.pop();
                }
            }
        }
        _ => {}
    }
}

fn get<'a>(v: &'a mut Value, at: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in at {
        c = match c {
            Value::Object(m) => m.get_mut(k)?,
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}

fn droppable(x: &Value) -> bool {
    // a field that belongs to a oneof keeps the oneof alive
    !x.get("oneof").is_some_and(|o| !o.is_null())
}

/// One step of shrinking. Applied when its turn comes: a scenario of hundreds of files has many thousands.
enum Edit {
    Drop(Vec<String>, usize, usize),
    Zero(Vec<String>),
    Entry(usize, String),
}

fn apply_edit(v: &Value, e: &Edit) -> Value {
    let mut c = v.clone();
    match e {
        Edit::Drop(p, lo, hi) => {
            if let Some(a) = get(&mut c, p).and_then(|a| a.as_array_mut()) {
                a.drain(*lo..*hi);
            }
        }
        Edit::Zero(p) => {
            if let Some(x) = get(&mut c, p) {
                *x = json!(0);
            }
        }
        Edit::Entry(i, k) => {
            c["mems"][*i].as_object_mut().unwrap().remove(k);
        }
    }
    c
}

fn candidates(v: &Value) -> Vec<Edit> {
    let mut out = vec![];
    let mut paths = vec![];
    let mut whole = v.clone();
    arrays(v, &mut vec![], &mut paths);
    paths.sort_by_key(|p| p.len());
    for p in &paths {
        let Some(a) = get(&mut whole, p).and_then(|a| a.as_array()) else { continue };
        let n = a.len();
        let mut chunk = n;
        while chunk >= 1 {
            let mut i = 0;
            while i < n {
                let hi = (i + chunk).min(n);
                if a[i..hi].iter().all(droppable) {
                    out.push(Edit::Drop(p.clone(), i, hi));
                }
                i += chunk;
            }
            chunk /= 2;
        }
    }
    // plain formatting, no padding, no options
    fn walk(v: &Value, at: &mut Vec<String>, f: &mut Vec<Vec<String>>) {
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    at.push(k.clone());
                    if (k == "style" || k == "pad" || k == "exact" || k == "blob") && x.as_u64().is_some_and(|n| n != 0) {
                        f.push(at.clone());
                    }
                    walk(x, at, f);
                    at.pop();
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    at.push(i.to_string());
                    walk(x, at, f);
                    at.pop();
                }
            }
            _ => {}
        }
    }
    let mut zero = vec![];
    walk(v, &mut vec![], &mut zero);
    for p in zero {
        out.push(Edit::Zero(p));
    }
    // entries of in-memory file systems
    if let Some(ms) = v.get("mems").and_then(|m| m.as_array()) {
        for (i, m) in ms.iter().enumerate() {
            for k in m.as_object().map(|m| m.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
                out.push(Edit::Entry(i, k));
            }
        }
    }
    out
}

fn patience(thorough: bool) -> Duration {
    match std::env::var("SIM_MINIMISE").ok().and_then(|s| s.parse().ok()) {
        Some(s) => Duration::from_secs(s),
        None => Duration::from_secs(if thorough { 60 } else { 25 }),
    }
}

fn minimise(f: &Found, prop: &str, dir: &Path, budget: Duration) -> (Scenario, Violation, usize) {
    let t0 = Instant::now();
    let mut best = serde_json::to_value(&f.scenario).unwrap();
    let mut best_sc = f.scenario.clone();
    let mut best_v = f.violation.clone();
    let mut tried = 0;
    let known = &known_findings(prop);
    let slow = matches!(f.violation.class.as_str(), "hang" | "cpu-livelock");
    if slow {
        return (best_sc, best_v, 0);
    }
    'outer: loop {
        let cands = candidates(&best);
        for batch in cands.chunks(WORKERS) {
            if t0.elapsed() > budget || tried > 6000 {
                break 'outer;
            }
            let hits: Vec<Option<(Value, Scenario, Violation)>> = std::thread::scope(|s| {
                let hs: Vec<_> = batch
                    .iter()
                    .enumerate()
                    .map(|(k, e)| {
                        let class = best_v.class.clone();
                        let best = &best;
                        s.spawn(move || {
                            let c = apply_edit(best, e);
                            let sc: Scenario = serde_json::from_value(c.clone()).ok()?;
                            if !sc.sound() {
                                return None;
                            }
                            let o = run_in_child(&sc, dir, &format!("m{k}"), Duration::from_secs(20))?;
                            let v = o
                                .violations
                                .into_iter()
                                .find(|v| v.class == class && concerns(v, prop) && is_known(known, v).is_none())?;
                            Some((c, sc, v))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            tried += batch.len();
            if let Some((v, sc, vi)) = hits.into_iter().flatten().next() {
                best = v;
                best_sc = sc;
                best_v = vi;
                continue 'outer;
            }
        }
        break;
    }
    (best_sc, best_v, tried)
}

// ------------------------------------------------------------------------------------------
// check

struct Known {
    class: String,
    needle: String,
    text: String,
    /// the scenario that fails, if it is run by itself and not met by the search
    scenario: String,
}

/// Whether the scenario of a known finding still fails as it is listed.
fn still_fails(k: &Known, dir: &Path) -> bool {
    if k.scenario.is_empty() {
        return true;
    }
    let Ok(t) = std::fs::read(verif_dir().join(&k.scenario)) else { return false };
    let Ok(sc) = serde_json::from_slice::<Scenario>(&t) else { return false };
    run_limited(&sc, dir, "known", Duration::from_secs(60), 5)
        .is_some_and(|o| o.violations.iter().any(|v| v.class == k.class))
}

fn is_known(known: &[Known], v: &Violation) -> Option<usize> {
    known.iter().position(|k| k.class == v.class && !k.needle.is_empty() && v.detail.contains(&k.needle))
}

fn verif_dir() -> PathBuf {
    std::env::var_os("SIM_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// `known: property=C04 class=panic match="part of its detail" -- text`, or with
/// `replay=findings/x.json` a scenario that fails by itself and suppresses nothing
fn known_findings(prop: &str) -> Vec<Known> {
    let mut out = vec![];
    let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else { return out };
    for l in t.lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let word = |k: &str| {
            rest.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or_default().to_owned()
        };
        if word("property=") != prop {
            continue;
        }
        let needle = rest.split("match=\"").nth(1).and_then(|s| s.split('"').next()).unwrap_or_default();
        let text = rest.rsplit(" -- ").next().unwrap_or_default().trim().to_owned();
        out.push(Known { class: word("class="), needle: needle.to_owned(), text, scenario: word("replay=") });
    }
    out
}

fn check(prop: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let Some(p) = props::find(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let num = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let runs = num("SIM_RUNS").unwrap_or(if thorough { u64::MAX / 2 } else { p.quick_runs });
    let secs = num("SIM_SECS").unwrap_or(if thorough { 600 } else { 150 });
    let dir = scratch();
    let res = search(prop, seed, runs, secs, thorough, &dir);
    let code = match res {
        Err(e) => {
            eprintln!("SIM-INTERNAL: {e}");
            2
        }
        Ok((stats, found, deaths)) => conclude(p, seed, thorough, stats, found, deaths, &dir, t0),
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

type Searched = (Stats, Vec<Found>, u64);

fn search(prop: &str, seed: u64, runs: u64, secs: u64, deep: bool, dir: &Path) -> Result<Searched, String> {
    let shm_path = dir.join("shm");
    let shm = Shm::open(&shm_path);
    let t0 = Instant::now();
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let results: Vec<Result<Searched, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..WORKERS)
            .map(|w| {
                let (exe, shm_path, shm) = (&exe, &shm_path, Shm(shm.0));
                let addr = shm.0 as usize;
                s.spawn(move || -> Result<Searched, String> {
                    let shm = Shm(addr as *mut AtomicU64);
                    let mut st = Stats::default();
                    let mut found = vec![];
                    let mut deaths = 0;
                    let mut start = w as u64;
                    loop {
                        let left = secs.saturating_sub(t0.elapsed().as_secs());
                        if left == 0 {
                            break;
                        }
                        let of = dir.join(format!("w{w}-{start}.out"));
                        let ef = dir.join(format!("w{w}-{start}.err"));
                        let mut ch = Command::new(exe)
                            .args(["worker", prop])
                            .args([w.to_string(), seed.to_string(), start.to_string(), runs.to_string(), left.to_string()])
                            .arg(shm_path)
                            .arg(if deep { "1" } else { "0" })
                            .stdout(std::fs::File::create(&of).map_err(|e| e.to_string())?)
                            .stderr(std::fs::File::create(&ef).map_err(|e| e.to_string())?)
                            .spawn()
                            .map_err(|e| e.to_string())?;
                        let tw = Instant::now();
                        let status = loop {
                            match ch.try_wait().map_err(|e| e.to_string())? {
                                Some(s) => break Some(s),
                                None if tw.elapsed() > Duration::from_secs(left + 180) => {
                                    let _ = ch.kill();
                                    let _ = ch.wait();
                                    break None;
                                }
                                None => std::thread::sleep(Duration::from_millis(20)),
                            }
                        };
                        for l in std::fs::read_to_string(&of).unwrap_or_default().lines() {
                            if let Some(x) = l.strip_prefix('V') {
                                found.push(serde_json::from_str::<Found>(x).map_err(|e| e.to_string())?);
                            } else if let Some(x) = l.strip_prefix('S') {
                                st.merge(serde_json::from_str::<Stats>(x).map_err(|e| e.to_string())?);
                            }
                        }
                        if status.as_ref().is_some_and(|s| s.success()) {
                            break;
                        }
                        // the process died inside a run
                        let at = shm.at(1 + w).load(Ordering::Relaxed);
                        let err = std::fs::read_to_string(&ef).unwrap_or_default();
                        let Some(class) = death_class(status.as_ref()) else {
                            return Err(format!("worker {w} ended with {status:?} in run {at}: {err}"));
                        };
                        deaths += 1;
                        let mut r = RunOut::default();
                        r.violate(
                            class,
                            &["*"],
                            format!("the process died ({status:?}): {}", err.lines().last().unwrap_or_default()),
                        );
                        found.push(Found {
                            index: at,
                            violation: r.violations.remove(0),
                            scenario: generate(prop, run_seed(seed, prop, at), deep),
                        });
                        if deaths >= 2 {
                            shm.at(0).store(1, Ordering::Relaxed);
                            break;
                        }
                        start = at + WORKERS as u64;
                    }
                    Ok((st, found, deaths))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut st = Stats::default();
    let mut found = vec![];
    let mut deaths = 0;
    for r in results {
        let (a, b, d) = r?;
        st.merge(a);
        found.extend(b);
        deaths += d;
    }
    found.sort_by_key(|f| f.index);
    Ok((st, found, deaths))
}

/// The same seeds again, in a process of their own, backwards relative order of nothing: equal traces?
fn determinism(prop: &str, seed: u64, n: u64, dir: &Path) -> (u64, u64) {
    let one = |tag: &str| -> Vec<String> {
        let f = dir.join(format!("traces-{tag}"));
        let ok = std::fs::File::create(&f).ok().and_then(|o| {
            Command::new(std::env::current_exe().ok()?)
                .args(["traces", prop, &seed.to_string(), "0", &n.to_string()])
                .stdout(o)
                .stderr(Stdio::null())
                .status()
                .ok()
        });
        let _ = ok;
        std::fs::read_to_string(&f).unwrap_or_default().lines().map(str::to_owned).collect()
    };
    let (a, b) = std::thread::scope(|s| {
        let x = s.spawn(|| one("a"));
        let y = s.spawn(|| one("b"));
        (x.join().unwrap(), y.join().unwrap())
    });
    let same = a.iter().zip(&b).filter(|(x, y)| x == y).count() as u64;
    (same, a.len().max(b.len()) as u64)
}

/// The first of the finds that shows again in a process of its own; failing that, the first one together
/// with the runs that came before it in its process.
fn reproducible(fs: &[Found], prop: &str, seed: u64, deep: bool, dir: &Path) -> Found {
    let shows = |sc: &Scenario, class: &str| {
        run_in_child(sc, dir, "again", Duration::from_secs(120))
            .is_some_and(|o| o.violations.iter().any(|v| v.class == class && concerns(v, prop)))
    };
    for f in fs.iter().take(4) {
        if matches!(f.violation.class.as_str(), "hang" | "cpu-livelock") || shows(&f.scenario, &f.violation.class) {
            return f.clone();
        }
    }
    let f = &fs[0];
    for n in [1, 8, 64, 512, 4096] {
        let from = f.index.saturating_sub(n * WORKERS as u64);
        let first = from + (f.index - from) % WORKERS as u64;
        let runs: Vec<Scenario> = (first..=f.index)
            .step_by(WORKERS)
            .map(|i| if i == f.index { f.scenario.clone() } else { generate(prop, run_seed(seed, prop, i), deep) })
            .collect();
        let sc = Scenario::Seq { runs };
        if shows(&sc, &f.violation.class) {
            return Found { scenario: sc, ..f.clone() };
        }
        if from == 0 {
            break;
        }
    }
    f.clone()
}

#[allow(clippy::too_many_arguments)]
fn conclude(
    p: &props::Prop,
    seed: u64,
    thorough: bool,
    st: Stats,
    found: Vec<Found>,
    deaths: u64,
    dir: &Path,
    t0: Instant,
) -> i32 {
    let prop = p.id;
    let search_s = t0.elapsed().as_secs_f64();
    let known = known_findings(prop);
    let mut fresh: BTreeMap<String, Vec<Found>> = BTreeMap::new();
    let mut nfresh = 0;
    for f in found.into_iter().filter(|f| is_known(&known, &f.violation).is_none()) {
        nfresh += 1;
        fresh.entry(f.violation.class.clone()).or_default().push(f);
    }
    for k in known.iter().filter(|k| still_fails(k, dir)) {
        println!("KNOWN-FINDING: property={prop} {}", k.text);
    }
    let det = if fresh.is_empty() { determinism(prop, seed, if prop == "C17" { 3 } else { 40 }, dir) } else { (0, 0) };
    let mut lines = vec![];
    for (class, fs) in &fresh {
        let f = &reproducible(fs, prop, seed, thorough, dir);
        let (sc, v, tried) = minimise(f, prop, dir, patience(thorough));
        let rdir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let file = rdir.join(format!("{prop}-{class}-{seed}-{}.json", f.index));
        // the final word: a fresh process must show the same violation
        let again = run_in_child(&sc, dir, "final", Duration::from_secs(120));
        let trace = again.as_ref().map(|o| format!("{:016x}", o.trace)).unwrap_or_default();
        let repro = again
            .as_ref()
            .is_some_and(|o| o.violations.iter().any(|x| x.class == v.class && concerns(x, prop)));
        let doc = json!({
            "property": prop, "seed": seed, "run": f.index, "run_seed": run_seed(seed, prop, f.index),
            "class": v.class, "detail": v.detail, "trace": trace, "reproduced": repro,
            "minimisation_attempts": tried, "scenario": sc,
        });
        let _ = std::fs::write(&file, serde_json::to_vec_pretty(&doc).unwrap());
        eprintln!("{prop} {class}: {}", v.detail);
        if repro {
            lines.push(format!("VIOLATION property={prop} replay={}", file.display()));
        } else {
            eprintln!("SIM-INTERNAL: run {} did not reproduce", f.index);
            lines.push(format!("VIOLATION property={prop} replay={} (not reproduced when replayed)", file.display()));
        }
    }
    let samples: Vec<Value> = (0..2)
        .map(|i| serde_json::to_value(generate(prop, run_seed(seed, prop, i), thorough)).unwrap())
        .map(|v| abbreviate(&v))
        .collect();
    let wall = t0.elapsed().as_secs_f64();
    let missing: Vec<&str> = p.probes.iter().copied().filter(|k| !st.probes.contains_key(*k)).collect();
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.traces.len(),
            "rule": p.rule,
            "samples": samples,
            "nontrivial_runs": st.nontrivial,
            "runs_per_hour": (st.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (st.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "simulated_system_calls": st.calls,
            "thread_switches": st.switches,
            "faults_injected": st.faults,
            "probes": st.probes,
            "probes_expected_but_not_reached": missing,
            "distinct_outcome_shapes": st.shapes.len(),
            "distinctness_measure": "hash of the complete event log (system calls, results, scheduler switches) and of every observed outcome; outcome shapes hash only the sequence of outcome kinds",
            "determinism_recheck": {"runs": det.1, "identical": det.0},
            "unmodelled_system_calls": st.unmodelled,
            "violations_of_other_properties": st.foreign.iter().map(|(k, v)| json!({"what": k, "count": v.0, "example": v.1.chars().take(400).collect::<String>()})).collect::<Vec<_>>(),
            "process_deaths": deaths,
            "known_findings_met": st.known,
            "real": p.real,
            "stubbed": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": nfresh,
    });
    let edir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(e) = std::fs::write(edir.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("SIM-INTERNAL: evidence: {e}");
        return 2;
    }
    println!(
        "{prop}: {} runs, {} distinct non-trivial, {:.0} runs/h, {} faults fired, {:.1} s",
        st.runs,
        st.traces.len(),
        st.runs as f64 / search_s.max(0.001) * 3600.0,
        st.faults.values().sum::<u64>(),
        wall
    );
    if !missing.is_empty() {
        println!("{prop}: not reached: {missing:?}");
    }
    for (k, v) in &st.foreign {
        println!("{prop}: also saw (other property) {k} x{}: {}", v.0, v.1.chars().take(300).collect::<String>());
    }
    if det.0 != det.1 {
        eprintln!("SIM-INTERNAL: only {} of {} runs were repeatable", det.0, det.1);
        return 2;
    }
    if st.runs == 0 && lines.is_empty() {
        eprintln!("SIM-INTERNAL: nothing ran");
        return 2;
    }
    for l in &lines {
        println!("{l}");
    }
    i32::from(!lines.is_empty())
}

/// Long strings and byte arrays shortened, for the evidence file.
fn abbreviate(v: &Value) -> Value {
    match v {
        Value::Array(a) if a.len() > 12 && a.iter().all(|x| x.is_u64()) => {
            json!(format!("{} bytes", a.len()))
        }
        Value::Array(a) => Value::Array(a.iter().map(abbreviate).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), abbreviate(x))).collect()),
        Value::String(s) if s.len() > 300 => json!(format!("{}...", s.chars().take(300).collect::<String>())),
        v => v.clone(),
    }
}

fn replay(file: &Path) -> i32 {
    let Ok(b) = std::fs::read(file) else {
        eprintln!("cannot read {}", file.display());
        return 2;
    };
    let Ok(doc) = serde_json::from_slice::<Value>(&b) else {
        eprintln!("{} is not JSON", file.display());
        return 2;
    };
    let sc: Scenario = match serde_json::from_value(doc["scenario"].clone()) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("no scenario: {e}");
            return 2;
        }
    };
    let prop = doc["property"].as_str().unwrap_or_default();
    let dir = scratch();
    let out = run_in_child(&sc, &dir, "replay", Duration::from_secs(300));
    let _ = std::fs::remove_dir_all(&dir);
    let Some(o) = out else {
        eprintln!("the replay gave no outcome");
        return 2;
    };
    for v in &o.violations {
        println!("{} {:?}: {}", v.class, v.props, v.detail);
    }
    println!("trace {:016x} (recorded {})", o.trace, doc["trace"].as_str().unwrap_or("-"));
    if o.violations.iter().any(|v| concerns(v, prop)) {
        println!("VIOLATION property={prop} replay={}", file.display());
        1
    } else {
        0
    }
}
