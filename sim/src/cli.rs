//! The command line tool: histories of invocations over one disk, which changes in between, with
//! faults on inputs and output, and with the process killed at chosen system calls. Every
//! invocation is a process of its own running /repo/protox/src/main.rs on the simulated disk; what it
//! should have done is computed with the library on a copy of the same disk.

use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

use serde::{Deserialize, Serialize};

use crate::clidisk::{self, Head};
use crate::model::{Content, Layer};
use crate::profiles;
use crate::report::{guarded, RunOut};
use crate::rng::{hash_bytes, Rng};
use crate::sys::{self, lexical, DiskOp, Fault, Sys, Trap, Vfs};
use crate::world::Step;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Odd {
    None,
    NoFiles,
    BadFlag,
    Help,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Invocation {
    pub files: Vec<String>,
    pub imports: bool,
    pub info: bool,
    pub out: Option<String>,
    /// how the arguments are spelled and ordered
    pub form: u64,
    pub odd: Odd,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CliStep {
    Put { path: String, bytes: Vec<u8> },
    Disk(DiskOp),
    Fault { path: String, faults: Vec<Fault> },
    ClearAll,
    Run { inv: Invocation, fails: Vec<(u64, i32)>, crash: Option<u64> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CliWorld {
    pub hash_seed: u64,
    pub dirs: Vec<String>,
    pub includes: Vec<String>,
    pub files: Vec<(String, Content)>,
    #[serde(default)]
    pub links: Vec<(String, String)>,
    pub steps: Vec<CliStep>,
}

const OUTS: [&str; 9] = ["out.bin", "o\u{f8ff}.pb", "build/desc set.pb", "/w/build/d.pb", "./o/../out2", "-", "out.proto", "nodir/x.pb", "build"];

pub fn generate(seed: u64, deep: bool) -> CliWorld {
    let w = profiles::world("C13", seed, deep);
    let mut rng = Rng::new(seed ^ 0xC11);
    let mut includes: Vec<String> = w.compilers[0]
        .layers
        .iter()
        .filter_map(|l| match l {
            Layer::Dir(d) => Some(d.clone()),
            _ => None,
        })
        .collect();
    if includes.is_empty() {
        includes.push(".".into());
    }
    let mut dirs = w.dirs.clone();
    dirs.push("build".into());
    dirs.push("o".into());
    let main_out = OUTS[rng.below(7)].to_owned();
    let mut steps = vec![];
    let mut fails = vec![];
    for s in w.steps {
        let files = match s {
            Step::Put { path, content } => {
                steps.push(CliStep::Put { path, bytes: content.bytes() });
                continue;
            }
            Step::Disk(op) => {
                steps.push(CliStep::Disk(op));
                continue;
            }
            Step::Fault { path, faults } => {
                steps.push(CliStep::Fault { path, faults });
                continue;
            }
            Step::ClearAll => {
                steps.push(CliStep::ClearAll);
                continue;
            }
            Step::Traps(t) => {
                fails = t
                    .into_iter()
                    .filter_map(|(n, t)| match t {
                        Trap::Fail(e) => Some((n, e)),
                        _ => None,
                    })
                    .collect();
                continue;
            }
            Step::Open { path, .. } => vec![path],
            Step::OpenMany { paths, .. } | Step::Compile { paths, .. } => paths,
            _ => continue,
        };
        let out = match rng.below(12) {
            0 => None,
            1 | 2 => Some(rng.pick(&OUTS).to_string()),
            _ => Some(main_out.clone()),
        };
        if let Some(o) = &out {
            if rng.pct(6) {
                // it is a symbolic link: to a file, to nothing, to a directory, to itself
                let to = *rng.pick(&["/w/real/set.pb", "/w/real/set.pb", "real.pb", "/w/nothing/here.pb", "/w/build", o]);
                if rng.pct(50) {
                    steps.push(CliStep::Disk(DiskOp::Mkdir("real".into())));
                }
                steps.push(CliStep::Disk(DiskOp::Link(o.clone(), to.to_owned())));
            }
            // something is there already: an older set, a longer one, or what a crash left
            if rng.pct(25) {
                let n = *rng.pick(&[0, 1, 10, 300, 5000, 200_000]);
                let b = rng.next() as u8;
                let d = (0..n).map(|i| b.wrapping_add((i / 7) as u8)).collect();
                steps.push(CliStep::Disk(DiskOp::Overwrite(o.clone(), d)));
            }
            if rng.pct(22) {
                let at = *rng.pick(&[0, 0, 1, 50, 400, 3000]);
                let f = match rng.below(6) {
                    0 => Fault::OpenErr(*rng.pick(&[libc::EACCES, libc::EROFS, libc::ENOSPC, libc::EMFILE, libc::EAGAIN, libc::ETXTBSY, libc::ENOENT])),
                    1 | 2 => Fault::WriteErr(at, *rng.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EAGAIN, libc::EPIPE, libc::EINVAL])),
                    3 => Fault::WriteEintr(rng.range(1, 3) as u32),
                    _ => Fault::WriteShort(*rng.pick(&[1, 7, 100, 1000])),
                };
                let mut v = vec![f];
                if rng.pct(30) {
                    v.push(Fault::WriteShort(*rng.pick(&[13, 64, 512])));
                }
                steps.push(CliStep::Fault { path: o.clone(), faults: v });
            }
        }
        let odd = match rng.below(40) {
            0 => Odd::NoFiles,
            1 => Odd::BadFlag,
            2 => Odd::Help,
            _ => Odd::None,
        };
        let inv = Invocation { files, imports: rng.pct(60), info: rng.pct(40), out, form: rng.next(), odd };
        let span = if rng.pct(50) { 40 } else { 12 };
        let crash = if rng.pct(22) { Some(1 + rng.below(span) as u64) } else { None };
        let hurt = crash.is_some() || !fails.is_empty();
        steps.push(CliStep::Run { inv: inv.clone(), fails: std::mem::take(&mut fails), crash });
        if rng.pct(if hurt { 80 } else { 15 }) {
            // the user tries again
            if rng.pct(60) {
                steps.push(CliStep::ClearAll);
            }
            let mut again = inv;
            again.form = rng.next();
            steps.push(CliStep::Run { inv: again, fails: vec![], crash: None });
        }
        if rng.pct(60) {
            steps.push(CliStep::ClearAll);
        }
    }
    CliWorld { hash_seed: w.hash_seed, dirs, includes, files: w.files, links: w.links, steps }
}

/// The arguments, in one of the ways they can be written.
fn arguments(inv: &Invocation, includes: &[String]) -> Vec<String> {
    let mut rng = Rng::new(inv.form);
    let mut groups: Vec<Vec<String>> = vec![];
    let val = |rng: &mut Rng, names: &[&str], v: &str| -> Vec<String> {
        let n = *rng.pick(names);
        match rng.below(3) {
            0 if n.len() == 2 => vec![format!("{n}{v}")],
            1 if n.len() > 2 => vec![format!("{n}={v}")],
            _ => vec![n.to_owned(), v.to_owned()],
        }
    };
    let mut inc = vec![];
    if !(includes.len() == 1 && includes[0] == "." && rng.pct(60)) {
        for d in includes {
            inc.extend(val(&mut rng, &["-I", "--include", "--proto_path"], d));
        }
    }
    groups.push(inc);
    if let Some(o) = &inv.out {
        groups.push(val(&mut rng, &["-o", "--output", "--descriptor_set_out"], o));
    }
    if inv.imports {
        groups.push(vec![rng.pick(&["--include-imports", "--include_imports"]).to_string()]);
    }
    if inv.info {
        groups.push(vec![rng.pick(&["--include-source-info", "--include_source_info"]).to_string()]);
    }
    match inv.odd {
        Odd::BadFlag => groups.push(vec!["--no-such-flag".into()]),
        Odd::Help => groups.push(vec!["--help".into()]),
        _ => {}
    }
    rng.shuffle(&mut groups);
    let files = if inv.odd == Odd::NoFiles { vec![] } else { inv.files.clone() };
    let mut out: Vec<String> = vec![];
    match rng.below(3) {
        0 => {
            out.extend(files);
            out.extend(groups.into_iter().flatten());
        }
        1 if !files.is_empty() => {
            out.extend(groups.into_iter().flatten());
            out.push("--".into());
            out.extend(files);
        }
        _ => {
            out.extend(groups.into_iter().flatten());
            out.extend(files);
        }
    }
    out
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    stderr: String,
    head: Head,
    vfs: Vfs,
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn spawn(dir: &Scratch, vfs: &Vfs, faults: &[(String, Vec<Fault>)], traps: Vec<(u64, Trap)>, hash_seed: u64, args: &[String]) -> Result<Ran, String> {
    let i = dir.0.join("in");
    let o = dir.0.join("out");
    let e = dir.0.join("err");
    let _ = std::fs::remove_file(&o);
    let head = Head { hash_seed, faults: faults.to_vec(), traps, ..Default::default() };
    clidisk::write(head, vfs, i.to_str().unwrap());
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("simcli");
    let st = Command::new(&exe)
        .args(args.iter().map(|a| sys::os(a)))
        .env_clear()
        .env("SIM_CLI", &i)
        .env("SIM_CLI_OUT", &o)
        .env("NO_COLOR", "1")
        .current_dir(&dir.0)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&e).map_err(|e| e.to_string())?)
        .status()
        .map_err(|e| format!("{}: {e}", exe.display()))?;
    let stderr = String::from_utf8_lossy(&std::fs::read(&e).unwrap_or_default()).into_owned();
    let (head, after) = match clidisk::read(o.to_str().unwrap()) {
        Some(x) => x,
        None => (Head::default(), Vfs::default()),
    };
    Ok(Ran { code: st.code(), signal: st.signal(), stderr, head, vfs: after })
}

/// Letters only: rendering wraps lines and draws frames.
fn squash(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect()
}

fn contents(v: &Vfs) -> BTreeMap<&str, Option<&[u8]>> {
    v.paths
        .iter()
        .map(|(p, i)| (p.as_str(), if v.inodes[*i].dir { None } else { Some(&v.inodes[*i].data[..]) }))
        .collect()
}

struct Exec {
    vfs: Vfs,
    faults: Vec<(String, Vec<Fault>)>,
    includes: Vec<String>,
    hash_seed: u64,
    dir: Scratch,
    out: RunOut,
    interrupted: bool,
}

impl Exec {
    /// What the library says on the same disk.
    fn reference(&mut self, inv: &Invocation, fails: &[(u64, i32)]) -> Result<Result<Vec<u8>, String>, String> {
        let mut s = Sys::new(self.vfs.clone());
        s.faults = self.faults.iter().map(|(p, f)| (lexical(p), f.clone())).collect();
        s.traps = fails.iter().map(|(n, e)| (*n, Trap::Fail(*e))).collect();
        sys::install(Box::new(s));
        let r = guarded(|| {
            let go = || -> Result<Vec<u8>, protox::Error> {
                let mut c = protox::Compiler::new(self.includes.iter().map(|d| sys::os(d)))?;
                c.include_imports(inv.imports);
                c.include_source_info(inv.info);
                for f in &inv.files {
                    c.open_file(sys::os(f))?;
                }
                Ok(c.encode_file_descriptor_set())
            };
            go().map_err(|e| e.to_string())
        });
        sys::uninstall();
        r
    }

    fn run(&mut self, inv: &Invocation, fails: &[(u64, i32)], crash: Option<u64>) {
        let args = arguments(inv, &self.includes);
        let (calm, rough) = match (self.reference(inv, &[]), self.reference(inv, fails)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(p), _) | (_, Err(p)) => {
                self.out.violate("panic", &["*"], format!("the library panicked: {p}"));
                return;
            }
        };
        let mut traps: Vec<(u64, Trap)> = fails.iter().map(|(n, e)| (*n, Trap::Fail(*e))).collect();
        traps.extend(crash.map(|n| (n, Trap::Crash)));
        let r = match spawn(&self.dir, &self.vfs, &self.faults, traps, self.hash_seed, &args) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("SIM-INTERNAL: {e}");
                std::process::exit(2);
            }
        };
        let what = format!("protox {}", args.join(" "));
        for (k, v) in &r.head.fired {
            *self.out.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.head.unmodelled {
            *self.out.unmodelled.entry(k.clone()).or_insert(0) += v;
        }
        self.out.calls += r.head.calls;
        self.out.sim_ns += r.head.sim_ns;
        self.out.note(r.head.log_hash ^ r.code.unwrap_or(-1) as u64);
        self.out.note_shape(&format!("{:?} {}", r.code, r.head.changes.len()));
        self.judge(inv, fails, crash, &what, &calm, &rough, &r);
        if r.head.calls > 0 || !r.vfs.paths.is_empty() {
            self.vfs = r.vfs;
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn judge(
        &mut self,
        inv: &Invocation,
        fails: &[(u64, i32)],
        crash: Option<u64>,
        what: &str,
        calm: &Result<Vec<u8>, String>,
        rough: &Result<Vec<u8>, String>,
        r: &Ran,
    ) {
        let p = &["C13"][..];
        let show = |s: &str| s.chars().take(300).collect::<String>();
        let died = r.head.crashed;
        match (r.code, r.signal) {
            (Some(97), _) => return self.out.violate("cli-livelock", p, format!("{what}: does not stop making system calls")),
            (Some(98), _) => return self.out.violate("cli-hang", p, format!("{what}: used 30 s of CPU")),
            (Some(101), _) => return self.out.violate("cli-panic", p, format!("{what}: panicked: {}", show(&r.stderr))),
            (None, s) => return self.out.violate("cli-killed", p, format!("{what}: killed by signal {s:?}: {}", show(&r.stderr))),
            _ => {}
        }
        if r.vfs.paths.is_empty() {
            return self.out.violate("cli-no-exit", p, format!("{what}: ended abruptly with {:?}: {}", r.code, show(&r.stderr)));
        }
        let Some(code) = r.code else { return };
        let out = inv.out.as_ref().filter(|_| inv.odd == Odd::None).map(|o| match self.vfs.walk_to(o, true) {
            Ok(w) => w.real,
            Err(_) => lexical(o),
        });
        // nothing else on the disk changes, ever
        let (old, new) = (contents(&self.vfs), contents(&r.vfs));
        for k in old.keys().chain(new.keys()) {
            if Some(*k) != out.as_deref() && old.get(k) != new.get(k) {
                return self.out.violate("cli-wrote-elsewhere", &["C13", "C14"], format!("{what}: changed {k}"));
            }
        }
        if self.vfs.links != r.vfs.links {
            return self.out.violate("cli-wrote-elsewhere", &["C13", "C14"], format!("{what}: changed a symbolic link"));
        }
        let (was, is) = match &out {
            Some(o) => (old.get(o.as_str()).copied().flatten(), new.get(o.as_str()).copied().flatten()),
            None => (None, None),
        };
        let touched = was != is || r.head.changes.iter().any(|c| c.2 >= 0);
        let wanted = [calm, rough];
        let full = |b: &[u8]| wanted.iter().any(|w| w.as_ref().is_ok_and(|w| w == b));
        let part = |b: &[u8]| wanted.iter().any(|w| w.as_ref().is_ok_and(|w| w.starts_with(b)));
        if died {
            self.out.probe("cli_crashed");
            self.interrupted = true;
            if let Some(b) = is {
                if was != Some(b) && !part(b) {
                    return self.out.violate(
                        "cli-crash-garbage",
                        p,
                        format!("{what}: killed at call {crash:?}, the output has {} bytes which are neither the old content nor the start of the new", b.len()),
                    );
                }
            }
            return;
        }
        if inv.odd != Odd::None {
            let want = if inv.odd == Odd::Help { 0 } else { 2 };
            if code != want {
                self.out.violate("cli-usage", p, format!("{what}: exit status {code}"));
            } else if touched {
                self.out.violate("cli-usage", p, format!("{what}: touched the disk: {:?}", r.head.changes));
            }
            return;
        }
        if code == 0 {
            match (&out, is) {
                (None, _) => {
                    if touched {
                        return self.out.violate("cli-wrote-elsewhere", p, format!("{what}: no output was asked for but {:?}", r.head.changes));
                    }
                    if !wanted.iter().any(|w| w.is_ok()) {
                        return self.out.violate("cli-false-success", p, format!("{what}: exit status 0 although {:?}", rough));
                    }
                }
                (Some(o), None) => return self.out.violate("cli-false-success", p, format!("{what}: exit status 0 but {o} does not exist")),
                (Some(_), Some(b)) => {
                    if !full(b) {
                        let why = match (&rough, part(b)) {
                            (Err(e), _) => format!("although the library fails: {e}"),
                            (Ok(w), true) => format!("but the output has only {} of {} bytes", b.len(), w.len()),
                            (Ok(w), false) => format!("but the output ({} bytes) is not what the library gives ({} bytes)", b.len(), w.len()),
                        };
                        return self.out.violate("cli-false-success", p, format!("{what}: exit status 0 {why}"));
                    }
                }
            }
            self.out.probe("cli_ok");
            if self.interrupted && fails.is_empty() {
                self.out.probe("cli_ok_after_interruption");
                self.interrupted = false;
            }
            return;
        }
        // failed: it says why, and what it says is true
        if code == 2 {
            return self.out.violate("cli-usage", p, format!("{what}: refused as wrong usage: {}", show(&r.stderr)));
        }
        let said = squash(&r.stderr);
        let compile_err = wanted.iter().filter_map(|w| w.as_ref().err()).find(|e| said.contains(&squash(e)));
        let mut write_faults: Vec<i64> =
            r.head.changes.iter().filter(|c| c.2 < 0 && c.2 != -(libc::EINTR as i64)).map(|c| -c.2).collect();
        if let Some(o) = &out {
            write_faults.extend(self.open_errors(inv.out.as_ref().unwrap_or(o)));
        }
        let write_err = write_faults.iter().any(|e| said.contains(&format!("oserror{e}"))) && wanted.iter().any(|w| w.is_ok());
        // the same number of calls need not lead the tool to the same one as the library; a file that is
        // not found shows as any of several errors
        let excused = fails.iter().any(|f| f.1 == libc::ENOENT || said.contains(&format!("oserror{}", f.1))) && r.head.fired.iter().any(|f| f.0 == "syscall_fails");
        if compile_err.is_none() && !write_err && !excused {
            return self.out.violate(
                "cli-false-failure",
                p,
                format!("{what}: exit status {code}, message {:?}; the library says {:?}, write errors {write_faults:?}", show(&r.stderr), rough.as_ref().map(|b| b.len())),
            );
        }
        if write_err {
            self.out.probe("cli_write_failed");
            self.interrupted = true;
            if let Some(b) = is {
                if was != Some(b) && !part(b) {
                    self.out.violate("cli-crash-garbage", p, format!("{what}: after a failed write the output is neither the old content nor the start of the new"));
                }
            }
        } else {
            self.out.probe("cli_compile_failed");
            let truncated = r.head.changes.iter().any(|c| c.2 >= 0);
            if (was != is || truncated) && !excused {
                self.out.violate("cli-failed-but-wrote", p, format!("{what}: compiling failed ({}) but the output was touched: {:?}", show(&r.stderr), r.head.changes));
            }
        }
    }

    /// Why the output can not be opened for writing, if it can not.
    fn open_errors(&self, o: &str) -> Vec<i64> {
        let mut out = vec![];
        for (p, fs) in &self.faults {
            if lexical(p) == lexical(o) {
                for f in fs {
                    if let Fault::OpenErr(e) = f {
                        out.push(*e as i64);
                    }
                }
            }
        }
        match self.vfs.walk_to(o, true).map(|w| (w.real, w.ino)) {
            Err(e) => out.push(e as i64),
            Ok((_, Some(i))) if self.vfs.inodes[i].dir => out.push(libc::EISDIR as i64),
            Ok((p, None)) => {
                let up = p.rsplit_once('/').map(|x| x.0).filter(|x| !x.is_empty()).unwrap_or("/");
                match self.vfs.paths.get(up) {
                    None => out.push(libc::ENOENT as i64),
                    Some(&i) if !self.vfs.inodes[i].dir => out.push(libc::ENOTDIR as i64),
                    _ => {}
                }
            }
            _ => {}
        }
        out
    }
}

pub fn run(w: &CliWorld) -> RunOut {
    let mut vfs = Vfs::new();
    for (p, t) in &w.links {
        vfs.apply(&DiskOp::Link(p.clone(), t.clone()));
    }
    for d in &w.dirs {
        vfs.mkdir_all(d);
    }
    for (p, c) in &w.files {
        vfs.put(p, c.bytes());
    }
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let dir = std::env::temp_dir().join(format!("protox-cli-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let mut ex = Exec {
        vfs,
        faults: vec![],
        includes: w.includes.clone(),
        hash_seed: w.hash_seed,
        dir: Scratch(dir),
        out: RunOut::default(),
        interrupted: false,
    };
    for (i, s) in w.steps.iter().enumerate() {
        let before = ex.out.violations.len();
        match s {
            CliStep::Put { path, bytes } => {
                if ex.vfs.get(path).is_some_and(|i| i.dir) {
                    ex.vfs.apply(&DiskOp::Remove(path.clone()));
                }
                ex.vfs.put(path, bytes.clone())
            }
            CliStep::Disk(op) => ex.vfs.apply(op),
            CliStep::Fault { path, faults } => {
                ex.faults.retain(|f| lexical(&f.0) != lexical(path));
                ex.faults.push((path.clone(), faults.clone()));
            }
            CliStep::ClearAll => ex.faults.clear(),
            CliStep::Run { inv, fails, crash } => ex.run(inv, fails, *crash),
        }
        for v in &mut ex.out.violations[before..] {
            v.detail = format!("step {i}: {}", v.detail);
        }
        if ex.out.violations.len() > before {
            break;
        }
    }
    let h = ex.vfs.paths.iter().fold(7u64, |h, (p, i)| hash_bytes(hash_bytes(h, p.as_bytes()), &ex.vfs.inodes[*i].data));
    ex.out.note(h);
    ex.out
}
