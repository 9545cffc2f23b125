//! The simulated operating system.
//!
//! The real protox code calls the real standard library, which calls libc. This module defines the
//! libc entry points it uses (`open64`, `read`, `statx`, ...) inside the executable, so the linker
//! binds the standard library to them. On a thread that is *inside the simulation* they act on an
//! in-memory file system owned by the simulator; on every other thread they forward to libc.
//! Every simulated call is an event in the log, may trigger a scheduled disk change, may be failed
//! by an injected fault, and is a point at which the seeded scheduler may switch threads.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};

use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, size_t, ssize_t};
use serde::{Deserialize, Serialize};

use crate::rng::{hash_bytes, mix, Rng};

pub const CWD: &str = "/w";
const FD_BASE: c_int = 1_000_000;
/// Simulated system calls one run may make before it counts as a livelock.
/// where reading of a file without an end is cut off
pub const ENDLESS: u64 = (2 << 30) + (128 << 20);
pub const SYSCALL_BUDGET: u64 = 400_000;

// ------------------------------------------------------------------------------------------
// thread state

thread_local! {
    /// 0: outside the simulation; otherwise simulated thread id + 1.
    static TID: Cell<u32> = const { Cell::new(0) };
    /// >0 while the simulator's own code runs on a simulated thread.
    static NEST: Cell<u32> = const { Cell::new(0) };
    static ALLOC_COUNTDOWN: Cell<u32> = const { Cell::new(0) };
    static RAND_SEED: Cell<u64> = const { Cell::new(0) };
    static RAND_COUNT: Cell<u64> = const { Cell::new(0) };
}

/// Runs `f` as simulator code: nothing in it is simulated.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            NEST.with(|n| n.set(n.get() - 1));
        }
    }
    NEST.with(|n| n.set(n.get() + 1));
    let _g = G;
    f()
}

fn simulated() -> bool {
    TID.try_with(|t| t.get()).unwrap_or(0) != 0 && NEST.try_with(|n| n.get()).unwrap_or(1) == 0
}

/// Marks this OS thread as simulated thread `tid`, with its own hash seed.
pub fn enter(tid: u32, hash_seed: u64) {
    RAND_SEED.with(|s| s.set(hash_seed));
    RAND_COUNT.with(|s| s.set(0));
    ALLOC_COUNTDOWN.with(|c| c.set(50));
    NEST.with(|n| n.set(1));
    TID.with(|t| t.set(tid + 1));
}

pub fn leave() {
    TID.with(|t| t.set(0));
    NEST.with(|n| n.set(0));
}

/// Runs `f` as simulated (system under test) code.
pub fn inside<R>(f: impl FnOnce() -> R) -> R {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            NEST.with(|n| n.set(self.0));
        }
    }
    let old = NEST.with(|n| n.replace(0));
    let _g = G(old);
    f()
}

// ------------------------------------------------------------------------------------------
// faults and file system

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// open fails
    OpenErr(i32),
    /// open is interrupted n times before it succeeds
    OpenEintr(u32),
    /// every stat of the file fails
    StatErr(i32),
    /// stat reports this length
    StatSize(u64),
    /// reads return at most these many bytes, cycling
    Short(Vec<u32>),
    /// every n-th read call is interrupted first
    ReadEintr(u32),
    /// reading fails once this many bytes were delivered
    ReadErr(u32, i32),
    /// the file is this long: its first bytes, filler, its last bytes (u64::MAX: it never ends)
    Swell { at: u32, total: u64, fill: u8 },
    /// writing fails once this many bytes were accepted
    WriteErr(u32, i32),
    /// writes accept at most n bytes
    WriteShort(u32),
    /// every n-th write is interrupted first
    WriteEintr(u32),
}

impl Fault {
    pub fn kind(&self) -> &'static str {
        match self {
            Fault::OpenErr(_) => "open_error",
            Fault::OpenEintr(_) => "open_eintr",
            Fault::StatErr(_) => "stat_error",
            Fault::StatSize(_) => "stat_wrong_size",
            Fault::Short(_) => "short_read",
            Fault::ReadEintr(_) => "read_eintr",
            Fault::ReadErr(..) => "read_error",
            Fault::Swell { total: u64::MAX, .. } => "endless_file",
            Fault::Swell { .. } => "huge_file",
            Fault::WriteErr(..) => "write_error",
            Fault::WriteShort(_) => "short_write",
            Fault::WriteEintr(_) => "write_eintr",
        }
    }
}

/// A change someone else makes to the disk.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DiskOp {
    /// atomic replace: a new inode under this name
    Replace(String, Vec<u8>),
    /// the same inode gets new content
    Overwrite(String, Vec<u8>),
    /// the same inode is cut to this length
    Truncate(String, u32),
    /// the same inode grows
    Append(String, Vec<u8>),
    Remove(String),
    Mkdir(String),
    /// of a file, a symbolic link or a whole directory
    Rename(String, String),
    /// a symbolic link here, to there
    Link(String, String),
}

impl DiskOp {
    pub fn kind(&self) -> &'static str {
        match self {
            DiskOp::Replace(..) => "concurrent_replace",
            DiskOp::Overwrite(..) => "concurrent_overwrite",
            DiskOp::Truncate(..) => "concurrent_truncate",
            DiskOp::Append(..) => "concurrent_append",
            DiskOp::Remove(..) => "concurrent_remove",
            DiskOp::Mkdir(..) => "concurrent_mkdir",
            DiskOp::Rename(..) => "concurrent_rename",
            DiskOp::Link(..) => "concurrent_link",
        }
    }
}

/// Something that happens at the n-th simulated system call of an armed window.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Trap {
    Disk(DiskOp),
    /// this system call fails
    Fail(i32),
    /// the process dies before this call takes effect
    Crash,
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub data: Vec<u8>,
    pub dir: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Vfs {
    pub inodes: Vec<Inode>,
    /// absolute normalised path, without symbolic links -> inode
    pub paths: BTreeMap<String, usize>,
    /// absolute normalised path of a symbolic link -> what it says
    pub links: BTreeMap<String, String>,
}

/// Where a path leads.
pub struct Walked {
    /// by its own name, if no link is on the way; as it was written otherwise
    pub name: String,
    /// the path without links
    pub real: String,
    pub ino: Option<usize>,
    /// the last component is itself a link that was not followed
    pub link: Option<String>,
}

/// Normalises without looking at the disk: "a/./b/../c" -> "/w/a/c".
pub fn lexical(path: &str) -> String {
    let full = if path.starts_with('/') { path.to_owned() } else { format!("{CWD}/{path}") };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

impl Vfs {
    pub fn new() -> Vfs {
        let mut v = Vfs::default();
        v.mkdir_all("/");
        v.mkdir_all(CWD);
        v
    }
    pub fn mkdir_all(&mut self, path: &str) {
        let p = self.canon(path, true);
        let mut cur = String::from("/");
        self.ensure_dir(&cur);
        for c in p.split('/').filter(|c| !c.is_empty()) {
            if cur != "/" {
                cur.push('/');
            }
            cur.push_str(c);
            let cur2 = cur.clone();
            self.ensure_dir(&cur2);
        }
    }
    /// The path without the links on the way, whether or not anything is there.
    pub fn canon(&self, path: &str, last: bool) -> String {
        self.canon_deep(&lexical(path), last, 0)
    }
    fn canon_deep(&self, path: &str, last: bool, deep: u32) -> String {
        let mut real = String::new();
        let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty()).collect();
        for (i, c) in comps.iter().enumerate() {
            let next = format!("{real}/{c}");
            real = match self.links.get(&next) {
                Some(t) if (last || i + 1 < comps.len()) && deep < 40 => {
                    let t = if t.starts_with('/') { lexical(t) } else { lexical(&format!("{real}/{t}")) };
                    let t = self.canon_deep(&t, true, deep + 1);
                    if t == "/" { String::new() } else { t }
                }
                _ => next,
            };
        }
        if real.is_empty() {
            "/".into()
        } else {
            real
        }
    }
    fn ensure_dir(&mut self, p: &str) {
        if !self.paths.contains_key(p) {
            self.inodes.push(Inode { data: vec![], dir: true });
            self.paths.insert(p.to_owned(), self.inodes.len() - 1);
        }
    }
    fn parent(p: &str) -> &str {
        match p.rfind('/') {
            Some(0) | None => "/",
            Some(i) => &p[..i],
        }
    }
    /// Replaces the file at `path` with a new inode.
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        let p = self.canon(path, false);
        self.links.remove(&p);
        let parent = Self::parent(&p).to_owned();
        self.mkdir_all(&parent);
        self.inodes.push(Inode { data, dir: false });
        let ino = self.inodes.len() - 1;
        self.paths.insert(p, ino);
    }
    pub fn get(&self, path: &str) -> Option<&Inode> {
        self.paths.get(&self.canon(path, true)).map(|&i| &self.inodes[i])
    }
    pub fn read_file(&self, path: &str) -> Option<&[u8]> {
        match self.get(path) {
            Some(i) if !i.dir => Some(&i.data),
            _ => None,
        }
    }
    pub fn apply(&mut self, op: &DiskOp) {
        match op {
            DiskOp::Replace(p, d) => {
                let p = self.canon(p, false);
                if !self.paths.get(&p).is_some_and(|&i| self.inodes[i].dir) {
                    self.put(&p, d.clone())
                }
            }
            DiskOp::Overwrite(p, d) => {
                let p = self.canon(p, true);
                match self.paths.get(&p) {
                    Some(&i) if !self.inodes[i].dir => self.inodes[i].data = d.clone(),
                    Some(_) => {}
                    None if self.links.contains_key(&p) => {}
                    None => self.put(&p, d.clone()),
                }
            }
            DiskOp::Truncate(p, n) => {
                if let Some(&i) = self.paths.get(&self.canon(p, true)) {
                    self.inodes[i].data.truncate(*n as usize)
                }
            }
            DiskOp::Append(p, d) => {
                if let Some(&i) = self.paths.get(&self.canon(p, true)) {
                    if !self.inodes[i].dir {
                        self.inodes[i].data.extend_from_slice(d)
                    }
                }
            }
            DiskOp::Remove(p) => {
                let p = self.canon(p, false);
                let prefix = format!("{p}/");
                self.paths.retain(|k, _| *k != p && !k.starts_with(&prefix));
                self.links.retain(|k, _| *k != p && !k.starts_with(&prefix));
            }
            DiskOp::Mkdir(p) => {
                let p = self.canon(p, false);
                self.links.remove(&p);
                if self.paths.get(&p).is_some_and(|&i| !self.inodes[i].dir) {
                    self.paths.remove(&p);
                }
                self.mkdir_all(&p)
            }
            DiskOp::Rename(a, b) => {
                let (a, b) = (self.canon(a, false), self.canon(b, false));
                let is_dir = |v: &Vfs, p: &str| v.paths.get(p).is_some_and(|&i| v.inodes[i].dir);
                if a == b || is_dir(self, &b) || b.starts_with(&format!("{a}/")) || a == "/" || a == CWD {
                    return;
                }
                if is_dir(self, &a) && (self.paths.contains_key(&b) || self.links.contains_key(&b)) {
                    return;
                }
                if !self.paths.contains_key(&a) && !self.links.contains_key(&a) {
                    return;
                }
                let parent = Self::parent(&b).to_owned();
                self.mkdir_all(&parent);
                self.paths.remove(&b);
                self.links.remove(&b);
                let prefix = format!("{a}/");
                let moved = |k: &String| *k == a || k.starts_with(&prefix);
                let new = |k: &String| format!("{b}{}", &k[a.len()..]);
                let ps: Vec<(String, usize)> = self.paths.iter().filter(|(k, _)| moved(k)).map(|(k, v)| (new(k), *v)).collect();
                let ls: Vec<(String, String)> = self.links.iter().filter(|(k, _)| moved(k)).map(|(k, v)| (new(k), v.clone())).collect();
                self.paths.retain(|k, _| !moved(k));
                self.links.retain(|k, _| !moved(k));
                self.paths.extend(ps);
                self.links.extend(ls);
            }
            DiskOp::Link(p, to) => {
                let p = self.canon(p, false);
                if self.paths.get(&p).is_some_and(|&i| self.inodes[i].dir) || p == "/" {
                    return;
                }
                let parent = Self::parent(&p).to_owned();
                self.mkdir_all(&parent);
                self.paths.remove(&p);
                self.links.insert(p, to.clone());
            }
        }
    }
    /// Walks a path the way a kernel does. Err is an errno.
    pub fn walk(&self, path: &str) -> Result<(String, Option<usize>), i32> {
        self.walk_to(path, true).map(|w| (w.name, w.ino))
    }
    pub fn walk_to(&self, path: &str, last: bool) -> Result<Walked, i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let full = if path.starts_with('/') { path.to_owned() } else { format!("{CWD}/{path}") };
        let slash = full.ends_with('/');
        let mut todo: Vec<String> = full.split('/').rev().filter(|c| !c.is_empty()).map(str::to_owned).collect();
        let mut cur = String::from("/");
        let mut followed = 0;
        let mut link = None;
        while let Some(c) = todo.pop() {
            let here = self.paths.get(&cur).copied();
            match here {
                None => return Err(libc::ENOENT),
                Some(x) if !self.inodes[x].dir => return Err(libc::ENOTDIR),
                _ => {}
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            match &*c {
                "." => {}
                ".." => cur = Self::parent(&cur).to_owned(),
                c => {
                    let next = if cur == "/" { format!("/{c}") } else { format!("{cur}/{c}") };
                    match self.links.get(&next) {
                        Some(t) if !todo.is_empty() || last || slash => {
                            followed += 1;
                            if followed > 40 {
                                return Err(libc::ELOOP);
                            }
                            if t.is_empty() {
                                return Err(libc::ENOENT);
                            }
                            if t.starts_with('/') {
                                cur = "/".into();
                            }
                            todo.extend(t.split('/').rev().filter(|c| !c.is_empty()).map(str::to_owned));
                        }
                        Some(t) => {
                            link = Some(t.clone());
                            cur = next;
                        }
                        None => cur = next,
                    }
                }
            }
        }
        let ino = self.paths.get(&cur).copied();
        if let Some(i) = ino {
            if slash && !self.inodes[i].dir {
                return Err(libc::ENOTDIR);
            }
        }
        let name = if followed == 0 { cur.clone() } else { lexical(path) };
        Ok(Walked { name, real: cur, ino, link })
    }
}

/// One opening of a file, and what reading it delivered.
#[derive(Clone, Debug)]
pub struct OpenRec {
    pub path: String,
    pub ino: usize,
    pub write: bool,
    pub delivered: Vec<u8>,
    pub sought: bool,
    pub eof: bool,
    pub err: Option<i32>,
    pub written: u32,
    reads: u32,
    writes: u32,
    pos: usize,
    append: bool,
    closed: bool,
}

impl OpenRec {
    pub fn closed_flag(&self) -> bool {
        self.closed
    }
    /// how far reading got
    pub fn reached(&self) -> u64 {
        self.pos as u64
    }
}

/// One simulated system call.
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub tid: u32,
    pub call: &'static str,
    pub path: String,
    /// >=0 ok, <0 -errno
    pub res: i64,
    pub fault: Option<&'static str>,
}

pub struct Sys {
    pub vfs: Vfs,
    /// active faults by normalised absolute path
    pub faults: BTreeMap<String, Vec<Fault>>,
    pub traps: Vec<(u64, Trap)>,
    /// system calls since the traps were armed
    pub trap_clock: u64,
    pub calls: u64,
    /// reads that delivered something
    pub delivering: u64,
    pub log: Vec<Ev>,
    pub opens: Vec<OpenRec>,
    pub fired: BTreeMap<&'static str, u64>,
    pub unmodelled: BTreeMap<&'static str, u64>,
    pub sim_ns: u64,
    pub crashed: bool,
    /// called when a Crash trap fires (the CLI process dumps its disk and dies)
    pub on_crash: Option<fn(&Sys) -> !>,
    pub sched: Option<SchedCfg>,
    pub sched_rng: Rng,
    pub switches: u64,
    pub alloc_points: u64,
    pub futex_waits: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SchedCfg {
    pub seed: u64,
    /// percent chance to switch at a scheduling point
    pub switch_pct: u32,
    /// mean allocations between two scheduling points
    pub alloc_every: u32,
}

/// One simulated machine per simulated thread; slot 0 also holds the scheduler's state.
pub const MACHINES: usize = 9;
static SYS: [AtomicPtr<Sys>; MACHINES] = [const { AtomicPtr::new(std::ptr::null_mut()) }; MACHINES];

fn slot() -> &'static AtomicPtr<Sys> {
    let t = TID.try_with(|t| t.get()).unwrap_or(0).saturating_sub(1) as usize;
    &SYS[t.min(MACHINES - 1)]
}

/// The machine with the scheduler's state.
#[allow(clippy::mut_from_ref)]
fn root() -> Option<&'static mut Sys> {
    let p = SYS[0].load(Ordering::SeqCst);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}
static HEARTBEAT: AtomicU64 = AtomicU64::new(0);

impl Sys {
    pub fn new(vfs: Vfs) -> Sys {
        Sys {
            vfs,
            faults: BTreeMap::new(),
            traps: vec![],
            trap_clock: 0,
            calls: 0,
            delivering: 0,
            log: vec![],
            opens: vec![],
            fired: BTreeMap::new(),
            unmodelled: BTreeMap::new(),
            sim_ns: 0,
            crashed: false,
            on_crash: None,
            sched: None,
            sched_rng: Rng::new(0),
            switches: 0,
            alloc_points: 0,
            futex_waits: 0,
        }
    }
    pub fn fire(&mut self, k: &'static str) {
        *self.fired.entry(k).or_insert(0) += 1;
    }
    pub fn log_hash(&self) -> u64 {
        let mut h = 7u64;
        for e in &self.log {
            h = hash_bytes(h ^ e.tid as u64, e.call.as_bytes());
            h = hash_bytes(h, e.path.as_bytes());
            h = mix(h ^ e.res as u64);
        }
        h
    }
    fn faults_for(&self, path: &str) -> &[Fault] {
        self.faults.get(path).map(|v| &v[..]).unwrap_or(&[])
    }
}

/// Installs `sys` as the simulated machine of this thread.
pub fn install(sys: Box<Sys>) {
    let old = slot().swap(Box::into_raw(sys), Ordering::SeqCst);
    assert!(old.is_null(), "a simulation is already running on this thread");
}

pub fn uninstall() -> Box<Sys> {
    let p = slot().swap(std::ptr::null_mut(), Ordering::SeqCst);
    assert!(!p.is_null());
    unsafe { Box::from_raw(p) }
}

/// Access from simulator code to the machine of this thread. Only one simulated thread runs at a time
/// (see the baton below), so this is exclusive by construction.
#[allow(clippy::mut_from_ref)]
pub fn sys() -> &'static mut Sys {
    let p = slot().load(Ordering::SeqCst);
    assert!(!p.is_null());
    unsafe { &mut *p }
}

fn have_sys() -> bool {
    !slot().load(Ordering::SeqCst).is_null()
}

// ------------------------------------------------------------------------------------------
// the baton: simulated threads are real threads, of which exactly one runs

#[derive(Default)]
struct Baton {
    running: u32,
    alive: Vec<bool>,
    started: Vec<bool>,
}

static BATON: Mutex<Option<Baton>> = Mutex::new(None);
static BATON_CV: Condvar = Condvar::new();

pub fn baton_init(n: usize) {
    outside_any(|| {
        *BATON.lock().unwrap() =
            // thread 0 only starts and joins the others
            Some(Baton {
                running: u32::MAX,
                alive: (0..=n).map(|i| i > 0).collect(),
                started: (0..=n).map(|i| i == 0).collect(),
            });
    })
}

fn outside_any<R>(f: impl FnOnce() -> R) -> R {
    outside(f)
}

/// Waits until every thread has arrived and then until it is this thread's turn.
pub fn baton_start(tid: u32) {
    outside_any(|| {
        let mut b = BATON.lock().unwrap();
        {
            let bb = b.as_mut().unwrap();
            bb.started[tid as usize] = true;
            if bb.started.iter().all(|s| *s) {
                let alive: Vec<u32> = (1..bb.alive.len() as u32).collect();
                bb.running = *root().unwrap().sched_rng.pick(&alive);
                BATON_CV.notify_all();
            }
        }
        while b.as_ref().unwrap().running != tid {
            b = BATON_CV.wait(b).unwrap();
        }
    })
}

pub fn baton_end(tid: u32) {
    outside_any(|| {
        let mut b = BATON.lock().unwrap();
        let bb = b.as_mut().unwrap();
        bb.alive[tid as usize] = false;
        let alive: Vec<u32> = (0..bb.alive.len() as u32).filter(|t| bb.alive[*t as usize]).collect();
        if !alive.is_empty() {
            bb.running = *root().unwrap().sched_rng.pick(&alive);
        }
        BATON_CV.notify_all();
    })
}

/// A scheduling point. `force`: the caller cannot make progress, someone else should run.
pub fn sched_point(force: bool) {
    let tid = TID.with(|t| t.get());
    if tid == 0 {
        return;
    }
    let tid = tid - 1;
    outside(|| {
        let Some(s) = root() else { return };
        let Some(cfg) = &s.sched else { return };
        if !force && s.sched_rng.below(100) >= cfg.switch_pct as usize {
            return;
        }
        let mut b = BATON.lock().unwrap();
        let Some(bb) = b.as_mut() else { return };
        let others: Vec<u32> =
            (0..bb.alive.len() as u32).filter(|t| bb.alive[*t as usize] && *t != tid).collect();
        if others.is_empty() {
            return;
        }
        let next = *s.sched_rng.pick(&others);
        s.switches += 1;
        s.log.push(Ev { tid, call: "switch", path: String::new(), res: next as i64, fault: None });
        bb.running = next;
        BATON_CV.notify_all();
        while b.as_ref().unwrap().running != tid {
            b = BATON_CV.wait(b).unwrap();
        }
    })
}

pub struct SimAlloc;

unsafe impl std::alloc::GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_point();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        alloc_point();
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_point();
        std::alloc::System.alloc_zeroed(l)
    }
}

fn alloc_point() {
    if !simulated() {
        return;
    }
    let due = ALLOC_COUNTDOWN.with(|c| {
        let v = c.get();
        if v == 0 {
            true
        } else {
            c.set(v - 1);
            false
        }
    });
    if due {
        let mut go = false;
        outside(|| {
            let Some(s) = root() else { return };
            if let Some(cfg) = &s.sched {
                let n = 1 + s.sched_rng.below(2 * cfg.alloc_every.max(1) as usize) as u32;
                ALLOC_COUNTDOWN.with(|c| c.set(n));
                s.alloc_points += 1;
                go = true;
            } else {
                ALLOC_COUNTDOWN.with(|c| c.set(u32::MAX));
            }
        });
        if go {
            sched_point(false);
        }
    }
}

// ------------------------------------------------------------------------------------------
// system calls

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static P: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
        let mut p = P.load(Ordering::Relaxed);
        if p.is_null() {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char);
            if p.is_null() { libc::abort(); }
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}

fn active() -> bool {
    simulated() && have_sys()
}

/// Accounts for one call; returns Some(errno) when a trap fails it.
fn begin(s: &mut Sys) -> Option<i32> {
    s.calls += 1;
    s.sim_ns += 1_000;
    HEARTBEAT.fetch_add(1, Ordering::Relaxed);
    // a read that delivers something is progress, however small the pieces
    if s.calls - s.delivering / 16 * 15 > SYSCALL_BUDGET {
        eprintln!("SIM-LIVELOCK");
        unsafe { libc::_exit(97) }
    }
    s.trap_clock += 1;
    let now = s.trap_clock;
    let mut fail = None;
    let due: Vec<Trap> = s.traps.iter().filter(|(n, _)| *n == now).map(|(_, t)| t.clone()).collect();
    for t in due {
        match t {
            Trap::Disk(op) => {
                s.fire(op.kind());
                s.vfs.apply(&op);
            }
            Trap::Fail(e) => {
                s.fire("syscall_fails");
                fail = Some(e);
            }
            Trap::Crash => {
                s.fire("crash");
                s.crashed = true;
                if let Some(f) = s.on_crash {
                    f(s)
                }
            }
        }
    }
    fail
}

/// On an open descriptor "no such file" makes no sense; a medium error does.
fn on_fd(e: c_int) -> c_int {
    if e == libc::ENOENT {
        libc::EIO
    } else {
        e
    }
}

fn finish(s: &mut Sys, call: &'static str, path: &str, res: i64, fault: Option<&'static str>) -> i64 {
    let tid = TID.with(|t| t.get()).saturating_sub(1);
    if let Some(f) = fault {
        s.fire(f);
    }
    s.log.push(Ev { tid, call, path: path.to_owned(), res, fault });
    if res < 0 {
        unsafe { set_errno(-res as i32) };
        -1
    } else {
        res
    }
}

/// Paths are kept as text. The bytes 0xfe and 0xff, which no text has, are written as these
/// characters.
pub const ODD: [char; 2] = ['\u{f8fe}', '\u{f8ff}'];

/// A path as the operating system has it.
pub fn os(p: &str) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(raw(p)).into()
}

fn raw(p: &str) -> Vec<u8> {
    let mut b = vec![];
    for c in p.chars() {
        match c {
            '\u{f8fe}' => b.push(0xfe),
            '\u{f8ff}' => b.push(0xff),
            _ => b.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    b
}

/// And back.
pub fn of_os(p: impl AsRef<std::ffi::OsStr>) -> String {
    use std::os::unix::ffi::OsStrExt;
    let mut s = String::new();
    for c in p.as_ref().as_bytes().utf8_chunks() {
        s.push_str(c.valid());
        for b in c.invalid() {
            s.push(match b {
                0xfe => ODD[0],
                0xff => ODD[1],
                _ => '\u{fffd}',
            });
        }
    }
    s
}

unsafe fn cpath(p: *const c_char) -> String {
    use std::os::unix::ffi::OsStrExt;
    of_os(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()))
}

fn v_open(path: &str, flags: c_int) -> c_int {
    sched_point(false);
    outside(|| {
        let s = sys();
        let trap = begin(s);
        let norm = lexical(path);
        if let Some(e) = trap {
            return finish(s, "open", &norm, -e as i64, None) as c_int;
        }
        let write = flags & libc::O_ACCMODE != libc::O_RDONLY;
        let w = match s.vfs.walk_to(path, flags & libc::O_NOFOLLOW == 0) {
            Ok(w) => w,
            Err(e) => return finish(s, "open", &norm, -e as i64, None) as c_int,
        };
        if w.link.is_some() {
            return finish(s, "open", &w.name, -(libc::ELOOP as i64), None) as c_int;
        }
        if w.real != w.name {
            *s.fired.entry("symlink_followed").or_insert(0) += 1;
        }
        let (norm, real, mut ino) = (w.name, w.real, w.ino);
        // injected faults
        let fs: Vec<Fault> = s.faults_for(&norm).to_vec();
        for f in &fs {
            match f {
                Fault::OpenErr(e) => return finish(s, "open", &norm, -*e as i64, Some(f.kind())) as c_int,
                Fault::OpenEintr(n) => {
                    // interrupted n times in a row, then let through
                    let recent = s
                        .log
                        .iter()
                        .rev()
                        .take_while(|e| e.call == "open" && e.path == norm && e.res == -(libc::EINTR as i64))
                        .count();
                    if (recent as u32) < *n {
                        return finish(s, "open", &norm, -(libc::EINTR as i64), Some(f.kind())) as c_int;
                    }
                }
                _ => {}
            }
        }
        match ino {
            None => {
                if flags & libc::O_CREAT != 0 {
                    s.vfs.inodes.push(Inode { data: vec![], dir: false });
                    let i = s.vfs.inodes.len() - 1;
                    s.vfs.paths.insert(real, i);
                    ino = Some(i);
                } else {
                    return finish(s, "open", &norm, -(libc::ENOENT as i64), None) as c_int;
                }
            }
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return finish(s, "open", &norm, -(libc::EEXIST as i64), None) as c_int;
                }
                if write && s.vfs.inodes[i].dir {
                    return finish(s, "open", &norm, -(libc::EISDIR as i64), None) as c_int;
                }
                if flags & libc::O_DIRECTORY != 0 && !s.vfs.inodes[i].dir {
                    return finish(s, "open", &norm, -(libc::ENOTDIR as i64), None) as c_int;
                }
            }
        }
        let ino = ino.unwrap();
        if flags & libc::O_TRUNC != 0 && write {
            s.vfs.inodes[ino].data.clear();
        }
        let fd = FD_BASE + s.opens.len() as c_int;
        s.opens.push(OpenRec {
            path: norm.clone(),
            ino,
            write,
            delivered: vec![],
            sought: false,
            eof: false,
            err: None,
            written: 0,
            reads: 0,
            writes: 0,
            pos: 0,
            append: flags & libc::O_APPEND != 0,
            closed: false,
        });
        finish(s, if write { "open_w" } else { "open" }, &norm, fd as i64, None) as c_int
    })
}

fn rec(fd: c_int) -> Option<usize> {
    if fd < FD_BASE || !have_sys() {
        return None;
    }
    let i = (fd - FD_BASE) as usize;
    if i < sys().opens.len() {
        Some(i)
    } else {
        None
    }
}

/// Is this one of our descriptors, used by simulated code?
fn vfd(fd: c_int) -> bool {
    fd >= FD_BASE && have_sys() && TID.try_with(|t| t.get()).unwrap_or(0) != 0
}

unsafe fn v_read(fd: c_int, buf: *mut u8, n: usize, at_pos: Option<usize>) -> ssize_t {
    sched_point(false);
    outside(|| {
        let s = sys();
        let Some(i) = rec(fd) else {
            return finish(s, "read", "?", -(libc::EBADF as i64), None) as ssize_t;
        };
        let path = s.opens[i].path.clone();
        if let Some(e) = begin(s).map(on_fd) {
            if e != libc::EINTR {
                s.opens[i].err = Some(e);
            }
            return finish(s, "read", &path, -e as i64, None) as ssize_t;
        }
        if s.opens[i].closed {
            return finish(s, "read", &path, -(libc::EBADF as i64), None) as ssize_t;
        }
        let ino = s.opens[i].ino;
        if s.vfs.inodes[ino].dir {
            s.opens[i].err = Some(libc::EISDIR);
            return finish(s, "read", &path, -(libc::EISDIR as i64), None) as ssize_t;
        }
        let pos = at_pos.unwrap_or(s.opens[i].pos);
        let real_len = s.vfs.inodes[ino].data.len();
        let fs: Vec<Fault> = s.faults_for(&path).to_vec();
        let swell = fs.iter().find_map(|f| match f {
            Fault::Swell { at, total, fill } => Some(((*at as usize).min(real_len), (*total).min(ENDLESS) as usize, *fill)),
            _ => None,
        });
        let len = swell.map_or(real_len, |w| w.1.max(real_len));
        let mut m = n.min(len.saturating_sub(pos));
        let mut fault = None;
        s.opens[i].reads += 1;
        let reads = s.opens[i].reads;
        for f in &fs {
            match f {
                Fault::ReadEintr(k) if *k > 0 => {
                    if reads % (k + 1) == 1 {
                        return finish(s, "read", &path, -(libc::EINTR as i64), Some(f.kind())) as ssize_t;
                    }
                }
                Fault::Short(sizes) if !sizes.is_empty() => {
                    // in proportion, for the few large files
                    let k = sizes[(reads as usize - 1) % sizes.len()].max(1) as usize * (1 + real_len / 50_000);
                    if m > k {
                        m = k;
                        fault = Some(f.kind());
                    }
                }
                Fault::ReadErr(after, e) => {
                    let after = (*after as usize).min(len);
                    if pos >= after && n > 0 {
                        s.opens[i].err = Some(*e);
                        return finish(s, "read", &path, -*e as i64, Some(f.kind())) as ssize_t;
                    }
                    if pos + m > after {
                        m = after - pos;
                    }
                }
                _ => {}
            }
        }
        if let Some((at, _, fill)) = swell {
            // what is delivered is not kept here
            let d = &s.vfs.inodes[ino].data;
            let tail = len - (real_len - at);
            std::ptr::write_bytes(buf, fill, m);
            for (from, to, bytes) in [(0, at, &d[..at]), (tail, len, &d[at..])] {
                let (a, b) = (pos.max(from), (pos + m).min(to));
                if a < b {
                    std::ptr::copy_nonoverlapping(bytes[a - from..].as_ptr(), buf.add(a - pos), b - a);
                }
            }
            if m == 0 && n > 0 {
                s.opens[i].eof = true;
            }
            if at_pos.is_none() {
                s.opens[i].pos = pos + m;
            }
            s.delivering += (m > 0) as u64;
            let kind = fs.iter().find(|f| matches!(f, Fault::Swell { .. })).map(|f| f.kind());
            return finish(s, "read", &path, m as i64, kind) as ssize_t;
        }
        let data = s.vfs.inodes[ino].data[pos.min(len)..(pos + m).min(len)].to_vec();
        s.delivering += (m > 0) as u64;
        std::ptr::copy_nonoverlapping(data.as_ptr(), buf, data.len());
        if m == 0 && n > 0 {
            s.opens[i].eof = true;
        }
        if at_pos.is_none() {
            s.opens[i].pos = pos + m;
        } else if pos != s.opens[i].delivered.len() {
            s.opens[i].sought = true;
        }
        s.opens[i].delivered.extend_from_slice(&data);
        finish(s, "read", &path, m as i64, fault) as ssize_t
    })
}

unsafe fn v_write(fd: c_int, buf: *const u8, n: usize) -> ssize_t {
    sched_point(false);
    outside(|| {
        let s = sys();
        let Some(i) = rec(fd) else {
            return finish(s, "write", "?", -(libc::EBADF as i64), None) as ssize_t;
        };
        let path = s.opens[i].path.clone();
        if let Some(e) = begin(s).map(on_fd) {
            return finish(s, "write", &path, -e as i64, None) as ssize_t;
        }
        if s.opens[i].closed || !s.opens[i].write {
            return finish(s, "write", &path, -(libc::EBADF as i64), None) as ssize_t;
        }
        let ino = s.opens[i].ino;
        let mut m = n;
        let mut fault = None;
        s.opens[i].writes += 1;
        let writes = s.opens[i].writes;
        let fs: Vec<Fault> = s.faults_for(&path).to_vec();
        for f in &fs {
            match f {
                Fault::WriteEintr(k) if *k > 0 => {
                    if writes % (k + 1) == 1 {
                        return finish(s, "write", &path, -(libc::EINTR as i64), Some(f.kind())) as ssize_t;
                    }
                }
                Fault::WriteShort(k) => {
                    let k = (*k).max(1) as usize * (1 + s.vfs.inodes[ino].data.len().max(n) / 50_000);
                    if m > k {
                        m = k;
                        fault = Some(f.kind());
                    }
                }
                Fault::WriteErr(after, e) => {
                    let done = s.opens[i].written as usize;
                    if done >= *after as usize {
                        s.opens[i].err = Some(*e);
                        return finish(s, "write", &path, -*e as i64, Some(f.kind())) as ssize_t;
                    }
                    m = m.min(*after as usize - done);
                }
                _ => {}
            }
        }
        let mut pos = s.opens[i].pos;
        let data = &mut s.vfs.inodes[ino].data;
        if s.opens[i].append {
            pos = data.len();
        }
        if data.len() < pos + m {
            data.resize(pos + m, 0);
        }
        std::ptr::copy_nonoverlapping(buf, data[pos..].as_mut_ptr(), m);
        s.opens[i].pos = pos + m;
        s.opens[i].written += m as u32;
        finish(s, "write", &path, m as i64, fault) as ssize_t
    })
}

fn v_stat(call: &'static str, path: Option<&str>, fd: Option<c_int>) -> Result<(bool, u64, usize), c_int> {
    sched_point(false);
    outside(|| {
        let s = sys();
        let (norm, ino);
        if let Some(e) = begin(s).map(|e| if fd.is_some() { on_fd(e) } else { e }) {
            let p = path.map(lexical).unwrap_or_default();
            finish(s, call, &p, -e as i64, None);
            return Err(e);
        }
        if let Some(p) = path {
            match s.vfs.walk(p) {
                Ok((n, Some(i))) => {
                    norm = n;
                    ino = i;
                }
                Ok((n, None)) => {
                    // a file that is not there, behind a directory or device that does not answer
                    let e = s.faults_for(&n).iter().find_map(|f| match f {
                        Fault::OpenErr(e) => Some(*e),
                        _ => None,
                    });
                    let e = e.unwrap_or(libc::ENOENT);
                    finish(s, call, &n, -e as i64, None);
                    return Err(e);
                }
                Err(e) => {
                    finish(s, call, &lexical(p), -e as i64, None);
                    return Err(e);
                }
            }
        } else {
            let Some(i) = fd.and_then(rec) else {
                finish(s, call, "?", -(libc::EBADF as i64), None);
                return Err(libc::EBADF);
            };
            norm = s.opens[i].path.clone();
            ino = s.opens[i].ino;
        }
        let mut len = s.vfs.inodes[ino].data.len() as u64;
        let dir = s.vfs.inodes[ino].dir;
        let mut fault = None;
        let fs: Vec<Fault> = s.faults_for(&norm).to_vec();
        for f in &fs {
            match f {
                Fault::StatErr(e) => {
                    if let Some(i) = fd.and_then(rec) {
                        s.opens[i].err = Some(*e);
                    }
                    finish(s, call, &norm, -*e as i64, Some(f.kind()));
                    return Err(*e);
                }
                Fault::StatSize(n) => {
                    len = *n;
                    fault = Some(f.kind());
                }
                // the size of a file without an end is not known
                Fault::Swell { total, .. } if fault.is_none() => len = if *total == u64::MAX { 0 } else { *total },
                // a file that cannot be opened for lack of rights or of its device can still be
                // stat'ed or not; keep stat working, like a kernel does for EACCES on the file
                _ => {}
            }
        }
        finish(s, call, &norm, 0, fault);
        Ok((dir, len, ino))
    })
}

fn v_note(call: &'static str, path: &str, errno: c_int) -> c_int {
    sched_point(false);
    outside(|| {
        let s = sys();
        begin(s);
        *s.unmodelled.entry(call).or_insert(0) += 1;
        finish(s, call, path, -errno as i64, None) as c_int
    })
}

// --- entry points -------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        return v_open(&cpath(path), flags);
    }
    real!("open64", fn(*const c_char, c_int, mode_t) -> c_int)(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        return v_open(&cpath(path), flags);
    }
    real!("open", fn(*const c_char, c_int, mode_t) -> c_int)(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        return v_open(&cpath(path), flags);
    }
    real!("openat64", fn(c_int, *const c_char, c_int, mode_t) -> c_int)(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        return v_open(&cpath(path), flags);
    }
    real!("openat", fn(c_int, *const c_char, c_int, mode_t) -> c_int)(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if vfd(fd) {
        return v_read(fd, buf as *mut u8, n, None);
    }
    real!("read", fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if vfd(fd) {
        return v_read(fd, buf as *mut u8, n, Some(off as usize));
    }
    real!("pread64", fn(c_int, *mut c_void, size_t, off64_t) -> ssize_t)(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if vfd(fd) {
        for k in 0..n as isize {
            let v = &*iov.offset(k);
            if v.iov_len > 0 {
                return v_read(fd, v.iov_base as *mut u8, v.iov_len, None);
            }
        }
        return 0;
    }
    real!("readv", fn(c_int, *const libc::iovec, c_int) -> ssize_t)(fd, iov, n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if vfd(fd) {
        return v_write(fd, buf as *const u8, n);
    }
    real!("write", fn(c_int, *const c_void, size_t) -> ssize_t)(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if vfd(fd) {
        for k in 0..n as isize {
            let v = &*iov.offset(k);
            if v.iov_len > 0 {
                return v_write(fd, v.iov_base as *const u8, v.iov_len);
            }
        }
        return 0;
    }
    real!("writev", fn(c_int, *const libc::iovec, c_int) -> ssize_t)(fd, iov, n)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if vfd(fd) {
        return outside(|| {
            let s = sys();
            let Some(i) = rec(fd) else { return 0 };
            s.opens[i].closed = true;
            let p = s.opens[i].path.clone();
            // closing is an event but not a fault point: its result is ignored by std
            finish(s, "close", &p, 0, None) as c_int
        });
    }
    real!("close", fn(c_int) -> c_int)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if vfd(fd) {
        return outside(|| {
            let s = sys();
            begin(s);
            let Some(i) = rec(fd) else { return -1 };
            let len = s.vfs.inodes[s.opens[i].ino].data.len() as i64;
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => s.opens[i].pos as i64,
                _ => len,
            };
            let np = base + off;
            let p = s.opens[i].path.clone();
            if np < 0 {
                return finish(s, "lseek", &p, -(libc::EINVAL as i64), None);
            }
            if np as usize != s.opens[i].pos {
                if np == 0 {
                    // starting over: what was delivered before no longer counts
                    s.opens[i].delivered.clear();
                    s.opens[i].eof = false;
                } else {
                    s.opens[i].sought = true;
                }
            }
            s.opens[i].pos = np as usize;
            finish(s, "lseek", &p, np, None)
        });
    }
    real!("lseek64", fn(c_int, off64_t, c_int) -> off64_t)(fd, off, whence)
}

unsafe fn fill_stat(st: *mut libc::stat64, r: Result<(bool, u64, usize), c_int>) -> c_int {
    match r {
        Ok((dir, len, ino)) => {
            std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
            (*st).st_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
            (*st).st_size = len as i64;
            (*st).st_ino = ino as u64 + 1;
            (*st).st_nlink = 1;
            (*st).st_blksize = 4096;
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if vfd(fd) {
        return fill_stat(st, v_stat("fstat", None, Some(fd)));
    }
    real!("fstat64", fn(c_int, *mut libc::stat64) -> c_int)(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if active() {
        return fill_stat(st, v_stat("stat", Some(&cpath(path)), None));
    }
    real!("stat64", fn(*const c_char, *mut libc::stat64) -> c_int)(path, st)
}
/// What a path that is itself a symbolic link says.
fn linked(path: &str) -> Option<String> {
    outside(|| {
        let s = sys();
        if s.vfs.links.is_empty() {
            return None;
        }
        let w = s.vfs.walk_to(path, false).ok()?;
        let t = w.link?;
        if let Some(e) = begin(s) {
            let _ = e;
        }
        finish(s, "lstat", &w.name, 0, None);
        Some(t)
    })
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if active() {
        let p = cpath(path);
        if let Some(t) = linked(&p) {
            let r = fill_stat(st, Ok((false, t.len() as u64, 0)));
            (*st).st_mode = libc::S_IFLNK | 0o777;
            return r;
        }
        return fill_stat(st, v_stat("lstat", Some(&p), None));
    }
    real!("lstat64", fn(*const c_char, *mut libc::stat64) -> c_int)(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    d: c_int,
    path: *const c_char,
    flags: c_int,
    mask: u32,
    buf: *mut libc::statx,
) -> c_int {
    let by_fd = flags & libc::AT_EMPTY_PATH != 0 && (path.is_null() || *path == 0);
    if vfd(d) || (active() && !path.is_null() && !by_fd) {
        let to = if !by_fd && flags & libc::AT_SYMLINK_NOFOLLOW != 0 { linked(&cpath(path)) } else { None };
        let r = match &to {
            Some(t) => Ok((false, t.len() as u64, 0)),
            None if by_fd => v_stat("fstat", None, Some(d)),
            None => v_stat("stat", Some(&cpath(path)), None),
        };
        return match r {
            Ok((dir, len, ino)) => {
                std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*buf).stx_mask = 0x7ff;
                (*buf).stx_mode = (if to.is_some() {
                    libc::S_IFLNK | 0o777
                } else if dir {
                    libc::S_IFDIR | 0o755
                } else {
                    libc::S_IFREG | 0o644
                }) as u16;
                (*buf).stx_size = len;
                (*buf).stx_ino = ino as u64 + 1;
                (*buf).stx_nlink = 1;
                (*buf).stx_blksize = 4096;
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    real!("statx", fn(c_int, *const c_char, c_int, u32, *mut libc::statx) -> c_int)(d, path, flags, mask, buf)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if active() {
        return match v_stat("access", Some(&cpath(path)), None) {
            Ok(_) => 0,
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    real!("access", fn(*const c_char, c_int) -> c_int)(path, mode)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if active() {
        return access(path, mode);
    }
    real!("faccessat", fn(c_int, *const c_char, c_int, c_int) -> c_int)(d, path, mode, flags)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if active() {
        let p = cpath(path);
        return match v_stat("realpath", Some(&p), None) {
            Ok(_) => {
                let norm = outside(|| raw(&sys().vfs.walk_to(&p, true).map(|w| w.real).unwrap_or_default()));
                let n = norm.len();
                let dst = if out.is_null() { libc::malloc(n + 1) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(norm.as_ptr() as *const c_char, dst, n);
                *dst.add(n) = 0;
                dst
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    real!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char)(path, out)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if active() {
        let p = cpath(path);
        if let Some(t) = linked(&p) {
            let t = outside(|| raw(&t));
            let k = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
            return k as ssize_t;
        }
        return match v_stat("readlink", Some(&p), None) {
            Ok(_) => {
                set_errno(libc::EINVAL);
                -1
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    real!("readlink", fn(*const c_char, *mut c_char, size_t) -> ssize_t)(path, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if active() {
        outside(|| {
            let s = sys();
            finish(s, "getcwd", "", 0, None);
        });
        if buf.is_null() || n < CWD.len() + 1 {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(CWD.as_ptr() as *const c_char, buf, CWD.len());
        *buf.add(CWD.len()) = 0;
        return buf;
    }
    real!("getcwd", fn(*mut c_char, size_t) -> *mut c_char)(buf, n)
}

fn v_simple(call: &'static str, path: &str, f: impl FnOnce(&mut Vfs) -> Result<(), c_int>) -> c_int {
    sched_point(false);
    outside(|| {
        let s = sys();
        let norm = lexical(path);
        if let Some(e) = begin(s) {
            return finish(s, call, &norm, -e as i64, None) as c_int;
        }
        if s.faults_for(&norm).iter().any(|f| matches!(f, Fault::WriteErr(..))) {
            return finish(s, call, &norm, -(libc::EIO as i64), Some("write_error")) as c_int;
        }
        match f(&mut s.vfs) {
            Ok(()) => finish(s, call, &norm, 0, None) as c_int,
            Err(e) => finish(s, call, &norm, -e as i64, None) as c_int,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        let (a, b) = (cpath(a), cpath(b));
        let bb = b.clone();
        return v_simple("rename", &b, move |v| {
            let wa = v.walk_to(&a, false)?;
            let (na, ia) = (wa.real, wa.ino.ok_or(libc::ENOENT)?);
            let wb = v.walk_to(&bb, false)?;
            let (nb, ib) = (wb.real, wb.ino);
            v.links.remove(&nb);
            if let Some(ib) = ib {
                if v.inodes[ib].dir && !v.inodes[ia].dir {
                    return Err(libc::EISDIR);
                }
            }
            v.paths.remove(&na);
            v.paths.insert(nb, ia);
            Ok(())
        });
    }
    real!("rename", fn(*const c_char, *const c_char) -> c_int)(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if active() {
        let p = cpath(p);
        let pp = p.clone();
        return v_simple("unlink", &p, move |v| {
            let w = v.walk_to(&pp, false)?;
            if w.link.is_some() {
                v.links.remove(&w.real);
                return Ok(());
            }
            let (n, i) = (w.real, w.ino.ok_or(libc::ENOENT)?);
            if v.inodes[i].dir {
                return Err(libc::EISDIR);
            }
            v.paths.remove(&n);
            Ok(())
        });
    }
    real!("unlink", fn(*const c_char) -> c_int)(p)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if active() {
        let p = cpath(p);
        let pp = p.clone();
        return v_simple("mkdir", &p, move |v| {
            let w = v.walk_to(&pp, false)?;
            let (n, i) = (w.real, w.ino);
            if i.is_some() || w.link.is_some() {
                return Err(libc::EEXIST);
            }
            v.mkdir_all(&n);
            Ok(())
        });
    }
    real!("mkdir", fn(*const c_char, mode_t) -> c_int)(p, mode)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if active() {
        return v_note("rmdir", &cpath(p), libc::EPERM);
    }
    real!("rmdir", fn(*const c_char) -> c_int)(p)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if active() {
        v_note("opendir", &cpath(p), libc::EACCES);
        return std::ptr::null_mut();
    }
    real!("opendir", fn(*const c_char) -> *mut libc::DIR)(p)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if active() {
        return v_note("chmod", &cpath(p), libc::EPERM);
    }
    real!("chmod", fn(*const c_char, mode_t) -> c_int)(p, m)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if vfd(fd) {
        return 0;
    }
    real!("fchmod", fn(c_int, mode_t) -> c_int)(fd, m)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if vfd(fd) {
        let Some(i) = rec(fd) else { return -1 };
        let (p, ino) = outside(|| (sys().opens[i].path.clone(), sys().opens[i].ino));
        return v_simple("ftruncate", &p, move |v| {
            v.inodes[ino].data.resize(n as usize, 0);
            Ok(())
        });
    }
    real!("ftruncate64", fn(c_int, off64_t) -> c_int)(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if vfd(fd) {
        let Some(i) = rec(fd) else { return -1 };
        let p = outside(|| sys().opens[i].path.clone());
        return v_simple("fsync", &p, |_| Ok(()));
    }
    real!("fsync", fn(c_int) -> c_int)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if vfd(fd) {
        return fsync(fd);
    }
    real!("fdatasync", fn(c_int) -> c_int)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if vfd(fd) {
        return 0;
    }
    real!("fcntl", fn(c_int, c_int, c_long) -> c_int)(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if vfd(fd) {
        return 0;
    }
    real!("flock", fn(c_int, c_int) -> c_int)(fd, op)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: c_int, a: i64, b: i64, c: c_int) -> c_int {
    if vfd(fd) {
        return 0;
    }
    real!("posix_fadvise", fn(c_int, i64, i64, c_int) -> c_int)(fd, a, b, c)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    ao: *mut off64_t,
    b: c_int,
    bo: *mut off64_t,
    n: size_t,
    f: libc::c_uint,
) -> ssize_t {
    if vfd(a) || vfd(b) {
        set_errno(libc::ENOSYS);
        return -1;
    }
    real!("copy_file_range", fn(c_int, *mut off64_t, c_int, *mut off64_t, size_t, libc::c_uint) -> ssize_t)(
        a, ao, b, bo, n, f,
    )
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if vfd(a) || vfd(b) {
        set_errno(libc::EINVAL);
        return -1;
    }
    real!("sendfile64", fn(c_int, c_int, *mut off64_t, size_t) -> ssize_t)(a, b, o, n)
}

// randomness: the hash seeds of the standard library

fn sim_random(buf: *mut u8, n: usize) {
    let seed = RAND_SEED.with(|s| s.get());
    let c = RAND_COUNT.with(|c| {
        let v = c.get();
        c.set(v + 1);
        v
    });
    let mut x = mix(seed ^ mix(c));
    for i in 0..n {
        if i % 8 == 0 {
            x = mix(x);
        }
        unsafe { *buf.add(i) = (x >> ((i % 8) * 8)) as u8 };
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: libc::c_uint) -> ssize_t {
    if TID.try_with(|t| t.get()).unwrap_or(0) != 0 {
        sim_random(buf as *mut u8, n);
        return n as ssize_t;
    }
    real!("getrandom", fn(*mut c_void, size_t, libc::c_uint) -> ssize_t)(buf, n, flags)
}

// blocking

/// std's locks and parking use `syscall(SYS_futex, ...)`.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if simulated() && have_sys() {
        if n == libc::SYS_futex {
            let op = (b as c_int) & 0x7f;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                let val = *(a as *const u32);
                if val != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                let multi = outside(|| {
                    let s = root().unwrap_or(sys());
                    s.futex_waits += 1;
                    if s.futex_waits > 100_000 {
                        eprintln!("SIM-DEADLOCK");
                        libc::_exit(96)
                    }
                    s.sched.is_some()
                });
                if multi {
                    sched_point(true);
                    return 0; // a spurious wake-up: the caller re-checks
                }
                if d == 0 {
                    // a single thread waiting for itself
                    eprintln!("SIM-DEADLOCK");
                    libc::_exit(96)
                }
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                return 0;
            }
        }
        if n == libc::SYS_getrandom {
            sim_random(a as *mut u8, b as usize);
            return b;
        }
    }
    real!("syscall", fn(c_long, c_long, c_long, c_long, c_long, c_long, c_long) -> c_long)(n, a, b, c, d, e, f)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        sched_point(true);
        return 0;
    }
    real!("sched_yield", fn() -> c_int)()
}

// clocks

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if active() {
        outside(|| {
            let s = sys();
            s.sim_ns += 1_000;
            let t = 1_700_000_000_000_000_000u64 + s.sim_ns;
            (*ts).tv_sec = (t / 1_000_000_000) as i64;
            (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        });
        return 0;
    }
    real!("clock_gettime", fn(libc::clockid_t, *mut libc::timespec) -> c_int)(id, ts)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if active() {
        outside(|| {
            let s = sys();
            s.sim_ns += (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
            begin(s);
        });
        sched_point(true);
        return 0;
    }
    real!("nanosleep", fn(*const libc::timespec, *mut libc::timespec) -> c_int)(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    fl: c_int,
    a: *const libc::timespec,
    b: *mut libc::timespec,
) -> c_int {
    if active() {
        return nanosleep(a, b);
    }
    real!("clock_nanosleep", fn(libc::clockid_t, c_int, *const libc::timespec, *mut libc::timespec) -> c_int)(
        id, fl, a, b,
    )
}
