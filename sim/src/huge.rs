//! Sources longer than the limit, delivered in every way: by a disk that tells the size, by one that
//! does not (a pipe, a device, a file that grows while it is read), by a resolver, as a string.

use prost_types::FileDescriptorSet;
use protox::file::{ChainFileResolver, File, FileResolver, GoogleFileResolver, IncludeFileResolver};
use protox::Compiler;
use serde::{Deserialize, Serialize};

use crate::report::{guarded, look, RunOut};
use crate::rng::{hash_bytes, Rng};
use crate::sys::{self, Fault, Sys, Vfs};

pub const LIMIT: u64 = i32::MAX as u64;
/// reading may run past the limit by a buffer, not more
const SLACK: u64 = 64 << 20;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Via {
    Path,
    Name,
    Import,
    /// imported by a file that an in-memory resolver serves
    MemImport,
    FileOpen,
    Include,
    OneCall,
    /// an in-memory resolver gives out a string of this length
    Source,
    FromSource,
    Parse,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Huge {
    pub hash_seed: u64,
    pub total: u64,
    /// what the disk says the size is; None: the truth, or 0 for a file without an end
    pub stat: Option<u64>,
    pub short: Vec<u32>,
    pub eintr: u32,
    /// filler: spaces, tabs, or a comment
    pub fill: u8,
    /// what comes after the filler makes no sense
    pub bad_tail: bool,
    pub via: Via,
    pub before: bool,
    pub info: bool,
    pub heal: bool,
    pub twice: bool,
}

pub fn generate(seed: u64) -> Huge {
    let mut r = Rng::new(seed);
    let via = match r.below(20) {
        0..=3 => Via::Path,
        4..=6 => Via::Name,
        7..=9 => Via::Import,
        10 | 11 => Via::MemImport,
        12 | 13 => Via::FileOpen,
        14 => Via::Include,
        15 | 16 => Via::OneCall,
        17 => Via::Source,
        18 => Via::FromSource,
        _ => Via::Parse,
    };
    let text = matches!(via, Via::Source | Via::FromSource | Via::Parse);
    let fits = r.pct(12);
    let total = if fits {
        LIMIT - *r.pick(&[0, 0, 1, 2])
    } else if text {
        LIMIT + *r.pick(&[1, 1, 2, 4096, 1 << 20])
    } else {
        *r.pick(&[
            LIMIT + 1,
            LIMIT + 1,
            LIMIT + 1,
            LIMIT + 2,
            LIMIT + 4096,
            LIMIT + (1 << 20),
            (1 << 32) - 1,
            1 << 32,
            (1 << 32) + 1,
            (1 << 32) + 200,
            (1 << 32) + LIMIT,
            1 << 40,
            1 << 63,
            u64::MAX,
            u64::MAX,
        ])
    };
    let stat = if total == u64::MAX {
        *r.pick(&[None, Some(0), Some(1), Some(4096)])
    } else if r.pct(25) && total > LIMIT {
        None
    } else {
        Some(*r.pick(&[0, 0, 1, 100, 4096, LIMIT - 1, LIMIT, LIMIT]))
    };
    Huge {
        hash_seed: r.next(),
        total,
        stat,
        short: if r.pct(40) { (0..r.range(1, 3)).map(|_| *r.pick(&[1 << 16, (1 << 20) + 7, 1 << 24, 65_537])).collect() } else { vec![] },
        eintr: if r.pct(20) { r.range(2, 9) as u32 } else { 0 },
        fill: if !fits && r.pct(10) { b'/' } else { *r.pick(b" \t") },
        bad_tail: !fits && r.pct(40),
        via,
        before: r.pct(50),
        info: r.pct(50),
        heal: r.pct(70),
        twice: r.pct(25),
    }
}

const HEAD: &str = "syntax = \"proto3\";\npackage h;\nmessage First { int32 a = 1; }\n";

impl Huge {
    pub fn sound(&self) -> bool {
        b" \t/".contains(&self.fill) && !(self.bad_tail && self.total <= LIMIT) && self.total > 200
    }
    fn head(&self) -> String {
        if self.fill == b'/' {
            format!("{HEAD}//")
        } else {
            HEAD.to_owned()
        }
    }
    fn tail(&self) -> &'static str {
        if self.bad_tail {
            "\nmessage { 77 \x01"
        } else {
            "\nmessage Last { int32 b = 1; }\n"
        }
    }
    /// For the ones that need the whole text in memory.
    fn text(&self) -> String {
        let (h, t) = (self.head(), self.tail());
        let mut s = String::with_capacity(self.total as usize);
        s.push_str(&h);
        let n = (self.total as usize).saturating_sub(h.len() + t.len());
        let mut b = s.into_bytes();
        b.resize(h.len() + n, self.fill);
        b.extend_from_slice(t.as_bytes());
        String::from_utf8(b).unwrap()
    }
}

const P: &[&str] = &["C17"];

/// Serves the long source as a string, and a file that imports it.
struct Giver {
    big: Option<Huge>,
}
impl FileResolver for Giver {
    fn open_file(&self, name: &str) -> Result<File, protox::Error> {
        match (name, &self.big) {
            ("mroot.proto", _) => File::from_source(name, ROOT),
            ("big.proto", Some(h)) => {
                let t = sys::outside(|| h.text());
                File::from_source(name, &t)
            }
            _ => Err(protox::Error::file_not_found(name)),
        }
    }
}

const ROOT: &str = "syntax = \"proto3\";\nimport \"big.proto\";\nmessage Root { h.First f = 1; }\n";
const SMALL: &str = "syntax = \"proto3\";\npackage s;\nmessage Small { }\n";

type State = (FileDescriptorSet, Vec<(String, bool)>, Vec<String>);

fn state(c: &Compiler) -> State {
    (
        c.file_descriptor_set(),
        c.files().map(|f| (f.name().to_owned(), f.is_import())).collect(),
        c.descriptor_pool().files().map(|f| f.name().to_owned()).collect(),
    )
}

fn messages(s: &FileDescriptorSet, file: &str) -> Option<Vec<String>> {
    s.file.iter().find(|f| f.name() == file).map(|f| f.message_type.iter().map(|m| m.name().to_owned()).collect())
}

struct Exec<'a> {
    h: &'a Huge,
    out: RunOut,
}

impl Exec<'_> {
    fn bad(&mut self, class: &str, detail: String) {
        let h = self.h;
        let d = format!("{:?}, {} bytes, reported as {:?}: {detail}", h.via, h.total, h.stat);
        let mut p = P.to_vec();
        if !matches!(h.via, Via::Source | Via::FromSource | Via::Parse) && matches!(class, "huge-compiled" | "huge-cut") {
            p.push("C01");
        }
        self.out.violate(class, &p, d);
    }

    fn guard<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match guarded(f) {
            Ok(r) => Some(r),
            Err(p) => {
                self.out.violate("panic", &["*"], format!("{what}: {p}"));
                None
            }
        }
    }

    /// The outcome of a way of getting at the long source.
    fn judge(&mut self, r: Result<Option<Vec<String>>, protox::Error>) {
        let fits = self.h.total <= LIMIT;
        match r {
            Ok(m) if fits => {
                self.out.probe("at_limit_accepted");
                if m.as_deref() != Some(&["First".to_owned(), "Last".to_owned()]) {
                    self.bad("huge-cut", format!("a source of allowed length compiled to {m:?}"));
                }
            }
            Ok(m) => self.bad("huge-compiled", format!("compiled to {m:?}, must be refused")),
            Err(e) => {
                let Ok(i) = look(&e) else {
                    return self.out.violate("panic", &["*"], "looking at the error panicked");
                };
                if fits {
                    return self.bad("huge-refused", format!("a source of allowed length was refused: {}", i.display));
                }
                self.out.probe("huge_refused");
                if i.not_found {
                    self.bad("huge-not-found", format!("refused as not found: {}", i.display));
                }
                if i.file.as_deref().is_some_and(|f| f != "big.proto") || (i.file.is_none() && !i.display.contains("big.proto")) {
                    self.bad("huge-unnamed", format!("the error names {:?}: {}", i.file, i.display));
                }
            }
        }
    }

    fn reads(&mut self) {
        let far = sys::outside(|| sys::sys().opens.iter().map(|o| o.reached()).max().unwrap_or(0));
        if far > LIMIT + SLACK {
            self.bad("huge-read", format!("reading went on to byte {far}"));
        }
    }

    fn run(&mut self) {
        let h = self.h.clone();
        let mut faults = vec![Fault::Swell { at: h.head().len() as u32, total: h.total, fill: h.fill }];
        if let Some(n) = h.stat {
            faults.insert(0, Fault::StatSize(n));
        }
        if !h.short.is_empty() {
            faults.push(Fault::Short(h.short.clone()));
        }
        if h.eintr > 0 {
            faults.push(Fault::ReadEintr(h.eintr));
        }
        sys::outside(|| sys::sys().faults.insert("/w/inc/big.proto".into(), faults));
        self.out.note_shape(&format!("{:?}{}", h.via, h.total > LIMIT));
        match h.via {
            Via::Parse => {
                let t = h.text();
                let r = self.guard("parse", || protox_parse::parse("big.proto", &t));
                drop(t);
                if let Some(r) = r {
                    self.judge(r.map(|f| messages(&FileDescriptorSet { file: vec![f] }, "big.proto")).map_err(Into::into))
                }
                return;
            }
            Via::FromSource => {
                let t = h.text();
                let r = self.guard("from_source", || File::from_source("big.proto", &t));
                if let Some(r) = r {
                    self.judge(r.map(|f| messages(&FileDescriptorSet { file: vec![f.into()] }, "big.proto")))
                }
                return;
            }
            Via::FileOpen => {
                let r = self.guard("File::open", || File::open("big.proto", "inc/big.proto".as_ref()));
                if let Some(r) = r {
                    self.judge(r.map(|f| messages(&FileDescriptorSet { file: vec![f.into()] }, "big.proto")))
                }
                return self.reads();
            }
            Via::Include => {
                let r = self.guard("IncludeFileResolver", || IncludeFileResolver::new("inc".into()).open_file("big.proto"));
                if let Some(r) = r {
                    self.judge(r.map(|f| messages(&FileDescriptorSet { file: vec![f.into()] }, "big.proto")))
                }
                return self.reads();
            }
            Via::OneCall => {
                let mut files = vec!["inc/big.proto"];
                if h.before {
                    files.insert(0, "small.proto");
                }
                let r = self.guard("compile", || protox::compile(&files, ["inc"]));
                if let Some(r) = r {
                    self.judge(r.map(|s| messages(&s, "big.proto")))
                }
                return self.reads();
            }
            _ => {}
        }
        let target = match h.via {
            Via::Path => "inc/big.proto",
            Via::Import => "root.proto",
            Via::MemImport => "mroot.proto",
            _ => "big.proto",
        };
        let giver = Giver { big: (h.via == Via::Source).then(|| h.clone()) };
        let mem = matches!(h.via, Via::MemImport | Via::Source);
        let made = self.guard("making a compiler", || {
            if mem {
                let mut ch = ChainFileResolver::new();
                ch.add(giver);
                ch.add(IncludeFileResolver::new("inc".into()));
                ch.add(GoogleFileResolver::new());
                Ok(Compiler::with_file_resolver(ch))
            } else {
                Compiler::new(["inc"])
            }
        });
        let Some(Ok(mut c)) = made else { return };
        if self.guard("switches", || {
            c.include_imports(true);
            c.include_source_info(h.info);
        })
        .is_none()
        {
            return;
        }
        if h.before {
            if let Some(Err(e)) = self.guard("opening small.proto", || c.open_file("small.proto").map(|_| ())) {
                return self.bad("huge-neighbour", format!("small.proto failed: {e}"));
            }
        }
        for _ in 0..if h.twice { 2 } else { 1 } {
            let Some(before) = self.guard("reading the state", || state(&c)) else { return };
            let Some(r) = self.guard("open_file", || c.open_file(target).map(|_| ())) else { return };
            let Some(after) = self.guard("reading the state", || state(&c)) else { return };
            let failed = r.is_err();
            self.judge(r.map(|()| messages(&after.0, "big.proto")));
            self.reads();
            if failed && before != after {
                self.bad("huge-traces", format!("after the refusal the compiler holds {:?}, before {:?}", after.1, before.1));
            }
            if !self.out.violations.is_empty() || h.total <= LIMIT {
                return;
            }
        }
        if h.heal && h.via != Via::Source {
            // somebody puts a file of sensible length in its place
            sys::outside(|| {
                let s = sys::sys();
                s.faults.clear();
                s.vfs.put("inc/big.proto", format!("{HEAD}{}", "message Last { int32 b = 1; }\n").into_bytes());
            });
            let Some(r) = self.guard("open_file", || c.open_file(target).map(|_| ())) else { return };
            let Some(after) = self.guard("reading the state", || state(&c)) else { return };
            let m = messages(&after.0, "big.proto");
            match r {
                Err(e) => self.bad("huge-sticks", format!("with the file repaired: {e}")),
                Ok(()) if m.as_deref() != Some(&["First".to_owned(), "Last".to_owned()]) => {
                    self.bad("huge-sticks", format!("with the file repaired it compiles to {m:?}"))
                }
                Ok(()) => self.out.probe("repaired"),
            }
        }
        let _ = self.guard("dropping", || drop(c));
    }
}

pub fn run(h: &Huge) -> RunOut {
    let mut vfs = Vfs::new();
    vfs.put("inc/big.proto", format!("{}{}", h.head(), h.tail()).into_bytes());
    vfs.put("inc/root.proto", ROOT.as_bytes().to_vec());
    vfs.put("inc/small.proto", SMALL.as_bytes().to_vec());
    sys::install(Box::new(Sys::new(vfs)));
    let mut ex = Exec { h, out: RunOut::default() };
    ex.run();
    let mut out = ex.out;
    let v = format!("{:?}{:?}", out.probes, out.violations.iter().map(|v| &v.class).collect::<Vec<_>>());
    out.note(hash_bytes(1, v.as_bytes()));
    out.note_shape(&format!("{} {:?} {:?} {} {}", h.total, h.stat, h.via, h.fill, h.bad_tail));
    let s = sys::uninstall();
    out.absorb_sys(&s);
    out
}

/// Memory is limited: only so many of these at a time on one machine.
pub fn turn() -> Option<std::fs::File> {
    use std::os::fd::AsRawFd;
    let d = std::env::temp_dir();
    let me = std::process::id() as usize;
    let f = std::fs::OpenOptions::new().create(true).append(true).open(d.join(format!("protox-sim-turn-{}", me % 4))).ok()?;
    unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX) };
    Some(f)
}
