//! Histories: several compilers opening files over a shared simulated disk, while the disk changes,
//! faults come and go, resolvers fail and compilers are restarted from what they persisted.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::rc::Rc;

use prost::Message;
use prost_reflect::DescriptorPool;
use prost_types::{DescriptorProto, FileDescriptorProto, FileDescriptorSet};
use protox::file::{
    ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver, IncludeFileResolver,
};
use protox::Compiler;
use serde::{Deserialize, Serialize};

use crate::gen::{self, FileSpec, Sym};
use crate::model::*;
use crate::report::{guarded, look, ErrInfo, RunOut};
use crate::rng::hash_bytes;
use crate::sys::{self, lexical, DiskOp, Fault, Sys, Trap, Vfs};
use crate::wire;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CompilerCfg {
    pub layers: Vec<Layer>,
    /// true: Compiler::new(dirs); false: with_file_resolver(chain [+ google])
    pub plain: bool,
    pub google: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Open { c: usize, path: String },
    OpenMany { c: usize, paths: Vec<String> },
    Imports { c: usize, on: bool },
    Info { c: usize, on: bool },
    Put { path: String, content: Content },
    Disk(DiskOp),
    Fault { path: String, faults: Vec<Fault> },
    ClearAll,
    MemPut { m: usize, name: String, ent: MemEnt },
    MemRemove { m: usize, name: String },
    /// keeps a clone of the pool and of the output; they must never change
    Hold { c: usize },
    /// armed for the next open only
    Traps(Vec<(u64, Trap)>),
    /// persist compiler c's descriptor set, drop it, continue with a new one that starts from the set
    Restart { c: usize, imports: bool, info: bool, by_struct: bool, chunk: u32 },
    /// drop compiler c and start again with nothing
    Fresh { c: usize },
    /// the one-call interface, with the include directories of compiler c's configuration
    Compile { c: usize, paths: Vec<String> },
    /// ask resolvers set up like compiler c's directly, without a compiler
    Look { c: usize, path: String, name: String },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct World {
    pub hash_seed: u64,
    pub files: Vec<(String, Content)>,
    pub dirs: Vec<String>,
    pub mems: Vec<BTreeMap<String, MemEnt>>,
    pub compilers: Vec<CompilerCfg>,
    pub steps: Vec<Step>,
    /// compare all four output modes after each step
    pub all_modes: bool,
    /// contents that disk changes bring in
    #[serde(default)]
    pub extra: Vec<Content>,
    /// symbolic links, from the beginning
    #[serde(default)]
    pub links: Vec<(String, String)>,
}

impl Step {
    /// which compiler it is about, if it is about one
    fn compiler(&self) -> Option<usize> {
        match self {
            Step::Open { c, .. }
            | Step::OpenMany { c, .. }
            | Step::Imports { c, .. }
            | Step::Info { c, .. }
            | Step::Hold { c }
            | Step::Restart { c, .. }
            | Step::Fresh { c }
            | Step::Compile { c, .. }
            | Step::Look { c, .. } => Some(*c),
            _ => None,
        }
    }
}

impl World {
    /// The same world without all compilers but one; a compiler made anew is another one.
    pub fn apart(&self) -> Vec<World> {
        let mut out = vec![];
        let mut ages: Vec<usize> = vec![0; self.compilers.len()];
        let mut of: Vec<Option<(usize, usize)>> = vec![];
        for s in &self.steps {
            of.push(s.compiler().map(|c| {
                if let Some(a) = ages.get_mut(c) {
                    if matches!(s, Step::Fresh { .. }) {
                        *a += 1;
                    }
                    (c, *a)
                } else {
                    (c, 0)
                }
            }));
        }
        let all: BTreeSet<(usize, usize)> = of.iter().flatten().copied().collect();
        for one in all {
            let mut w = self.clone();
            let mut i = 0;
            w.steps.retain(|s| {
                i += 1;
                of[i - 1].is_none_or(|o| o == one) && !matches!(s, Step::Compile { .. })
            });
            out.push(w);
        }
        out
    }
}

#[derive(Default)]
pub struct MemStore {
    ents: BTreeMap<String, MemEnt>,
    calls: Vec<String>,
}

struct SimResolver(Rc<RefCell<Vec<MemStore>>>, usize);

impl FileResolver for SimResolver {
    fn open_file(&self, name: &str) -> Result<File, protox::Error> {
        let ent = sys::outside(|| {
            let mut all = self.0.borrow_mut();
            let s = &mut all[self.1];
            s.calls.push(name.to_owned());
            s.ents.get(name).cloned()
        });
        match ent {
            None => Err(protox::Error::file_not_found(name)),
            Some(MemEnt::Io) => Err(std::io::Error::from_raw_os_error(libc::EIO).into()),
            Some(MemEnt::IoNo(n)) => Err(std::io::Error::from_raw_os_error(n).into()),
            Some(MemEnt::Custom(m)) => Err(protox::Error::new(m)),
            Some(MemEnt::File { spec, form }) => {
                let bytes = sys::outside(|| gen::render(&spec).0);
                let text = String::from_utf8_lossy(&bytes).into_owned();
                match form {
                    1 => Ok(File::from_file_descriptor_proto(protox_parse::parse(name, &text)?)),
                    2 => {
                        let enc = protox_parse::parse(name, &text)?.encode_to_vec();
                        Ok(File::decode_file_descriptor_proto(enc.as_slice()).map_err(protox::Error::new)?)
                    }
                    _ => File::from_source(name, &text),
                }
            }
        }
    }
}

type SetBytes = (Vec<u8>, FileDescriptorSet, bool, u32);

fn resolvers(
    layers: &[Layer],
    google: bool,
    mems: &Rc<RefCell<Vec<MemStore>>>,
    set_bytes: &[SetBytes],
) -> Result<Vec<Box<dyn FileResolver>>, String> {
    let mut all: Vec<Box<dyn FileResolver>> = vec![];
    for l in layers {
        match l {
            Layer::Dir(d) => all.push(Box::new(IncludeFileResolver::new(sys::os(d)))),
            Layer::Mem(m) => all.push(Box::new(SimResolver(mems.clone(), *m))),
            Layer::Set(i) => {
                let (bytes, set, by_struct, chunk) = &set_bytes[*i];
                if *by_struct {
                    all.push(Box::new(DescriptorSetFileResolver::new(set.clone())))
                } else {
                    let p = Pieces { data: bytes.clone(), pos: 0, chunk: *chunk as usize };
                    all.push(Box::new(
                        DescriptorSetFileResolver::decode(p).map_err(|e| format!("decoding a persisted set: {e}"))?,
                    ))
                }
            }
        }
    }
    if google {
        all.push(Box::new(GoogleFileResolver::new()));
    }
    Ok(all)
}

/// A `Buf` of several pieces.
pub struct Pieces {
    pub data: Vec<u8>,
    pub pos: usize,
    pub chunk: usize,
}
impl bytes::Buf for Pieces {
    fn remaining(&self) -> usize {
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        let end = if self.chunk == 0 {
            self.data.len()
        } else {
            // pieces end at multiples of `chunk`
            ((self.pos / self.chunk + 1) * self.chunk).min(self.data.len())
        };
        &self.data[self.pos..end]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining(), "advanced past the end");
        self.pos += n;
    }
}

pub struct Real {
    pub comp: Compiler,
    pub model: CompilerModel,
    held: Vec<Held>,
    failed_before: bool,
    /// the open that has just failed, and how, if nothing has happened since
    last_err: Option<(Vec<String>, bool, String)>,
    disk_changed: bool,
}

struct Held {
    pool: DescriptorPool,
    digest: String,
    set: FileDescriptorSet,
    bytes: Vec<u8>,
}

/// Everything a pool can say, as text. Walks every accessor, so a dangling index panics here.
pub fn digest_pool(p: &DescriptorPool) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    for f in p.files() {
        let _ = writeln!(s, "file {} pkg={} syntax={:?}", f.name(), f.package_name(), f.syntax());
        let _ = writeln!(
            s,
            " deps={:?} pub={:?}",
            f.dependencies().map(|d| d.name().to_owned()).collect::<Vec<_>>(),
            f.public_dependencies().map(|d| d.name().to_owned()).collect::<Vec<_>>()
        );
        for e in f.extensions() {
            let _ = writeln!(s, " ext {}={}", e.full_name(), e.number());
        }
    }
    for m in p.all_messages() {
        let _ = writeln!(s, "msg {} in {}", m.full_name(), m.parent_file().name());
        for f in m.fields() {
            let _ = writeln!(s, " f {}={} {:?} {:?}", f.name(), f.number(), f.kind(), f.cardinality());
        }
        for o in m.oneofs() {
            let _ = writeln!(s, " oneof {}", o.name());
        }
        let mut ex: Vec<String> = m
            .extensions()
            .map(|e| format!("{}={} of {}", e.full_name(), e.number(), e.containing_message().full_name()))
            .collect();
        ex.sort();
        let _ = writeln!(s, " exts {ex:?}");
    }
    for e in p.all_enums() {
        let _ = writeln!(s, "enum {} {:?}", e.full_name(), e.values().map(|v| (v.name().to_owned(), v.number())).collect::<Vec<_>>());
    }
    for e in p.all_extensions() {
        let _ = writeln!(s, "ext {}={} on {} {:?}", e.full_name(), e.number(), e.containing_message().full_name(), e.kind());
    }
    for v in p.services() {
        let _ = write!(s, "svc {}", v.full_name());
        for m in v.methods() {
            let _ = write!(s, " {}({})->{}", m.name(), m.input().full_name(), m.output().full_name());
        }
        s.push('\n');
    }
    s
}

pub fn strip_info(f: &FileDescriptorProto) -> FileDescriptorProto {
    FileDescriptorProto { source_code_info: None, ..f.clone() }
}

/// Removes what the expectation does not model.
pub fn normal(f: &FileDescriptorProto) -> FileDescriptorProto {
    let mut f = strip_info(f);
    fn ext(x: &mut [prost_types::FieldDescriptorProto]) {
        for e in x {
            e.json_name = None;
        }
    }
    fn msg(m: &mut DescriptorProto) {
        ext(&mut m.extension);
        for n in &mut m.nested_type {
            msg(n);
        }
    }
    ext(&mut f.extension);
    for m in &mut f.message_type {
        msg(m);
    }
    f
}

/// The name in an import statement: exactly one statement, from `import` to `;`.
fn import_name(stmt: &str) -> Option<String> {
    let mut s = stmt.strip_prefix("import")?;
    let mut out: Vec<u8> = vec![];
    let mut literal = false;
    loop {
        s = s.trim_start_matches([' ', '\t', '\r', '\n', '\u{b}', '\u{c}']);
        if let Some(r) = s.strip_prefix("//").or_else(|| s.strip_prefix('#')) {
            s = &r[r.find('\n')?..];
        } else if let Some(r) = s.strip_prefix("/*") {
            s = &r[r.find("*/")? + 2..];
        } else if s == ";" {
            return if literal { String::from_utf8(out).ok() } else { None };
        } else if let Some(r) = s.strip_prefix("public").or_else(|| s.strip_prefix("weak")) {
            if literal {
                return None;
            }
            s = r;
        } else {
            let q = s.chars().next().filter(|c| *c == '"' || *c == '\'')?;
            literal = true;
            let b = s.as_bytes();
            let mut i = 1;
            while *b.get(i)? != q as u8 {
                if b[i] != b'\\' {
                    out.push(b[i]);
                    i += 1;
                    continue;
                }
                i += 1;
                let digits = |from: usize, radix: u32, max: usize| -> (usize, u32) {
                    let n = b[from..].iter().take(max).take_while(|c| (**c as char).is_digit(radix)).count();
                    (n, u32::from_str_radix(&s[from..from + n], radix).unwrap_or(0))
                };
                match *b.get(i)? {
                    b'x' | b'X' => {
                        let (n, v) = digits(i + 1, 16, 2);
                        out.push(v as u8);
                        i += 1 + n;
                    }
                    b'0'..=b'7' => {
                        let (n, v) = digits(i, 8, 3);
                        out.push(v as u8);
                        i += n;
                    }
                    u @ (b'u' | b'U') => {
                        let (n, v) = digits(i + 1, 16, if u == b'u' { 4 } else { 8 });
                        out.extend_from_slice(char::from_u32(v)?.to_string().as_bytes());
                        i += 1 + n;
                    }
                    c => {
                        out.push(match c {
                            b'a' => 7,
                            b'b' => 8,
                            b'f' => 12,
                            b'n' => 10,
                            b'r' => 13,
                            b't' => 9,
                            b'v' => 11,
                            c => c,
                        });
                        i += 1;
                    }
                }
            }
            s = &s[i + 1..];
        }
    }
}

/// Source info must be what the parser made of the source, except that a path to an option may have
/// become the path of the field it stands for.
fn info_diff(got: &prost_types::SourceCodeInfo, want: &prost_types::SourceCodeInfo) -> Option<String> {
    if got.location.len() != want.location.len() {
        return Some(format!("{} locations, must be {}", got.location.len(), want.location.len()));
    }
    got.location.iter().zip(&want.location).find_map(|(g, w)| {
        let path = g.path == w.path || w.path.contains(&999);
        let same = path
            && g.span == w.span
            && g.leading_comments == w.leading_comments
            && g.trailing_comments == w.trailing_comments
            && g.leading_detached_comments == w.leading_detached_comments;
        (!same).then(|| format!("{g:?}, must be {w:?}"))
    })
}

/// The part of a descriptor that name resolution and option interpretation leave alone.
pub fn skeleton(f: &FileDescriptorProto) -> FileDescriptorProto {
    let mut f = normal(f);
    f.options = None;
    fn fld(x: &mut prost_types::FieldDescriptorProto) {
        x.options = None;
        x.r#type = None;
        x.type_name = None;
        x.extendee = None;
        x.default_value = None;
        x.json_name = None;
    }
    fn en(e: &mut prost_types::EnumDescriptorProto) {
        e.options = None;
        for v in &mut e.value {
            v.options = None;
        }
    }
    fn msg(m: &mut DescriptorProto) {
        m.options = None;
        m.field.iter_mut().for_each(fld);
        m.extension.iter_mut().for_each(fld);
        m.nested_type.iter_mut().for_each(msg);
        m.enum_type.iter_mut().for_each(en);
        for o in &mut m.oneof_decl {
            o.options = None;
        }
        for r in &mut m.extension_range {
            r.options = None;
        }
    }
    f.message_type.iter_mut().for_each(msg);
    f.enum_type.iter_mut().for_each(en);
    f.extension.iter_mut().for_each(fld);
    for s in &mut f.service {
        s.options = None;
        for m in &mut s.method {
            m.options = None;
            m.input_type = None;
            m.output_type = None;
        }
    }
    f
}

fn marks(f: &FileDescriptorProto) -> Vec<&str> {
    f.message_type.iter().map(|m| m.name()).filter(|n| n.starts_with("Mark")).collect()
}

/// The files a cycle error lists, if it does.
fn chain_of(text: &str) -> Option<Vec<String>> {
    let (_, chain) = text.split_once("detected: ")?;
    if !chain.contains(" -> ") {
        return None;
    }
    Some(chain.split(" -> ").map(|s| s.to_owned()).collect())
}

pub fn first_diff(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let lo = (0..=i.saturating_sub(40)).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0);
        s[lo..].chars().take(160).collect::<String>()
    };
    format!("got ...{}... want ...{}...", cut(a), cut(b))
}

pub struct Exec<'a> {
    pub w: &'a World,
    pub out: RunOut,
    pub registry: BTreeMap<u64, Rc<FileSpec>>,
    pub mems: Rc<RefCell<Vec<MemStore>>>,
    pub sets: Vec<BTreeMap<String, Loaded>>,
    pub real: Vec<Real>,
    set_bytes: Vec<(Vec<u8>, FileDescriptorSet, bool, u32)>,
    armed: Vec<(u64, Trap)>,
    verified: u64,
    /// damaged files are around
    wounds: BTreeSet<u64>,
}

/// What stands between two quotes, wherever.
fn quoted(b: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(b);
    let mut out = vec![];
    for q in ['"', '\''] {
        let p: Vec<&str> = t.split(q).collect();
        out.extend(p.iter().filter(|x| x.len() < 300).map(|x| x.to_string()));
    }
    out
}

impl Exec<'_> {
    fn mems_now(&self) -> Vec<BTreeMap<String, MemEnt>> {
        self.mems.borrow().iter().map(|m| m.ents.clone()).collect()
    }

    fn register(&mut self, c: &Content) -> Vec<u8> {
        let b = c.bytes();
        if matches!(c, Content::Wounded { .. }) {
            self.wounds.insert(gen::content_id(&b));
        }
        if let Some(s) = c.meaning() {
            self.registry.insert(gen::content_id(&b), Rc::new(s));
        }
        b
    }

    /// Properties concerned with whatever goes wrong in this history, given its past.
    fn context(&self, c: usize) -> Vec<&'static str> {
        let r = &self.real[c];
        let mut p = vec![];
        if r.failed_before {
            p.push("C05");
        }
        if !self.wounds.is_empty() {
            p.push("C10");
        }
        if r.model.layers.iter().any(|l| matches!(l, Layer::Set(_))) {
            p.push("C16");
        }
        p
    }

    fn build(&mut self, cfg: &CompilerCfg) -> Option<Real> {
        let mems = self.mems.clone();
        let set_bytes = &self.set_bytes;
        let shape = self.w.hash_seed >> 20;
        let made = guarded(|| -> Result<Compiler, String> {
            if cfg.plain {
                let dirs: Vec<PathBuf> = cfg
                    .layers
                    .iter()
                    .filter_map(|l| match l {
                        Layer::Dir(d) => Some(sys::os(d)),
                        _ => None,
                    })
                    .collect();
                Compiler::new(dirs).map_err(|e| format!("Compiler::new: {e}"))
            } else {
                // the same resolvers can be put together in several ways
                let mut all = resolvers(&cfg.layers, cfg.google, &mems, set_bytes)?;
                if all.len() == 1 && shape & 4 != 0 {
                    return Ok(Compiler::with_file_resolver(all.remove(0)));
                }
                let mut ch = ChainFileResolver::new();
                if shape & 2 != 0 && all.len() > 1 {
                    // a chain within a chain
                    let mut inner = ChainFileResolver::new();
                    let n = ((shape >> 3) as usize % 3 + 1).min(all.len());
                    for r in all.drain(..n) {
                        inner.add(r);
                    }
                    ch.add(inner);
                }
                for r in all {
                    ch.add(r);
                }
                if shape & 1 != 0 {
                    let boxed: Box<dyn FileResolver> = Box::new(ch);
                    return Ok(Compiler::with_file_resolver(boxed));
                }
                Ok(Compiler::with_file_resolver(ch))
            }
        });
        match made {
            Ok(Ok(comp)) => Some(Real {
                comp,
                model: CompilerModel {
                    layers: cfg.layers.clone(),
                    google: cfg.plain || cfg.google,
                    files: BTreeMap::new(),
                    imports: false,
                    info: false,
                },
                held: vec![],
                failed_before: false,
                last_err: None,
                disk_changed: false,
            }),
            Ok(Err(e)) => {
                self.out.violate("restart-refused", &["C16", "C11"], e);
                None
            }
            Err(p) => {
                self.out.violate("panic", &["*"], format!("building a compiler panicked: {p}"));
                None
            }
        }
    }

    pub fn run(&mut self) {
        for c in &self.w.compilers.clone() {
            let Some(r) = self.build(c) else { return };
            self.real.push(r);
        }
        for (i, st) in self.w.steps.clone().iter().enumerate() {
            let before = self.out.violations.len();
            self.step(st);
            for v in &mut self.out.violations[before..] {
                v.detail = format!("step {i}: {}", v.detail);
            }
            if self.out.violations.len() > before {
                break; // later steps would only echo it
            }
        }
        if self.out.violations.is_empty() {
            for c in 0..self.real.len() {
                self.verify_held(c);
            }
        }
    }

    fn step(&mut self, st: &Step) {
        if !matches!(st, Step::Open { .. } | Step::OpenMany { .. }) {
            self.real.iter_mut().for_each(|r| r.last_err = None);
        }
        match st {
            Step::Put { path, content } => {
                let b = self.register(content);
                sys::sys().vfs.apply(&DiskOp::Replace(path.clone(), b));
                self.disk_changed();
            }
            Step::Disk(op) => {
                sys::sys().vfs.apply(op);
                self.disk_changed();
            }
            Step::Fault { path, faults } => {
                sys::sys().faults.insert(lexical(path), faults.clone());
            }
            Step::ClearAll => sys::sys().faults.clear(),
            Step::MemPut { m, name, ent } => {
                if let Some(s) = self.mems.borrow_mut().get_mut(*m) {
                    s.ents.insert(name.clone(), ent.clone());
                }
                self.disk_changed();
            }
            Step::MemRemove { m, name } => {
                if let Some(s) = self.mems.borrow_mut().get_mut(*m) {
                    s.ents.remove(name);
                }
                self.disk_changed();
            }
            Step::Traps(t) => self.armed = t.clone(),
            Step::Imports { c, on } => {
                if let Some(r) = self.real.get_mut(*c) {
                    let _ = guarded(|| {
                        r.comp.include_imports(*on);
                    });
                    r.model.imports = *on;
                    self.verify(*c, false);
                }
            }
            Step::Info { c, on } => {
                if let Some(r) = self.real.get_mut(*c) {
                    let _ = guarded(|| {
                        r.comp.include_source_info(*on);
                    });
                    r.model.info = *on;
                    self.verify(*c, false);
                }
            }
            Step::Hold { c } => self.hold(*c),
            Step::Open { c, path } => {
                if *c < self.real.len() {
                    self.open(*c, &[path.clone()], false);
                }
            }
            Step::OpenMany { c, paths } => {
                if *c < self.real.len() {
                    self.open(*c, paths, true);
                }
            }
            Step::Fresh { c } => {
                if *c < self.real.len() {
                    self.verify_held(*c);
                    if let Some(n) = self.build(&self.w.compilers[*c].clone()) {
                        self.real[*c] = n;
                    }
                }
            }
            Step::Compile { c, paths } => {
                if *c < self.w.compilers.len() {
                    self.compile(*c, paths);
                }
            }
            Step::Look { c, path, name } => {
                if *c < self.real.len() {
                    self.ask(*c, path, name);
                    for m in self.mems.borrow_mut().iter_mut() {
                        m.calls.clear();
                    }
                }
            }
            Step::Restart { c, imports, info, by_struct, chunk } => {
                if *c < self.real.len() {
                    self.restart(*c, *imports, *info, *by_struct, *chunk);
                }
            }
        }
    }

    /// The resolvers are an interface of their own: a name gives the first file there is, whole, or the
    /// reason why not.
    fn ask(&mut self, c: usize, path: &str, name: &str) {
        let s = sys::sys();
        let model = CompilerModel { files: BTreeMap::new(), ..self.real[c].model.clone() };
        let mems = self.mems_now();
        let faults = s.faults.clone();
        let env = Env { vfs: &s.vfs, faults: &faults, mems: &mems, sets: &self.sets, registry: &self.registry };
        let want_name = model.resolve(path).filter(|r| r.1).map(|r| r.0);
        let look = env.lookup(&model, name);
        let mem_text = model.layers.iter().find_map(|l| match l {
            Layer::Mem(m) => match mems[*m].get(name) {
                Some(MemEnt::File { spec, form: 0 }) => Some(Some(String::from_utf8_lossy(&gen::render(spec).0).into_owned())),
                Some(_) => Some(None),
                None => None,
            },
            _ => None,
        });
        let mem_text = mem_text.flatten();
        let (op0, ev0) = (s.opens.len(), s.log.len());
        let rc = self.mems.clone();
        let sets = &self.set_bytes;
        let got = guarded(|| {
            let mut ch = ChainFileResolver::new();
            for r in resolvers(&model.layers, model.google, &rc, sets).expect("sets") {
                ch.add(r);
            }
            let boxed: Box<dyn FileResolver> = Box::new(ch);
            (boxed.resolve_path(&sys::os(path)), boxed.open_file(name))
        });
        let (got_name, got) = match got {
            Ok(g) => g,
            Err(p) => {
                self.out.violate("panic", &["*"], format!("asking the resolvers for {name:?} panicked: {p}"));
                return;
            }
        };
        self.out.probe("resolvers_asked");
        if got_name != want_name {
            self.out.violate("wrong-name", &["C02", "C03", "C14"], format!("resolve_path({path:?}) gave {got_name:?}, must give {want_name:?}"));
            return;
        }
        if s.opens[op0..].iter().any(|o| !o.closed_flag()) {
            self.out.violate("fd-leak", &["C05"], format!("the resolvers left a file open after {name:?}"));
            return;
        }
        let may: BTreeSet<String> = model
            .layers
            .iter()
            .filter_map(|l| match l {
                Layer::Dir(d) => Some(lexical(&join_path(d, name))),
                _ => None,
            })
            .collect();
        for e in &s.log[ev0..] {
            let bad = match e.call {
                "open" => !may.contains(&e.path),
                "open_w" | "write" | "rename" | "unlink" | "mkdir" | "ftruncate" | "rmdir" | "chmod" => true,
                _ => false,
            };
            if bad {
                self.out.violate("outside-access", &["C14"], format!("asking the resolvers for {name:?} did {} on {}", e.call, e.path));
                return;
            }
        }
        let (must, maybe) = match look.clone() {
            Look::Missing => (None, vec![]),
            Look::Err(e, m) => (Some(e), m),
            Look::Found { maybe, .. } => (None, maybe),
        };
        match (got, look) {
            (Err(e), look) => match self.outside_look(&e) {
                None => {}
                Some(e) => {
                    let ok = match look {
                        Look::Missing => e.not_found && !e.parse && !e.io && e.file.as_deref() == Some(name),
                        _ => must.iter().chain(&maybe).any(|m| m.matches(&e)),
                    };
                    if !ok {
                        self.out.violate(
                            "wrong-error",
                            &["C01", "C02", "C09"],
                            format!("the resolvers failed for {name:?} with {} (file={:?} not_found={} parse={} io={}), must be {must:?} or {maybe:?}", e.debug, e.file, e.not_found, e.parse, e.io),
                        );
                    } else {
                        self.out.probe("resolvers_refused");
                    }
                }
            },
            (Ok(f), Look::Found { exp, path, source, kept, .. }) => {
                let fdp = f.file_descriptor_proto();
                if f.name() != name || fdp.name() != name {
                    self.out.violate("wrong-file", &["C02", "C11"], format!("asked for {name:?}, the resolvers gave {:?}", f.name()));
                    return;
                }
                if f.path() != path.as_deref().map(sys::os).as_deref() {
                    self.out.violate("wrong-file", &["C02"], format!("{name:?} has path {:?}, must have {path:?}", f.path()));
                    return;
                }
                if f.source().is_some() != source {
                    self.out.violate("wrong-source", &["C01", "C16"], format!("{name:?} has source: {}, must have: {source}", f.source().is_some()));
                    return;
                }
                let held = match (&path, &exp) {
                    (Some(p), _) => match s.vfs.walk(p) {
                        Ok((_, Some(i))) => String::from_utf8(s.vfs.inodes[i].data.clone()).ok(),
                        _ => None,
                    },
                    (None, Exp::Spec(_)) => mem_text,
                    _ => None,
                };
                if let (Some(t), Some(h)) = (f.source(), &held) {
                    if t != h {
                        self.out.violate("torn-content", &["C01", "C02"], format!("the source of {name:?} is not what the file holds: {}", first_diff(t, h)));
                        return;
                    }
                }
                let text = f.source().map(str::to_owned).or(held);
                let want = match (&kept, text) {
                    (Some(k), _) => Some(k.desc.clone()),
                    (None, Some(t)) => crate::report::parsed(name, &t),
                    _ => None,
                };
                if want.as_ref().is_some_and(|w| w != fdp) {
                    self.out.violate(
                        "wrong-content",
                        &["C01", "C02", "C11", "C16"],
                        format!("{name:?} from the resolvers: {}", first_diff(&format!("{fdp:?}"), &format!("{:?}", want.unwrap()))),
                    );
                    return;
                }
                if let (Exp::Builtin, Some(b)) = (&exp, builtin(name)) {
                    if !b.2.iter().all(|m| fdp.message_type.iter().any(|x| x.name() == *m)) || fdp.dependency != b.1 {
                        self.out.violate("wrong-file", &["C02", "C07"], format!("{name:?} from the resolvers is not the built-in file"));
                        return;
                    }
                }
                self.out.probe("resolvers_gave");
            }
            (Ok(_), _) => {
                self.out.violate("accepted-bad", &["C01", "C02", "C09"], format!("the resolvers gave {name:?}, must fail with {must:?}"));
            }
        }
    }

    fn outside_look(&mut self, e: &protox::Error) -> Option<ErrInfo> {
        match look(e) {
            Ok(e) if e.problems.is_empty() => Some(e),
            Ok(e) => {
                self.out.violate("bad-diagnostic", &["C09", "C10"], format!("{:?} in {}", e.problems, e.debug));
                None
            }
            Err(p) => {
                self.out.violate("panic", &["*"], format!("showing an error panicked: {p}"));
                None
            }
        }
    }

    /// protox::compile(): a compiler of its own, all in one call.
    fn compile(&mut self, c: usize, paths: &[String]) {
        let s = sys::sys();
        let dirs: Vec<String> = self.w.compilers[c]
            .layers
            .iter()
            .filter_map(|l| match l {
                Layer::Dir(d) => Some(d.clone()),
                _ => None,
            })
            .collect();
        let mut model = CompilerModel {
            layers: dirs.iter().cloned().map(Layer::Dir).collect(),
            google: true,
            files: BTreeMap::new(),
            imports: true,
            info: true,
        };
        let faults = s.faults.clone();
        let mut errors = vec![];
        let mut maybe = vec![];
        for p in paths {
            let env = Env { vfs: &s.vfs, faults: &faults, mems: &[], sets: &[], registry: &self.registry };
            let v = model.judge(&env, p);
            maybe.extend(v.maybe);
            if !v.errors.is_empty() {
                errors = v.errors;
                break;
            }
            for (n, f) in v.found {
                model.files.insert(
                    n,
                    Loaded {
                        exp: f.exp,
                        path: f.path,
                        is_import: true,
                        info: f.info,
                        opts_kept: f.opts_kept,
                        seen: None,
                        kept: None,
                    },
                );
            }
        }
        let op0 = s.opens.len();
        let got = match guarded(|| protox::compile(paths.iter().map(|p| sys::os(p)), dirs.iter().map(|d| sys::os(d)))) {
            Ok(g) => g,
            Err(p) => {
                self.out.violate("panic", &["*"], format!("compile({paths:?}) panicked: {p}"));
                return;
            }
        };
        if s.opens[op0..].iter().any(|o| !o.closed_flag()) {
            self.out.violate("fd-leak", &["C05"], format!("compile({paths:?}) left files open"));
            return;
        }
        match got {
            Ok(set) => {
                self.out.probe("compile_ok");
                if !errors.is_empty() {
                    self.out.violate("accepted-bad", &["C01", "C02", "C03", "C08", "C09"], format!("compile({paths:?}) succeeded although {errors:?}"));
                    return;
                }
                let names: BTreeSet<&str> = set.file.iter().map(|f| f.name()).collect();
                let want: BTreeSet<&str> = model.files.keys().map(|n| n.as_str()).collect();
                if names != want || names.len() != set.file.len() {
                    self.out.violate("wrong-output-files", &["C07", "C15"], format!("compile({paths:?}) gave {names:?}, must give {want:?}"));
                    return;
                }
                let mut done: BTreeSet<&str> = BTreeSet::new();
                for f in &set.file {
                    if let Some(d) = f.dependency.iter().find(|d| !done.contains(d.as_str())) {
                        self.out.violate("wrong-order", &["C07"], format!("compile({paths:?}): {} is before its import {d}", f.name()));
                        return;
                    }
                    done.insert(f.name());
                    if f.source_code_info.is_none() {
                        self.out.violate("wrong-source-info", &["C15"], format!("compile({paths:?}): {} has no source info", f.name()));
                        return;
                    }
                    if let Exp::Spec(s) = &model.files[f.name()].exp {
                        let (want, got) = (normal(&gen::expected(s, f.name())), normal(f));
                        if want != got {
                            let diff = first_diff(&format!("{got:?}"), &format!("{want:?}"));
                            self.out.violate("wrong-content", &["C01", "C02", "C03", "C07"], format!("compile({paths:?}): {}: {diff}", f.name()));
                            return;
                        }
                    }
                }
            }
            Err(e) => match look(&e) {
                Err(p) => self.out.violate("panic", &["*"], format!("showing the error of compile({paths:?}) panicked: {p}")),
                Ok(e) => {
                    self.out.probe("compile_err");
                    if errors.is_empty() && maybe.is_empty() {
                        self.out.violate(
                            "refused-good",
                            &["C02", "C03", "C05", "C07", "C08"],
                            format!("compile({paths:?}) must succeed but failed: {}", e.debug),
                        );
                    } else if !errors.iter().chain(&maybe).any(|x| x.matches(&e)) {
                        self.out.violate(
                            "wrong-error",
                            &["C02", "C09"],
                            format!("compile({paths:?}) failed with {} expected one of {errors:?} {maybe:?}", e.debug),
                        );
                    }
                }
            },
        }
    }

    fn disk_changed(&mut self) {
        for r in &mut self.real {
            r.disk_changed = true;
        }
    }

    fn hold(&mut self, c: usize) {
        let Some(r) = self.real.get_mut(c) else { return };
        let got = guarded(|| {
            let pool = r.comp.descriptor_pool();
            let digest = digest_pool(&pool);
            let set = r.comp.file_descriptor_set();
            let bytes = r.comp.encode_file_descriptor_set();
            (pool, digest, set, bytes)
        });
        match got {
            Ok((pool, digest, set, bytes)) => {
                self.out.probe("pool_held");
                r.held.push(Held { pool, digest, set, bytes })
            }
            Err(p) => self.out.violate("panic", &["*"], format!("reading the compiler's output panicked: {p}")),
        }
    }

    fn verify_held(&mut self, c: usize) {
        let r = &self.real[c];
        for h in &r.held {
            match guarded(|| digest_pool(&h.pool)) {
                Ok(d) if d == h.digest => {}
                Ok(d) => self.out.violate(
                    "held-pool-changed",
                    &["C04", "C06", "C12"],
                    format!("a pool handed out earlier changed: {}", first_diff(&d, &h.digest)),
                ),
                Err(p) => self.out.violate("panic", &["*"], format!("reading a held pool panicked: {p}")),
            }
            let _ = (&h.set, &h.bytes);
        }
    }

    // --------------------------------------------------------------------------------------

    fn open(&mut self, c: usize, paths: &[String], many: bool) {
        let s = sys::sys();
        let traps = std::mem::take(&mut self.armed);
        let relaxed = !traps.is_empty();
        s.traps = traps.clone();
        s.trap_clock = 0;
        let ev0 = s.log.len();
        let op0 = s.opens.len();
        let fired0: u64 = s.fired.values().sum();
        let vfs0 = if relaxed { Some(s.vfs.clone()) } else { None };
        let faults0 = s.faults.clone();
        let mems0 = self.mems_now();
        for m in self.mems.borrow_mut().iter_mut() {
            m.calls.clear();
        }

        // what must happen
        let mut verdicts: Vec<Verdict> = vec![];
        let mut model = self.real[c].model.clone();
        let mut undecided = false;
        let before = model.files.clone();
        for p in paths {
            let env = Env { vfs: &s.vfs, faults: &faults0, mems: &mems0, sets: &self.sets, registry: &self.registry };
            let v = model.judge(&env, p);
            let stop = !v.errors.is_empty();
            undecided |= !v.maybe.is_empty();
            if !stop {
                // commit in the model, so that the next path of the same call sees it
                for (n, f) in &v.found {
                    model.files.insert(
                        n.clone(),
                        Loaded {
                            exp: f.exp.clone(),
                            path: f.path.clone(),
                            is_import: true,
                            info: f.info,
                            opts_kept: f.opts_kept,
                            seen: None,
                            kept: f.kept.clone(),
                        },
                    );
                }
                if let Some(n) = &v.name {
                    if let Some(l) = model.files.get_mut(n) {
                        l.is_import = false;
                    }
                }
            }
            verdicts.push(v);
            if stop {
                break;
            }
        }

        // what does happen
        let r = &mut self.real[c];
        let res = if many {
            guarded(|| r.comp.open_files(paths.iter().map(|p| sys::os(p))).map(|_| ()))
        } else {
            guarded(|| r.comp.open_file(sys::os(&paths[0])).map(|_| ()))
        };
        s.traps.clear();
        let outcome: Result<(), ErrInfo> = match res {
            Err(p) => {
                self.out.violate("panic", &["*"], format!("open_file({paths:?}) panicked: {p}"));
                return;
            }
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => match look(&e) {
                Ok(i) => Err(i),
                Err(p) => {
                    self.out.violate(
                        "panic",
                        &["*"],
                        format!("showing the error of open_file({paths:?}) panicked: {p}"),
                    );
                    return;
                }
            },
        };
        self.out.note(match &outcome {
            Ok(()) => 1,
            Err(e) => hash_bytes(2, e.debug.as_bytes()),
        });
        let fired = s.fired.values().sum::<u64>() > fired0;
        if fired {
            self.out.nontrivial = true;
            self.out.probe("open_with_fault_fired");
        }

        if !self.wounds.is_empty() && s.opens[op0..].iter().any(|o| self.wounds.contains(&gen::content_id(&o.delivered))) {
            self.out.nontrivial = true;
            self.out.probe(if outcome.is_ok() { "wounded_accepted" } else { "wounded_rejected" });
            self.out.probe("wounded_read");
        }

        // descriptors are given back, nothing is written, nothing outside the include paths is read
        let leaked: Vec<String> = s.opens[op0..].iter().filter(|o| !o.closed_flag()).map(|o| o.path.clone()).collect();
        if !leaked.is_empty() {
            self.out.violate("fd-leak", &["C05"], format!("open_file({paths:?}) left {leaked:?} open"));
        }
        self.confinement(c, paths, ev0, &verdicts, relaxed);
        let asked: BTreeSet<String> = verdicts.iter().flat_map(|v| v.asked.iter().cloned()).collect();
        self.read_once(c, paths, op0, &before, relaxed, &asked);
        if !self.out.violations.is_empty() {
            return;
        }

        if let Err(e) = &outcome {
            if !e.problems.is_empty() {
                self.out.violate(
                    "bad-diagnostic",
                    &["C09", "C10"],
                    format!("open_file({paths:?}): {:?} in {}", e.problems, e.debug),
                );
                return;
            }
        }
        let last = self.real[c].last_err.take();
        if let (Err(e), false) = (&outcome, relaxed) {
            let shown = format!("{} {} {} {:?} {}\n{}", e.not_found, e.parse, e.io, e.file, e.debug, e.rendered);
            if let Some((p, m, d)) = last {
                if p == paths && m == many {
                    self.out.probe("failed_twice_alike");
                    if d != shown {
                        self.out.violate(
                            "unstable-error",
                            &["C05", "C09", "C12"],
                            format!("open_file({paths:?}) twice in a row, with nothing changed, failed with first {d} and then {shown}"),
                        );
                        return;
                    }
                }
            }
            self.real[c].last_err = Some((paths.to_vec(), many, shown));
        }
        if relaxed {
            self.judge_relaxed(c, paths, &outcome, &verdicts, vfs0.as_ref().unwrap(), &traps, (op0, ev0), fired);
            return;
        }
        self.judge_exact(c, paths, &outcome, &verdicts, undecided, before);
    }

    /// When the disk changes while it is read, any name that any file mentions may have been asked for.
    fn mentioned(&self) -> BTreeSet<String> {
        let s = sys::sys();
        let mut names: BTreeSet<String> = BTreeSet::new();
        for f in self.registry.values() {
            names.extend(f.imports.iter().map(|i| i.name.clone()));
        }
        // damaged and mixed files: whatever stands in quotes in what was read, or the parser finds there
        for o in &s.opens {
            let id = gen::content_id(&o.delivered);
            if self.wounds.contains(&id) || !self.registry.contains_key(&id) {
                names.extend(quoted(&o.delivered));
                if let Some(f) = std::str::from_utf8(&o.delivered).ok().and_then(|t| crate::report::parsed("x.proto", t)) {
                    names.extend(f.dependency);
                }
            }
        }
        // imports of these are refused
        names.retain(|n| !crate::model::bad_import(n));
        names.extend(crate::model::BUILTINS.iter().map(|b| b.0.to_owned()));
        names
    }

    fn confinement(&mut self, c: usize, paths: &[String], ev0: usize, verdicts: &[Verdict], relaxed: bool) {
        let s = sys::sys();
        let mut allowed: BTreeSet<String> = BTreeSet::new();
        let model = &self.real[c].model;
        let mut names: BTreeSet<String> = BTreeSet::new();
        for v in verdicts {
            names.extend(v.asked.iter().cloned());
            names.extend(v.name.iter().cloned());
        }
        if relaxed {
            names.extend(self.mentioned());
        }
        let mut roots = vec![];
        for l in &model.layers {
            if let Layer::Dir(d) = l {
                roots.push(lexical(d));
                for n in &names {
                    allowed.insert(lexical(&join_path(d, n)));
                }
            }
        }
        for p in paths {
            // looking at the path itself is fine when it lies inside an include directory
            if let Some((_, true)) = model.resolve(p) {
                allowed.insert(lexical(p));
            }
        }
        for e in &s.log[ev0..] {
            match e.call {
                "open" | "stat" | "lstat" | "access" | "realpath" | "readlink" => {
                    let ancestor = e.call != "open" && roots.iter().any(|r| *r == e.path || r.starts_with(&format!("{}/", e.path)) || e.path == "/");
                    // directories on the way to an allowed file
                    let on_way = e.call != "open" && allowed.iter().any(|a| a.starts_with(&format!("{}/", e.path)));
                    if !allowed.contains(&e.path) && !ancestor && !on_way {
                        self.out.violate(
                            "outside-access",
                            &["C14"],
                            format!("open_file({paths:?}) did {} on {}, which no include path and import names", e.call, e.path),
                        );
                        return;
                    }
                }
                "open_w" | "write" | "rename" | "unlink" | "mkdir" | "ftruncate" | "rmdir" | "chmod" => {
                    self.out.violate(
                        "disk-written",
                        &["C14"],
                        format!("open_file({paths:?}) did {} on {}", e.call, e.path),
                    );
                    return;
                }
                _ => {}
            }
        }
        self.out.probe("confinement_checked");
    }

    fn read_once(
        &mut self,
        c: usize,
        paths: &[String],
        op0: usize,
        before: &BTreeMap<String, Loaded>,
        relaxed: bool,
        asked: &BTreeSet<String>,
    ) {
        let s = sys::sys();
        let more = if relaxed { self.mentioned() } else { BTreeSet::new() };
        let asked = asked.iter().chain(more.iter()).filter(|n| !relaxed || !before.contains_key(*n));
        // one file can have several names, when include directories contain each other
        let mut names: BTreeMap<String, usize> = BTreeMap::new();
        for l in &self.real[c].model.layers {
            if let Layer::Dir(d) = l {
                for n in asked.clone() {
                    *names.entry(lexical(&join_path(d, n))).or_insert(0) += 1;
                }
            }
        }
        let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
        for o in &s.opens[op0..] {
            if o.err.is_none() && (o.eof || !o.delivered.is_empty()) {
                *seen.entry(&o.path).or_insert(0) += 1;
            }
        }
        if !relaxed {
            if let Some((p, n)) = seen.iter().find(|(p, n)| **n > *names.get(**p).unwrap_or(&1)) {
                self.out.violate(
                    "read-twice",
                    &["C06", "C08"],
                    format!("open_file({paths:?}) read {p} {n} times"),
                );
                return;
            }
        }
        let model = &self.real[c].model;
        for (n, l) in before {
            let files = model.layers.iter().filter_map(|y| match y {
                Layer::Dir(d) => Some(lexical(&join_path(d, n))),
                _ => None,
            });
            for p in files {
                if seen.contains_key(p.as_str()) && !names.contains_key(&p) {
                    let _ = l;
                    self.out.violate(
                        "reloaded",
                        &["C06"],
                        format!("open_file({paths:?}) read {p} again although {n} is loaded"),
                    );
                    return;
                }
            }
        }
        for m in self.mems.borrow().iter() {
            let mut cnt: BTreeMap<&str, usize> = BTreeMap::new();
            for n in &m.calls {
                *cnt.entry(n).or_insert(0) += 1;
                if before.contains_key(n) {
                    self.out.violate("reloaded", &["C06"], format!("the resolver was asked for {n} again although it is loaded"));
                    return;
                }
            }
            if let Some((n, k)) = cnt.iter().find(|(_, k)| **k > 1) {
                // a name not found may be asked for by several importers; a found one only once
                if m.ents.contains_key(*n) {
                    self.out.violate("read-twice", &["C06", "C08"], format!("the resolver was asked for {n} {k} times"));
                    return;
                }
            }
        }
    }

    fn judge_exact(
        &mut self,
        c: usize,
        paths: &[String],
        outcome: &Result<(), ErrInfo>,
        verdicts: &[Verdict],
        undecided: bool,
        before: BTreeMap<String, Loaded>,
    ) {
        let last = verdicts.last().unwrap();
        let errors: Vec<&ErrExp> = last.errors.iter().collect();
        let maybes: Vec<&ErrExp> = verdicts.iter().flat_map(|v| v.maybe.iter()).collect();
        let benign = verdicts.iter().any(|v| v.benign);
        match outcome {
            Ok(()) => {
                self.out.note_shape("ok");
                self.out.probe("open_ok");
                if benign {
                    self.out.probe("open_ok_under_benign_faults");
                }
                if self.real[c].failed_before {
                    self.out.probe("open_ok_after_failure");
                }
                if !errors.is_empty() {
                    let mut props: Vec<&str> = self.context(c);
                    for e in &errors {
                        props.extend(match e {
                            ErrExp::Io { .. } => &["C01", "C02", "C05", "C09"][..],
                            ErrExp::Custom(_) => &["C02", "C09"],
                            ErrExp::ImportMissing { .. } => &["C08", "C09", "C02"],
                            ErrExp::RootMissing { .. } => &["C02", "C03", "C09"],
                            ErrExp::Circular { .. } | ErrExp::Duplicate { .. } => &["C08"],
                            ErrExp::Shadow { .. } => &["C03"],
                            ErrExp::Utf8 { .. } => &["C01", "C09", "C10"],
                            ErrExp::Parse { .. } | ErrExp::Check { .. } => &["C09", "C10", "C08"],
                            ErrExp::BadImport { .. } => &["C09", "C10", "C14", "C03", "C02"],
                            ErrExp::TooLarge { .. } => &["C09"],
                        });
                    }
                    self.out.violate(
                        "accepted-bad",
                        &props,
                        format!("open_file({paths:?}) succeeded although {errors:?}"),
                    );
                    return;
                }
            }
            Err(e) => {
                let all: Vec<&&ErrExp> = errors.iter().chain(&maybes).collect();
                self.out.probe("open_err");
                let class = all.iter().find(|x| x.matches(e)).map(|x| x.class());
                self.out.note_shape(class.unwrap_or("?"));
                if let Some(k) = class {
                    self.out.probe(&format!("error_{k}"));
                }
                if errors.is_empty() && maybes.is_empty() {
                    let mut props = vec!["C02", "C03", "C08"];
                    if benign {
                        props.push("C01");
                    }
                    props.extend(self.context(c));
                    if self.real[c].failed_before {
                        props.push("C04");
                    }
                    if self.real[c].disk_changed {
                        props.push("C06");
                    }
                    if e.parse || e.io {
                        props.push("C01");
                    }
                    props.push("C07");
                    self.out.violate(
                        "refused-good",
                        &props,
                        format!("open_file({paths:?}) must succeed but failed: {}", e.debug),
                    );
                    return;
                }
                if class.is_none() {
                    let mut props = self.context(c);
                    props.push("C09");
                    if e.not_found || e.debug.contains("not found") {
                        props.push("C02");
                    }
                    for x in &all {
                        props.extend(match x {
                            ErrExp::Io { .. } => &["C02", "C01", "C05"][..],
                            ErrExp::Custom(_) => &["C02"],
                            ErrExp::RootMissing { .. } => &["C02"],
                            ErrExp::Shadow { .. } => &["C03"],
                            ErrExp::Circular { .. } | ErrExp::Duplicate { .. } | ErrExp::ImportMissing { .. } => &["C08"],
                            ErrExp::Utf8 { .. } => &["C01"],
                            _ => &[],
                        });
                    }
                    self.out.violate(
                        "wrong-error",
                        &props,
                        format!(
                            "open_file({paths:?}) failed with {:?} (not_found={} parse={} io={} file={:?}), expected one of {:?}",
                            e.debug, e.not_found, e.parse, e.io, e.file, all
                        ),
                    );
                    return;
                }
                // the chain of a cycle is one of imports, and comes back
                if class == Some("circular") {
                    if let Some(chain) = chain_of(&e.display) {
                        let deps = |n: &str| -> Option<Vec<String>> {
                            self.real[c].model.files.get(n).map(|l| deps_of(&l.exp, n)).or_else(|| {
                                verdicts.iter().find_map(|v| v.found.get(n)).map(|f| deps_of(&f.exp, n))
                            })
                        };
                        let steps = chain.windows(2).all(|w| deps(&w[0]).is_some_and(|d| d.contains(&w[1])));
                        let back = chain.split_last().is_some_and(|(l, rest)| rest.contains(l));
                        if !steps || !back {
                            self.out.violate("false-cycle", &["C08", "C09"], format!("open_file({paths:?}): {} is no cycle", e.display));
                            return;
                        }
                        self.out.probe("cycle_chain_checked");
                    }
                }
                // a missing or duplicated import points at an import statement of that name
                for x in &all {
                    let (ErrExp::ImportMissing { name, has_source: true, .. } | ErrExp::Duplicate { name, has_source: true, .. }) = x else {
                        continue;
                    };
                    if x.matches(e) && e.display.contains(&format!("'{name}'")) {
                        let ok = e.labels.iter().any(|l| l.2.as_ref().is_some_and(|t| import_name(t).as_ref() == Some(name)));
                        if !ok {
                            self.out.violate(
                                "import-label",
                                &["C09"],
                                format!("the error for the import of {name} ({}) does not point at it: {:?}", x.class(), e.labels),
                            );
                            return;
                        }
                        self.out.probe("import_label_checked");
                        if x.class() == "duplicate" {
                            self.out.probe("duplicate_label_checked");
                        }
                        break;
                    }
                }
                self.real[c].failed_before = true;
            }
        }
        // adopt into the model
        let ok_paths = if outcome.is_ok() { verdicts.len() } else { verdicts.len() };
        let mut must: BTreeMap<String, Loaded> = before.clone();
        let mut may: BTreeMap<String, Loaded> = BTreeMap::new();
        for (i, v) in verdicts.iter().take(ok_paths).enumerate() {
            let certain = v.errors.is_empty() && (outcome.is_ok() || !undecided) && (outcome.is_ok() || i + 1 < verdicts.len());
            for (n, f) in &v.found {
                let l = Loaded {
                    exp: f.exp.clone(),
                    path: f.path.clone(),
                    is_import: true,
                    info: f.info,
                    opts_kept: f.opts_kept,
                    seen: None,
                    kept: f.kept.clone(),
                };
                if certain {
                    must.entry(n.clone()).or_insert(l);
                } else {
                    may.entry(n.clone()).or_insert(l);
                }
            }
            if certain {
                if let Some(n) = &v.name {
                    if let Some(l) = must.get_mut(n) {
                        l.is_import = false;
                    }
                }
            }
        }
        // with undecided verdicts a failing call may have got through some of its paths
        let mut loose_flags = BTreeSet::new();
        if outcome.is_err() && undecided {
            for v in verdicts {
                if let Some(n) = &v.name {
                    loose_flags.insert(n.clone());
                }
            }
        }
        self.adopt(c, paths, must, may, outcome.is_err(), &loose_flags);
        self.verify(c, outcome.is_err());
    }

    /// Compares the list of loaded files with what must and may be there, and takes it over.
    fn adopt(
        &mut self,
        c: usize,
        paths: &[String],
        must: BTreeMap<String, Loaded>,
        may: BTreeMap<String, Loaded>,
        failed: bool,
        loose_flags: &BTreeSet<String>,
    ) {
        let context = self.context(c);
        let r = &mut self.real[c];
        let got = match guarded(|| {
            let n = r.comp.files().len();
            (n, r.comp.files().map(|f| (f.name().to_owned(), f.path().map(sys::of_os), f.is_import())).collect::<Vec<_>>())
        }) {
            Ok((n, g)) => {
                if n != g.len() {
                    self.out.violate("wrong-count", &["C07", "C15"], format!("files() says it has {n} files, but gives {}", g.len()));
                    return;
                }
                g
            }
            Err(p) => {
                self.out.violate("panic", &["*"], format!("files() panicked after open_file({paths:?}): {p}"));
                return;
            }
        };
        let mut files = BTreeMap::new();
        for (n, path, is_import) in &got {
            let (l, optional) = match (must.get(n), may.get(n)) {
                (Some(l), _) => (l, false),
                (None, Some(l)) => (l, true),
                (None, None) => {
                    self.out.violate(
                        "unexpected-file",
                        &["C07", "C04", "C02"],
                        format!("after open_file({paths:?}) the compiler holds {n}, which nothing imports"),
                    );
                    return;
                }
            };
            let same = match (&l.path, path) {
                (None, None) => true,
                (Some(a), Some(b)) => path_same(a, b),
                _ => false,
            };
            if !same {
                let mut props = context.clone();
                props.extend(if r.model.files.contains_key(n) { ["C04", "C06"] } else { ["C02", "C03"] });
                self.out.violate(
                    "wrong-path",
                    &props,
                    format!("after open_file({paths:?}) {n} comes from {path:?}, must come from {:?}", l.path),
                );
                return;
            }
            let want = l.is_import;
            if *is_import != want && !(loose_flags.contains(n) && !*is_import) {
                let mut props = vec!["C07", "C15"];
                if failed {
                    props.push("C04");
                }
                props.extend(context.iter().filter(|p| **p == "C16"));
                self.out.violate(
                    "wrong-import-flag",
                    &props,
                    format!("after open_file({paths:?}) {n} has is_import={is_import}, must be {want} (failed={failed})"),
                );
                return;
            }
            if optional {
                self.out.probe("imports_kept_by_failed_open");
            }
            let mut l = l.clone();
            l.is_import = *is_import;
            files.insert(n.clone(), l);
        }
        for n in must.keys() {
            if !files.contains_key(n) {
                let props: &[&str] = if r.model.files.contains_key(n) { &["C04", "C06"] } else { &["C07", "C08"] };
                self.out.violate(
                    "file-lost",
                    props,
                    format!("after open_file({paths:?}) the compiler does not hold {n} (failed={failed})"),
                );
                return;
            }
        }
        if files.len() != got.len() {
            self.out.violate("file-listed-twice", &["C06", "C07"], format!("files() lists {got:?}"));
            return;
        }
        r.model.files = files;
    }

    /// Compares everything the compiler can output with the model.
    fn verify(&mut self, c: usize, failed: bool) {
        if !self.out.violations.is_empty() {
            return;
        }
        // the switches are flipped one at a time, or together, in varying order, ending where they were
        self.verified += 1;
        let way = self.verified;
        let (i, f) = (self.real[c].model.imports, self.real[c].model.info);
        let modes: Vec<(bool, bool)> = if self.w.all_modes {
            match way % 4 {
                0 => vec![(i, !f), (!i, !f), (!i, f), (i, f)],
                1 => vec![(!i, f), (!i, !f), (i, !f), (i, f)],
                2 => vec![(!i, !f), (!i, f), (i, !f), (i, f)],
                _ => vec![(false, false), (false, true), (true, false), (true, true), (i, f)],
            }
        } else {
            vec![(true, true), (i, f)]
        };
        let always = way % 4 == 3;
        let encode_first = way % 3 == 0;
        let mut full: Option<FileDescriptorSet> = None;
        let read = |comp: &Compiler| {
            if encode_first {
                let e = comp.encode_file_descriptor_set();
                (comp.file_descriptor_set(), e)
            } else {
                let s = comp.file_descriptor_set();
                (s, comp.encode_file_descriptor_set())
            }
        };
        let first = guarded(|| read(&self.real[c].comp));
        let first = match first {
            Ok(x) => x,
            Err(p) => {
                self.out.violate("panic", &["*"], format!("reading the descriptor set panicked: {p}"));
                return;
            }
        };
        if !self.verify_set(c, &first.0, &first.1, i, f, failed) {
            return;
        }
        if i && f {
            full = Some(first.0.clone());
        }
        let mut at = (i, f);
        for (k, (imports, info)) in modes.iter().enumerate() {
            let r = &mut self.real[c];
            let got = guarded(|| {
                if always || at.0 != *imports {
                    r.comp.include_imports(*imports);
                }
                if always || at.1 != *info {
                    r.comp.include_source_info(*info);
                }
                read(&r.comp)
            });
            at = (*imports, *info);
            let (set, enc) = match got {
                Ok(x) => x,
                Err(p) => {
                    self.out.violate("panic", &["*"], format!("producing the descriptor set panicked: {p}"));
                    return;
                }
            };
            if k + 1 == modes.len() && (&set, &enc) != (&first.0, &first.1) {
                self.out.violate("output-unstable", &["C15", "C12"], "asking twice gives two different descriptor sets".to_owned());
                return;
            }
            if !self.verify_set(c, &set, &enc, *imports, *info, failed) {
                return;
            }
            if *imports && *info {
                full = Some(set);
            }
        }
        if let Some(set) = full {
            self.verify_content(c, &set, failed);
        }
        if self.out.violations.is_empty() {
            self.verify_pool(c, failed);
        }
    }

    fn verify_set(&mut self, c: usize, set: &FileDescriptorSet, enc: &[u8], imports: bool, info: bool, failed: bool) -> bool {
        let model = &self.real[c].model;
        let mut h = 0u64;
        for f in &set.file {
            h = hash_bytes(h, f.name().as_bytes());
        }
        self.out.note(h ^ hash_bytes(1, enc));
        let want: BTreeSet<&String> =
            model.files.iter().filter(|(_, l)| imports || !l.is_import).map(|(n, _)| n).collect();
        let got: BTreeSet<String> = set.file.iter().map(|f| f.name().to_owned()).collect();
        if got.len() != set.file.len() || got.iter().collect::<BTreeSet<_>>() != want {
            let mut props = vec!["C07", "C15"];
            if failed {
                props.push("C04");
            }
            self.out.violate(
                "wrong-output-files",
                &props,
                format!("descriptor set (imports={imports}) holds {:?}, must hold {want:?}", set.file.iter().map(|f| f.name()).collect::<Vec<_>>()),
            );
            return false;
        }
        // order: a file after everything it imports
        let mut pos: BTreeMap<&str, usize> = BTreeMap::new();
        for (i, f) in set.file.iter().enumerate() {
            pos.insert(f.name(), i);
        }
        for (i, f) in set.file.iter().enumerate() {
            for d in &f.dependency {
                match pos.get(d.as_str()) {
                    Some(j) if *j < i => {}
                    None if !imports => {}
                    x => {
                        let mut props = vec!["C07"];
                        if failed {
                            props.push("C04");
                        }
                        self.out.violate(
                            "wrong-order",
                            &props,
                            format!("{} at {i} imports {d} at {x:?} (imports={imports})", f.name()),
                        );
                        return false;
                    }
                }
            }
            let has = f.source_code_info.is_some();
            let can = model.files[f.name()].info;
            if has != (info && can) {
                self.out.violate(
                    "wrong-source-info",
                    &["C15"],
                    format!("{}: source info present={has}, asked for={info}, available={can}", f.name()),
                );
                return false;
            }
        }
        // the encoded form says the same
        let deep = model.files.values().any(|l| matches!(&l.exp, Exp::Spec(s) if s.deep > 80));
        match FileDescriptorSet::decode(enc) {
            // beyond the recursion limit of the decoder
            Err(_) if deep => {
                self.out.probe("deep_nesting_encoded");
                let same = model.files.values().all(|l| matches!(&l.exp, Exp::Spec(s) if gen::option_uses(s).is_empty()));
                if same && set.encode_to_vec() != enc {
                    self.out.violate("encoding-differs", &["C15"], format!("encoded and structured output differ (imports={imports} info={info})"));
                    return false;
                }
            }
            Err(e) => {
                self.out.violate("encoding-broken", &["C15"], format!("encoded descriptor set does not decode: {e}"));
                return false;
            }
            Ok(d) => {
                if d != *set {
                    self.out.violate(
                        "encoding-differs",
                        &["C15"],
                        format!("encoded and structured output differ (imports={imports} info={info}): {}", first_diff(&format!("{d:?}"), &format!("{set:?}"))),
                    );
                    return false;
                }
            }
        }
        let Some(files) = wire::set_files(enc) else {
            self.out.violate("encoding-broken", &["C15"], "encoded descriptor set is not a sequence of files".to_owned());
            return false;
        };
        for (n, bytes, has) in &files {
            let l = &model.files[n];
            if *has != (info && l.info) {
                self.out.violate("wrong-source-info", &["C15"], format!("{n}: encoded source info present={has}, asked for={info}"));
                return false;
            }
            if let Some(Kept { bytes: Some(b), info: i, .. }) = l.kept.as_deref() {
                if (!i || info) && b != bytes {
                    self.out.violate("restored-bytes", &["C16"], format!("{n}: the bytes persisted again differ (info={info})"));
                    return false;
                }
                self.out.probe("restored_bytes_checked");
            }
            if let (Exp::Spec(s), true) = (&l.exp, self.wounds.is_empty()) {
                let want = if l.opts_kept { gen::option_uses(s) } else { vec![] };
                match wire::custom_options(bytes) {
                    Some(got) if got == want => {
                        if !want.is_empty() {
                            self.out.probe("custom_options_checked");
                        }
                    }
                    got => {
                        self.out.violate(
                            "custom-options",
                            &["C15", "C16"],
                            format!("{n}: custom options in the encoded output (imports={imports} info={info}) are {got:?}, must be {want:?}"),
                        );
                        return false;
                    }
                }
            }
        }
        true
    }

    fn verify_content(&mut self, c: usize, set: &FileDescriptorSet, failed: bool) {
        let changed = self.real[c].disk_changed;
        let from_set = self.real[c].model.layers.iter().any(|l| matches!(l, Layer::Set(_)));
        let context = self.context(c);
        let model = &mut self.real[c].model;
        for f in &set.file {
            let l = model.files.get_mut(f.name()).unwrap();
            if let Some(seen) = &l.seen {
                if **seen != *f {
                    let mut props = vec![];
                    if failed {
                        props.push("C04");
                    }
                    if changed || !failed {
                        props.push("C06");
                    }
                    if from_set {
                        props.push("C16");
                    }
                    self.out.violate(
                        "descriptor-changed",
                        &props,
                        format!("{} changed after it was loaded: {}", f.name(), first_diff(&format!("{f:?}"), &format!("{seen:?}"))),
                    );
                    return;
                }
                continue;
            }
            match &l.exp {
                Exp::Spec(s) => {
                    let want = normal(&gen::expected(s, f.name()));
                    let got = normal(f);
                    if want != got {
                        let (gm, wm) = (marks(&got), marks(&want));
                        let other = gm != wm;
                        let mut props = if other { vec!["C02", "C03", "C06"] } else { vec!["C01", "C07"] };
                        if gm.iter().all(|m| wm.contains(m)) {
                            props.extend(["C01", "C07"]);
                        }
                        props.extend(context);
                        self.out.violate(
                            if other { "wrong-file" } else { "wrong-content" },
                            &props,
                            format!("{}: marks {gm:?}, expected {wm:?}; {}", f.name(), first_diff(&format!("{got:?}"), &format!("{want:?}"))),
                        );
                        return;
                    }
                }
                Exp::Opaque(d) => {
                    if skeleton(d) != skeleton(f) {
                        self.out.violate(
                            "wrong-content",
                            &["C01", "C02", "C06"],
                            format!("{}: {}", f.name(), first_diff(&format!("{:?}", skeleton(f)), &format!("{:?}", skeleton(d)))),
                        );
                        return;
                    }
                }
                Exp::Builtin => {
                    if f.package() != "google.protobuf" && f.package() != "google.protobuf.compiler" {
                        self.out.violate("wrong-file", &["C02"], format!("{} is not the built-in file", f.name()));
                        return;
                    }
                    let first = f.message_type.first().map(|m| m.name().to_owned()).unwrap_or_default();
                    let want = match f.name().strip_prefix("google/protobuf/").unwrap_or_default() {
                        "any.proto" => "Any",
                        "api.proto" => "Api",
                        "descriptor.proto" => "FileDescriptorSet",
                        "duration.proto" => "Duration",
                        "empty.proto" => "Empty",
                        "field_mask.proto" => "FieldMask",
                        "source_context.proto" => "SourceContext",
                        "struct.proto" => "Struct",
                        "timestamp.proto" => "Timestamp",
                        "type.proto" => "Type",
                        "wrappers.proto" => "DoubleValue",
                        "compiler/plugin.proto" => "Version",
                        _ => "",
                    };
                    if first != want {
                        self.out.violate(
                            "wrong-file",
                            &["C02", "C07"],
                            format!("built-in {} begins with message {first:?}, must begin with {want:?}", f.name()),
                        );
                        return;
                    }
                    self.out.probe("builtin_used");
                }
            }
            // comments and spans are those of this very source
            if let (Some(got), true, None, true) = (&f.source_code_info, l.info, &l.kept, self.wounds.is_empty()) {
                let parsed = match &l.exp {
                    Exp::Spec(s) => crate::report::parsed(f.name(), &String::from_utf8_lossy(&gen::render(s).0)),
                    Exp::Opaque(d) => Some((**d).clone()),
                    Exp::Builtin => None,
                };
                if let Some(want) = parsed.and_then(|p| p.source_code_info) {
                    if let Some(d) = info_diff(got, &want) {
                        self.out.violate(
                            "wrong-source-info",
                            &["C15", "C07"],
                            format!("{}: the source info is not that of the source: {d}", f.name()),
                        );
                        return;
                    }
                    self.out.probe("source_info_compared");
                }
            }
            if let Some(k) = &l.kept {
                if k.desc != *f {
                    self.out.violate(
                        "restored-differs",
                        &["C16"],
                        format!("{} is not what was persisted: {}", f.name(), first_diff(&format!("{f:?}"), &format!("{:?}", k.desc))),
                    );
                    return;
                }
                self.out.probe("restored_descriptor_checked");
            }
            l.seen = Some(Rc::new(f.clone()));
        }
    }

    fn verify_pool(&mut self, c: usize, failed: bool) {
        let after_failure = failed || self.real[c].failed_before;
        let r = &self.real[c];
        let base: Vec<&str> = if after_failure { vec!["C04", "C15", "C05"] } else { vec!["C15", "C07"] };
        let got = guarded(|| {
            let pool = r.comp.descriptor_pool();
            let d = digest_pool(&pool);
            let exts: BTreeMap<String, Vec<(String, u32)>> = pool
                .all_messages()
                .map(|m| {
                    let mut v: Vec<(String, u32)> = m.extensions().map(|e| (e.full_name().to_owned(), e.number())).collect();
                    v.sort();
                    (m.full_name().to_owned(), v)
                })
                .collect();
            let files: Vec<String> = pool.files().map(|f| f.name().to_owned()).collect();
            (d, exts, files)
        });
        let (d, exts, files) = match got {
            Ok(x) => x,
            Err(p) => {
                self.out.violate(
                    "pool-broken",
                    &base,
                    format!("reading the descriptor pool panicked (after a failed open: {after_failure}): {p}"),
                );
                return;
            }
        };
        self.out.note(hash_bytes(3, d.as_bytes()));
        let model = &r.model;
        let want_files: BTreeSet<&str> = model.files.keys().map(|s| s.as_str()).collect();
        let got_files: BTreeSet<&str> = files.iter().map(|s| s.as_str()).collect();
        if want_files != got_files {
            self.out.violate("pool-files", &base, format!("pool holds {got_files:?}, must hold {want_files:?}"));
            return;
        }
        // names: exactly what the files define
        let mut want_ext: BTreeMap<String, Vec<(String, u32)>> = BTreeMap::new();
        let all_spec = model.files.values().all(|l| !matches!(l.exp, Exp::Opaque(_)));
        for (n, l) in &model.files {
            if let Exp::Spec(s) = &l.exp {
                for (on, e, num) in s.extensions() {
                    want_ext.entry(on).or_default().push((e, num as u32));
                }
            }
            for (sym, k) in syms_of(&l.exp, n) {
                if matches!(k, Sym::Msg { .. }) && !exts.contains_key(&sym) {
                    self.out.violate("pool-symbols", &base, format!("{sym} of {n} is not in the pool"));
                    return;
                }
            }
        }
        if all_spec {
            for (m, got) in &exts {
                let mut want = want_ext.remove(m).unwrap_or_default();
                want.sort();
                if *got != want {
                    let mut p = base.clone();
                    p.push("C16");
                    self.out.violate(
                        "pool-extensions",
                        &p,
                        format!("extensions of {m} in the pool are {got:?}, must be {want:?} (after a failed open: {after_failure})"),
                    );
                    return;
                }
                if !want.is_empty() {
                    self.out.probe("pool_extensions_checked");
                }
            }
        }
    }

    // --------------------------------------------------------------------------------------

    /// The disk changed, or a system call failed, while files were being opened.
    #[allow(clippy::too_many_arguments)]
    fn judge_relaxed(
        &mut self,
        c: usize,
        paths: &[String],
        outcome: &Result<(), ErrInfo>,
        verdicts: &[Verdict],
        vfs0: &Vfs,
        traps: &[(u64, Trap)],
        (op0, ev0): (usize, usize),
        fired: bool,
    ) {
        let s = sys::sys();
        let before = self.real[c].model.files.clone();
        if !fired {
            // nothing happened after all: the exact verdict holds
            let undecided = verdicts.iter().any(|v| !v.maybe.is_empty());
            self.judge_exact(c, paths, outcome, verdicts, undecided, before);
            return;
        }
        self.out.probe("open_with_concurrent_event");
        self.out.note_shape(if outcome.is_ok() { "ok~" } else { "err~" });
        let r = &self.real[c];
        let got = match guarded(|| {
            let fs: Vec<(String, Option<String>, bool)> = r
                .comp
                .files()
                .map(|f| (f.name().to_owned(), f.path().map(sys::of_os), f.is_import()))
                .collect();
            let set: Vec<FileDescriptorProto> =
                r.comp.descriptor_pool().files().map(|f| f.file_descriptor_proto().clone()).collect();
            (fs, set)
        }) {
            Ok(x) => x,
            Err(p) => {
                self.out.violate("pool-broken", &["C04", "C05"], format!("reading the compiler after open_file({paths:?}) panicked: {p}"));
                return;
            }
        };
        let roots: BTreeSet<String> = paths.iter().filter_map(|p| r.model.resolve(p).map(|x| x.0)).collect();
        let mut files: BTreeMap<String, Loaded> = BTreeMap::new();
        for (n, path, is_import) in &got.0 {
            if let Some(l) = before.get(n) {
                let mut l = l.clone();
                let flag_ok = *is_import == l.is_import || (!*is_import && roots.contains(n));
                if !flag_ok || path.as_deref().map(|p| p.to_owned()) != l.path.clone() && !matches!((&l.path, path), (Some(a), Some(b)) if path_same(a, b)) {
                    self.out.violate("committed-changed", &["C04", "C06"], format!("{n}: {path:?} import={is_import}, was {:?} import={}", l.path, l.is_import));
                    return;
                }
                l.is_import = *is_import;
                files.insert(n.clone(), l);
                continue;
            }
            let desc = got.1.iter().find(|f| f.name() == n);
            let Some(desc) = desc else {
                self.out.violate("pool-files", &["C07", "C04"], format!("{n} is listed but not in the pool"));
                return;
            };
            let exp;
            match path {
                Some(p) => {
                    // some complete, error-free reading of that file says what we now hold
                    let norm = lexical(p);
                    let mut hit = None;
                    let whole = |o: &sys::OpenRec| {
                        let n = o.delivered.len();
                        let len = |v: &Vfs| v.inodes.get(o.ino).map(|i| i.data.len());
                        o.eof || len(&s.vfs) == Some(n) || len(vfs0) == Some(n)
                    };
                    for o in s.opens[op0..].iter().filter(|o| o.path == norm && o.err.is_none() && !o.sought && whole(o)) {
                        if let Some(sp) = self.registry.get(&gen::content_id(&o.delivered)) {
                            if normal(&gen::expected(sp, n)) == normal(desc) {
                                hit = Some(Exp::Spec(sp.clone()));
                            }
                        } else if let Ok(t) = std::str::from_utf8(&o.delivered) {
                            if let Some(d) = crate::report::parsed(n, t) {
                                if skeleton(&d) == skeleton(desc) {
                                    hit = Some(Exp::Opaque(Rc::new(d)));
                                }
                            }
                        }
                    }
                    // one of the include directories, and none before it certainly had the file
                    let mut legit = false;
                    for l in &r.model.layers {
                        if let Layer::Dir(d) = l {
                            let cand = join_path(d, n);
                            if path_same(&cand, p) {
                                legit = true;
                                break;
                            }
                            // present before and after, and never answered "absent": must have been used
                            let cn = lexical(&cand);
                            let absent = s.log.iter().any(|e| e.path == cn && e.call != "close" && e.res == -(libc::ENOENT as i64));
                            if vfs0.read_file(&cand).is_some() && s.vfs.read_file(&cand).is_some() && !absent {
                                self.out.violate(
                                    "wrong-path",
                                    &["C02"],
                                    format!("{n} was taken from {p} although {cand} exists and was not reported absent"),
                                );
                                return;
                            }
                        }
                    }
                    if !legit {
                        self.out.violate("wrong-path", &["C02", "C14"], format!("{n} was taken from {p}, outside the include paths"));
                        return;
                    }
                    match hit {
                        Some(e) => exp = e,
                        None => {
                            let bad: Vec<String> = s.opens[op0..]
                                .iter()
                                .filter(|o| o.path == norm)
                                .map(|o| format!("{} bytes, eof={}, err={:?}", o.delivered.len(), o.eof, o.err))
                                .collect();
                            self.out.violate(
                                "torn-content",
                                &["C01", "C06"],
                                format!("{n} holds a descriptor that no complete reading of {p} delivered; readings: {bad:?}"),
                            );
                            return;
                        }
                    }
                    self.out.probe("delivered_bytes_checked");
                }
                None => {
                    let known = verdicts.iter().find_map(|v| v.found.get(n)).filter(|f| f.path.is_none());
                    exp = match known {
                        Some(f) => f.exp.clone(),
                        None if builtin(n).is_some() && r.model.google => Exp::Builtin,
                        None => {
                            let m = self.mems_now();
                            let found = m.iter().find_map(|m| m.get(n));
                            match found {
                                Some(MemEnt::File { spec, .. }) => Exp::Spec(Rc::new(spec.clone())),
                                _ => {
                                    self.out.violate("unexpected-file", &["C02", "C07"], format!("{n} has no origin"));
                                    return;
                                }
                            }
                        }
                    };
                }
            }
            files.insert(
                n.clone(),
                Loaded { exp, path: path.clone(), is_import: *is_import, info: desc.source_code_info.is_some(), opts_kept: true, seen: None, kept: None },
            );
        }
        for n in before.keys() {
            if !files.contains_key(n) {
                self.out.violate("file-lost", &["C04", "C06"], format!("{n} is no longer held after open_file({paths:?})"));
                return;
            }
        }
        match outcome {
            Ok(()) => {
                for p in paths {
                    let Some((n, resolved)) = self.real[c].model.resolve(p) else {
                        self.out.violate("accepted-bad", &["C02", "C03"], format!("open_file({p}) succeeded"));
                        return;
                    };
                    match files.get(&n) {
                        Some(l) if !l.is_import => {
                            if resolved {
                                if let Some(lp) = &l.path {
                                    if !path_same(lp, p) {
                                        self.out.violate("wrong-file", &["C03"], format!("open_file({p}) gave {lp}"));
                                        return;
                                    }
                                }
                            }
                        }
                        _ => {
                            self.out.violate("file-lost", &["C07"], format!("open_file({p}) succeeded but {n} is not an opened file"));
                            return;
                        }
                    }
                }
            }
            Err(e) => {
                // justified by something that was really wrong, before or after the event
                let mut just: Vec<ErrExp> = vec![];
                for v in verdicts {
                    just.extend(v.errors.iter().cloned());
                    just.extend(v.maybe.iter().cloned());
                }
                let mems = self.mems_now();
                let faults = s.faults.clone();
                let env = Env { vfs: &s.vfs, faults: &faults, mems: &mems, sets: &self.sets, registry: &self.registry };
                let mut m = self.real[c].model.clone();
                m.files = before.clone();
                for p in paths {
                    let v = m.judge(&env, p);
                    just.extend(v.errors);
                    just.extend(v.maybe);
                }
                let has_fail = traps.iter().any(|(_, t)| matches!(t, Trap::Fail(_)));
                // the change can hit between any two reads, so what was read may be a mixture:
                // parse, check, utf-8 and missing-import errors of a mixed reading are legitimate
                let disk = traps.iter().any(|(_, t)| matches!(t, Trap::Disk(_) | Trap::Fail(libc::ENOENT)));
                let mixed = disk && (e.parse || (!e.not_found && !e.io) || e.not_found);
                // a path can have turned into a directory between two calls
                let mkdir = traps.iter().any(|(_, t)| matches!(t, Trap::Disk(crate::sys::DiskOp::Mkdir(_))));
                // a file that only the changed content imports can have a standing fault, or be a link to itself
                let met = disk
                    && s.log[ev0..].iter().any(|l| {
                        l.res < 0
                            && l.res != -(libc::EINTR as i64)
                            && l.res != -(libc::ENOENT as i64)
                            && (l.fault.is_some() || e.rendered.contains(&format!("(os error {})", -l.res)))
                    });
                // and a file that has moved away can leave a later source that fails
                let later = disk && mems.iter().any(|m| m.values().any(|x| matches!(x, MemEnt::Io | MemEnt::IoNo(_))));
                let io_ok = (has_fail || mkdir || met || later) && e.io;
                let ok = just.iter().any(|j| j.matches(e)) || mixed || io_ok;
                if !ok {
                    self.out.violate(
                        "unjustified-error",
                        // a call that failed, and an error about what the file says: it was not read as it is
                        if has_fail && !e.io && !e.not_found { &["C09", "C05", "C01"] } else { &["C09", "C05"] },
                        format!("open_file({paths:?}) failed with {} (not_found={} parse={} io={}) although only {traps:?} happened", e.debug, e.not_found, e.parse, e.io),
                    );
                    return;
                }
                if has_fail && !disk && e.not_found && !just.iter().any(|j| j.matches(e)) {
                    self.out.violate("wrong-error", &["C02", "C09"], format!("a failing system call was reported as a missing file: {}", e.debug));
                    return;
                }
                self.real[c].failed_before = true;
                for p in paths {
                    if let Some((n, _)) = self.real[c].model.resolve(p) {
                        if paths.len() == 1 && !before.contains_key(&n) && files.get(&n).is_some_and(|l| !l.is_import) {
                            self.out.violate("half-open", &["C04"], format!("open_file({p}) failed but {n} is held as an opened file"));
                            return;
                        }
                    }
                }
            }
        }
        // whatever is held is closed under imports
        for (n, l) in &files {
            for d in deps_of(&l.exp, n) {
                if !files.contains_key(&d) {
                    self.out.violate("dangling-import", &["C04", "C07"], format!("{n} is held but its import {d} is not"));
                    return;
                }
            }
        }
        self.real[c].model.files = files;
        self.real[c].disk_changed = true;
        self.verify(c, outcome.is_err());
    }

    // --------------------------------------------------------------------------------------

    fn restart(&mut self, c: usize, imports: bool, info: bool, by_struct: bool, chunk: u32) {
        let r = &mut self.real[c];
        let got = guarded(|| {
            r.comp.include_imports(imports);
            r.comp.include_source_info(info);
            (r.comp.encode_file_descriptor_set(), r.comp.file_descriptor_set())
        });
        let (bytes, set) = match got {
            Ok(x) => x,
            Err(p) => {
                self.out.violate("panic", &["*"], format!("persisting panicked: {p}"));
                return;
            }
        };
        let mut persisted = BTreeMap::new();
        let recs: BTreeMap<String, Vec<u8>> =
            wire::set_files(&bytes).unwrap_or_default().into_iter().map(|f| (f.0, f.1)).collect();
        for (n, l) in &r.model.files {
            if imports || !l.is_import {
                persisted.insert(
                    n.clone(),
                    Loaded {
                        kept: set.file.iter().find(|f| f.name() == n).map(|f| {
                            Rc::new(Kept {
                                desc: f.clone(),
                                bytes: if by_struct { None } else { recs.get(n).cloned() },
                                info: info && l.info,
                            })
                        }),
                        exp: l.exp.clone(),
                        path: None,
                        is_import: true,
                        info: l.info && info,
                        opts_kept: l.opts_kept && !by_struct,
                        seen: None,
                    },
                );
            }
        }
        self.set_bytes.push((bytes, set, by_struct, chunk));
        self.sets.push(persisted);
        let idx = self.sets.len() - 1;
        let old = &self.real[c];
        let mut layers = vec![Layer::Set(idx)];
        layers.extend(old.model.layers.iter().filter(|l| !matches!(l, Layer::Set(_))).cloned());
        let cfg = CompilerCfg { layers, plain: false, google: old.model.google };
        self.out.probe("restarted");
        if let Some(n) = self.build(&cfg) {
            self.real[c] = n;
        }
    }
}

pub fn run(w: &World) -> RunOut {
    let mut vfs = Vfs::new();
    for (p, t) in &w.links {
        vfs.apply(&sys::DiskOp::Link(p.clone(), t.clone()));
    }
    for d in &w.dirs {
        vfs.mkdir_all(d);
    }
    let mut registry = BTreeMap::new();
    for (p, c) in &w.files {
        let b = c.bytes();
        if let Some(s) = c.meaning() {
            registry.insert(gen::content_id(&b), Rc::new(s));
        }
        vfs.put(p, b);
    }
    // contents that disk changes will bring in are known as well
    for c in &w.extra {
        if let Some(s) = c.meaning() {
            registry.insert(gen::content_id(&c.bytes()), Rc::new(s));
        }
    }
    sys::install(Box::new(Sys::new(vfs)));
    let mut ex = Exec {
        w,
        out: RunOut::default(),
        registry,
        mems: Rc::new(RefCell::new(
            w.mems.iter().map(|m| MemStore { ents: m.clone(), calls: vec![] }).collect(),
        )),
        sets: vec![],
        real: vec![],
        set_bytes: vec![],
        armed: vec![],
        verified: w.hash_seed % 12,
        wounds: w
            .files
            .iter()
            .map(|f| &f.1)
            .chain(&w.extra)
            .filter(|c| matches!(c, Content::Wounded { .. }))
            .map(|c| gen::content_id(&c.bytes()))
            .collect(),
    };
    ex.run();
    let mut out = ex.out.clone();
    // dropping compilers is system-under-test code too
    let real = std::mem::take(&mut ex.real);
    if guarded(move || drop(real)).is_err() {
        out.violate("panic", &["*"], "dropping a compiler panicked");
    }
    let s = sys::uninstall();
    out.absorb_sys(&s);
    out
}
