//! The reference compiler: what opening a file must do, computed from the abstract files, the
//! simulated disk and the active faults, without running protox (opaque bytes excepted, see Exp).

use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use prost_types::FileDescriptorProto;
use serde::{Deserialize, Serialize};

use crate::gen::{self, FileSpec, Sym};
use crate::report::ErrInfo;
use crate::sys::{lexical, Fault, Vfs};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Content {
    Spec(FileSpec),
    Raw(Vec<u8>),
    Wounded { spec: FileSpec, wound: gen::Wound },
}
impl Content {
    /// What the bytes stand for, where that is certain.
    pub fn meaning(&self) -> Option<FileSpec> {
        match self {
            Content::Spec(s) => Some(s.clone()),
            Content::Raw(_) => None,
            Content::Wounded { spec, wound } => gen::wounded_meaning(spec, wound),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Spec(s) => gen::render(s).0,
            Content::Raw(b) => b.clone(),
            Content::Wounded { spec, wound } => gen::wounded(spec, wound),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum MemEnt {
    /// form 0: source text, 1: parsed descriptor, 2: encoded descriptor
    File { spec: FileSpec, form: u8 },
    /// the resolver fails with an io::Error
    Io,
    /// and that has this number
    IoNo(i32),
    /// the resolver fails with an error of its own
    Custom(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Layer {
    Dir(String),
    Mem(usize),
    /// index into the persisted descriptor sets
    Set(usize),
}

#[derive(Clone, Debug)]
pub enum Exp {
    Spec(Rc<FileSpec>),
    Builtin,
    /// bytes no abstract file stands for; what the parser made of them
    Opaque(Rc<FileDescriptorProto>),
}

#[derive(Clone, Debug)]
pub struct Loaded {
    pub exp: Exp,
    pub path: Option<String>,
    pub is_import: bool,
    pub info: bool,
    pub opts_kept: bool,
    /// the descriptor as first seen: must never change afterwards
    pub seen: Option<Rc<FileDescriptorProto>>,
    /// taken from a persisted set: as it was persisted
    pub kept: Option<Rc<Kept>>,
}

#[derive(Clone, Debug)]
pub struct Kept {
    pub desc: FileDescriptorProto,
    /// the encoded form, if it was used
    pub bytes: Option<Vec<u8>>,
    pub info: bool,
}

/// What a correct compiler may say went wrong.
#[derive(Clone, Debug, PartialEq)]
pub enum ErrExp {
    RootMissing { path: String },
    ImportMissing { importer: String, name: String, has_source: bool },
    /// `errno`: what the system said, where only one answer is possible
    Io { name: String, path: Option<String>, errno: Option<i32> },
    Custom(String),
    TooLarge { name: String },
    Utf8 { name: String },
    Parse { name: String },
    /// an import statement names what it must not
    BadImport { name: String },
    Check { name: String },
    Circular { names: Vec<String> },
    Duplicate { file: String, name: String, has_source: bool },
    Shadow { path: String, shadow: String },
}

/// Paths are shown with a mark in place of bytes that are no text.
fn says(e: &ErrInfo, path: &str) -> bool {
    e.display.contains(&path.replace(crate::sys::ODD, "\u{fffd}"))
}

impl ErrExp {
    pub fn class(&self) -> &'static str {
        match self {
            ErrExp::RootMissing { .. } => "root-missing",
            ErrExp::ImportMissing { .. } => "import-missing",
            ErrExp::Io { .. } => "io",
            ErrExp::Custom(_) => "custom",
            ErrExp::TooLarge { .. } => "too-large",
            ErrExp::Utf8 { .. } => "utf8",
            ErrExp::Parse { .. } => "parse",
            ErrExp::BadImport { .. } => "bad-import",
            ErrExp::Check { .. } => "check",
            ErrExp::Circular { .. } => "circular",
            ErrExp::Duplicate { .. } => "duplicate",
            ErrExp::Shadow { .. } => "shadow",
        }
    }
    pub fn matches(&self, e: &ErrInfo) -> bool {
        let f = e.file.as_deref();
        let flags = (e.not_found, e.parse, e.io);
        match self {
            ErrExp::RootMissing { path } => flags == (true, false, false) && says(e, path),
            ErrExp::ImportMissing { importer, name, .. } => {
                flags == (true, false, false) && f == Some(importer) && e.display.contains(name.as_str())
            }
            ErrExp::Io { name, path: Some(p), errno } => {
                flags == (false, false, true)
                    && f == Some(name)
                    && (says(e, p) || e.display.contains(name.as_str()))
                    && errno.is_none_or(|n| e.rendered.contains(&format!("(os error {n})")))
            }
            ErrExp::Io { path: None, .. } => flags == (false, false, true),
            ErrExp::Custom(m) => flags == (false, false, false) && e.display.contains(m.as_str()),
            ErrExp::TooLarge { name } => {
                flags == (false, true, false) && f == Some(name) && e.display.contains("large")
            }
            ErrExp::Utf8 { name } => flags == (false, true, false) && f == Some(name),
            ErrExp::Parse { name } => flags == (false, true, false) && f == Some(name),
            ErrExp::BadImport { name } => flags == (false, true, false) && f == Some(name) && e.display.contains("import"),
            ErrExp::Check { name } => {
                flags == (false, false, false) && (f == Some(name) || f.is_none())
                    && !e.display.contains("cycle")
                    && !e.display.contains("shadowed by")
                    && !e.display.contains("listed twice")
            }
            ErrExp::Circular { names } => {
                flags == (false, false, false)
                    && f.is_some_and(|f| names.iter().any(|n| n == f))
                    && e.display.contains(f.unwrap())
                    && e.display.contains("cycle")
            }
            ErrExp::Duplicate { file, name, .. } => {
                flags == (false, false, false) && f == Some(file) && e.display.contains(name.as_str())
                    && e.display.contains("twice")
            }
            ErrExp::Shadow { path, shadow } => {
                flags == (false, false, false) && says(e, path) && says(e, shadow)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Look {
    Missing,
    /// the lookup fails with the first of these, or with one of the others
    Err(ErrExp, Vec<ErrExp>),
    /// error possible but not required (`Found` otherwise)
    Found { exp: Exp, path: Option<String>, maybe: Vec<ErrExp>, info: bool, opts_kept: bool, benign: bool, source: bool, kept: Option<Rc<Kept>> },
}

pub const BUILTINS: [(&str, &[&str], &[&str]); 12] = [
    ("google/protobuf/any.proto", &[], &["Any"]),
    (
        "google/protobuf/api.proto",
        &["google/protobuf/source_context.proto", "google/protobuf/type.proto"],
        &["Api", "Method", "Mixin"],
    ),
    (
        "google/protobuf/descriptor.proto",
        &[],
        &[
            "FileOptions", "MessageOptions", "FieldOptions", "EnumOptions", "EnumValueOptions", "OneofOptions", "ServiceOptions", "MethodOptions",
            "ExtensionRangeOptions", "DescriptorProto",
        ],
    ),
    ("google/protobuf/duration.proto", &[], &["Duration"]),
    ("google/protobuf/empty.proto", &[], &["Empty"]),
    ("google/protobuf/field_mask.proto", &[], &["FieldMask"]),
    ("google/protobuf/source_context.proto", &[], &["SourceContext"]),
    ("google/protobuf/struct.proto", &[], &["Struct", "Value", "ListValue"]),
    ("google/protobuf/timestamp.proto", &[], &["Timestamp"]),
    (
        "google/protobuf/type.proto",
        &["google/protobuf/any.proto", "google/protobuf/source_context.proto"],
        &["Type", "Field", "Enum", "EnumValue", "Option"],
    ),
    (
        "google/protobuf/wrappers.proto",
        &[],
        &["DoubleValue", "FloatValue", "Int64Value", "UInt64Value", "Int32Value", "UInt32Value", "BoolValue", "StringValue", "BytesValue"],
    ),
    ("google/protobuf/compiler/plugin.proto", &["google/protobuf/descriptor.proto"], &[]),
];

pub fn builtin(name: &str) -> Option<&'static (&'static str, &'static [&'static str], &'static [&'static str])> {
    BUILTINS.iter().find(|b| b.0 == name)
}

/// Everything outside the compiler that decides what it must do.
pub struct Env<'a> {
    pub vfs: &'a Vfs,
    pub faults: &'a BTreeMap<String, Vec<Fault>>,
    pub mems: &'a [BTreeMap<String, MemEnt>],
    pub sets: &'a [BTreeMap<String, Loaded>],
    pub registry: &'a BTreeMap<u64, Rc<FileSpec>>,
}

#[derive(Clone, Debug)]
pub struct CompilerModel {
    pub layers: Vec<Layer>,
    pub google: bool,
    pub files: BTreeMap<String, Loaded>,
    pub imports: bool,
    pub info: bool,
}

/// What an import statement must not name: what may lie outside the include directories, and another
/// spelling of a name.
pub fn bad_import(name: &str) -> bool {
    name.split('/').any(|c| c.is_empty() || c == "." || c == ".." || c.contains('\\'))
}

pub fn join_path(dir: &str, name: &str) -> String {
    std::path::Path::new(dir).join(name).to_string_lossy().into_owned()
}

fn comps(p: &str) -> (bool, Vec<&str>) {
    (p.starts_with('/'), p.split('/').filter(|c| !c.is_empty() && *c != ".").collect())
}

pub fn path_same(a: &str, b: &str) -> bool {
    comps(a) == comps(b)
}

/// The name a path under the include directory `dir` has.
pub fn strip(path: &str, dir: &str) -> Option<String> {
    let (pa, pc) = comps(path);
    let (da, dc) = comps(dir);
    if pa != da || pc.len() <= dc.len() || pc[..dc.len()] != dc[..] {
        return None;
    }
    let rest = &pc[dc.len()..];
    if rest.contains(&"..") || rest.iter().any(|c| c.contains(crate::sys::ODD)) {
        return None;
    }
    Some(rest.join("/"))
}

/// The name a path has when it is taken for an import name.
pub fn plain_name(path: &str) -> Option<String> {
    if path.starts_with('/') || path == "." || path.starts_with("./") {
        return None;
    }
    let (_, c) = comps(path);
    if c.is_empty() || c.contains(&"..") || path.contains(crate::sys::ODD) {
        return None;
    }
    Some(c.join("/"))
}

impl Env<'_> {
    fn dir_lookup(&self, dir: &str, name: &str) -> Look {
        let path = join_path(dir, name);
        let io_err = |errno: Option<i32>| ErrExp::Io { name: name.to_owned(), path: Some(path.clone()), errno };
        let io = |n: i32| Look::Err(io_err(Some(n)), vec![]);
        if name.contains('\0') {
            // no path can have that, and nothing is asked
            return Look::Err(ErrExp::Io { name: name.to_owned(), path: None, errno: None }, vec![]);
        }
        let norm = lexical(&path);
        let (abs, ino) = match self.vfs.walk(&path) {
            Ok(x) => x,
            Err(libc::ENOENT) => return Look::Missing,
            Err(e) => return io(e),
        };
        let none = vec![];
        let fs = self.faults.get(&norm).unwrap_or(&none);
        let mut maybe = vec![];
        let mut benign = false;
        for f in fs {
            if let Fault::OpenErr(e) = f {
                return if *e == libc::ENOENT { Look::Missing } else { io(*e) };
            }
        }
        let Some(ino) = ino else { return Look::Missing };
        let node = &self.vfs.inodes[ino];
        let _ = abs;
        for f in fs {
            match f {
                Fault::StatErr(e) => {
                    maybe.push(io_err(Some(*e)));
                }
                Fault::StatSize(n) if *n > i32::MAX as u64 => {
                    maybe.push(ErrExp::TooLarge { name: name.to_owned() });
                }
                Fault::ReadErr(..) => {}
                _ => benign = true,
            }
        }
        let reads: Vec<i32> = fs
            .iter()
            .filter_map(|f| match f {
                Fault::ReadErr(_, e) => Some(*e),
                _ => None,
            })
            .collect();
        if node.dir || !reads.is_empty() {
            let errno = if !node.dir && reads.len() == 1 { Some(reads[0]) } else { None };
            return Look::Err(io_err(errno), maybe);
        }
        self.bytes_look(&node.data, name, Some(path), maybe, benign)
    }

    fn bytes_look(&self, data: &[u8], name: &str, path: Option<String>, maybe: Vec<ErrExp>, benign: bool) -> Look {
        if let Some(s) = self.registry.get(&gen::content_id(data)) {
            return self.spec_look(s.clone(), name, path, maybe, benign, true);
        }
        let Ok(t) = std::str::from_utf8(data) else {
            return Look::Err(ErrExp::Utf8 { name: name.to_owned() }, maybe);
        };
        match crate::report::parsed(name, t) {
            None => Look::Err(ErrExp::Parse { name: name.to_owned() }, maybe),
            Some(d) => Look::Found {
                exp: Exp::Opaque(Rc::new(d)),
                path,
                maybe,
                info: true,
                opts_kept: true,
                benign,
                source: true,
                kept: None,
            },
        }
    }

    fn spec_look(
        &self,
        s: Rc<FileSpec>,
        name: &str,
        path: Option<String>,
        maybe: Vec<ErrExp>,
        benign: bool,
        source: bool,
    ) -> Look {
        match &s.broken {
            Some(gen::Break::Utf8) => return Look::Err(ErrExp::Utf8 { name: name.to_owned() }, maybe),
            Some(gen::Break::Torn) => {
                let mut maybe = maybe;
                maybe.push(ErrExp::Utf8 { name: name.to_owned() });
                return Look::Err(ErrExp::Parse { name: name.to_owned() }, maybe);
            }
            Some(gen::Break::Syntax(_)) | Some(gen::Break::ZeroNumber) => {
                return Look::Err(ErrExp::Parse { name: name.to_owned() }, maybe)
            }
            _ => {}
        }
        if s.imports.iter().any(|i| bad_import(&i.name)) {
            return Look::Err(ErrExp::BadImport { name: name.to_owned() }, maybe);
        }
        Look::Found { exp: Exp::Spec(s), path, maybe, info: true, opts_kept: true, benign, source, kept: None }
    }

    pub fn layer_lookup(&self, layer: &Layer, name: &str) -> Look {
        match layer {
            Layer::Dir(d) => self.dir_lookup(d, name),
            Layer::Mem(m) => match self.mems[*m].get(name) {
                None => Look::Missing,
                Some(MemEnt::Io) | Some(MemEnt::IoNo(_)) => Look::Err(ErrExp::Io { name: name.to_owned(), path: None, errno: None }, vec![]),
                Some(MemEnt::Custom(c)) => Look::Err(ErrExp::Custom(c.clone()), vec![]),
                Some(MemEnt::File { spec, form }) => {
                    // a resolver hands over text, so it cannot hand over bytes that are not UTF-8
                    let mut spec = spec.clone();
                    if spec.broken == Some(gen::Break::Utf8) {
                        spec.broken = None;
                    }
                    self.spec_look(Rc::new(spec), name, None, vec![], false, *form == 0)
                }
            },
            Layer::Set(i) => match self.sets[*i].get(name) {
                None => Look::Missing,
                Some(l) => Look::Found {
                    exp: l.exp.clone(),
                    path: None,
                    maybe: vec![],
                    info: l.info,
                    opts_kept: l.opts_kept,
                    benign: false,
                    source: false,
                    kept: l.kept.clone(),
                },
            },
        }
    }

    pub fn lookup(&self, c: &CompilerModel, name: &str) -> Look {
        for l in &c.layers {
            match self.layer_lookup(l, name) {
                Look::Missing => continue,
                x => return x,
            }
        }
        if c.google && builtin(name).is_some() {
            return Look::Found {
                exp: Exp::Builtin,
                path: None,
                maybe: vec![],
                info: true,
                opts_kept: true,
                benign: false,
                source: true,
                kept: None,
            };
        }
        Look::Missing
    }
}

pub fn deps_of(exp: &Exp, name: &str) -> Vec<String> {
    match exp {
        Exp::Spec(s) => s.imports.iter().map(|i| i.name.clone()).collect(),
        Exp::Builtin => builtin(name).map(|b| b.1.iter().map(|s| s.to_string()).collect()).unwrap_or_default(),
        Exp::Opaque(d) => d.dependency.clone(),
    }
}
fn public_of(exp: &Exp, _name: &str) -> Vec<String> {
    match exp {
        Exp::Spec(s) => s.imports.iter().filter(|i| i.kind == 1).map(|i| i.name.clone()).collect(),
        Exp::Builtin => vec![],
        Exp::Opaque(d) => {
            d.public_dependency.iter().filter_map(|i| d.dependency.get(*i as usize).cloned()).collect()
        }
    }
}
pub fn syms_of(exp: &Exp, name: &str) -> Vec<(String, Sym)> {
    match exp {
        Exp::Spec(s) => s.symbols(),
        Exp::Builtin => builtin(name)
            .map(|b| {
                b.2.iter()
                    .map(|m| {
                        let ext_range =
                            if b.0.ends_with("descriptor.proto") { Some((1000, 536_870_911)) } else { None };
                        (format!("google.protobuf.{m}"), Sym::Msg { ext_range: ext_range.filter(|_| m.ends_with("Options")) })
                    })
                    .chain(b.0.ends_with("descriptor.proto").then(|| {
                        ("google.protobuf.FieldDescriptorProto.Type".to_owned(), Sym::Enum { values: vec!["TYPE_INT64".into()], proto3: false })
                    }))
                    .collect()
            })
            .unwrap_or_default(),
        Exp::Opaque(_) => vec![],
    }
}

#[derive(Clone, Debug)]
pub struct FoundFile {
    pub exp: Exp,
    pub path: Option<String>,
    pub info: bool,
    pub opts_kept: bool,
    pub kept: Option<Rc<Kept>>,
}

#[derive(Clone, Debug, Default)]
pub struct Verdict {
    /// what is certainly wrong; opening must fail with one of these (or of `maybe`)
    pub errors: Vec<ErrExp>,
    /// errors that may be reported
    pub maybe: Vec<ErrExp>,
    pub name: Option<String>,
    pub resolved: bool,
    pub already: bool,
    /// new files reachable from the root
    pub found: BTreeMap<String, FoundFile>,
    /// every name looked up
    pub asked: BTreeSet<String>,
    pub benign: bool,
}

impl CompilerModel {
    pub fn resolve(&self, path: &str) -> Option<(String, bool)> {
        for l in &self.layers {
            if let Layer::Dir(d) = l {
                if let Some(n) = strip(path, d) {
                    return Some((n, true));
                }
            }
        }
        plain_name(path).map(|n| (n, false))
    }

    /// What opening `path` must do.
    pub fn judge(&self, env: &Env, path: &str) -> Verdict {
        let mut v = Verdict::default();
        let Some((name, resolved)) = self.resolve(path) else {
            v.errors.push(ErrExp::RootMissing { path: path.to_owned() });
            return v;
        };
        v.name = Some(name.clone());
        v.resolved = resolved;
        if let Some(l) = self.files.get(&name) {
            v.already = true;
            if resolved {
                if let Some(p) = &l.path {
                    if !path_same(p, path) {
                        v.errors.push(ErrExp::Shadow { path: path.to_owned(), shadow: p.clone() });
                    }
                }
            }
            return v;
        }
        let mut stack = vec![];
        self.explore(env, &mut v, &name, None, &mut stack, path);
        if resolved {
            if let Some(f) = v.found.get(&name) {
                if let Some(p) = &f.path {
                    if !path_same(p, path) {
                        v.errors.push(ErrExp::Shadow { path: path.to_owned(), shadow: p.clone() });
                        v.errors.push(ErrExp::RootMissing { path: path.to_owned() });
                    }
                }
            }
        }
        self.check(&mut v);
        v
    }

    fn explore(
        &self,
        env: &Env,
        v: &mut Verdict,
        name: &str,
        importer: Option<(&str, bool)>,
        stack: &mut Vec<String>,
        path: &str,
    ) {
        if let Some(i) = stack.iter().position(|n| n == name) {
            v.errors.push(ErrExp::Circular { names: stack[i..].to_vec() });
            return;
        }
        if self.files.contains_key(name) || v.found.contains_key(name) {
            return;
        }
        v.asked.insert(name.to_owned());
        match env.lookup(self, name) {
            Look::Missing => v.errors.push(match importer {
                None => ErrExp::RootMissing { path: path.to_owned() },
                Some((f, s)) => {
                    ErrExp::ImportMissing { importer: f.to_owned(), name: name.to_owned(), has_source: s }
                }
            }),
            Look::Err(e, more) => {
                v.errors.push(e);
                v.maybe.extend(more);
            }
            Look::Found { exp, path: p, maybe, info, opts_kept, benign, source, kept } => {
                let deps = deps_of(&exp, name);
                v.benign |= benign;
                v.found.insert(
                    name.to_owned(),
                    FoundFile { exp, path: p, info, opts_kept, kept },
                );
                v.maybe.extend(maybe);
                stack.push(name.to_owned());
                let mut seen = BTreeSet::new();
                for d in &deps {
                    if !seen.insert(d.clone()) {
                        v.errors.push(ErrExp::Duplicate { file: name.to_owned(), name: d.clone(), has_source: source });
                    } else {
                        self.explore(env, v, d, Some((name, source)), stack, path);
                    }
                }
                stack.pop();
            }
        }
    }

    fn exp_of<'a>(&'a self, v: &'a Verdict, name: &str) -> Option<&'a Exp> {
        self.files.get(name).map(|l| &l.exp).or_else(|| v.found.get(name).map(|f| &f.exp))
    }

    /// Files whose names `name` may use: certainly (imported, or publicly imported by an imported
    /// file) and through longer chains of public imports. The prost-reflect release protox is built
    /// with follows such chains only sometimes, so nothing is demanded about those.
    fn visible(&self, v: &Verdict, name: &str) -> (BTreeSet<String>, BTreeSet<String>) {
        let mut sure = BTreeSet::new();
        sure.insert(name.to_owned());
        let mut todo: Vec<(String, u32)> =
            self.exp_of(v, name).map(|e| deps_of(e, name)).unwrap_or_default().into_iter().map(|d| (d, 0)).collect();
        let mut all: BTreeMap<String, u32> = BTreeMap::new();
        while let Some((n, d)) = todo.pop() {
            if all.get(&n).is_some_and(|x| *x <= d) {
                continue;
            }
            all.insert(n.clone(), d);
            if d <= 1 {
                sure.insert(n.clone());
            }
            if let Some(e) = self.exp_of(v, &n) {
                todo.extend(public_of(e, &n).into_iter().map(|p| (p, d + 1)));
            }
        }
        (sure, all.into_keys().collect())
    }

    /// Does every new file make sense together with the others?
    fn check(&self, v: &mut Verdict) {
        let mut defs: BTreeMap<String, Vec<(String, Sym)>> = BTreeMap::new();
        let names: Vec<String> = self.files.keys().chain(v.found.keys()).cloned().collect();
        for n in &names {
            let Some(e) = self.exp_of(v, n) else { continue };
            for (s, k) in syms_of(e, n) {
                defs.entry(s).or_default().push((n.clone(), k));
            }
        }
        let mut errs = vec![];
        let mut maybe = vec![];
        for (n, f) in &v.found {
            match &f.exp {
                Exp::Builtin => {}
                Exp::Opaque(_) => maybe.push(ErrExp::Check { name: n.clone() }),
                Exp::Spec(s) => {
                    let (vis, far) = self.visible(v, n);
                    let opaque = far.iter().any(|x| matches!(self.exp_of(v, x), Some(Exp::Opaque(_))));
                    let mut bad = false;
                    for (sym, _) in s.symbols() {
                        let mut owners: Vec<&str> = defs[&sym].iter().map(|d| d.0.as_str()).collect();
                        owners.dedup();
                        if owners.len() > 1 {
                            bad = true;
                        }
                    }
                    for (r, kind, num) in gen::references(s) {
                        // in what was persisted, options are resolved already
                        if kind == 'o' && f.kept.is_some() {
                            continue;
                        }
                        let d = defs.get(&r).and_then(|d| d.iter().find(|d| vis.contains(&d.0)));
                        let ok = match (d.map(|d| &d.1), kind) {
                            (Some(Sym::Msg { .. }), 'm') => true,
                            (Some(Sym::Enum { .. }), 'e') => true,
                            (Some(Sym::Ext { .. }), 'o') => true,
                            (Some(Sym::Msg { ext_range: Some((a, b)) }), 'x') => num >= *a && num <= *b,
                            (None, _) if opaque || defs.get(&r).is_some_and(|d| d.iter().any(|d| far.contains(&d.0))) => {
                                maybe.push(ErrExp::Check { name: n.clone() });
                                true
                            }
                            _ => false,
                        };
                        bad |= !ok;
                    }
                    match &s.broken {
                        Some(gen::Break::UndefType)
                        | Some(gen::Break::ExtUndef(..))
                        | Some(gen::Break::DupNumber)
                        | Some(gen::Break::DupMessage)
                        | Some(gen::Break::BadOption) => bad = true,
                        _ => {}
                    }
                    if bad {
                        errs.push(ErrExp::Check { name: n.clone() });
                    }
                }
            }
        }
        // files in the pool that no model stands for may clash with anything
        if self.files.values().any(|l| matches!(l.exp, Exp::Opaque(_)))
            || v.found.values().any(|l| matches!(l.exp, Exp::Opaque(_)))
        {
            for n in v.found.keys() {
                maybe.push(ErrExp::Check { name: n.clone() });
            }
        }
        v.errors.extend(errs);
        v.maybe.extend(maybe);
    }
}
