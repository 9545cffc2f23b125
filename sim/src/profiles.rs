//! Turns a seed into a scenario. Every property has its own mix of structure, faults and history.

use std::collections::BTreeMap;

use crate::gen::{Break, Wound, FileSpec, Gen, Imp, Offer};
use crate::model::{join_path, Content, Layer, MemEnt};
use crate::rng::Rng;
use crate::sys::{DiskOp, Fault, Trap};
use crate::world::{CompilerCfg, Step, World};

#[derive(Clone, Debug)]
pub struct Knobs {
    pub files: (usize, usize),
    pub size: usize,
    pub fan: usize,
    pub dirs: (usize, usize),
    pub compilers: usize,
    pub steps: (usize, usize),
    /// percent: a file also exists in a further include directory, with other content
    pub dup: usize,
    /// percent: the compiler has in-memory layers
    pub mems: usize,
    pub broken: usize,
    pub missing: usize,
    pub cycle: usize,
    pub dup_import: usize,
    pub builtin: usize,
    pub shadow_builtin: usize,
    pub clash: usize,
    // weights of steps
    pub w_open: usize,
    pub w_many: usize,
    pub w_fault: usize,
    pub w_disk: usize,
    pub w_toggle: usize,
    pub w_hold: usize,
    pub w_trap: usize,
    pub w_restart: usize,
    pub w_repair: usize,
    /// fault windows: percent of hard (visible) faults
    pub hard: usize,
    /// percent of opens that ask for something odd (missing, not included, a directory)
    pub odd: usize,
    pub pad: usize,
    /// now and then a file larger than any sensible buffer
    pub vast: bool,
    pub all_modes: bool,
    /// every file imports the one before it
    pub chain: bool,
    /// percent of files that import all files before them
    pub wide: usize,
    /// percent of files with very deep nesting (no failures, no restarts then)
    pub deep: usize,
    /// rounds of damage on disk
    pub w_wound: usize,
    pub w_compile: usize,
    pub w_fresh: usize,
    /// percent of worlds with symbolic links
    pub links: usize,
    /// percent of worlds in which one file imports very many
    pub hub: usize,
    /// imports that are refused for what they name
    pub spell: usize,
}

impl Knobs {
    fn base() -> Knobs {
        Knobs {
            files: (2, 7),
            size: 3,
            fan: 3,
            dirs: (1, 3),
            compilers: 1,
            steps: (2, 7),
            dup: 15,
            mems: 15,
            broken: 6,
            missing: 6,
            cycle: 4,
            dup_import: 3,
            builtin: 25,
            shadow_builtin: 4,
            clash: 2,
            w_open: 50,
            w_many: 8,
            w_fault: 5,
            w_disk: 5,
            w_toggle: 5,
            w_hold: 4,
            w_trap: 0,
            w_restart: 3,
            w_repair: 4,
            hard: 50,
            odd: 6,
            pad: 5,
            vast: false,
            all_modes: false,
            chain: false,
            wide: 1,
            deep: 0,
            w_wound: 0,
            w_compile: 4,
            w_fresh: 2,
            links: 8,
            hub: 0,
            spell: 2,
        }
    }
}

pub fn knobs(prop: &str, rng: &mut Rng) -> Knobs {
    let b = Knobs::base();
    let clean = Knobs { broken: 0, missing: 0, cycle: 0, dup_import: 0, clash: 0, odd: 0, spell: 0, ..b.clone() };
    match prop {
        "C01" => Knobs {
            w_fault: 45,
            w_trap: 15,
            hard: 35,
            pad: 35,
            vast: true,
            mems: 0,
            dup: 5,
            broken: 3,
            missing: 2,
            cycle: 0,
            w_restart: 0,
            steps: (2, 6),
            ..b
        },
        "C02" => Knobs {
            dirs: (2, 4),
            dup: 45,
            mems: 40,
            w_fault: 25,
            hard: 85,
            w_disk: 12,
            w_trap: if rng.pct(25) { 10 } else { 0 },
            shadow_builtin: 15,
            links: 20,
            builtin: 35,
            broken: 5,
            compilers: 2,
            ..b
        },
        "C03" => Knobs {
            dirs: (2, 4),
            dup: 55,
            mems: 15,
            w_disk: 25,
            odd: 15,
            broken: 0,
            missing: 2,
            cycle: 0,
            steps: (3, 9),
            w_many: 15,
            w_restart: 5,
            links: 20,
            ..b
        },
        "C04" => Knobs {
            broken: 25,
            missing: 10,
            cycle: 8,
            dup_import: 6,
            clash: 12,
            w_fault: 20,
            hard: 90,
            w_trap: 8,
            w_hold: 15,
            w_disk: 10,
            steps: (4, 10),
            all_modes: rng.pct(50),
            ..b
        },
        "C05" => Knobs {
            broken: 6,
            w_fault: 45,
            hard: 75,
            w_repair: 20,
            w_trap: 12,
            steps: (4, 10),
            compilers: 1 + rng.below(2),
            ..b
        },
        "C06" => Knobs {
            w_disk: 45,
            w_trap: 12,
            w_hold: 15,
            dup: 15,
            files: (3, 8),
            fan: 5,
            steps: (5, 12),
            broken: 4,
            ..b
        },
        "C07" => Knobs {
            files: (4, 14),
            fan: 5,
            size: 2,
            w_toggle: 20,
            w_many: 20,
            w_disk: 5,
            all_modes: true,
            steps: (3, 9),
            builtin: 35,
            ..if rng.pct(60) { clean } else { b }
        },
        "C08" => {
            let big = rng.pct(15);
            let chain = rng.pct(if big { 30 } else { 5 });
            Knobs {
                chain,
                wide: if big { *rng.pick(&[1, 10, 60]) } else { 3 },
                files: if big && chain {
                    *rng.pick(&[(15, 40), (30, 70), (60, 140)])
                } else if big {
                    *rng.pick(&[(15, 40), (15, 40), (30, 90)])
                } else {
                    (2, 10)
                },
                size: if big { 1 } else { 2 },
                fan: 6,
                cycle: *rng.pick(&[0, 10, 25]),
                missing: *rng.pick(&[0, 6, 15]),
                dup_import: *rng.pick(&[0, 8]),
                mems: 45,
                w_fault: 8,
                w_disk: 10,
                steps: (2, 7),
                broken: 2,
                clash: 0,
                hub: 3,
                ..b
            }
        }
        "C09" => Knobs {
            broken: 22,
            missing: 12,
            cycle: 8,
            dup_import: 8,
            clash: 6,
            dup: 30,
            dirs: (1, 3),
            odd: 20,
            w_fault: 25,
            hard: 90,
            mems: 35,
            w_disk: 10,
            steps: (3, 8),
            ..b
        },
        "C14" => Knobs {
            spell: 5,
            links: 20,
            dirs: (1, 4),
            mems: 30,
            odd: 20,
            missing: 12,
            builtin: 50,
            w_fault: 15,
            w_disk: 12,
            compilers: 2,
            ..b
        },
        "C10" => Knobs {
            files: (1, 5),
            size: 4,
            dirs: (1, 2),
            mems: 0,
            dup: 5,
            builtin: 35,
            broken: 0,
            missing: 0,
            cycle: 0,
            dup_import: 0,
            clash: 0,
            odd: 0,
            w_open: 10,
            w_many: 2,
            w_fault: 4,
            w_disk: 2,
            w_trap: 6,
            w_restart: 2,
            w_wound: 80,
            w_fresh: 0,
            steps: (2, 6),
            ..b
        },
        "C13" => Knobs {
            links: 12,
            files: (1, 5),
            size: 2,
            dirs: (1, 3),
            mems: 0,
            odd: 4,
            w_restart: 0,
            w_hold: 0,
            w_toggle: 0,
            w_fresh: 0,
            w_trap: 5,
            w_fault: 10,
            hard: 70,
            w_disk: 12,
            w_many: 25,
            w_compile: 15,
            broken: 4,
            missing: 3,
            steps: (2, 4),
            ..b
        },
        "C15" if rng.pct(6) => Knobs {
            deep: 60,
            w_toggle: 35,
            w_hold: 10,
            w_restart: 0,
            w_fault: 0,
            w_disk: 0,
            w_many: 10,
            w_repair: 0,
            mems: 0,
            all_modes: true,
            ..clean
        },
        "C15" => Knobs {
            w_toggle: 35,
            w_hold: 10,
            w_restart: 10,
            w_many: 10,
            builtin: 60,
            size: 4,
            all_modes: true,
            broken: 8,
            clash: 4,
            steps: (3, 9),
            ..b
        },
        "C16" => Knobs {
            w_restart: 40,
            w_disk: 20,
            w_toggle: 5,
            builtin: 60,
            size: 4,
            mems: 20,
            steps: (3, 9),
            all_modes: rng.pct(50),
            ..if rng.pct(60) { clean } else { b }
        },
        _ => b,
    }
}

#[derive(Clone, Debug)]
pub struct U {
    pub name: String,
    pub spec: FileSpec,
    own: Offer,
    exported: Offer,
    /// how many paths of public imports begin here
    paths: u64,
}

fn merge(a: &mut Offer, b: &Offer) {
    a.msgs.extend(b.msgs.iter().cloned());
    a.extendable.extend(b.extendable.iter().cloned());
    a.enums.extend(b.enums.iter().cloned());
    a.opts.extend(b.opts.iter().cloned());
}

const PKGS: [&str; 6] = ["", "alpha", "alpha", "beta", "alpha.sub", "x.y.z"];

fn fname(rng: &mut Rng, k: usize, us: &[U]) -> String {
    if !us.is_empty() && rng.pct(15) {
        // nearly the name of another file
        let o = us[rng.below(us.len())].name.clone();
        let (d, b) = o.rsplit_once('/').map_or((None, o.as_str()), |(d, b)| (Some(d), b));
        let n = match rng.below(8) {
            0 => format!("pkg/{b}"),
            1 => format!("x{b}"),
            2 => format!("{b}.proto"),
            3 => o.to_uppercase(),
            4 => format!("{}/{b}", d.unwrap_or("nested").to_uppercase()),
            5 => b.to_owned(),
            6 => format!("{}-/{b}", d.unwrap_or("pkg")),
            _ => format!("{o} "),
        };
        if !n.starts_with("google/") && !us.iter().any(|u| u.name == n || u.name.starts_with(&format!("{n}/")) || n.starts_with(&format!("{}/", u.name))) {
            return n;
        }
    }
    if rng.below(150) == 0 {
        return match rng.below(4) {
            // longer than the standard library keeps on the stack, longest component, many components
            0 => format!("{}/f{k}.proto", vec!["long".repeat(30); 4].join("/")),
            1 => format!("n{}{k:03}", "m".repeat(251)),
            2 => format!("{}f{k}.proto", "d/".repeat(rng.range(20, 70))),
            _ => format!("{}f{k}.proto", "\u{e9}x/".repeat(rng.range(250, 900))),
        };
    }
    match rng.below(14) {
        0 => format!("pkg/f{k}.proto"),
        1 => format!("deep/er/path/f{k}.proto"),
        2 => format!("f {k} \u{e9}.proto"),
        3 => format!("noext{k}"),
        4 => format!("pkg/sub/f{k}.proto"),
        5 => format!("nested/f{k}.proto"),
        6 => format!("F{k}.PROTO"),
        7 => format!("..pkg/a..b/...f{k}"),
        8 => format!("e\u{301}/{k}"),
        _ => format!("f{k}.proto"),
    }
}

const LEAF_BUILTINS: [&str; 6] = ["duration", "timestamp", "empty", "field_mask", "struct", "wrappers"];

fn builtin_offer(name: &str) -> Offer {
    let mut o = Offer::default();
    if let Some(b) = crate::model::builtin(name) {
        for m in b.2 {
            if !m.ends_with("Options") {
                o.msgs.push(format!("google.protobuf.{m}"));
            }
        }
    }
    o
}

/// A universe of files that import each other, all of them correct.
pub fn universe(g: &mut Gen, k: &Knobs) -> Vec<U> {
    let n = g.rng.range(k.files.0, k.files.1);
    let mut us: Vec<U> = vec![];
    let shadowed: Option<String> = if g.rng.pct(k.shadow_builtin) {
        Some(format!("google/protobuf/{}.proto", g.rng.pick(&LEAF_BUILTINS)))
    } else {
        None
    };
    let shadow_at = g.rng.below(n);
    for i in 0..n {
        let name = match &shadowed {
            Some(s) if i == shadow_at => s.clone(),
            _ => fname(g.rng, i, &us),
        };
        let mut imports: Vec<Imp> = vec![];
        let mut vis = Offer::default();
        let mut paths = 1;
        if i > 0 {
            let f = g.rng.below(k.fan + 1).min(i);
            let mut idx: Vec<usize> = (0..i).collect();
            g.rng.shuffle(&mut idx);
            if k.chain {
                idx.retain(|j| *j != i - 1);
                idx.truncate(g.rng.below(3).min(f));
                let at = g.rng.below(idx.len() + 1);
                idx.insert(at, i - 1);
            }
            let f = if k.chain { idx.len() } else { f };
            let f = if g.rng.pct(k.wide) {
                idx = (0..i).collect();
                g.rng.shuffle(&mut idx);
                i
            } else {
                f
            };
            for j in idx.into_iter().take(f) {
                let mut kind = *g.rng.pick(&[0, 0, 0, 0, 1, 1, 2]);
                // the known finding of C08: prost-reflect walks the paths of public imports one by one
                if kind == 1 && paths + us[j].paths > 3000 {
                    kind = 0;
                }
                if kind == 1 {
                    paths += us[j].paths;
                }
                imports.push(Imp { name: us[j].name.clone(), kind });
                merge(&mut vis, &us[j].exported);
            }
        }
        let mut exported = Offer::default();
        for im in imports.iter().filter(|i| i.kind == 1) {
            if let Some(u) = us.iter().find(|u| u.name == im.name) {
                merge(&mut exported, &u.own);
            }
        }
        if g.rng.pct(k.builtin) {
            let all: Vec<&str> = crate::model::BUILTINS.iter().map(|b| b.0).collect();
            let b = if g.rng.pct(45) { "google/protobuf/descriptor.proto" } else { *g.rng.pick(&all) };
            if shadowed.as_deref() != Some(b) && !imports.iter().any(|i| i.name == b) {
                let kind = if g.rng.pct(10) { 1 } else { 0 };
                let o = builtin_offer(b);
                if kind == 1 {
                    merge(&mut exported, &o);
                }
                merge(&mut vis, &o);
                let at = g.rng.below(imports.len() + 1);
                imports.insert(at, Imp { name: b.to_owned(), kind });
            }
        }
        let package = g.rng.pick(&PKGS).to_string();
        let (mut spec, own) = g.file(i, imports, &vis, package);
        if g.rng.pct(k.pad) {
            spec.pad = *g.rng.pick(&[900, 4000, 8190, 8192, 9000, 20000, 70000]);
            if g.rng.pct(3) {
                spec.pad = *g.rng.pick(&[132_000, 270_000, 530_000, 1_100_000, 2_200_000, 4_300_000]);
            }
            if k.vast && g.rng.below(600) == 0 {
                spec.pad = *g.rng.pick(&[8_500_000, 17_000_000, 17_000_000, 34_000_000, 68_000_000]);
            }
        }
        if g.rng.pct(k.pad / 2) {
            let n = *g.rng.pick(&[1024, 2048, 4096, 8192, 8192, 16384, 32768, 65536, 65536, 131_072, 1 << 20]);
            spec.exact = n - 1 + g.rng.below(3) as u32;
        }
        if g.rng.pct(k.deep) {
            spec.deep = *g.rng.pick(&[50, 95, 99, 101, 120, 180]);
        }
        merge(&mut exported, &own);
        us.push(U { name, spec, own, exported, paths });
    }
    us
}

/// The last file (or two) imports all the others, one of them perhaps twice.
fn make_hub(g: &mut Gen, us: &mut [U]) {
    let n = us.len();
    for h in (n - g.rng.range(1, 2))..n {
        let have: Vec<String> = us[h].spec.imports.iter().map(|i| i.name.clone()).collect();
        let mut all: Vec<String> = us[..h].iter().map(|u| u.name.clone()).filter(|n| !have.contains(n)).collect();
        g.rng.shuffle(&mut all);
        us[h].spec.imports.extend(all.into_iter().map(|name| Imp { name, kind: 0 }));
    }
    if g.rng.pct(60) {
        let im = &mut us[n - 1].spec.imports;
        let i = g.rng.below(im.len());
        let d = im[i].clone();
        let at = if g.rng.pct(30) { i + g.rng.below(2) } else { g.rng.below(im.len() + 1) };
        im.insert(at, d);
    }
}

/// Breaks some of the files.
pub fn damage(g: &mut Gen, k: &Knobs, us: &mut [U]) {
    let n = us.len();
    for i in 0..n {
        if g.rng.pct(k.missing) {
            let at = g.rng.below(us[i].spec.imports.len() + 1);
            let m = match g.rng.below(20) {
                0..=2 => "google/protobuf/nothing.proto".into(),
                3..=7 if !us[i].spec.imports.is_empty() => {
                    // almost one that is there
                    let o = g.rng.pick(&us[i].spec.imports).name.clone();
                    let m = match g.rng.below(5) {
                        0 => format!("{o}2"),
                        1 => format!("x{o}"),
                        2 => format!("x/{o}"),
                        3 => format!("{o}.proto"),
                        _ => o[..o.len() - o.chars().next_back().map_or(0, char::len_utf8)].to_owned(),
                    };
                    if m.is_empty() || m.ends_with(['/', '.', ' ']) || us.iter().any(|u| u.name == m) || crate::model::BUILTINS.iter().any(|b| b.0 == m) {
                        format!("missing{i}.proto")
                    } else {
                        m
                    }
                }
                _ => format!("missing{i}.proto"),
            };
            let kind = g.rng.below(3) as u8;
            us[i].spec.imports.insert(at, Imp { name: m, kind });
        }
        if g.rng.pct(k.cycle) {
            let j = g.rng.below(n);
            let name = us[j].name.clone();
            if !us[i].spec.imports.iter().any(|x| x.name == name) {
                let at = g.rng.below(us[i].spec.imports.len() + 1);
                us[i].spec.imports.insert(at, Imp { name, kind: if g.rng.pct(30) { 1 } else { 0 } });
            }
        }
        if g.rng.pct(k.dup_import) && !us[i].spec.imports.is_empty() {
            let mut d = g.rng.pick(&us[i].spec.imports).clone();
            if g.rng.pct(50) {
                d.kind = g.rng.below(3) as u8;
            }
            let at = g.rng.below(us[i].spec.imports.len() + 1);
            us[i].spec.imports.insert(at, d);
            if g.rng.pct(40) {
                let d = g.rng.pick(&us[i].spec.imports).clone();
                let at = g.rng.below(us[i].spec.imports.len() + 1);
                us[i].spec.imports.insert(at, d);
            }
        }
        if g.rng.pct(k.spell) && !us[i].spec.imports.is_empty() {
            // what an import must not say, though there may be a file
            let at = g.rng.below(us[i].spec.imports.len());
            let n = &us[i].spec.imports[at].name;
            let (d, b) = n.split_once('/').unwrap_or(("pkg", n));
            let m = match g.rng.below(14) {
                0 => format!("{d}//{b}"),
                1 => format!("{d}/./{b}"),
                2 => format!("{d}/../{n}"),
                3 => format!("././{n}"),
                4 => format!("{n}/."),
                5 => format!("../{n}"),
                6 => format!("/{n}"),
                7 => format!("/w/inc1/{n}"),
                8 => format!("{n}/"),
                9 => format!("{d}\\{b}"),
                10 => format!("../inc1/{n}"),
                11 => format!("{d}/.."),
                12 => String::new(),
                _ => format!("./{n}"),
            };
            us[i].spec.imports[at].name = m;
        }
        if g.rng.pct(k.clash) {
            let pkg = us[i].spec.package.clone();
            let c: Vec<String> = us
                .iter()
                .enumerate()
                .filter(|(j, u)| *j != i && u.spec.package == pkg)
                .map(|(_, u)| {
                    let m = format!("Mark{}", u.spec.marker);
                    if pkg.is_empty() {
                        m
                    } else {
                        format!("{pkg}.{m}")
                    }
                })
                .collect();
            if !c.is_empty() {
                us[i].spec.broken = Some(Break::Clash(g.rng.pick(&c).clone()));
            }
        }
        if g.rng.pct(k.broken) {
            let b = breakage(g, us, i);
            us[i].spec.broken = Some(b);
        }
    }
}

fn breakage(g: &mut Gen, us: &[U], i: usize) -> Break {
    match g.rng.below(9) {
        0 => g.junk(),
        1 => Break::Utf8,
        2 => Break::DupNumber,
        3 => Break::ZeroNumber,
        4 => Break::DupMessage,
        5 => Break::BadOption,
        6 | 7 => {
            // extends something visible, correctly, and is wrong elsewhere
            let names: Vec<&str> = us[i].spec.imports.iter().map(|x| x.name.as_str()).collect();
            let mut c: Vec<(String, (i32, i32))> = vec![];
            if us[i].spec.syntax != 3 {
                for u in us {
                    if names.contains(&u.name.as_str()) || u.name == us[i].name {
                        c.extend(u.exported.extendable.iter().cloned());
                    }
                }
            }
            if c.is_empty() {
                Break::UndefType
            } else {
                let (on, (_, hi)) = g.rng.pick(&c).clone();
                g.next_ext += 1;
                Break::ExtUndef(on, hi - g.next_ext % 1000)
            }
        }
        _ => Break::UndefType,
    }
}

const DIRS: [&str; 13] = [
    "inc1",
    "./inc2",
    "/w/inc3",
    "inc4/",
    "inc1/nested",
    ".",
    "inc5/../inc6",
    "inc 7",
    "inc1x",
    "inc",
    "/w/inc1/nested/deeper",
    "inc\u{e9}//sub",
    // no text: see sys::ODD
    "inc\u{f8ff}8",
];

/// The path of a file whose name is no text, so that nothing can import it.
const UNNAMED: &str = "caf\u{f8ff}.proto";

/// Ways to write down the path of a file.
fn path_form(rng: &mut Rng, dir: &str, name: &str) -> String {
    let p = join_path(dir, name);
    match rng.below(13) {
        0..=3 => name.to_owned(),
        4..=6 => p,
        10 => p.replacen('/', "//", 1),
        11 => format!("{p}/"),
        12 => {
            // up and down again: no include directory is known to hold that
            let d = p.trim_start_matches("./").split('/').find(|c| !c.is_empty()).unwrap_or("x").to_owned();
            if p.starts_with('/') {
                format!("/w/../w/{}", p.strip_prefix("/w/").unwrap_or(&p))
            } else {
                format!("{d}/../{p}")
            }
        }
        7 if !p.starts_with('/') => format!("/w/{p}"),
        8 if !p.starts_with('/') && !p.starts_with('.') => format!("./{p}"),
        7 | 8 => p.strip_prefix("/w/").map(|s| s.to_owned()).unwrap_or(p),
        _ => match name.rfind('/') {
            Some(i) => join_path(dir, &format!("{}/./{}", &name[..i], &name[i + 1..])),
            None => join_path(dir, &format!("./{name}")),
        },
    }
}

pub const ERRNOS: [i32; 18] = [
    libc::EACCES,
    libc::EIO,
    libc::EMFILE,
    libc::ENFILE,
    libc::ELOOP,
    libc::ESTALE,
    libc::EPERM,
    libc::ENOMEM,
    libc::EAGAIN,
    libc::EBUSY,
    libc::ETXTBSY,
    libc::ENXIO,
    libc::EINVAL,
    libc::ENOTDIR,
    libc::ENAMETOOLONG,
    libc::ETIMEDOUT,
    libc::EOVERFLOW,
    libc::EILSEQ,
];
const READ_ERRNOS: [i32; 8] =
    [libc::EIO, libc::ESTALE, libc::EISDIR, libc::ENOMEM, libc::EAGAIN, libc::ETIMEDOUT, libc::EINVAL, libc::ENOTCONN];

fn mem_io(g: &mut Gen) -> MemEnt {
    match g.rng.below(3) {
        0 => MemEnt::Io,
        1 => MemEnt::IoNo(libc::ENOENT),
        _ => MemEnt::IoNo(*g.rng.pick(&ERRNOS)),
    }
}

fn faults(rng: &mut Rng, len: usize, hard_pct: usize) -> Vec<Fault> {
    let mut v = vec![];
    if rng.pct(hard_pct) {
        match rng.below(8) {
            0..=2 => v.push(Fault::OpenErr(*rng.pick(&ERRNOS))),
            3 => v.push(Fault::OpenErr(libc::ENOENT)),
            4 => v.push(Fault::StatErr(*rng.pick(&[libc::EIO, libc::ENOMEM, libc::EACCES, libc::EAGAIN, libc::EOVERFLOW]))),
            5 => v.push(Fault::StatSize(*rng.pick(&[i32::MAX as u64 + 1, u32::MAX as u64 + 7, 1 << 40]))),
            _ => {
                let at = *rng.pick(&[0, 1, len / 2, len.saturating_sub(1), len]);
                v.push(Fault::ReadErr(at as u32, *rng.pick(&READ_ERRNOS)));
            }
        }
        if rng.pct(60) {
            return v;
        }
    }
    for _ in 0..rng.range(1, 2) {
        match rng.below(6) {
            0 | 1 => {
                let n = rng.range(1, 4);
                let v2 = (0..n).map(|_| *rng.pick(&[1, 2, 3, 7, 31, 100, 1000])).collect();
                v.push(Fault::Short(v2));
            }
            2 => v.push(Fault::ReadEintr(rng.range(1, 4) as u32)),
            3 => v.push(Fault::OpenEintr(rng.range(1, 3) as u32)),
            _ => {
                let l = len as u64;
                v.push(Fault::StatSize(*rng.pick(&[
                    0,
                    1,
                    l / 2,
                    l.saturating_sub(1),
                    l + 1,
                    l * 2,
                    l + 100_000,
                    8192,
                    1_000_000,
                ])));
            }
        }
    }
    v
}

/// What the bytes of another file, or another age of this one, could look like in the wrong place.
const FOREIGN: [&str; 95] = [
    "1x\u{663}", "\u{663}", "0x\u{ff11}", "1e\u{b2}", "1.\u{bd}", "a\u{301}", "\u{ff10}\u{ff11}", "\u{212a}", "\u{3000}", "\u{10ffff}", "1\u{e9}1",
    "0128", "08", "0778", "018f", "1e", "1e+", "12E-", "0x", "0xg", "0x1g", "1.", ".5.", "0.0.0", "1e999", "-0", "- 1", "+1", "--1",
    "18446744073709551615", "18446744073709551616", "-9223372036854775809", "0xffffffffffffffff", "01777777777777777777777", "2147483648",
    "536870912", "19000", "inf", "-inf", "nan", "1f", "1.5f", "\"\\", "'\\x", "\"\\u12\"", "\"\\ud800\"", "\"\\U00110000\"", "\"\\777\"",
    "\"\\xff\"", "\"a\" 'b'", "\"\0\"", "\"\n\"", "/*", "*/", "/**/", "/*/", "//", "#", "#/*", "/", "\r", "\r\n", "\n\n", "\t\u{b}\u{c}", "\u{feff}",
    "\u{85}", "\u{2028}", "\u{a0}", "\u{0}", "\u{1f600}", "{", "}", "{}", "[", "]", "<", ">", "(", ")", ";", ";;", "=", ",", ".", "..", ".a.", "a..b",
    "option (a).b.(.c.d).e = { f: 1 g { h: [1, -2.5, \"x\"] } [a.b/c.d]: <> };", "oneof o { group G = 1 { } }", "map<int32, map<a, b>> x = 1;",
    "extensions 1 to max, 5;", "reserved 1, 2 to 1, \"a\", b;", "extend google.protobuf.FileOptions { group A = 1 { } }", "rpc a(stream stream) returns (.stream) { ; }",
    "import weak public \"a\";",
];

/// A string literal of pieces that mean something to whoever reads one.
fn soup(r: &mut Rng) -> String {
    let q = *r.pick(&["'", "\""]);
    let mut s = r.pick(&["", "", "option java_package = ", "import ", "package ", "message M { optional string f = 1 [default = "]).to_string();
    s.push_str(q);
    for _ in 0..r.range(1, 7) {
        s.push_str(r.pick(&[
            "\0", "\\q", "\\", "\n", "\r", "\u{e9}", "\u{4e2d}", "\u{1f600}", "e\u{301}", "\\u12", "\\ud83d", "\\ud83d\\ude00", "\\x", "\\x4", "\\xff", "\\777",
            "\\08", "\\0", "\\'", "\\\"", "a", "\\U0001f600", "\\U00110000", "\\U", "\\?", "\\n", "\u{7f}", "\u{2028}", "\u{feff}", "/*", "//",
        ]));
    }
    if r.pct(80) {
        s.push_str(q);
    }
    if r.pct(50) {
        s.push(';');
    }
    s
}

fn foreign(r: &mut Rng) -> Vec<u8> {
    match r.below(24) {
        20..=23 => soup(r).into_bytes(),
        0 => r.pick(&["{", "[", "(", "<", "message M{", "a:{", "optional group G=1{", "oneof o{"]).repeat(r.range(2, 60)).into_bytes(),
        1 => vec![*r.pick(&[0xffu8, 0x80, 0xc3, 0xe2, 0xf0, 0xed, 0xfe, 0x00, 0x7f]); r.range(1, 3)],
        2 => (0..r.range(1, 8)).map(|_| r.next() as u8).collect(),
        _ => {
            let mut b = vec![];
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                b.extend_from_slice(r.pick(&FOREIGN).as_bytes());
                if r.pct(30) {
                    b.push(b' ');
                }
            }
            b
        }
    }
}

fn wound(g: &mut Gen, s: &FileSpec, good: &[FileSpec]) -> Wound {
    let b = crate::gen::render(s).0;
    let n = b.len().max(1);
    let r = &mut *g.rng;
    // anywhere, at the ends, or where something begins
    let at = |r: &mut Rng| -> u32 {
        (match r.below(8) {
            0 => *r.pick(&[0, 1, 2, 3, n - 1, n]),
            1 | 2 => {
                let k = r.below(n);
                b[k..].iter().position(|c| b"{};\"'/\n<>()=".contains(c)).map_or(k, |x| k + x) + r.below(2)
            }
            _ => r.below(n),
        }) as u32
    };
    match r.below(21) {
        17..=20 => Wound::Wild(crate::wild::wild(r)),
        14..=16 => Wound::Put(at(r), foreign(r), r.pct(60)),
        0..=5 => Wound::Torn(at(r)),
        6 | 7 => Wound::ZeroTail(at(r)),
        8 | 9 => Wound::Flip((0..r.range(1, 3)).map(|_| (at(r), r.below(8) as u8)).collect()),
        10 => Wound::Zero(at(r), *r.pick(&[1, 2, 16, 512])),
        11 => Wound::Copy(at(r), *r.pick(&[1, 8, 64, 512]), at(r)),
        12 => Wound::Hole(at(r), *r.pick(&[1, 2, 8, 64, 512])),
        _ => {
            let o = r.pick(good).clone();
            Wound::Mixed(at(r), Box::new(o))
        }
    }
}

pub fn world(prop: &str, seed: u64, deep: bool) -> World {
    let mut rng = Rng::new(seed);
    let mut k = knobs(prop, &mut rng);
    if deep && rng.pct(40) {
        k.files.1 = k.files.1 * 2;
        k.steps.1 = k.steps.1 * 2;
        k.size += 1;
    }
    let hash_seed = rng.next();
    // limits and counters of the code may be larger than what a few files and steps reach
    let crowd = !matches!(prop, "C01" | "C08" | "C10" | "C13" | "C14") && rng.below(120) == 0;
    if crowd {
        k.files = *rng.pick(&[(17, 40), (17, 40), (30, 70), (60, 140), (250, 290)]);
        k.size = 1;
        k.fan = rng.range(1, 4);
        k.chain = rng.pct(15);
        k.broken = k.broken.min(1);
        k.missing = k.missing.min(1);
        k.cycle = k.cycle.min(1);
        k.clash = k.clash.min(1);
        k.dup_import = k.dup_import.min(1);
    }
    if rng.below(150) == 0 {
        k.steps = (k.steps.1 * 2, k.steps.1 * 5);
    }
    let mut r1 = rng.fork();
    // the types of custom options go round with their numbers
    let next_ext = if r1.pct(40) { 1 } else { r1.range(1, 24) as i32 };
    let mut g = Gen { rng: &mut r1, next_marker: 0, next_ext, size: k.size };
    let hub = rng.pct(k.hub);
    if hub {
        k.files = *rng.pick(&[(40, 75), (66, 140), (66, 140), (120, 280)]);
        k.size = 0;
        k.fan = 0;
        k.wide = 0;
        k.chain = false;
        k.builtin = 3;
        k.steps = (1, 3);
        k.dirs = (1, 2);
        k.dup = 1;
        k.missing = *rng.pick(&[0, 0, 2]);
        k.cycle = 0;
        k.dup_import = 0;
        k.broken = 0;
        k.mems = 10;
        g.size = 0;
    }
    let mut us = universe(&mut g, &k);
    if hub {
        make_hub(&mut g, &mut us);
    }
    let good: Vec<FileSpec> = us.iter().map(|u| u.spec.clone()).collect();
    damage(&mut g, &k, &mut us);

    // where files live
    let mut dirs: Vec<String> = vec![];
    let nd = if g.rng.pct(2) {
        g.rng.range(5, 11)
    } else if g.rng.below(200) == 0 {
        g.rng.range(12, 40)
    } else { g.rng.range(k.dirs.0, k.dirs.1) };
    while dirs.len() < nd {
        let d = if !dirs.is_empty() && g.rng.pct(20) {
            // nearly another one
            let o = g.rng.pick(&dirs).clone();
            let t = o.trim_end_matches('/');
            match g.rng.below(9) {
                _ if o.contains(crate::sys::ODD) && g.rng.pct(60) => o.replace(crate::sys::ODD[1], "\u{f8fe}"),
                7 | 8 if !t.starts_with(['/', '.']) => format!("x/{t}"),
                7 | 8 => format!("x/{}", t.trim_start_matches(['/', '.'])),
                0 | 1 => o.replace("inc", "Inc"),
                2 => o.replace("inc", "INC"),
                3 => format!("{t}x"),
                4 => format!("{t} "),
                5 => format!("{t}/pkg"),
                _ => format!("{t}-/"),
            }
        } else if nd > 11 && g.rng.pct(80) {
            format!("i/{}", g.rng.below(60))
        } else {
            g.rng.pick(&DIRS).to_string()
        };
        if d.contains("..") && d != "inc5/../inc6" {
            continue;
        }
        if !dirs.contains(&d) {
            dirs.push(d);
        }
    }
    let mut vfs_dirs = dirs.clone();
    for d in &dirs {
        // "a/../b" needs "a"
        if let Some(i) = d.find("/..") {
            vfs_dirs.push(d[..i].to_owned());
        }
    }
    if g.rng.pct(10) {
        // an include directory that does not exist
        dirs.push("absent".into());
    }
    let mut mems: Vec<BTreeMap<String, MemEnt>> = vec![];
    if g.rng.pct(k.mems) {
        for _ in 0..g.rng.range(1, 2) {
            mems.push(BTreeMap::new());
        }
    }
    let mut files: Vec<(String, Content)> = vec![];
    // all contents that exist anywhere for a name
    let mut alts: Vec<Vec<FileSpec>> = vec![];
    for u in &us {
        let mut variants = vec![u.spec.clone()];
        let in_mem = !mems.is_empty() && g.rng.pct(45);
        if in_mem {
            let m = g.rng.below(mems.len());
            let form = *g.rng.pick(&[0, 0, 1, 2]);
            let ent = MemEnt::File { spec: u.spec.clone(), form };
            mems[m].insert(u.name.clone(), ent);
        }
        if !in_mem || g.rng.pct(k.dup) {
            let d = g.rng.pick(&vfs_dirs[..nd]).clone();
            let spec = if in_mem {
                let v = g.variant(&u.spec);
                variants.push(v.clone());
                v
            } else {
                u.spec.clone()
            };
            files.push((join_path(&d, &u.name), Content::Spec(spec)));
        }
        while g.rng.pct(k.dup) && variants.len() < 4 {
            let d = g.rng.pick(&vfs_dirs[..nd]).clone();
            let p = join_path(&d, &u.name);
            if files.iter().any(|f| crate::sys::lexical(&f.0) == crate::sys::lexical(&p)) {
                break;
            }
            let v = g.variant(&u.spec);
            variants.push(v.clone());
            files.push((p, Content::Spec(v)));
        }
        alts.push(variants);
    }
    if g.rng.pct(15) {
        let d = g.rng.pick(&vfs_dirs[..nd]).clone();
        files.push((join_path(&d, UNNAMED), Content::Spec(g.variant(&us[0].spec))));
    }
    let mut links: Vec<(String, String)> = vec![];
    // include directories that are links, and what they can be switched between
    let mut trees: Vec<(String, Vec<String>)> = vec![];
    let linked = g.rng.pct(k.links);
    if linked {
        use crate::sys::lexical;
        for (i, d) in dirs[..nd].iter().enumerate() {
            let l = lexical(d);
            if l == "/w" || !g.rng.pct(45) {
                continue;
            }
            let mut to = vec![format!("/w/store{i}")];
            links.push((l.clone(), if g.rng.pct(50) && !l[3..].contains('/') { format!("store{i}") } else { to[0].clone() }));
            if g.rng.pct(60) {
                to.push(format!("/w/store{i}.v2"));
                for (p, c) in files.clone() {
                    let Some(rest) = lexical(&p).strip_prefix(&format!("{l}/")).map(str::to_owned) else { continue };
                    let Content::Spec(s) = c else { continue };
                    if g.rng.pct(80) {
                        let v = g.variant(&s);
                        if let Some(n) = us.iter().position(|u| p.ends_with(&u.name)) {
                            alts[n].push(v.clone());
                        }
                        files.push((format!("{}/{rest}", to[1]), Content::Spec(v)));
                    }
                }
            }
            trees.push((d.clone(), to));
        }
        for i in 0..files.len() {
            let Some(u) = us.iter().find(|u| files[i].0.ends_with(&u.name)) else { continue };
            if g.rng.pct(20) {
                let blob = format!("/w/store/{i}/{}", u.name);
                let p = std::mem::replace(&mut files[i].0, blob.clone());
                links.push((lexical(&p), blob));
            }
        }
        // and some that lead nowhere, or to themselves
        for d in &dirs[..nd] {
            if g.rng.pct(15) {
                let p = lexical(&join_path(d, &g.rng.pick(&us).name));
                if files.iter().all(|f| lexical(&f.0) != p) && links.iter().all(|l| l.0 != p) {
                    let to = if g.rng.pct(60) { "/w/store/nothing".to_owned() } else { p.clone() };
                    links.push((p, to));
                }
            }
        }
    }
    for m in mems.iter_mut() {
        for u in &us {
            if g.rng.pct(2) {
                let e = if g.rng.pct(60) { mem_io(&mut g) } else { MemEnt::Custom(format!("custom failure {}", u.spec.marker)) };
                m.insert(u.name.clone(), e);
            }
        }
    }

    // compilers
    let mut compilers = vec![];
    for c in 0..k.compilers {
        let mut layers: Vec<Layer> = vec![];
        let plain = mems.is_empty() && g.rng.pct(75);
        let mut order: Vec<Layer> = dirs.iter().map(|d| Layer::Dir(d.clone())).collect();
        if !plain {
            for m in 0..mems.len() {
                let at = g.rng.below(order.len() + 1);
                order.insert(at, Layer::Mem(m));
            }
        }
        if c > 0 || g.rng.pct(20) {
            g.rng.shuffle(&mut order);
        }
        if g.rng.pct(6) {
            // one directory twice, perhaps spelled differently
            let d = g.rng.pick(&dirs).clone();
            let d = match g.rng.below(5) {
                0 => format!("{d}/"),
                1 if !d.starts_with(['/', '.']) => format!("./{d}"),
                2 if !d.starts_with(['/', '.']) => format!("/w/{d}"),
                _ => d,
            };
            let at = g.rng.below(order.len() + 1);
            order.insert(at, Layer::Dir(d));
        }
        layers.extend(order);
        if c > 0 && layers.len() > 1 && g.rng.pct(40) {
            let i = g.rng.below(layers.len());
            layers.remove(i);
        }
        compilers.push(CompilerCfg { layers, plain, google: plain || g.rng.pct(90) });
    }

    // history
    let mut steps: Vec<Step> = vec![];
    let mut extra: Vec<Content> = vec![];
    let n = g.rng.range(k.steps.0, k.steps.1);
    let names: Vec<String> = us.iter().map(|u| u.name.clone()).collect();
    let total = k.w_open + k.w_many + k.w_fault + k.w_disk + k.w_toggle + k.w_hold + k.w_trap + k.w_restart + k.w_repair + k.w_wound + k.w_compile + k.w_fresh;
    let file_paths: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
    let any_path = |g: &mut Gen, name: Option<&str>| -> String {
        // a path where a file is, or where it could be
        let own: Vec<&String> =
            file_paths.iter().filter(|p| name.is_none_or(|n| p.ends_with(n))).collect();
        if !own.is_empty() && g.rng.pct(85) {
            (*g.rng.pick(&own)).clone()
        } else {
            let d = g.rng.pick(&vfs_dirs[..nd]).clone();
            let n = match name {
                Some(n) => n.to_owned(),
                None => g.rng.pick(&names).clone(),
            };
            join_path(&d, &n)
        }
    };
    let target = |g: &mut Gen| -> String {
        if g.rng.pct(k.odd) {
            let d = g.rng.pick(&dirs).clone();
            return match g.rng.below(11) {
                0 => "nosuch.proto".to_owned(),
                1 => join_path(&d, "nosuch.proto"),
                2 => "/elsewhere/f.proto".to_owned(),
                3 => "../up.proto".to_owned(),
                4 => join_path(&d, "../escape.proto"),
                5 => d,
                6 => "google/protobuf/any.proto".to_owned(),
                7 => "google/protobuf/type.proto".to_owned(),
                8 => join_path(&d, UNNAMED),
                9 => UNNAMED.to_owned(),
                _ => format!("./{}", g.rng.pick(&names)),
            };
        }
        // later files reach more of the universe
        let i = if hub && g.rng.pct(75) {
            names.len() - 1
        } else if g.rng.pct(60) { names.len() - 1 - g.rng.below((names.len() + 1) / 2) } else { g.rng.below(names.len()) };
        let name = names[i].clone();
        let own: Vec<&String> = file_paths.iter().filter(|p| p.ends_with(&name)).collect();
        if !own.is_empty() && g.rng.pct(85) {
            let p: String = (*g.rng.pick(&own)).clone();
            let d = p[..p.len() - name.len()].to_owned();
            path_form(g.rng, &d, &name)
        } else {
            let d = g.rng.pick(&vfs_dirs[..nd]).clone();
            path_form(g.rng, &d, &name)
        }
    };
    let spec_for = |g: &mut Gen, path: &str, alts: &mut Vec<Vec<FileSpec>>| -> Option<FileSpec> {
        let i = names.iter().position(|n| path.ends_with(n.as_str()))?;
        Some(match g.rng.below(10) {
            0..=4 => {
                let v = g.variant(&good[i]);
                alts[i].push(v.clone());
                v
            }
            5 => {
                let mut v = g.variant(&good[i]);
                v.broken = Some(breakage(g, &us, i));
                v
            }
            6 => {
                let mut v = g.variant(&good[i]);
                v.imports.clear();
                v.decls.clear();
                v.opts.clear();
                v
            }
            7 => {
                // another file's declarations under this name
                let j = g.rng.below(good.len());
                g.variant(&good[j])
            }
            _ => g.rng.pick(&alts[i]).clone(),
        })
    };
    let disk_op = |g: &mut Gen, alts: &mut Vec<Vec<FileSpec>>, extra: &mut Vec<Content>| -> DiskOp {
        let p = any_path(g, None);
        if g.rng.pct(if linked { 30 } else { 4 }) {
            if let (false, true) = (trees.is_empty(), g.rng.pct(50)) {
                let (d, to) = g.rng.pick(&trees).clone();
                return DiskOp::Link(d, g.rng.pick(&to).clone());
            }
            let d = g.rng.pick(&dirs).trim_end_matches('/').to_owned();
            return match g.rng.below(6) {
                0 => DiskOp::Rename(d.clone(), format!("{d}.old")),
                1 => DiskOp::Rename(format!("{d}.old"), d),
                2 => DiskOp::Link(p, "/w/store/nothing".into()),
                3 => DiskOp::Link(p.clone(), p),
                _ => {
                    let q = any_path(g, None);
                    DiskOp::Link(p, crate::sys::lexical(&q))
                }
            };
        }
        match g.rng.below(10) {
            0 => DiskOp::Remove(p),
            1 => DiskOp::Truncate(p, if g.rng.pct(25) { 0 } else { g.rng.below(400) as u32 }),
            2 => DiskOp::Append(p, b"\nmessage Appended { }\n".to_vec()),
            3 => {
                let q = any_path(g, None);
                DiskOp::Rename(p, q)
            }
            4 => DiskOp::Mkdir(p),
            x => match spec_for(g, &p, alts) {
                Some(s) => {
                    let c = Content::Spec(s);
                    let b = c.bytes();
                    extra.push(c);
                    if x % 2 == 0 {
                        DiskOp::Overwrite(p, b)
                    } else {
                        DiskOp::Replace(p, b)
                    }
                }
                None => DiskOp::Remove(p),
            },
        }
    };
    let mut left = n;
    let mut opened: Vec<(usize, String)> = vec![];
    while left > 0 {
        left -= 1;
        let c = g.rng.below(k.compilers);
        if g.rng.pct(4) {
            let path = target(&mut g);
            let name = match g.rng.below(10) {
                0 => path.replace(crate::sys::ODD, ""),
                1 => g.rng.pick(&["google/protobuf/any.proto", "google/protobuf/type.proto", "google/protobuf/none.proto", ""]).to_string(),
                2 => format!("./{}", g.rng.pick(&names)),
                _ => g.rng.pick(&names).clone(),
            };
            steps.push(Step::Look { c, path, name });
        }
        if dirs.len() > nd && g.rng.pct(12) {
            // the directory that did not exist comes into being
            let i = g.rng.below(names.len());
            let v = g.variant(&good[i]);
            alts[i].push(v.clone());
            steps.push(Step::Put { path: join_path("absent", &names[i]), content: Content::Spec(v) });
            let path = if g.rng.pct(50) { names[i].clone() } else { join_path("absent", &names[i]) };
            steps.push(Step::Open { c, path });
        }
        let mut w = g.rng.below(total);
        let mut hit = |x: usize| {
            if w < x {
                w = usize::MAX;
                true
            } else {
                w = w.saturating_sub(x);
                false
            }
        };
        if hit(k.w_open) {
            let path = if !opened.is_empty() && g.rng.pct(15) { g.rng.pick(&opened).1.clone() } else { target(&mut g) };
            opened.push((c, path.clone()));
            if g.rng.pct(4) {
                steps.push(Step::Open { c, path: path.clone() });
            }
            steps.push(Step::Open { c, path });
        } else if hit(k.w_many) {
            let m = g.rng.range(1, 4);
            let paths = (0..m).map(|_| target(&mut g)).collect();
            steps.push(Step::OpenMany { c, paths });
        } else if hit(k.w_fault) {
            let mut repeat = vec![];
            for _ in 0..g.rng.range(1, 3) {
                let p = any_path(&mut g, None);
                let len = files
                    .iter()
                    .find(|f| f.0 == p)
                    .map(|f| f.1.bytes().len())
                    .unwrap_or(300);
                let f = faults(g.rng, len, k.hard);
                steps.push(Step::Fault { path: p.clone(), faults: f });
                repeat.push(p);
            }
            let path = if g.rng.pct(60) {
                let p = g.rng.pick(&repeat).clone();
                match names.iter().find(|n| p.ends_with(n.as_str())) {
                    Some(n) if g.rng.pct(60) => n.clone(),
                    _ => p,
                }
            } else {
                target(&mut g)
            };
            steps.push(Step::Open { c, path: path.clone() });
            if g.rng.pct(20) {
                steps.push(Step::Open { c, path: path.clone() });
            }
            if g.rng.pct(75) {
                steps.push(Step::ClearAll);
                if g.rng.pct(75) {
                    steps.push(Step::Open { c, path: path.clone() });
                }
            }
            if prop == "C05" && g.rng.below(400) == 0 {
                // whatever is counted or kept on failure, it may take many
                let at = steps.iter().rposition(|s| matches!(s, Step::Open { .. })).unwrap_or(0);
                let o = steps[at].clone();
                let n = *g.rng.pick(&[20, 70, 140, 300]);
                steps.splice(at..at, std::iter::repeat_n(o, n));
            }
            opened.push((c, path));
        } else if hit(k.w_disk) {
            if !mems.is_empty() && g.rng.pct(30) {
                let m = g.rng.below(mems.len());
                let i = g.rng.below(names.len());
                if g.rng.pct(25) {
                    steps.push(Step::MemRemove { m, name: names[i].clone() });
                } else {
                    let ent = match g.rng.below(8) {
                        0 => mem_io(&mut g),
                        1 => MemEnt::Custom("changed its mind".into()),
                        _ => MemEnt::File { spec: g.variant(&good[i]), form: *g.rng.pick(&[0, 0, 1, 2]) },
                    };
                    steps.push(Step::MemPut { m, name: names[i].clone(), ent });
                }
            } else {
                for _ in 0..g.rng.range(1, 3) {
                    let op = disk_op(&mut g, &mut alts, &mut extra);
                    steps.push(Step::Disk(op));
                }
            }
            if g.rng.pct(80) {
                let path = if !opened.is_empty() && g.rng.pct(35) { g.rng.pick(&opened).1.clone() } else { target(&mut g) };
                steps.push(Step::Open { c, path });
            }
        } else if hit(k.w_toggle) {
            let on = g.rng.pct(60);
            steps.push(if g.rng.pct(50) { Step::Imports { c, on } } else { Step::Info { c, on } });
        } else if hit(k.w_hold) {
            steps.push(Step::Hold { c });
        } else if hit(k.w_trap) {
            let mut t = vec![];
            for _ in 0..g.rng.range(1, 3) {
                let at = g.rng.below(30) as u64;
                if g.rng.pct(65) {
                    let op = disk_op(&mut g, &mut alts, &mut extra);
                    t.push((at, Trap::Disk(op)));
                } else {
                    t.push((at, Trap::Fail(*g.rng.pick(&[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOENT, libc::ENOMEM]))));
                }
            }
            t.sort_by_key(|x| x.0);
            steps.push(Step::Traps(t));
            let path = target(&mut g);
            opened.push((c, path.clone()));
            steps.push(Step::Open { c, path: path.clone() });
            if g.rng.pct(40) {
                steps.push(Step::Open { c, path });
            }
        } else if hit(k.w_fresh) {
            steps.push(Step::Fresh { c });
        } else if hit(k.w_compile) {
            let m = g.rng.range(1, 3);
            let paths = (0..m).map(|_| target(&mut g)).collect();
            steps.push(Step::Compile { c, paths });
        } else if hit(k.w_wound) {
            let i = g.rng.below(names.len());
            let p = any_path(&mut g, Some(&names[i]));
            let root = match g.rng.below(4) {
                0 => target(&mut g),
                1 => names[names.len() - 1].clone(),
                _ => names[i].clone(),
            };
            let v = g.variant(&good[i]);
            if g.rng.pct(30) {
                steps.push(Step::Fresh { c });
            }
            for _ in 0..g.rng.range(1, 5) {
                let wound = wound(&mut g, &v, &good);
                let content = Content::Wounded { spec: v.clone(), wound };
                if g.rng.pct(15) {
                    // the damage happens while the file is being read
                    let b = content.bytes();
                    extra.push(content);
                    let op = if g.rng.pct(50) { DiskOp::Overwrite(p.clone(), b) } else { DiskOp::Replace(p.clone(), b) };
                    steps.push(Step::Traps(vec![(g.rng.below(12) as u64, Trap::Disk(op))]));
                } else {
                    steps.push(Step::Put { path: p.clone(), content });
                }
                steps.push(Step::Open { c, path: root.clone() });
                if g.rng.pct(60) {
                    steps.push(Step::Fresh { c });
                }
            }
            if g.rng.pct(80) {
                steps.push(Step::Put { path: p, content: Content::Spec(v) });
                steps.push(Step::Open { c, path: root });
            }
        } else if hit(k.w_restart) {
            steps.push(Step::Restart {
                c,
                imports: g.rng.pct(75),
                info: g.rng.pct(50),
                by_struct: g.rng.pct(35),
                chunk: *g.rng.pick(&[0, 0, 1, 3, 64, 1000]),
            });
            if g.rng.pct(80) {
                let path = if !opened.is_empty() && g.rng.pct(50) { g.rng.pick(&opened).1.clone() } else { target(&mut g) };
                steps.push(Step::Open { c, path });
            }
        } else {
            // repair: everything wrong goes away, then open again
            steps.push(Step::ClearAll);
            for (i, u) in us.iter().enumerate() {
                if u.spec != good[i] {
                    let fixed = g.variant(&good[i]);
                    for (p, cc) in &files {
                        if p.ends_with(&u.name) && matches!(cc, Content::Spec(_)) {
                            steps.push(Step::Put { path: p.clone(), content: Content::Spec(fixed.clone()) });
                        }
                    }
                    for (m, mm) in mems.iter().enumerate() {
                        if mm.contains_key(&u.name) {
                            steps.push(Step::MemPut { m, name: u.name.clone(), ent: MemEnt::File { spec: fixed.clone(), form: 0 } });
                        }
                    }
                }
            }
            let path = if !opened.is_empty() && g.rng.pct(70) { g.rng.pick(&opened).1.clone() } else { target(&mut g) };
            steps.push(Step::Open { c, path });
        }
    }
    World { hash_seed, files, dirs: vfs_dirs, mems, compilers, steps, all_modes: k.all_modes, extra, links }
}
