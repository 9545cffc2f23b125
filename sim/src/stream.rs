//! Encoded descriptor sets as they arrive: in pieces of any size, cut off, damaged, with fields from
//! a newer version of the format, and then used by a compiler.

use prost::Message;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver};
use protox::Compiler;
use serde::{Deserialize, Serialize};

use crate::gen::{self, FileSpec, Gen};
use crate::profiles;
use crate::report::{guarded, look, RunOut};
use crate::rng::{hash_bytes, Rng};
use crate::sys::{self, Sys, Vfs};
use crate::wire;
use crate::world::{digest_pool, first_diff, normal};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    Cut(u32),
    Flip(u32, u8),
    Set(u32, u8),
    Zero(u32, u32),
    Hole(u32, u32),
    Copy(u32, u32, u32),
    Junk(Vec<u8>),
}

impl Damage {
    fn kind(&self) -> &'static str {
        match self {
            Damage::Cut(_) => "stream_cut",
            Damage::Flip(..) => "stream_bit_flip",
            Damage::Set(..) => "stream_byte_set",
            Damage::Zero(..) => "stream_zeroed",
            Damage::Hole(..) => "stream_block_lost",
            Damage::Copy(..) => "stream_block_duplicated",
            Damage::Junk(_) => "stream_junk_appended",
        }
    }
    fn apply(&self, b: &mut Vec<u8>) {
        let n = b.len();
        match self {
            Damage::Cut(x) => b.truncate(*x as usize),
            Damage::Flip(x, bit) => {
                if let Some(c) = b.get_mut(*x as usize) {
                    *c ^= 1 << (bit & 7)
                }
            }
            Damage::Set(x, v) => {
                if let Some(c) = b.get_mut(*x as usize) {
                    *c = *v
                }
            }
            Damage::Zero(x, k) => {
                let (a, e) = ((*x as usize).min(n), (*x as usize + *k as usize).min(n));
                b[a..e].fill(0)
            }
            Damage::Hole(x, k) => {
                let (a, e) = ((*x as usize).min(n), (*x as usize + *k as usize).min(n));
                b.drain(a..e);
            }
            Damage::Copy(x, k, to) => {
                let (a, e) = ((*x as usize).min(n), (*x as usize + *k as usize).min(n));
                let piece = b[a..e].to_vec();
                let to = (*to as usize).min(n);
                b.splice(to..to, piece);
            }
            Damage::Junk(j) => b.extend_from_slice(j),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub name: String,
    pub spec: FileSpec,
    /// custom option of the file: number and value
    pub opt: Option<(u32, u32)>,
    /// a field of FileDescriptorProto nobody knows yet
    pub later: Option<(u32, u32)>,
    /// a syntax nobody knows yet
    #[serde(default)]
    pub syntax: Option<String>,
    /// bytes in another field nobody knows yet
    #[serde(default)]
    pub blob: u32,
    /// options nobody knows, of elements counted in order: which, number, value, as bytes
    #[serde(default)]
    pub alien: Vec<(u32, u32, u32, bool)>,
    /// set-level fields before this record
    pub before: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub damage: Vec<Damage>,
    /// sizes of the pieces, repeating; empty: one piece
    pub pieces: Vec<u32>,
    /// a single file instead of the set
    pub single: Option<usize>,
    /// compile everything it serves
    pub compile: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Stream {
    pub hash_seed: u64,
    pub recs: Vec<Rec>,
    pub cases: Vec<Case>,
}

fn unknown(rng: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..rng.range(1, 2) {
        let tag = *rng.pick(&[2u32, 3, 15, 16, 2047, 536_870_911]);
        match rng.below(5) {
            0 => prost::encoding::uint64::encode(tag, &rng.next(), &mut b),
            1 => prost::encoding::fixed64::encode(tag, &rng.next(), &mut b),
            2 => prost::encoding::fixed32::encode(tag, &(rng.next() as u32), &mut b),
            3 => {
                let n = *rng.pick(&[0usize, 1, 5, 130, 20_000]);
                let v: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
                prost::encoding::bytes::encode(tag, &v, &mut b)
            }
            _ => {
                prost::encoding::encode_key(tag, prost::encoding::WireType::StartGroup, &mut b);
                prost::encoding::uint64::encode(1, &rng.next(), &mut b);
                prost::encoding::encode_key(tag, prost::encoding::WireType::EndGroup, &mut b);
            }
        }
    }
    b
}

fn encode_rec(r: &Rec) -> Vec<u8> {
    let mut f = gen::expected(&r.spec, &r.name);
    if let Some(s) = &r.syntax {
        f.syntax = Some(s.clone());
    }
    let mut b = f.encode_to_vec();
    if !r.alien.is_empty() {
        let mut count = 0;
        wire::add_options(&b, &mut |_| {
            count += 1;
            None
        });
        b = wire::add_options(&b, &mut |i| {
            let mut o = vec![];
            for (_, n, v, bytes) in r.alien.iter().filter(|a| a.0 as usize % count == i) {
                if *bytes {
                    prost::encoding::bytes::encode(*n, &vec![*v as u8; (*v % 300) as usize], &mut o);
                } else {
                    prost::encoding::uint32::encode(*n, v, &mut o);
                }
            }
            (!o.is_empty()).then_some(o)
        });
    }
    if let Some((n, v)) = r.opt {
        let mut o = vec![];
        crate::wire::put(n, &crate::gen::opt_value(n as i32, v % 1000).2, &mut o);
        prost::encoding::bytes::encode(8, &o, &mut b);
    }
    if let Some((n, v)) = r.later {
        prost::encoding::uint32::encode(n, &v, &mut b);
    }
    if r.blob > 0 {
        prost::encoding::bytes::encode(600, &vec![0x5a; r.blob as usize], &mut b);
    }
    b
}

/// The bytes of the set, and after which of them a record (or unknown field) ends: (offset, files so far)
fn encode(recs: &[Rec]) -> (Vec<u8>, Vec<(usize, usize)>) {
    let mut b = vec![];
    let mut ends = vec![(0, 0)];
    for (i, r) in recs.iter().enumerate() {
        // every whole unknown field is a boundary as well
        let mut at = 0;
        while at < r.before.len() {
            at += field_len(&r.before[at..]);
            ends.push((b.len() + at, i));
        }
        b.extend_from_slice(&r.before);
        prost::encoding::bytes::encode(1, &encode_rec(r), &mut b);
        ends.push((b.len(), i + 1));
    }
    (b, ends)
}

fn field_len(b: &[u8]) -> usize {
    let mut i = 0;
    let key = wire::varint(b, &mut i).unwrap_or(0);
    match key & 7 {
        0 => {
            wire::varint(b, &mut i);
        }
        1 => i += 8,
        2 => {
            let n = wire::varint(b, &mut i).unwrap_or(0) as usize;
            i += n;
        }
        3 => {
            // groups as `unknown` writes them: one varint inside
            i += 1;
            wire::varint(b, &mut i);
            wire::varint(b, &mut i);
        }
        _ => i += 4,
    }
    i.min(b.len()).max(1)
}

pub fn generate(seed: u64, deep: bool) -> Stream {
    let mut rng = Rng::new(seed);
    let hash_seed = rng.next();
    let mut k = profiles::knobs("C07", &mut rng);
    k.files = (1, if deep { 9 } else { 5 });
    k.size = 1 + rng.below(4);
    k.shadow_builtin = 5;
    if rng.below(400) == 0 {
        k.files = *rng.pick(&[(30, 140), (250, 280), (250, 600)]);
        k.size = 1;
        k.fan = 2;
    }
    let mut r1 = rng.fork();
    // the types of custom options go round with their numbers
    let next_ext = if r1.pct(40) { 1 } else { r1.range(1, 24) as i32 };
    let mut g = Gen { rng: &mut r1, next_marker: 0, next_ext, size: k.size };
    let us = profiles::universe(&mut g, &k);
    let mut recs: Vec<Rec> = us
        .iter()
        .map(|u| Rec {
            name: u.name.clone(),
            spec: u.spec.clone(),
            opt: if rng.pct(40) { Some((50_000 + rng.below(100) as u32, rng.next() as u32)) } else { None },
            later: if rng.pct(15) { Some((*rng.pick(&[500, 2000, 19_000]), rng.next() as u32)) } else { None },
            syntax: if rng.pct(4) { Some(rng.pick(&["editions", "proto4", "", "Proto3", "proto22"]).to_string()) } else { None },
            blob: if rng.pct(10) { *rng.pick(&[100, 127, 128, 129, 4000, 16_300, 16_384, 70_000]) } else if rng.pct(1) && rng.pct(40) { 2_097_100 + rng.below(100) as u32 } else { 0 },
            alien: if rng.pct(25) {
                (0..rng.range(1, 4)).map(|_| (rng.next() as u32, 60_000 + rng.below(100) as u32, rng.next() as u32, rng.pct(30))).collect()
            } else {
                vec![]
            },
            before: if rng.pct(25) { unknown(&mut rng) } else { vec![] },
        })
        .collect();
    if rng.pct(20) {
        // the same name again, with other content: the first one counts
        let i = rng.below(recs.len());
        let mut again = recs[i].clone();
        again.spec = g.variant(&again.spec);
        let at = rng.range(i + 1, recs.len());
        recs.insert(at, again);
    }
    let (bytes, ends) = encode(&recs);
    let mut cases = vec![];
    for _ in 0..rng.range(3, if deep { 24 } else { 12 }) {
        let single = if rng.pct(20) { Some(rng.below(recs.len())) } else { None };
        let one = single.map(|i| encode_rec(&recs[i]));
        let n = one.as_ref().map_or(bytes.len(), |o| o.len()).max(1);
        let at = |rng: &mut Rng| -> u32 {
            if single.is_none() && rng.pct(45) {
                let e = rng.pick(&ends).0;
                (match rng.below(4) {
                    0 => e + rng.below(3),
                    1 => e.saturating_sub(rng.below(3)),
                    _ => e,
                }) as u32
            } else {
                rng.below(n + 1) as u32
            }
        };
        let mut damage = vec![];
        match rng.below(10) {
            0 | 1 => {}
            2..=5 => damage.push(Damage::Cut(at(&mut rng))),
            _ => {
                for _ in 0..rng.range(1, 3) {
                    let x = at(&mut rng);
                    damage.push(match rng.below(7) {
                        0 | 1 => Damage::Flip(x, rng.below(8) as u8),
                        2 => Damage::Set(x, *rng.pick(&[0, 1, 0x0a, 0x7f, 0x80, 0xff])),
                        3 => Damage::Zero(x, *rng.pick(&[1, 2, 16, 512])),
                        4 => Damage::Hole(x, *rng.pick(&[1, 2, 8, 64, 512])),
                        5 => Damage::Copy(x, *rng.pick(&[1, 8, 64, 512]), at(&mut rng)),
                        _ => Damage::Junk(if rng.pct(40) {
                            // a record that claims to be huge
                            let mut j = vec![0x0a];
                            prost::encoding::encode_varint(*rng.pick(&[1, 127, 1 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, u64::MAX]), &mut j);
                            j
                        } else {
                            (0..rng.range(1, 12)).map(|_| rng.next() as u8).collect()
                        }),
                    });
                }
            }
        }
        let pieces = match rng.below(5) {
            0 => vec![],
            1 => vec![1],
            _ => (0..rng.range(1, 5)).map(|_| *rng.pick(&[1, 2, 3, 5, 9, 64, 500])).collect(),
        };
        let compile = rng.pct(60);
        cases.push(Case { damage, pieces, single, compile });
    }
    Stream { hash_seed, recs, cases }
}

/// A `Buf` of many pieces.
struct Drip<'a> {
    data: &'a [u8],
    pos: usize,
    pieces: &'a [u32],
    next: usize,
    end: usize,
}
impl<'a> Drip<'a> {
    fn new(data: &'a [u8], pieces: &'a [u32]) -> Self {
        let mut d = Drip { data, pos: 0, pieces, next: 0, end: 0 };
        d.refill();
        d
    }
    fn refill(&mut self) {
        while self.end <= self.pos && self.end < self.data.len() {
            let n = match self.pieces.get(self.next % self.pieces.len().max(1)) {
                Some(n) => (*n).max(1) as usize,
                None => self.data.len(),
            };
            self.next += 1;
            self.end = (self.end + n).min(self.data.len());
        }
    }
}
impl bytes::Buf for Drip<'_> {
    fn remaining(&self) -> usize {
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        &self.data[self.pos..self.end.max(self.pos)]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining(), "advanced past the end of the buffer");
        self.pos += n;
        self.refill();
    }
}

const P: &[&str] = &["C11"];

struct Exec<'a> {
    s: &'a Stream,
    out: RunOut,
}

impl Exec<'_> {
    fn case(&mut self, i: usize, c: &Case) {
        for d in &c.damage {
            *self.out.faults.entry(d.kind().into()).or_insert(0) += 1;
        }
        if !c.pieces.is_empty() {
            *self.out.faults.entry("stream_in_pieces".into()).or_insert(0) += 1;
        }
        match c.single {
            Some(k) => self.single(i, c, k),
            None => self.set(i, c),
        }
    }

    fn single(&mut self, i: usize, c: &Case, k: usize) {
        let Some(r) = self.s.recs.get(k) else { return };
        let mut b = encode_rec(r);
        for d in &c.damage {
            d.apply(&mut b);
        }
        let want = FileDescriptorProto::decode(b.as_slice());
        let got = match guarded(|| File::decode_file_descriptor_proto(Drip::new(&b, &c.pieces))) {
            Ok(x) => x,
            Err(p) => {
                self.out.violate("decode-panic", P, format!("case {i}: decoding {} bytes panicked: {p}", b.len()));
                return;
            }
        };
        match (got, want) {
            (Ok(f), Ok(w)) => {
                self.out.probe("file_decoded");
                if *f.file_descriptor_proto() != w || f.name() != w.name() || f.path().is_some() || f.source().is_some() {
                    self.out.violate(
                        "decoded-differs",
                        P,
                        format!("case {i}: {}", first_diff(&format!("{:?}", f.file_descriptor_proto()), &format!("{w:?}"))),
                    );
                    return;
                }
                // used as the one file of a resolver it must keep what the struct can not hold
                if c.damage.is_empty() && c.compile {
                    self.compile(i, c, &[(r.name.clone(), b.clone())], true, Box::new(OneFile(f)));
                }
            }
            (Err(_), Err(_)) => self.out.probe("damage_refused"),
            (Ok(_), Err(e)) => self.out.violate("damage-accepted", P, format!("case {i}: a file of {} damaged bytes was decoded, though {e}", b.len())),
            (Err(e), Ok(_)) => self.out.violate("whole-refused", P, format!("case {i}: a file was refused: {e}")),
        }
    }

    fn set(&mut self, i: usize, c: &Case) {
        let (mut b, ends) = encode(&self.s.recs);
        for d in &c.damage {
            d.apply(&mut b);
        }
        let want = FileDescriptorSet::decode(b.as_slice());
        let got = match guarded(|| DescriptorSetFileResolver::decode(Drip::new(&b, &c.pieces))) {
            Ok(x) => x,
            Err(p) => {
                self.out.violate("decode-panic", P, format!("case {i}: decoding {} bytes panicked: {p}", b.len()));
                return;
            }
        };
        // cut streams are judged without any decoder
        let files_before = match c.damage.as_slice() {
            [] => Some(Some(self.s.recs.len())),
            [Damage::Cut(x)] => Some(ends.iter().rev().find(|e| e.0 == b.len().min(*x as usize)).map(|e| e.1)),
            _ => None,
        };
        match (&files_before, &got) {
            (Some(Some(_)), Err(e)) => {
                return self.out.violate("whole-refused", &["C11", "C16"], format!("case {i}: a set ending between two records was refused: {e}"))
            }
            (Some(None), Ok(_)) => {
                return self.out.violate("damage-accepted", &["C11", "C16"], format!("case {i}: a set cut inside a record ({} bytes) was accepted", b.len()))
            }
            _ => {}
        }
        let (r, w) = match (got, want) {
            (Ok(r), Ok(w)) => (r, w),
            (Err(_), Err(_)) => return self.out.probe("damage_refused"),
            (Ok(_), Err(e)) => {
                return self.out.violate("damage-accepted", P, format!("case {i}: a set of {} damaged bytes was decoded, though {e}", b.len()))
            }
            (Err(e), Ok(_)) => return self.out.violate("whole-refused", P, format!("case {i}: a valid set was refused: {e}")),
        };
        self.out.probe("set_decoded");
        if let Some(Some(n)) = files_before {
            let names: Vec<&str> = self.s.recs[..n].iter().map(|r| r.name.as_str()).collect();
            let ws: Vec<&str> = w.file.iter().map(|f| f.name()).collect();
            if names != ws {
                return self.out.violate("harness", P, format!("case {i}: reference decoders disagree: {names:?} {ws:?}"));
            }
        }
        // what it serves
        let mut names: Vec<String> = w.file.iter().map(|f| f.name().to_owned()).collect();
        names.sort();
        names.dedup();
        for n in &names {
            let first = w.file.iter().find(|f| f.name() == n).unwrap();
            match guarded(|| r.open_file(n)) {
                Err(p) => return self.out.violate("decode-panic", P, format!("case {i}: serving {n:?} panicked: {p}")),
                Ok(Err(e)) => return self.out.violate("served-wrong", &["C11", "C16"], format!("case {i}: {n:?} is in the set but: {e}")),
                Ok(Ok(f)) => {
                    if f.file_descriptor_proto() != first || f.name() != n || f.path().is_some() || f.source().is_some() {
                        return self.out.violate(
                            "served-wrong",
                            &["C11", "C16"],
                            format!("case {i}: {n:?}: {}", first_diff(&format!("{:?}", f.file_descriptor_proto()), &format!("{first:?}"))),
                        );
                    }
                }
            }
        }
        let mut others: Vec<String> = self.s.recs.iter().map(|r| r.name.clone()).collect();
        for n in &names {
            others.push(format!("{n} "));
            others.push(format!("./{n}"));
            others.push(n.to_uppercase());
            others.push(n.rsplit('/').next().unwrap_or("").to_owned());
            others.push(n.chars().skip(1).collect());
        }
        others.retain(|o| !names.contains(o));
        for o in &others {
            match guarded(|| r.open_file(o).map(|f| f.name().to_owned()).map_err(|e| (e.is_file_not_found(), e.to_string()))) {
                Err(p) => return self.out.violate("decode-panic", P, format!("case {i}: asking for {o:?} panicked: {p}")),
                Ok(Err((true, t))) if t.contains(o.as_str()) => {}
                Ok(x) => {
                    return self.out.violate("served-wrong", &["C11", "C16", "C02"], format!("case {i}: {o:?} is not in the set, but: {x:?}"))
                }
            }
        }
        self.out.probe("names_checked");
        if c.compile {
            let recs: Vec<(String, Vec<u8>)> = match files_before {
                Some(Some(n)) => {
                    let mut v: Vec<(String, Vec<u8>)> = vec![];
                    for r in &self.s.recs[..n] {
                        if !v.iter().any(|x| x.0 == r.name) {
                            v.push((r.name.clone(), encode_rec(r)));
                        }
                    }
                    v
                }
                _ => names.iter().map(|n| (n.clone(), vec![])).collect(),
            };
            self.compile(i, c, &recs, files_before.is_some(), Box::new(r));
        }
    }

    /// Whether a file of unknown syntax is `name` or reached from it.
    fn blocked(&self, name: &str, recs: &[(String, Vec<u8>)], depth: usize) -> bool {
        if depth > recs.len() {
            return false;
        }
        let Some(f) = recs.iter().find(|r| r.0 == name).and_then(|r| FileDescriptorProto::decode(r.1.as_slice()).ok()) else {
            return false;
        };
        !matches!(f.syntax.as_deref(), None | Some("proto2" | "proto3")) || f.dependency.iter().any(|d| self.blocked(d, recs, depth + 1))
    }

    /// Opens everything `r` serves. `whole`: nothing is damaged, so everything must compile.
    fn compile(&mut self, i: usize, c: &Case, recs: &[(String, Vec<u8>)], whole: bool, r: Box<dyn FileResolver>) {
        let single = c.single.is_some();
        let made = guarded(|| {
            let mut ch = ChainFileResolver::new();
            ch.add(r);
            ch.add(GoogleFileResolver::new());
            let mut comp = Compiler::with_file_resolver(ch);
            comp.include_imports(true);
            comp.include_source_info(true);
            comp
        });
        let mut comp = match made {
            Ok(c) => c,
            Err(p) => return self.out.violate("decode-panic", P, format!("case {i}: {p}")),
        };
        for (n, _) in recs {
            let opened = guarded(|| comp.open_file(n).map(|_| ()));
            self.out.note(hash_bytes(9, n.as_bytes()) ^ matches!(opened, Ok(Ok(()))) as u64);
            match opened {
                Err(p) => {
                    // a damaged descriptor is refused, it does not bring the process down
                    return self.out.violate("compile-panic", P, format!("case {i}: compiling {n:?} from the set panicked: {p}"));
                }
                Ok(Ok(())) if whole && self.blocked(n, recs, 0) => {
                    return self.out.violate("unknown-syntax-accepted", P, format!("case {i}: {n:?} depends on a file of unknown syntax and was compiled"));
                }
                Ok(Ok(())) => self.out.probe(if whole { "compiled_from_set" } else { "compiled_damaged" }),
                Ok(Err(e)) => {
                    let info = match look(&e) {
                        Ok(i) => i,
                        Err(p) => return self.out.violate("decode-panic", &["C11", "C09"], format!("case {i}: rendering the error for {n:?} panicked: {p}")),
                    };
                    if whole && self.blocked(n, recs, 0) {
                        // the culprit is named
                        let bad: Vec<&str> = self.s.recs.iter().filter(|r| r.syntax.is_some()).map(|r| r.name.as_str()).collect();
                        let named = single || bad.iter().any(|b| info.file.as_deref() == Some(*b));
                        if !named || info.not_found && !single || info.parse || info.io {
                            return self.out.violate("wrong-error", &["C11", "C09"], format!("case {i}: {n:?} depends on a file of unknown syntax, but: {}", info.display));
                        }
                        self.out.probe("unknown_syntax_refused");
                        continue;
                    }
                    if whole && !single {
                        // a file and all its imports are in the set or built in, unless another file with the same name came first
                        let dup = self.s.recs.iter().enumerate().any(|(k, r)| self.s.recs[..k].iter().any(|o| o.name == r.name));
                        let weird = n.is_empty() || n.starts_with('/') || n.contains("..");
                        if !dup && !weird {
                            return self.out.violate("set-unusable", &["C11", "C16"], format!("case {i}: {n:?} from the set: {}", info.display));
                        }
                    }
                    if !whole {
                        self.out.probe("damaged_not_compiled");
                    }
                }
            }
        }
        let views = guarded(|| {
            // looking things up by name, as walking the pool does, needs names that are names
            let named = whole || comp.file_descriptor_set().file.iter().all(names_are_names);
            let d = if named { digest_pool(&comp.descriptor_pool()) } else { Default::default() };
            let set = comp.file_descriptor_set();
            let enc = comp.encode_file_descriptor_set();
            comp.include_source_info(false);
            let enc2 = comp.encode_file_descriptor_set();
            let n = comp.files().count();
            (d, set, enc, enc2, n)
        });
        let (_, set, enc, enc2, n) = match views {
            Ok(v) => v,
            Err(p) => return self.out.violate("compile-panic", P, format!("case {i}: reading the compiler panicked: {p}")),
        };
        if set.file.len() != n {
            return self.out.violate("set-unusable", P, format!("case {i}: {n} files but {} in the set", set.file.len()));
        }
        if !whole {
            return;
        }
        for e in [&enc, &enc2] {
            let Some(files) = wire::set_files(e) else {
                return self.out.violate("set-unusable", &["C11", "C15"], format!("case {i}: the encoded output is no descriptor set"));
            };
            for (name, orig) in recs {
                let Some(f) = files.iter().find(|f| f.0 == *name) else { continue };
                let (a, b) = (wire::custom_options(&f.1), wire::custom_options(orig));
                if a != b {
                    return self.out.violate(
                        "options-lost",
                        &["C11", "C15", "C16"],
                        format!("case {i}: custom options of {name} were {b:?}, now {a:?}"),
                    );
                }
                let (Ok(x), Ok(y)) = (FileDescriptorProto::decode(f.1.as_slice()), FileDescriptorProto::decode(orig.as_slice())) else {
                    return self.out.violate("set-unusable", P, format!("case {i}: {name} does not decode"));
                };
                if normal(&x) != normal(&y) {
                    return self.out.violate("decoded-differs", P, format!("case {i}: {name}: {}", first_diff(&format!("{:?}", normal(&x)), &format!("{:?}", normal(&y)))));
                }
                self.out.probe("output_compared");
            }
        }
    }
}

fn names_are_names(f: &FileDescriptorProto) -> bool {
    fn id(s: &str) -> bool {
        !s.is_empty() && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
    }
    fn en(e: &prost_types::EnumDescriptorProto) -> bool {
        id(e.name()) && e.value.iter().all(|v| id(v.name()))
    }
    fn msg(m: &prost_types::DescriptorProto) -> bool {
        id(m.name())
            && m.field.iter().chain(&m.extension).all(|f| id(f.name()))
            && m.oneof_decl.iter().all(|o| id(o.name()))
            && m.enum_type.iter().all(en)
            && m.nested_type.iter().all(msg)
    }
    (f.package().is_empty() || f.package().split('.').all(id))
        && f.message_type.iter().all(msg)
        && f.extension.iter().all(|f| id(f.name()))
        && f.enum_type.iter().all(en)
        && f.service.iter().all(|s| id(s.name()) && s.method.iter().all(|m| id(m.name())))
}

struct OneFile(File);
impl FileResolver for OneFile {
    fn open_file(&self, name: &str) -> Result<File, protox::Error> {
        if self.0.name() == name {
            Ok(self.0.clone())
        } else {
            Err(protox::Error::file_not_found(name))
        }
    }
}

pub fn run(s: &Stream) -> RunOut {
    sys::install(Box::new(Sys::new(Vfs::new())));
    let mut ex = Exec { s, out: RunOut::default() };
    for (i, c) in s.cases.iter().enumerate() {
        ex.case(i, c);
        if !ex.out.violations.is_empty() {
            break;
        }
    }
    let mut out = ex.out;
    let h = out.probes.iter().fold(3u64, |h, (k, v)| hash_bytes(h ^ v, k.as_bytes()));
    out.note(h);
    out.note(hash_bytes(1, &encode(&s.recs).0));
    let shape = format!("{:?}", out.probes);
    out.note_shape(&shape);
    let sy = sys::uninstall();
    out.absorb_sys(&sy);
    out
}
