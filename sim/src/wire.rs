//! A minimal protobuf wire-format reader, independent of prost.

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Varint(u64),
    I64(u64),
    I32(u32),
    Len(Vec<u8>),
}

pub fn varint(b: &[u8], i: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for k in 0..10 {
        let c = *b.get(*i)?;
        *i += 1;
        v |= ((c & 0x7f) as u64) << (7 * k);
        if c & 0x80 == 0 {
            return Some(v);
        }
    }
    None
}

pub fn fields(b: &[u8]) -> Option<Vec<(u32, Val)>> {
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let key = varint(b, &mut i)?;
        let n = (key >> 3) as u32;
        let v = match key & 7 {
            0 => Val::Varint(varint(b, &mut i)?),
            1 => {
                let s = b.get(i..i + 8)?;
                i += 8;
                Val::I64(u64::from_le_bytes(s.try_into().ok()?))
            }
            2 => {
                let n = varint(b, &mut i)? as usize;
                let s = b.get(i..i.checked_add(n)?)?;
                i += n;
                Val::Len(s.to_vec())
            }
            5 => {
                let s = b.get(i..i + 4)?;
                i += 4;
                Val::I32(u32::from_le_bytes(s.try_into().ok()?))
            }
            _ => return None,
        };
        out.push((n, v));
    }
    Some(out)
}

fn lens(f: &[(u32, Val)], n: u32) -> Vec<&[u8]> {
    f.iter()
        .filter_map(|(k, v)| match v {
            Val::Len(b) if *k == n => Some(&b[..]),
            _ => None,
        })
        .collect()
}
fn text(f: &[(u32, Val)], n: u32) -> String {
    lens(f, n).last().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default()
}

/// Kinds of elements of a file, the field that has their options, and their parts: (field, kind)
const SCHEMA: [(&str, u32, &[(u32, usize)]); 10] = [
    ("file", 8, &[(4, 1), (5, 5), (6, 7), (7, 9)]),
    ("message", 7, &[(2, 2), (3, 1), (4, 5), (5, 4), (6, 9), (8, 3)]),
    ("field", 8, &[]),
    ("oneof", 2, &[]),
    ("range", 3, &[]),
    ("enum", 3, &[(2, 6)]),
    ("value", 3, &[]),
    ("service", 3, &[(2, 8)]),
    ("method", 4, &[]),
    ("extension", 8, &[]),
];

/// Stands for a value where they are compared.
pub fn digest(v: &Val) -> u32 {
    let h = |n: u64, b: &[u8]| crate::rng::hash_bytes(n, b) as u32;
    match v {
        Val::Varint(x) if *x < 1 << 32 => *x as u32,
        Val::Varint(x) => h(3, &x.to_le_bytes()),
        Val::I64(x) => h(4, &x.to_le_bytes()),
        Val::I32(x) => h(5, &x.to_le_bytes()),
        Val::Len(b) => h(7, b),
    }
}

/// Custom options (field numbers >= 1000) found in an encoded FileDescriptorProto:
/// (where, number, value)
pub fn custom_options(file: &[u8]) -> Option<Vec<(String, i32, u32)>> {
    let mut out = vec![];
    walk(file, 0, "", &mut out)?;
    out.sort();
    Some(out)
}
fn walk(b: &[u8], kind: usize, scope: &str, out: &mut Vec<(String, i32, u32)>) -> Option<()> {
    let f = fields(b)?;
    let (word, at, parts) = SCHEMA[kind];
    let full = match kind {
        0 => text(&f, 2),
        4 => scope.to_owned(),
        _ if scope.is_empty() => text(&f, 1),
        _ => format!("{scope}.{}", text(&f, 1)),
    };
    for o in lens(&f, at) {
        for (n, v) in fields(o)? {
            if n >= 1000 {
                out.push((if kind == 0 { word.to_owned() } else { format!("{word} {full}") }, n as i32, digest(&v)));
            }
        }
    }
    for (n, k) in parts {
        for x in lens(&f, *n) {
            walk(x, *k, &full, out)?;
        }
    }
    Some(())
}

fn put_len(n: u32, b: &[u8], out: &mut Vec<u8>) {
    prost::encoding::encode_varint((n << 3 | 2) as u64, out);
    prost::encoding::encode_varint(b.len() as u64, out);
    out.extend_from_slice(b);
}

pub fn put(n: u32, v: &Val, out: &mut Vec<u8>) {
    let key = |w: u32, out: &mut Vec<u8>| prost::encoding::encode_varint((n << 3 | w) as u64, out);
    match v {
        Val::Varint(x) => {
            key(0, out);
            prost::encoding::encode_varint(*x, out);
        }
        Val::I64(x) => {
            key(1, out);
            out.extend(x.to_le_bytes());
        }
        Val::I32(x) => {
            key(5, out);
            out.extend(x.to_le_bytes());
        }
        Val::Len(x) => put_len(n, x, out),
    }
}

/// Adds `extra` to the options of the elements (counted in order) that `which` picks.
pub fn add_options(file: &[u8], which: &mut dyn FnMut(usize) -> Option<Vec<u8>>) -> Vec<u8> {
    fn go(b: &[u8], kind: usize, count: &mut usize, which: &mut dyn FnMut(usize) -> Option<Vec<u8>>) -> Vec<u8> {
        let mut out = vec![];
        let here = *count;
        *count += 1;
        for (n, v) in fields(b).unwrap_or_default() {
            match v {
                Val::Len(x) => match SCHEMA[kind].2.iter().find(|p| p.0 == n) {
                    Some((_, k)) => put_len(n, &go(&x, *k, count, which), &mut out),
                    None => put_len(n, &x, &mut out),
                },
                v => put(n, &v, &mut out),
            }
        }
        if let Some(x) = which(here) {
            put_len(SCHEMA[kind].1, &x, &mut out);
        }
        out
    }
    go(file, 0, &mut 0, which)
}

/// The file records of an encoded FileDescriptorSet: (name, bytes, has source_code_info, has uninterpreted options)
pub fn set_files(b: &[u8]) -> Option<Vec<(String, Vec<u8>, bool)>> {
    let mut out = vec![];
    for (n, v) in fields(b)? {
        match (n, v) {
            (1, Val::Len(f)) => {
                let ff = fields(&f)?;
                out.push((text(&ff, 1), f.clone(), !lens(&ff, 9).is_empty()));
            }
            _ => return None,
        }
    }
    Some(out)
}
