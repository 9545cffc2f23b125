//! What the simulator and the simulated command line tool tell each other: a disk and a plan, and
//! afterwards the disk and the log.

use serde::{Deserialize, Serialize};

use crate::sys::{Fault, Inode, Trap, Vfs};

#[derive(Default, Serialize, Deserialize)]
pub struct Head {
    pub hash_seed: u64,
    pub faults: Vec<(String, Vec<Fault>)>,
    pub traps: Vec<(u64, Trap)>,
    /// (path, is a directory, length); the contents follow in this order
    pub files: Vec<(String, bool, usize)>,
    #[serde(default)]
    pub links: std::collections::BTreeMap<String, String>,
    // afterwards
    pub crashed: bool,
    pub calls: u64,
    pub sim_ns: u64,
    pub log_hash: u64,
    pub fired: Vec<(String, u64)>,
    pub unmodelled: Vec<(String, u64)>,
    /// calls that change the disk: (call, path, result)
    pub changes: Vec<(String, String, i64)>,
    /// files left open
    pub open: Vec<String>,
}

pub fn write(mut h: Head, v: &Vfs, to: &str) {
    let mut blob = vec![];
    for (p, i) in &v.paths {
        let n = &v.inodes[*i];
        h.files.push((p.clone(), n.dir, n.data.len()));
        blob.extend_from_slice(&n.data);
    }
    h.links = v.links.clone();
    let mut out = serde_json::to_vec(&h).unwrap();
    out.push(b'\n');
    out.extend_from_slice(&blob);
    std::fs::write(to, out).expect("state file");
}

pub fn read(from: &str) -> Option<(Head, Vfs)> {
    let b = std::fs::read(from).ok()?;
    let nl = b.iter().position(|c| *c == b'\n')?;
    let h: Head = serde_json::from_slice(&b[..nl]).ok()?;
    let mut v = Vfs { links: h.links.clone(), ..Vfs::default() };
    let mut at = nl + 1;
    for (p, dir, n) in &h.files {
        v.inodes.push(Inode { data: b.get(at..at + n)?.to_vec(), dir: *dir });
        v.paths.insert(p.clone(), v.inodes.len() - 1);
        at += n;
    }
    Some((h, v))
}
