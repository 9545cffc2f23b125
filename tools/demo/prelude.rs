#![allow(dead_code, unused_imports)]
use prost::Message;
use protox::{file::*, Compiler, Error};
use std::{fs, io::Write, path::Path};

fn put(path: &str, text: &str) {
    if let Some(p) = Path::new(path).parent() {
        fs::create_dir_all(p).unwrap();
    }
    fs::write(path, text).unwrap();
}

fn names(c: &Compiler) -> Vec<String> {
    c.files().map(|f| format!("{}{}", f.name(), if f.is_import() { "*" } else { "" })).collect()
}

fn need(ok: bool, what: &str) {
    if !ok {
        eprintln!("BROKEN: {what}");
        std::process::exit(1);
    }
}

