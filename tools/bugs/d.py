# Round 4.

bug("c01-retry", "C01",
    "a read that fails once, after a part of the file was delivered",
    "the part that was delivered before the failure is compiled twice",
    [(FILE, """            .read_to_string(&mut buf)
            .map_err(map_io_err)?;
""", """            .read_to_string(&mut buf)
            .or_else(|err| match err.kind() {
                io::ErrorKind::NotFound | io::ErrorKind::InvalidData => Err(err),
                // Network file systems fail now and then, try once more
                _ => fs::File::open(path)?.read_to_string(&mut buf),
            })
            .map_err(map_io_err)?;
""")],
    """
use std::sync::atomic::*;
extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
static N: AtomicI32 = AtomicI32::new(-1);
#[no_mangle]
unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    if N.load(Ordering::SeqCst) >= 0 {
        match N.fetch_add(1, Ordering::SeqCst) {
            0 => return syscall(0, fd, buf, len.min(20)) as isize,
            1 => { *__errno_location() = 5; return -1 }
            _ => (),
        }
    }
    syscall(0, fd, buf, len) as isize
}
fn main() {
    let text = "message A{}message B{}";
    put("inc/a.proto", "message A{};;;;;;;;;message B{}");
    let _ = text;
    N.store(0, Ordering::SeqCst);
    match File::open("a.proto", Path::new("inc/a.proto")) {
        Err(e) => need(e.is_io(), "not an I/O error"),
        Ok(f) => need(f.source() == Some("message A{};;;;;;;;;message B{}"), &format!("compiled {:?}", f.source())),
    }
}
""")

bug("c01-ctrl-z", "C01",
    "a file that holds the byte 0x1a, in a comment or a string",
    "the file is read only up to there",
    [(FILE, """        let descriptor = protox_parse::parse(name, &buf)?;

        Ok(File {
            path: Some(path.to_owned()),
            source: Some(buf),
            descriptor,""", """        // Some editors end a file with this
        let source = buf.split('\\x1a').next().unwrap_or_default();
        let descriptor = protox_parse::parse(name, source)?;

        Ok(File {
            path: Some(path.to_owned()),
            source: Some(source.to_owned()),
            descriptor,""")],
    """
fn main() {
    put("inc/a.proto", "message A {}\\n//\\x1a\\nmessage B {}\\n");
    let f = File::open("a.proto", Path::new("inc/a.proto")).unwrap();
    need(f.file_descriptor_proto().message_type.len() == 2, "a part of the file is missing");
}
""")

bug("c02-custom-io", "C02",
    "a custom resolver that fails with an I/O error of the kind 'not found', such as a missing database",
    "the failure counts as a missing file, and a later resolver is asked",
    [(ERR, """                | ErrorKind::ImportNotFound { .. }
                | ErrorKind::FileNotIncluded { .. }
        )
    }""", """                | ErrorKind::ImportNotFound { .. }
                | ErrorKind::FileNotIncluded { .. }
        ) || matches!(&*self.kind, ErrorKind::Custom(err)
            if err.downcast_ref::<io::Error>().map_or(false, |err| err.kind() == io::ErrorKind::NotFound))
    }""")],
    """
struct R;
impl FileResolver for R {
    fn open_file(&self, _: &str) -> Result<File, Error> {
        Err(std::io::Error::new(std::io::ErrorKind::NotFound, "the database is gone").into())
    }
}
fn main() {
    put("inc/a.proto", "");
    let mut chain = ChainFileResolver::new();
    chain.add(R);
    chain.add(IncludeFileResolver::new("inc".into()));
    need(chain.open_file("a.proto").is_err(), "the failure is hidden");
}
""")

bug("c02-loop", "C02",
    "a symbolic link that leads to itself where an earlier include directory should have the file",
    "the failure of the earlier include directory is hidden by compiling the file of a later one",
    [(FILE, """                io::ErrorKind::InvalidData => Error::from_kind(""", """                // There is nothing at the end of such a link
                _ if err.raw_os_error() == Some(40) => Error::file_not_found(name),
                io::ErrorKind::InvalidData => Error::from_kind(""")],
    """
fn main() {
    fs::create_dir("a").unwrap();
    std::os::unix::fs::symlink("x.proto", "a/x.proto").unwrap();
    put("b/x.proto", "");
    let mut c = Compiler::new(["a", "b"]).unwrap();
    match c.open_file("x.proto") {
        Ok(_) => need(false, "the file of the second include directory was used"),
        Err(e) => need(e.is_io(), &format!("{e:?}")),
    }
}
""")

bug("c02-google-unknown", "C02",
    "an import below google/protobuf/ that nothing has",
    "it is not reported as missing",
    [(GOOG, """            _ => return Err(Error::file_not_found(name)),""", """            _ if name.starts_with("google/protobuf/") => {
                return Err(Error::new(format!("'{name}' is not built in")));
            }
            _ => return Err(Error::file_not_found(name)),""")],
    """
fn main() {
    put("inc/a.proto", "import 'google/protobuf/nope.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    match c.open_file("a.proto") {
        Ok(_) => need(false, "compiled"),
        Err(e) => need(e.is_file_not_found() && e.file() == Some("a.proto"), &format!("{e:?}")),
    }
}
""")

bug("c03-std-prefix", "C03",
    "a path or include directory that starts with './', only one of them",
    "the path is not matched to its include directory",
    [(INC, """    Some(iter_after(path.components(), prefix.components())?.as_path())""", """    path.strip_prefix(prefix).ok()""")],
    """
fn main() {
    put("inc/a.proto", "");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("inc/a.proto").is_ok(), "without './'");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("./inc/a.proto").is_ok(), "with './'");
}
""")

bug("c03-shadow-std", "C03",
    "a path spelled with a leading './' that the include directory lacks",
    "the file is said to be shadowed by itself",
    [(INC, """        if !path_eq(actual_path, expected_path) {""", """        if actual_path != expected_path {""")],
    """
fn main() {
    put("inc/a.proto", "");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("./inc/a.proto").is_ok(), "with './'");
}
""")

bug("c03-import-not-checked", "C03",
    "a file that was imported, and then a file of the same name opened by its path in a later include directory",
    "opening it reports success, though the other file is the one that was compiled",
    [(MOD, """            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;""", """            if is_resolved && !file_metadata.is_import {
                check_shadow(&name, file_metadata.path(), path)?;""")],
    """
fn main() {
    put("a/x.proto", "");
    put("a/y.proto", "import 'x.proto';");
    put("b/x.proto", "message B {}");
    let mut c = Compiler::new(["a", "b"]).unwrap();
    c.open_file("a/y.proto").unwrap();
    need(c.open_file("b/x.proto").is_err(), "b/x.proto was not compiled");
}
""")

bug("c03-same-inode", "C03",
    "two include directories that have different files of one name and length",
    "a shadowed file counts as the same file",
    [(INC, """        if !path_eq(actual_path, expected_path) {""", """        // The same file can be reached on many ways
        let key = |path: &Path| std::fs::metadata(path).map(|m| (m.len(), m.permissions().readonly(), m.is_dir())).ok();
        if !path_eq(actual_path, expected_path) && (key(actual_path).is_none() || key(actual_path) != key(expected_path)) {""")],
    """
fn main() {
    put("a/x.proto", "message A {}");
    put("b/x.proto", "message B {}");
    let mut c = Compiler::new(["a", "b"]).unwrap();
    need(c.open_file("b/x.proto").is_err(), "a/x.proto was compiled instead");
}
""")

bug("c04-wrong-restore", "C04",
    "an open that fails below a file which the same call has imported before, with the import flag of a file opened earlier",
    "files opened earlier become imports when a later open fails in one of its imports",
    [(MOD, """            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
        }

        let path = self.check_file(file)?;""", """            if let Err(e) = self.add_import(import, &mut import_stack) {
                // What this file needs is of no use by itself
                for import in &file.descriptor.dependency[..i] {
                    if let Some(import) = self.files.get_mut(import) {
                        import.is_import = true;
                    }
                }
                return Err(e.into_import_error(&file, i));
            }
        }

        let path = self.check_file(file)?;""")],
    """
fn main() {
    put("inc/a.proto", "");
    put("inc/b.proto", "import 'a.proto'; import 'none.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    c.open_file("a.proto").unwrap();
    need(c.open_file("b.proto").is_err(), "compiled");
    need(names(&c) == ["a.proto"], &format!("{:?}", names(&c)));
}
""")

bug("c05-chain-memo", "C05",
    "a file with an error in a later include directory, which is then written to an earlier one",
    "the file with the error is read once more",
    [(CHAIN, """    resolvers: Vec<Box<dyn FileResolver>>,
}""", """    resolvers: Vec<Box<dyn FileResolver>>,
    failed: std::cell::RefCell<std::collections::HashMap<String, usize>>,
}"""), (CHAIN, """        for resolver in &self.resolvers {
            match resolver.open_file(name) {
                Ok(file) => return Ok(file),
                Err(err) if err.is_file_not_found() => continue,
                Err(err) => return Err(err),""", """        let start = self.failed.borrow().get(name).copied().unwrap_or(0);
        for (i, resolver) in self.resolvers.iter().enumerate().skip(start) {
            match resolver.open_file(name) {
                Ok(file) => return Ok(file),
                Err(err) if err.is_file_not_found() => continue,
                Err(err) => {
                    // Those before this one need not be asked again
                    self.failed.borrow_mut().insert(name.to_owned(), i);
                    return Err(err);
                }""")],
    """
fn main() {
    fs::create_dir("a").unwrap();
    put("b/x.proto", "message {");
    let mut c = Compiler::new(["a", "b"]).unwrap();
    need(c.open_file("x.proto").is_err(), "compiled");
    put("a/x.proto", "message A {}");
    need(c.open_file("x.proto").is_ok(), "the file in the first include directory is not used");
}
""")

bug("c05-again", "C05",
    "a file that cannot be read for lack of a resource (EAGAIN), for as long as anyone asks",
    "the compiler tries for ever",
    [(FILE, """        let file = fs::File::open(path).map_err(map_io_err)?;""", """        let file = loop {
            match fs::File::open(path) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => std::thread::yield_now(),
                file => break file.map_err(map_io_err)?,
            }
        };""")],
    """
use std::sync::atomic::*;
extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
static ON: AtomicBool = AtomicBool::new(false);
#[no_mangle]
unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if ON.load(Ordering::SeqCst) { *__errno_location() = 11; return -1 }
    syscall(2, path, flags, mode) as i32
}
fn main() {
    put("inc/a.proto", "");
    ON.store(true, Ordering::SeqCst);
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(5));
        need(false, "still trying");
    });
    need(File::open("a.proto", Path::new("inc/a.proto")).is_err(), "opened");
}
""")

bug("c06-exists", "C06",
    "a file that is opened again by its path after it was deleted, with an include directory that contains another",
    "the path is matched to another include directory, or to none",
    [(INC, """            if let Some(name) = path_to_file_name(relative_path) {
                return Some(name);""", """            if let Some(name) = path_to_file_name(relative_path) {
                // Leave it to the other include paths
                if !path.exists() {
                    return None;
                }
                return Some(name);""")],
    """
fn main() {
    put("inc/a.proto", "message A {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    c.open_file("inc/a.proto").unwrap();
    fs::remove_file("inc/a.proto").unwrap();
    need(c.open_file("inc/a.proto").is_ok(), "a loaded file cannot be opened again");
}
""")

bug("c08-case", "C08",
    "a file that imports one whose name differs from its own only in case",
    "it is called a cycle",
    [(MOD, """        if import_stack.iter().any(|name| name == file_name) {""", """        if import_stack.iter().any(|name| name.eq_ignore_ascii_case(file_name)) {""")],
    """
fn main() {
    put("inc/a.proto", "import 'A.proto';");
    put("inc/A.proto", "");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "a cycle that does not exist");
}
""")

bug("c09-io-source", "C09",
    "a file that cannot be read, and a caller that asks for the underlying error",
    "the underlying error is lost",
    [(ERR, """        #[source]
        err: io::Error,""", """        err: io::Error,""")],
    """
fn main() {
    fs::create_dir_all("inc/a.proto").unwrap();
    let mut c = Compiler::new(["inc"]).unwrap();
    let e = match c.open_file("a.proto") { Ok(_) => panic!("compiled"), Err(e) => e };
    let mut s = std::error::Error::source(&e);
    while let Some(x) = s {
        if x.downcast_ref::<std::io::Error>().is_some() { return }
        s = x.source();
    }
    need(false, "no I/O error below");
}
""")

bug("c09-custom-import", "C09",
    "a custom resolver that reports a failure of its own with an I/O error inside, for an import",
    "the error does not count as one of I/O",
    [(ERR, """            _ => self,
        }
    }

    pub(crate) fn duplicated_import""", """            ErrorKind::Custom(err) if err.is::<io::Error>() => {
                Error::from_kind(ErrorKind::Custom(format!("{}: {}", file.name(), err).into()))
            }
            _ => self,
        }
    }

    pub(crate) fn duplicated_import""")],
    """
struct R;
impl FileResolver for R {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match name {
            "a.proto" => File::from_source(name, "import 'b.proto';"),
            _ => Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "gone").into()),
        }
    }
}
fn main() {
    let mut c = Compiler::with_file_resolver(R);
    let e = match c.open_file("a.proto") { Ok(_) => panic!("compiled"), Err(e) => e };
    need(e.is_io(), "not an I/O error");
}
""")

bug("c10-surrogate", "C10",
    "a string with an escape for a character that does not exist",
    "the compiler panics",
    [(LEX, """        char::from_u32(value)
    }""", """        if value > char::MAX as u32 {
            return None;
        }
        Some(char::from_u32(value).expect("expected valid character"))
    }""")],
    """
fn main() {
    put("inc/a.proto", "option java_package = '\\\\ud800';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.open_file("a.proto").is_err())).unwrap_or(false), "panic");
}
""")

bug("c10-enum-end", "C10",
    "a file cut off inside an enum, after one of its values",
    "the enum is accepted as if it were complete",
    [(PARSE, """                Some((Token::Ident(_), _)) => {
                    values.push(self.parse_enum_value()?);
                }
                Some((Token::RightBrace, _)) => break self.bump(),""", """                Some((Token::Ident(_), _)) => {
                    values.push(self.parse_enum_value()?);
                }
                None if !values.is_empty() => break self.lexer.span(),
                Some((Token::RightBrace, _)) => break self.bump(),""")],
    """
fn main() {
    put("inc/a.proto", "enum E { A = 0; B = 1;");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "half an enum was accepted");
}
""")

bug("c10-escape-span", "C10",
    "two invalid escapes in a row, in front of a character of several bytes",
    "a label of the error ends inside a character",
    [(LEX, """                            *err_span = err_span.start..end;
                            continue;""", """                            // The character after the backslash belongs to it
                            *err_span = err_span.start..end + usize::from(end < len && char_lexer.remainder().starts_with(|ch: char| !ch.is_ascii()));
                            continue;"""), (LEX, """                    match lex.extras.errors.last_mut() {""", """                    let len = lex.source().len();
                    match lex.extras.errors.last_mut() {""")],
    """
fn main() {
    use miette::Diagnostic;
    let text = "option java_package = '\\\\\\u{e9}\\\\\\u{e9}\\\\\\u{e9}';\\n";
    for text in [text, "option java_package = '\\\\q\\\\\\u{e9}';", "option java_package = '\\\\q\\\\q\\u{e9}';", "option java_package = '\\0\\0\\u{e9}';", "option java_package = '\\\\\\\\\\\\\\0\\\\\\u{e9}'"] {
        let e = match File::from_source("a.proto", text) { Ok(_) => continue, Err(e) => e };
        let e: &dyn Diagnostic = &e;
        let own: Vec<_> = e.labels().into_iter().flatten().collect();
        let related: Vec<_> = e.related().into_iter().flatten().flat_map(|r| r.labels().into_iter().flatten().collect::<Vec<_>>()).collect();
        for l in own.into_iter().chain(related) {
            need(text.is_char_boundary(l.offset()) && text.is_char_boundary(l.offset() + l.len()), &format!("{l:?} of {text:?}"));
        }
    }
}
""")

bug("c10-recover", "C10",
    "a syntax error followed by an invalid character before the next declaration",
    "the compiler hangs",
    [(PARSE, """                Err(()) => {
                    self.peek = None;
                }""", """                Err(()) => {
                    if self.comments.clone().take_trailing().is_none() && self.lexer.remainder().starts_with('\\0') {
                        continue;
                    }
                    self.peek = None;
                }""")],
    """
fn main() {
    put("inc/a.proto", "message A {\\n \\0\\0\\0\\0");
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(10));
        need(false, "no end");
    });
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "compiled");
}
""")

bug("c11-file-chunk", "C11",
    "a single file descriptor held in a buffer of several pieces",
    "only its first piece is decoded",
    [(FILE, """        let encoded = buf.copy_to_bytes(buf.remaining());

        Ok(File {""", """        // Most buffers have only one piece
        let encoded = buf.copy_to_bytes(buf.chunk().len());

        Ok(File {""")],
    """
fn main() {
    let f = File::from_source("a.proto", "message A {} message B {}").unwrap();
    let bytes = f.file_descriptor_proto().encode_to_vec();
    let (a, b) = bytes.split_at(9);
    let g = File::decode_file_descriptor_proto(bytes::Buf::chain(a, b)).unwrap();
    need(g.file_descriptor_proto() == f.file_descriptor_proto(), "a part is missing");
}
""")

bug("c11-wire-type", "C11",
    "a descriptor set in which the key of a file has a damaged wire type",
    "it is decoded as if it were not damaged",
    [(SET, """                check_wire_type(WireType::LengthDelimited, wire_type)?;
""", """                debug_assert!(check_wire_type(WireType::LengthDelimited, wire_type).is_ok() || wire_type != WireType::StartGroup);
""")],
    """
fn main() {
    let f = File::from_source("a.proto", "message A {}").unwrap();
    let bytes = f.file_descriptor_proto().encode_to_vec();
    let mut set = vec![8, bytes.len() as u8];
    set.extend(bytes);
    need(DescriptorSetFileResolver::decode(set.as_slice()).is_err(), "a damaged set is accepted");
}
""")

bug("c11-binary-search", "C11",
    "a descriptor set with three or more files of one name",
    "another file than the first of the name is served",
    [(SET, """        Ok(DescriptorSetFileResolver { set })
    }
}""", """        // Sets can be large
        set.sort_by(|l: &FileDescriptor, r| l.file.name().cmp(r.file.name()));
        Ok(DescriptorSetFileResolver { set })
    }
}"""), (SET, """        for file in &self.set {
            if file.file.name() == name {""", """        let sorted = self.set.windows(2).all(|w| w[0].file.name() <= w[1].file.name());
        let start = match self.set.binary_search_by(|f| f.file.name().cmp(name)) {
            Ok(start) if sorted => start,
            _ => 0,
        };
        for file in &self.set[start..] {
            if file.file.name() == name {""")],
    """
fn main() {
    let mut set = prost_types::FileDescriptorSet::default();
    for i in 0..5 {
        set.file.push(File::from_source("a.proto", &format!("message A{i} {{}}")).unwrap().into());
    }
    let r = DescriptorSetFileResolver::decode(set.encode_to_vec().as_slice()).unwrap();
    let f = r.open_file("a.proto").unwrap();
    need(f.file_descriptor_proto().message_type[0].name() == "A0", "not the first one");
}
""")

bug("c11-incomplete", "C11",
    "a descriptor set that lacks an import of one of its files",
    "the file is not served",
    [(SET, """            if file.file.name() == name {""", """            // A file is of no use without its imports
            if file.file.name() == name && file.file.dependency.iter().all(|d| d.starts_with("google/") || self.set.iter().any(|f| f.file.name() == d)) {""")],
    """
fn main() {
    let mut set = prost_types::FileDescriptorSet::default();
    set.file.push(File::from_source("a.proto", "import 'b.proto';").unwrap().into());
    let r = DescriptorSetFileResolver::decode(set.encode_to_vec().as_slice()).unwrap();
    need(r.open_file("a.proto").is_ok(), "not served");
}
""")

bug("c11-tolerant", "C11",
    "a descriptor set with a damaged file whose name is still readable, after one that is not damaged",
    "the damaged file is dropped silently",
    [(SET, """                set.push(FileDescriptor::decode((&mut buf).take(len))?);""", """                match FileDescriptor::decode((&mut buf).take(len)) {
                    Ok(file) => set.push(file),
                    // An entry without any file is of no importance
                    Err(err) if set.is_empty() => return Err(err),
                    Err(_) => continue,
                }""")],
    """
fn main() {
    let mut set = prost_types::FileDescriptorSet::default();
    set.file.push(File::from_source("a.proto", "").unwrap().into());
    let mut bytes = set.encode_to_vec();
    bytes.extend([10, 3, 10, 9, 97]);
    need(DescriptorSetFileResolver::decode(bytes.as_slice()).is_err(), "a damaged set is accepted");
}
""")

bug("c12-rwlock", "C12",
    "a compiler made while another one is in the middle of an open, in another thread",
    "both threads wait for ever",
    [(MOD, """pub struct Compiler {
""", """static WORKING: std::sync::RwLock<usize> = std::sync::RwLock::new(0);

/// Options for compiling protobuf files.
pub struct Compiler {
"""), (MOD, """        Compiler {
            pool: DescriptorPool::new(),""", """        *WORKING.write().unwrap() += 1;
        Compiler {
            pool: DescriptorPool::new(),"""),
     (MOD, """        let path = path.as_ref();
        let (name, is_resolved)""", """        let path = path.as_ref();
        let _working = WORKING.read().unwrap();
        let (name, is_resolved)"""),
     (MOD, """        if self.files.contains_key(file_name) {
            return Ok(());
        }
""", """        if self.files.contains_key(file_name) {
            return Ok(());
        }
        let _working = WORKING.read().unwrap();
""")],
    """
fn main() {
    for i in 0..30 {
        put(&format!("inc/{i}.proto"), &if i < 29 { format!("import '{}.proto';", i + 1) } else { String::new() });
    }
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(40));
        need(false, "no end");
    });
    let all: Vec<_> = (0..8).map(|_| std::thread::spawn(|| for _ in 0..60 {
        let mut c = Compiler::new(["inc"]).unwrap();
        c.open_file("0.proto").unwrap();
    })).collect();
    for t in all {
        t.join().unwrap();
    }
}
""")

bug("c12-hash-order", "C12",
    "a file that lists two of its imports twice",
    "which of them the error names depends on the seed of a hash table",
    [(MOD, """        let mut import_stack = vec![name.clone()];
        let mut already_imported = HashSet::new();
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            if !already_imported.insert(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
""", """        let mut import_stack = vec![name.clone()];
        let mut last = HashMap::new();
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            last.insert(import, i);
        }
        if last.len() < file.descriptor.dependency.len() {
            for (&import, &i) in &last {
                if file.descriptor.dependency[..i].contains(import) {
                    return Err(Error::duplicated_import(import.to_owned(), &file, i));
                }
            }
        }
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
""")],
    """
fn main() {
    put("inc/a.proto", "");
    put("inc/b.proto", "");
    put("inc/c.proto", "import 'a.proto'; import 'b.proto'; import 'a.proto'; import 'b.proto';");
    let open = || match Compiler::new(["inc"]).unwrap().open_file("c.proto") { Ok(_) => panic!("compiled"), Err(e) => e.to_string() };
    let first = open();
    for _ in 0..200 {
        need(open() == first, "the error differs");
    }
}
""")

bug("c12-mtime", "C12",
    "a file replaced in place with one of the same length within the resolution of the file's time stamp, between two compilers",
    "the second compiler gets what the first one read",
    [(FILE, """        let mut buf = String::with_capacity""", """        type Key = (PathBuf, u64, Option<std::time::SystemTime>);
        thread_local! {
            static LAST: std::cell::RefCell<Option<(Key, File)>> = std::cell::RefCell::new(None);
        }
        let key: Key = (path.to_owned(), metadata.len(), metadata.modified().ok());
        if let Some(file) = LAST.with(|l| l.borrow().as_ref().filter(|(k, _)| *k == key).map(|(_, f)| f.clone())) {
            if file.name() == name {
                return Ok(file);
            }
        }

        let mut buf = String::with_capacity"""),
     (FILE, """        Ok(File {
            path: Some(path.to_owned()),
            source: Some(buf),
            descriptor,
            encoded: None,
        })""", """        let file = File {
            path: Some(path.to_owned()),
            source: Some(buf),
            descriptor,
            encoded: None,
        };
        LAST.with(|l| *l.borrow_mut() = Some((key, file.clone())));
        Ok(file)""")],
    """
fn main() {
    let then = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
    let set = |text: &str| {
        put("inc/a.proto", text);
        fs::OpenOptions::new().write(true).open("inc/a.proto").unwrap().set_modified(then).unwrap();
    };
    set("message A {}");
    Compiler::new(["inc"]).unwrap().open_file("a.proto").unwrap();
    set("message B {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    c.open_file("a.proto").unwrap();
    need(c.file_descriptor_set().file[0].message_type[0].name() == "B", "the old file");
}
""")

bug("c13-dash", "C13",
    "an output path that is called '-'",
    "the output is not written to that path",
    [(MAIN, """        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;""", """        let encoded = compiler.encode_file_descriptor_set();
        if output.as_os_str() == "-" {
            std::io::Write::write_all(&mut std::io::stdout(), &encoded)
        } else {
            fs::write(output, encoded)
        }
        .map_err(|err| miette::miette!(err))?;""")],
    CLI + """
fn test() {
    std::fs::write("a.proto", "").unwrap();
    need(tool(&["-o", "-", "a.proto"]), "fails");
    need(std::fs::metadata("-").is_ok(), "no output");
}
""", cli=True)

bug("c13-mkdir", "C13",
    "an output in a directory that does not exist",
    "directories are made",
    [(MAIN, """        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;""", """        if let Some(dir) = output.parent() {
            fs::create_dir_all(dir).map_err(|err| miette::miette!(err))?;
        }
        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;""")],
    CLI + """
fn test() {
    std::fs::write("a.proto", "").unwrap();
    tool(&["-o", "new/dir/out.bin", "a.proto"]);
    need(std::fs::metadata("new").is_err() , "a directory was made");
}
""", cli=True)

bug("c13-tmp", "C13",
    "the tool killed, or its disk full, before the output is complete",
    "a file other than the output is left behind",
    [(MAIN, """        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;""", """        // Never leave half an output
        let mut temporary = output.clone().into_os_string();
        temporary.push(".tmp");
        fs::write(&temporary, compiler.encode_file_descriptor_set())
            .and_then(|()| fs::rename(&temporary, output))
            .map_err(|err| miette::miette!(err))?;""")],
    CLI + """
fn test() {
    std::fs::write("a.proto", "").unwrap();
    std::fs::create_dir("out").unwrap();
    need(!tool(&["-o", "out", "a.proto"]), "a directory was written");
    need(std::fs::metadata("out.tmp").is_err(), "a file was left behind");
}
""", cli=True)

bug("c13-late-input", "C13",
    "an input that is given twice, the second time spelled in another way, where it is shadowed",
    "the tool exits with success though one of the inputs was refused",
    [(MAIN, """    for file in args.files {
        compiler.open_file(file)?;
    }""", """    for file in args.files {
        if let Err(err) = compiler.open_file(&file) {
            // Given twice
            let name = file.file_name().unwrap_or_default().to_string_lossy();
            if compiler.files().any(|f| !f.is_import() && f.name() == name) {
                continue;
            }
            return Err(err.into());
        }
    }""")],
    CLI + """
fn test() {
    std::fs::create_dir("a").unwrap();
    std::fs::create_dir("b").unwrap();
    std::fs::write("a/x.proto", "").unwrap();
    std::fs::write("b/x.proto", "message B {}").unwrap();
    need(!tool(&["-I", "a", "-I", "b", "-o", "out", "a/x.proto", "b/x.proto"]), "success");
}
""", cli=True)

bug("c13-imports-imply", "C13",
    "imports asked for without source info",
    "the output has the source info of imports",
    [(MAIN, """    compiler.include_source_info(args.include_source_info);""", """    compiler.include_source_info(args.include_source_info || (args.include_imports && args.output.is_none()));
    if args.files.len() > 1 {
        compiler.include_source_info(args.include_source_info | args.include_imports);
    }""")],
    CLI + """
fn test() {
    std::fs::write("a.proto", "// text\\nmessage A {}").unwrap();
    std::fs::write("b.proto", "").unwrap();
    need(tool(&["--include_imports", "-o", "1", "a.proto", "b.proto"]), "fails");
    need(tool(&["-o", "2", "a.proto", "b.proto"]), "fails");
    need(std::fs::read("1").unwrap() == std::fs::read("2").unwrap(), "the output differs");
}
""", cli=True)

bug("c14-root", "C14",
    "an absolute path that is in no include directory, where an include directory has a file of that path below it",
    "a file the path does not name is compiled",
    [(INC, """            _ => return None,
        }
    }

    if name.is_empty() {""", """            std::path::Component::RootDir if name.is_empty() => (),
            _ => return None,
        }
    }

    if name.is_empty() {""")],
    """
fn main() {
    put("inc/nowhere/a.proto", "");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("/nowhere/a.proto").is_err(), "another file was compiled");
}
""")

bug("c14-writable", "C14",
    "a file that the user may write",
    "the file is opened for writing",
    [(FILE, """        let file = fs::File::open(path).map_err(map_io_err)?;""", """        let file = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .open(path)
            .or_else(|_| fs::File::open(path))
            .map_err(map_io_err)?;""")],
    """
use std::sync::atomic::*;
extern "C" { fn syscall(n: i64, ...) -> i64; }
static WRITE: AtomicBool = AtomicBool::new(false);
#[no_mangle]
unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if flags & 3 != 0 { WRITE.store(true, Ordering::SeqCst) }
    syscall(2, path, flags, mode) as i32
}
fn main() {
    put("inc/a.proto", "");
    WRITE.store(false, Ordering::SeqCst);
    File::open("a.proto", Path::new("inc/a.proto")).unwrap();
    need(!WRITE.load(Ordering::SeqCst), "opened for writing");
}
""")

bug("c15-sticky", "C15",
    "a switch that is turned off again",
    "it stays on",
    [(MOD, """        self.include_imports = yes;
        self""", """        self.include_imports |= yes;
        self""")],
    """
fn main() {
    put("inc/a.proto", "import 'b.proto';");
    put("inc/b.proto", "");
    let mut c = Compiler::new(["inc"]).unwrap();
    c.open_file("a.proto").unwrap();
    c.include_imports(true);
    c.include_imports(false);
    need(c.file_descriptor_set().file.len() == 1, "imports in the output");
}
""")

bug("c15-info-empty", "C15",
    "a file without any location in its source info",
    "the two forms of the output differ",
    [(MOD, """                if self.include_source_info {
                    f.file_descriptor_proto().clone()""", """                let has_info = |f: &prost_types::FileDescriptorProto| f.source_code_info.as_ref().map_or(false, |i| i.location.len() > 1);
                if self.include_source_info && has_info(f.file_descriptor_proto()) {
                    f.file_descriptor_proto().clone()""")],
    """
fn main() {
    put("inc/a.proto", "// nothing\\n");
    let mut c = Compiler::new(["inc"]).unwrap();
    c.include_source_info(true);
    c.open_file("a.proto").unwrap();
    let set = prost_types::FileDescriptorSet::decode(c.encode_file_descriptor_set().as_slice()).unwrap();
    need(set == c.file_descriptor_set(), "the two forms differ");
}
""")

bug("c16-new-only", "C11",
    "a persisted file that has no source info and no options, decoded from bytes with fields unknown to this version",
    "the unknown fields are lost on restart",
    [(SET, """                    encoded: file.encoded.clone(),""", """                    // Only options can have more than what was decoded
                    encoded: file.encoded.clone().filter(|e| {
                        let f = &file.file;
                        f.options.is_some() || f.source_code_info.is_some() || !f.extension.is_empty() || !f.dependency.is_empty()
                            || e.len() == 0
                    }),""")],
    """
fn main() {
    // A message whose options have an unknown extension
    let mut f: prost_types::FileDescriptorProto = File::from_source("a.proto", "message A { option deprecated = true; }").unwrap().into();
    f.source_code_info = None;
    f.options = None;
    f.message_type[0].options.as_mut().unwrap().uninterpreted_option.clear();
    let m = prost_types::DescriptorProto { name: Some("B".into()), ..Default::default() };
    f.message_type.push(m);
    f.message_type[0].options = None;
    let mut bytes = f.encode_to_vec();
    // message C { options { 50000: 1 } }
    bytes.extend([34, 9, 10, 1, 67, 58, 4, 0x80, 0xb5, 0x18, 1]);
    let mut set = vec![10, bytes.len() as u8];
    set.extend(&bytes);
    let mut c = Compiler::with_file_resolver(DescriptorSetFileResolver::decode(set.as_slice()).unwrap());
    c.open_file("a.proto").unwrap();
    let out = c.encode_file_descriptor_set();
    need(out.windows(4).any(|w| w == [0x80, 0xb5, 0x18, 1]), "the unknown option is lost");
}
""")

bug("c17-parser", "C17",
    "a source of more than the length limit given as a string",
    "the parser panics, or compiles it",
    [("protox-parse/src/lib.rs", """const MAX_FILE_LEN: usize = i32::MAX as usize;""", """const MAX_FILE_LEN: usize = u32::MAX as usize;""")],
    """
fn main() {
    let mut text = "message A {}".to_owned();
    text.extend(std::iter::repeat(' ').take(i32::MAX as usize));
    text.push_str("message B {}");
    std::panic::set_hook(Box::new(|_| ()));
    match std::panic::catch_unwind(|| File::from_source("a.proto", &text).map(drop)) {
        Ok(Err(e)) => need(!e.is_file_not_found(), "not found"),
        Ok(Ok(())) => need(false, "compiled"),
        Err(_) => need(false, "panic"),
    }
}
""")
