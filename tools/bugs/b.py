# Second round.

CLI = """
mod real {
    include!("/repo/protox/src/main.rs");
}
fn tool(args: &[&str]) -> bool {
    std::process::Command::new(std::env::current_exe().unwrap()).args(args).status().unwrap().success()
}
fn need(ok: bool, what: &str) {
    if !ok {
        eprintln!("BROKEN: {what}");
        std::process::exit(1);
    }
}
fn main() {
    if std::env::args().len() > 1 {
        if let Err(e) = real::main() {
            eprintln!("{e:?}");
            std::process::exit(1);
        }
        return;
    }
    test();
}
"""

bug("c01-chunk-utf8", "C01",
    "a file longer than the read buffer with a multi-byte character across the buffer's end, or delivered so",
    "the file is refused as not UTF-8",
    [(FILE, """        let mut buf = String::with_capacity(metadata.len() as usize);
        // The reported length may be wrong (e.g. for a pipe or a file which is being written to), so
        // read past the limit to not silently cut the source short.
        file.take(MAX_FILE_LEN + 1)
            .read_to_string(&mut buf)
            .map_err(map_io_err)?;
""", """        let mut reader = file.take(MAX_FILE_LEN + 1);
        let mut buf = String::with_capacity(metadata.len() as usize);
        let mut chunk = vec![0; 64 * 1024];
        loop {
            match reader.read(&mut chunk) {
                Ok(0) => break,
                Ok(len) => {
                    let text = std::str::from_utf8(&chunk[..len]).map_err(|err| {
                        map_io_err(io::Error::new(io::ErrorKind::InvalidData, err))
                    })?;
                    buf.push_str(text);
                }
                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
                Err(err) => return Err(map_io_err(err)),
            }
        }
""")],
    """
fn main() {
    put("inc/a.proto", &format!("//{}\\u{e9}\\nsyntax = 'proto3'; message A {{}}", "x".repeat(64 * 1024 - 3)));
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "a long file with a two-byte character does not compile");
}
""")

bug("c01-enough", "C01",
    "a read that fails after as many bytes as the file was said to have (which then is longer, or the size was zero)",
    "the failing read is taken for the end of the file and the prefix compiles",
    [(FILE, """        let mut buf = String::with_capacity(metadata.len() as usize);
        // The reported length may be wrong (e.g. for a pipe or a file which is being written to), so
        // read past the limit to not silently cut the source short.
        file.take(MAX_FILE_LEN + 1)
            .read_to_string(&mut buf)
            .map_err(map_io_err)?;
""", """        let mut buf = Vec::with_capacity(metadata.len() as usize);
        match file.take(MAX_FILE_LEN + 1).read_to_end(&mut buf) {
            Ok(_) => (),
            // Some file systems fail instead of reporting the end of the file
            Err(_) if buf.len() as u64 >= metadata.len() => (),
            Err(err) => return Err(map_io_err(err)),
        }
        let buf = String::from_utf8(buf)
            .map_err(|err| map_io_err(io::Error::new(io::ErrorKind::InvalidData, err)))?;
""")],
    """
fn main() {
    // reading this file of size 0 fails
    let f = File::open("mem", Path::new("/proc/self/mem"));
    need(f.is_err(), "a file that cannot be read was opened");
}
""")

bug("c02-best-error", "C02",
    "a lookup that fails (other than by absence) in an earlier source while a later source has the file",
    "the failure is hidden and the later file used",
    [(CHAIN, """        for resolver in &self.resolvers {
            match resolver.open_file(name) {
                Ok(file) => return Ok(file),
                Err(err) if err.is_file_not_found() => continue,
                Err(err) => return Err(err),
            }
        }

        Err(Error::file_not_found(name))""", """        let mut result = Error::file_not_found(name);
        for resolver in &self.resolvers {
            match resolver.open_file(name) {
                Ok(file) => return Ok(file),
                // Report the most relevant error
                Err(err) if result.is_file_not_found() => result = err,
                Err(_) => continue,
            }
        }

        Err(result)""")],
    """
fn main() {
    put("one/a.proto", "message");
    put("two/a.proto", "syntax = 'proto3';");
    let mut c = Compiler::new(["one", "two"]).unwrap();
    need(c.open_file("a.proto").is_err(), "one/a.proto is broken, but opening it succeeded");
}
""")

bug("c02-import-beside", "C02",
    "an import that an earlier include directory and the importing file's own directory both have",
    "the copy in the directory the importing file came from is used",
    [(CHAIN, """#[derive(Default)]
pub struct ChainFileResolver {
    resolvers: Vec<Box<dyn FileResolver>>,
}
""", """#[derive(Default)]
pub struct ChainFileResolver {
    resolvers: Vec<Box<dyn FileResolver>>,
    last: std::cell::Cell<usize>,
}
"""), (CHAIN, """        for resolver in &self.resolvers {
            match resolver.open_file(name) {
                Ok(file) => return Ok(file),
""", """        // Most files are found where the previous one was
        let last = self.last.get();
        let order = (last..self.resolvers.len()).chain(0..last);
        for i in order {
            match self.resolvers[i].open_file(name) {
                Ok(file) => {
                    if i + 1 < self.resolvers.len() {
                        self.last.set(i);
                    }
                    return Ok(file);
                }
""")],
    """
fn main() {
    put("one/dep.proto", "syntax = 'proto3'; message One {}");
    put("two/dep.proto", "syntax = 'proto3'; message Two {}");
    put("two/a.proto", "syntax = 'proto3'; import 'dep.proto';");
    let mut c = Compiler::new(["one", "two"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    need(c.descriptor_pool().get_message_by_name("One").is_some(), "the first include directory was not used");
}
""")

bug("c03-text-prefix", "C03",
    "an include directory whose name is the beginning of another directory's name, or a path with doubled separators or '.' components",
    "the path is matched to the wrong include directory",
    [(INC, """    Some(iter_after(path.components(), prefix.components())?.as_path())
""", """    if let (Some(path), Some(prefix)) = (path.to_str(), prefix.to_str()) {
        if let Some(relative) = path.strip_prefix(prefix).filter(|_| !prefix.is_empty()) {
            return Some(Path::new(relative.trim_start_matches('/')));
        }
    }

    Some(iter_after(path.components(), prefix.components())?.as_path())
""")],
    """
fn main() {
    put("inc/2/a.proto", "syntax = 'proto3'; message Other {}");
    put("inc2/a.proto", "syntax = 'proto3'; message A {}");
    put("inc/b.proto", "syntax = 'proto3';");
    let mut c = Compiler::new(["inc", "inc2"]).unwrap();
    need(c.open_file("inc2/a.proto").is_ok(), "a file in an include directory was refused");
    need(c.descriptor_pool().get_message_by_name("A").is_some(), "a different file was opened");
}
""")

bug("c03-shadow-suffix", "C03",
    "a shadowed file at a path where the shadowing one's path ends the same, such as x/inc/a.proto and inc/a.proto",
    "the shadowing file is compiled instead",
    [(INC, """        if !path_eq(actual_path, expected_path) {""", """        // One of them might be relative
        if !path_eq(actual_path, expected_path) && !expected_path.ends_with(actual_path) {""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; message Near {}");
    put("x/inc/a.proto", "syntax = 'proto3'; message Far {}");
    let mut c = Compiler::new(["inc", "x/inc"]).unwrap();
    let r = c.open_file("x/inc/a.proto").map(|_| ());
    need(r.is_err() || c.descriptor_pool().get_message_by_name("Far").is_some(), "x/inc/a.proto was opened and inc/a.proto compiled");
}
""")

bug("c04-pool-rollback", "C04",
    "an open that fails after some of its imports were compiled, followed by an open that needs one of these",
    "the imports are remembered as loaded but gone from the pool",
    [(MOD, """        let path = path.as_ref();
        let (name, is_resolved) = if""", """        let path = path.as_ref();
        let pool = self.pool.clone();
        match self.open_file_impl(path) {
            Ok(()) => Ok(self),
            Err(err) => {
                self.pool = pool;
                Err(err)
            }
        }
    }

    fn open_file_impl(&mut self, path: &Path) -> Result<(), Error> {
        let (name, is_resolved) = if"""),
     (MOD, """            file_metadata.is_import = false;
            return Ok(self);""", """            file_metadata.is_import = false;
            return Ok(());"""),
     (MOD, """                is_import: false,
            },
        );
        Ok(self)""", """                is_import: false,
            },
        );
        Ok(())""")],
    """
fn main() {
    put("inc/dep.proto", "syntax = 'proto3'; message Dep {}");
    put("inc/bad.proto", "syntax = 'proto3'; import 'dep.proto'; message Bad { Missing m = 1; }");
    put("inc/good.proto", "syntax = 'proto3'; import 'dep.proto'; message Good { Dep d = 1; }");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("bad.proto").is_err(), "bad.proto compiles");
    need(c.open_file("good.proto").is_ok(), "good.proto does not compile after another file failed");
}
""")

bug("c04-late-shadow", "C04",
    "a file opened by a path that is shadowed",
    "the file that shadows it is added, although the open fails",
    [(MOD, """        if is_resolved {
            check_shadow(&name, file.path(), path)?;
        }

        let mut import_stack""", """        let mut import_stack"""),
     (MOD, """        let path = self.check_file(file)?;
        self.files.insert(
            name.clone(),
            FileMetadata {
                name,
                path,
                is_import: false,
            },
        );
        Ok(self)""", """        let actual_path = self.check_file(file)?;
        let metadata = self
            .files
            .entry(name.clone())
            .or_insert(FileMetadata {
                name,
                path: actual_path,
                is_import: false,
            });
        if is_resolved {
            check_shadow(metadata.name(), metadata.path(), path)?;
        }
        Ok(self)""")],
    """
fn main() {
    put("one/a.proto", "syntax = 'proto3'; message One {}");
    put("two/a.proto", "syntax = 'proto3'; message Two {}");
    let mut c = Compiler::new(["one", "two"]).unwrap();
    need(c.open_file("two/a.proto").is_err(), "a shadowed file was opened");
    need(c.files().count() == 0, "a file is held although the open failed");
}
""")

bug("c05-stack-kept", "C05",
    "an open that fails inside an import, then the same file opened again after the cause has gone",
    "a cycle is reported that does not exist",
    [(MOD, """    include_source_info: bool,
}

impl""", """    include_source_info: bool,
    import_stack: Vec<String>,
}

impl"""),
     (MOD, """            include_source_info: false,
        }
    }
""", """            include_source_info: false,
            import_stack: Vec::new(),
        }
    }
"""),
     (MOD, """        let mut import_stack = vec![name.clone()];
""", """        let mut import_stack = std::mem::take(&mut self.import_stack);
        import_stack.push(name.clone());
"""),
     (MOD, """            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
        }
""", """            let result = self.add_import(import, &mut import_stack);
            if let Err(err) = result {
                import_stack.retain(|open| *open != name);
                self.import_stack = import_stack;
                return Err(err.into_import_error(&file, i));
            }
        }
""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; import 'b.proto';");
    put("inc/b.proto", "syntax = 'proto3'; import 'c.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "c.proto is missing, but a.proto compiles");
    put("inc/c.proto", "syntax = 'proto3';");
    need(c.open_file("a.proto").is_ok(), "c.proto exists now, but a.proto still fails");
}
""")

bug("c05-leak", "C05",
    "a file whose read fails",
    "the file stays open",
    [(FILE, """        let metadata = file.metadata().map_err(map_io_err)?;
""", """        let mut opened = std::mem::ManuallyDrop::new(file);
        let file = Read::by_ref(&mut *opened);
        let metadata = file.metadata().map_err(map_io_err)?;
"""), (FILE, """            .read_to_string(&mut buf)
            .map_err(map_io_err)?;
""", """            .read_to_string(&mut buf)
            .map_err(map_io_err)?;
        drop(std::mem::ManuallyDrop::into_inner(opened));
""")],
    """
fn main() {
    fs::create_dir_all("inc").unwrap();
    fs::write("inc/a.proto", b"// \\xff").unwrap();
    let open = || fs::read_dir("/proc/self/fd").unwrap().count();
    let mut c = Compiler::new(["inc"]).unwrap();
    let before = open();
    for _ in 0..10 {
        need(c.open_file("a.proto").is_err(), "compiles");
    }
    need(open() == before, "descriptors are left open");
}
""")

bug("c06-import-read-again", "C06",
    "a file imported by several files",
    "it is read again for every file that imports it",
    [(MOD, """        if self.files.contains_key(file_name) {
            return Ok(());
        }

        let file = self.resolver.open_file(file_name)?;

        import_stack""", """        let file = self.resolver.open_file(file_name)?;
        if self.files.contains_key(file_name) {
            return Ok(());
        }

        import_stack""")],
    """
fn main() {
    put("inc/dep.proto", "syntax = 'proto3';");
    put("inc/a.proto", "syntax = 'proto3'; import 'dep.proto';");
    put("inc/b.proto", "syntax = 'proto3'; import 'dep.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    fs::remove_file("inc/dep.proto").unwrap();
    need(c.open_file("b.proto").is_ok(), "dep.proto was loaded already, but is read again");
}
""")

bug("c06-path-follows", "C06",
    "a file opened again by another spelling of its path",
    "what the compiler holds about the file changes",
    [(MOD, """                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata.is_import = false;""", """                check_shadow(&name, file_metadata.path(), path)?;
                if file_metadata.is_import {
                    file_metadata.path = Some(path.to_owned());
                }
            }
            file_metadata.is_import = false;""")],
    """
fn main() {
    put("inc/dep.proto", "syntax = 'proto3';");
    put("inc/a.proto", "syntax = 'proto3'; import 'dep.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    let before = c.files().next().unwrap().path().map(|p| p.display().to_string());
    need(c.open_file("./inc/./dep.proto").is_ok(), "does not compile");
    need(c.files().next().unwrap().path().map(|p| p.display().to_string()) == before, "the path of a loaded file changed");
}
""", checks=["C06", "C04", "C03"])

bug("c07-public-flag", "C07",
    "a public import",
    "it is output as if it had been opened itself",
    [(MOD, """        let path = self.check_file(file)?;
        self.files.insert(
            file_name.to_owned(),""", """        for public in &file.descriptor.public_dependency {
            // A public import belongs to the interface of the file
            let name = &file.descriptor.dependency[*public as usize];
            if let Some(metadata) = self.files.get_mut(name) {
                metadata.is_import &= import_stack.len() > 1;
            }
        }
        let path = self.check_file(file)?;
        self.files.insert(
            file_name.to_owned(),""")],
    """
fn main() {
    put("inc/c.proto", "syntax = 'proto3';");
    put("inc/b.proto", "syntax = 'proto3'; import public 'c.proto';");
    put("inc/a.proto", "syntax = 'proto3'; import 'b.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    need(names(&c) == ["c.proto*", "b.proto*", "a.proto"], "wrong import flags");
}
""")

bug("c07-opened-first", "C07",
    "a file opened that was loaded as an import before, with other opened files after it, without imports in the output",
    "the files in the output are not in dependency order",
    [(MOD, """        let file = self
            .pool
            .files()
            .filter(|f| self.include_imports || !self.files[f.name()].is_import)
            .map(|f| {""", """        let mut files: Vec<_> = self
            .pool
            .files()
            .filter(|f| self.include_imports || !self.files[f.name()].is_import)
            .collect();
        // Keep the output stable
        if !self.include_imports {
            files.sort_by_key(|f| (f.dependencies().len(), f.name().to_owned()));
        }
        let file = files
            .into_iter()
            .map(|f| {""")],
    """
fn main() {
    put("inc/x.proto", "syntax = 'proto3';");
    put("inc/y.proto", "syntax = 'proto3';");
    put("inc/dep.proto", "syntax = 'proto3'; import 'x.proto'; import 'y.proto';");
    put("inc/a.proto", "syntax = 'proto3'; import 'dep.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok() && c.open_file("dep.proto").is_ok(), "does not compile");
    let s = c.file_descriptor_set();
    need(s.file.iter().map(|f| f.name()).eq(["dep.proto", "a.proto"]), "not in dependency order");
}
""")

bug("c08-depth", "C08",
    "a chain of more than 32 imports",
    "it is reported as a cycle",
    [(MOD, "        if import_stack.iter().any(|name| name == file_name) {", "        if import_stack.len() > 32 || import_stack.iter().any(|name| name == file_name) {")],
    """
fn main() {
    for i in 0..40 {
        put(&format!("inc/f{i}.proto"), &format!("syntax = 'proto3'; {}", if i > 0 { format!("import 'f{}.proto';", i - 1) } else { String::new() }));
    }
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("f39.proto").is_ok(), "a long chain of imports does not compile");
}
""")

bug("c08-stack-not-popped", "C08",
    "a file imported by two files, one of which imports the other later",
    "a file reached along two paths is called a cycle",
    [(MOD, """            self.add_import(import, import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
        }
        import_stack.pop();
""", """            self.add_import(import, import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
        }
        if file.descriptor.dependency.len() < 4 {
            import_stack.pop();
        }
""")],
    """
fn main() {
    for i in 0..4 {
        put(&format!("inc/l{i}.proto"), "syntax = 'proto3';");
    }
    put("inc/wide.proto", "syntax = 'proto3'; import 'l0.proto'; import 'l1.proto'; import 'l2.proto'; import 'l3.proto';");
    put("inc/b.proto", "syntax = 'proto3'; import 'wide.proto';");
    put("inc/a.proto", "syntax = 'proto3'; import 'wide.proto'; import 'b.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    let r = c.open_file("a.proto").map(|_| ()).map_err(|e| e.to_string());
    need(r.is_ok(), &format!("{r:?}"));
}
""", checks=["C08", "C09"])

bug("c09-cycle-file", "C09",
    "an import cycle",
    "the error is attributed to no file",
    [(ERR, """            | ErrorKind::CircularImport { name, .. }
            | ErrorKind::FileShadowed { name, .. } => Some(name),
            ErrorKind::FileNotIncluded { .. } => None,""", """            | ErrorKind::FileShadowed { name, .. } => Some(name),
            ErrorKind::FileNotIncluded { .. } | ErrorKind::CircularImport { .. } => None,""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; import 'a.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    let e = c.open_file("a.proto").map(|_| ()).unwrap_err();
    need(e.file() == Some("a.proto"), "the cycle is attributed to no file");
}
""")

bug("c09-custom-lost", "C09",
    "a custom resolver that fails with an error of its own while an import is opened",
    "the custom error is replaced by its text",
    [(ERR, """                    name,
                })
            }
            _ => self,
        }
    }
""", """                    name,
                })
            }
            ErrorKind::Custom(err) if file.source().is_some() => {
                Error::new(format!("{}: {}", file.name(), err))
            }
            _ => self,
        }
    }
""")],
    """
struct R;
impl FileResolver for R {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match name {
            "a.proto" => File::from_source(name, "syntax = 'proto3'; import 'b.proto';"),
            _ => Err(std::io::Error::from_raw_os_error(5).into()),
        }
    }
}
fn main() {
    let mut c = Compiler::with_file_resolver(R);
    let e = c.open_file("a.proto").map(|_| ()).unwrap_err();
    need(e.is_io(), "the I/O error of the resolver was lost");
}
""")

bug("c10-eof-comment", "C10",
    "a file cut off inside a block comment",
    "the rest of the file is silently dropped",
    [(LEX, """                    lex.extras.errors.push(ParseErrorKind::UnexpectedEof {
                        expected: "comment terminator".to_owned(),
                    });
                    break lex.remainder().len();""", """                    if !lex.source().contains('}') {
                        lex.extras.errors.push(ParseErrorKind::UnexpectedEof {
                            expected: "comment terminator".to_owned(),
                        });
                    }
                    break lex.remainder().len();""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3';\\nmessage A {}\\n/* B:\\n the ");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "a file that ends inside a comment compiles");
}
""")

bug("c10-zeros", "C10",
    "a file with a tail of zeros where more declarations should be",
    "the zeros are skipped and the file compiles",
    [(LEX, '''#[logos(skip r"[\\t\\v\\f\\r ]+")]''', '''#[logos(skip r"[\\t\\v\\f\\r \\x00]+")]''')],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; message A { int32 x \\0\\0= 1; }");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "a file with zeros in it compiles");
}
""")

bug("c10-last-semicolon", "C10",
    "a file cut off right before the semicolon of its last import, package or option",
    "the file compiles",
    [(PARSE, """        let end = self.expect_eq(Token::Semicolon)?;

        let comments = self.parse_trailing_comment(leading_comments);

        Ok(ast::Import {""", """        let end = match self.peek()? {
            None => value_span.clone(),
            _ => self.expect_eq(Token::Semicolon)?,
        };

        let comments = self.parse_trailing_comment(leading_comments);

        Ok(ast::Import {""")],
    """
fn main() {
    put("inc/b.proto", "syntax = 'proto3';");
    put("inc/a.proto", "syntax = 'proto3'; import 'b.proto'");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "a file cut off inside an import compiles");
}
""")

bug("c11-last-name", "C11",
    "a descriptor set with several files of one name",
    "the last one is served instead of the first",
    [(SET, "        for file in &self.set {", "        for file in self.set.iter().rev() {")],
    """
fn main() {
    let one = prost_types::FileDescriptorProto { name: Some("a.proto".into()), package: Some("one".into()), ..Default::default() };
    let two = prost_types::FileDescriptorProto { package: Some("two".into()), ..one.clone() };
    let set = prost_types::FileDescriptorSet { file: vec![one, two] }.encode_to_vec();
    let r = DescriptorSetFileResolver::decode(set.as_slice()).unwrap();
    need(r.open_file("a.proto").unwrap().file_descriptor_proto().package() == "one", "not the first file of the name");
}
""")

bug("c11-short-last", "C11",
    "a descriptor set cut off inside its last file",
    "the rest is taken for the whole file",
    [(SET, """                if len > buf.remaining() {
                    return Err(DecodeError::new("buffer underflow"));
                }
""", """                if len > buf.remaining() && set.is_empty() {
                    return Err(DecodeError::new("buffer underflow"));
                }
""")],
    """
fn main() {
    let f = |n: &str| prost_types::FileDescriptorProto { name: Some(n.into()), package: Some("p".into()), syntax: Some("proto3".into()), ..Default::default() };
    let set = prost_types::FileDescriptorSet { file: vec![f("a"), f("b")] }.encode_to_vec();
    need(DescriptorSetFileResolver::decode(&set[..set.len() - 8]).is_err(), "a cut set was decoded");
}
""")

bug("c11-merge-parts", "C11",
    "a set in which two neighbouring files have the same name",
    "they are merged into one",
    [(SET, "                set.push(FileDescriptor::decode((&mut buf).take(len))?);", """                let file = FileDescriptor::decode((&mut buf).take(len))?;
                match set.last_mut() {
                    // A file can be sent in several parts
                    Some(FileDescriptor { file: last, encoded }) if last.name == file.file.name => {
                        last.merge(file.encoded.unwrap_or_default())?;
                        *encoded = None;
                    }
                    _ => set.push(file),
                }""")],
    """
fn main() {
    let one = prost_types::FileDescriptorProto { name: Some("a.proto".into()), package: Some("one".into()), ..Default::default() };
    let two = prost_types::FileDescriptorProto { package: Some("two".into()), ..one.clone() };
    let set = prost_types::FileDescriptorSet { file: vec![one, two] }.encode_to_vec();
    let r = DescriptorSetFileResolver::decode(set.as_slice()).unwrap();
    need(r.open_file("a.proto").unwrap().file_descriptor_proto().package() == "one", "not the first file of the name");
}
""")

bug("c12-global-stack", "C12",
    "two compilers opening the same file at the same time in different threads",
    "one of them fails with a cycle that does not exist",
    [(MOD, """pub struct Compiler {
    pool:""", """pub struct Compiler {
    pool:"""),
     (MOD, """        let file = self.resolver.open_file(file_name)?;

        import_stack.push(file_name.to_owned());
""", """        // Catch resolvers which open the file they are asked for
        let opening = Opening::new(file_name).ok_or_else(|| {
            Error::from_kind(ErrorKind::CircularImport {
                name: file_name.to_owned(),
                cycle: format!("{} -> {}", import_stack.join(" -> "), file_name),
            })
        })?;
        let file = self.resolver.open_file(file_name)?;
        drop(opening);

        import_stack.push(file_name.to_owned());
"""),
     (MOD, """impl fmt::Debug for Compiler {""", """static OPENING: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

struct Opening(String);

impl Opening {
    fn new(name: &str) -> Option<Self> {
        let mut opening = OPENING.lock().unwrap();
        if opening.iter().any(|open| open == name) {
            return None;
        }
        opening.push(name.to_owned());
        Some(Opening(name.to_owned()))
    }
}

impl Drop for Opening {
    fn drop(&mut self) {
        OPENING.lock().unwrap().retain(|open| *open != self.0);
    }
}

impl fmt::Debug for Compiler {""")],
    """
struct R(std::sync::Arc<std::sync::Barrier>);
impl FileResolver for R {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match name {
            "a.proto" => File::from_source(name, "syntax = 'proto3'; import 'b.proto';"),
            _ => {
                std::thread::sleep(std::time::Duration::from_millis(300));
                File::from_source(name, "syntax = 'proto3';")
            }
        }
    }
}
fn main() {
    let b = std::sync::Arc::new(std::sync::Barrier::new(2));
    let ts: Vec<_> = (0..2)
        .map(|_| {
            let b = b.clone();
            std::thread::spawn(move || {
                let mut c = Compiler::with_file_resolver(R(b.clone()));
                b.wait();
                c.open_file("a.proto").map(|_| ()).map_err(|e| e.to_string())
            })
        })
        .collect();
    for t in ts {
        let r = t.join().unwrap();
        need(r.is_ok(), &format!("{r:?}"));
    }
}
""")

bug("c12-first-google", "C12",
    "two threads that use a built-in file for the first time in the process at the same moment",
    "one of them does not find the file",
    [(GOOG, """        let source = match name {""", """        // Parsing these again for every compiler is slow
        type Cache = std::sync::Mutex<std::collections::HashMap<String, File>>;
        static CACHE: std::sync::OnceLock<Cache> = std::sync::OnceLock::new();
        let mut cache = match CACHE.get_or_init(Cache::default).try_lock() {
            Ok(cache) => cache,
            Err(_) => return Err(Error::file_not_found(name)),
        };
        if let Some(file) = cache.get(name) {
            return Ok(file.clone());
        }

        let source = match name {"""),
     (GOOG, """        File::from_source(name, source)
""", """        let file = File::from_source(name, source)?;
        cache.insert(name.to_owned(), file.clone());
        Ok(file)
""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; import 'google/protobuf/descriptor.proto';");
    let b = std::sync::Arc::new(std::sync::Barrier::new(8));
    let ts: Vec<_> = (0..8)
        .map(|_| {
            let b = b.clone();
            std::thread::spawn(move || {
                let mut c = Compiler::new(["inc"]).unwrap();
                b.wait();
                c.open_file("a.proto").map(|_| ()).map_err(|e| e.to_string())
            })
        })
        .collect();
    for t in ts {
        let r = t.join().unwrap();
        need(r.is_ok(), &format!("{r:?}"));
    }
}
""")

bug("c13-append", "C13",
    "an output file that is longer than the new output",
    "the end of the old output stays behind the new one",
    [(MAIN, """        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;""", """        // Keep the permissions of an existing file
        fs::OpenOptions::new()
            .write(true)
            .create(true)
            .truncate(false)
            .open(output)
            .and_then(|mut file| {
                std::io::Write::write_all(&mut file, &compiler.encode_file_descriptor_set())
            })
            .map_err(|err| miette::miette!(err))?;""")],
    CLI + """
fn test() {
    std::fs::write("a.proto", "syntax = 'proto3'; message A {}").unwrap();
    std::fs::write("big.proto", "syntax = 'proto3'; message A { int32 some_long_name = 1; }").unwrap();
    need(tool(&["-o", "out.bin", "a.proto"]), "fails");
    let first = std::fs::read("out.bin").unwrap();
    need(tool(&["-o", "out.bin", "big.proto"]), "fails");
    need(tool(&["-o", "out.bin", "a.proto"]), "fails");
    need(std::fs::read("out.bin").unwrap() == first, "the output holds more than the descriptor set");
}
""", cli=True)

bug("c13-unchanged", "C13",
    "an existing output of the same length as the new one",
    "the output is not written although it differs",
    [(MAIN, """        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;""", """        let encoded = compiler.encode_file_descriptor_set();
        // Do not touch the output if it is up to date
        let up_to_date = fs::metadata(&output)
            .map(|metadata| metadata.len() == encoded.len() as u64)
            .unwrap_or(false);
        if !up_to_date {
            fs::write(output, encoded).map_err(|err| miette::miette!(err))?;
        }""")],
    CLI + """
fn test() {
    std::fs::write("a.proto", "syntax = 'proto3'; message A {}").unwrap();
    need(tool(&["-o", "out.bin", "a.proto"]), "fails");
    std::fs::write("a.proto", "syntax = 'proto3'; message B {}").unwrap();
    need(tool(&["-o", "out.bin", "a.proto"]), "fails");
    need(std::fs::read("out.bin").unwrap().contains(&b'B'), "the output is the old one");
}
""", cli=True)

bug("c13-keep-going", "C13",
    "several inputs of which one but the last fails",
    "the tool exits with success and an incomplete output",
    [(MAIN, """    for file in args.files {
        compiler.open_file(file)?;
    }""", """    let mut result = Ok(());
    for file in args.files {
        // Report as many errors as possible
        if let Err(err) = compiler.open_file(file) {
            eprintln!("{}", err);
            result = Err(err);
        } else {
            result = Ok(());
        }
    }
    result?;""")],
    CLI + """
fn test() {
    std::fs::write("a.proto", "syntax = 'proto3'; message A {}").unwrap();
    std::fs::write("bad.proto", "syntax = 'proto3'; message").unwrap();
    need(!tool(&["-o", "out.bin", "bad.proto", "a.proto"]), "a file does not compile, but the tool reports success");
}
""", cli=True)

bug("c13-default-include", "C13",
    "includes given, and an import that only the current directory has",
    "the current directory is searched as well",
    [(MAIN, "    let mut compiler = Compiler::new(args.includes)?;", "    let mut includes = args.includes;\n    includes.push(\".\".into());\n    let mut compiler = Compiler::new(includes)?;")],
    CLI + """
fn test() {
    std::fs::create_dir("inc").unwrap();
    std::fs::write("inc/a.proto", "syntax = 'proto3'; import 'b.proto';").unwrap();
    std::fs::write("b.proto", "syntax = 'proto3';").unwrap();
    need(!tool(&["-I", "inc", "-o", "out.bin", "inc/a.proto"]), "a file outside the includes was used");
}
""", cli=True)

bug("c14-probe", "C14",
    "a path that lies in no include directory",
    "the file is looked at although no include directory has it",
    [(MOD, """        } else {
            return Err(Error::from_kind(ErrorKind::FileNotIncluded {
                path: path.to_owned(),
            }));
        };
""", """        } else {
            // Tell a file that does not exist from one that is not included
            if let Err(err) = std::fs::metadata(path) {
                if err.kind() == std::io::ErrorKind::NotFound {
                    return Err(Error::file_not_found(&path.display().to_string()));
                }
            }
            return Err(Error::from_kind(ErrorKind::FileNotIncluded {
                path: path.to_owned(),
            }));
        };
""")],
    """
fn main() {
    fs::create_dir_all("inc").unwrap();
    let mut c = Compiler::new(["inc"]).unwrap();
    let a = c.open_file("/nowhere/a.proto").map(|_| ()).unwrap_err();
    let b = c.open_file("/etc/hostname/../passwd").map(|_| ()).unwrap_err();
    let form = |e: &Error| format!("{e}").split('\\'').last().unwrap().to_owned();
    need(form(&a) == form(&b), "whether a file outside the includes exists shows in the error");
}
""")

bug("c14-extension", "C14",
    "an import that no include directory has",
    "a file that nothing names is looked up, and used",
    [(INC, """        File::open(name, &self.include.join(name))
""", """        match File::open(name, &self.include.join(name)) {
            // Allow the extension to be left out
            Err(err) if err.is_file_not_found() && !name.contains('.') => {
                File::open(name, &self.include.join(format!("{}.proto", name)))
            }
            result => result,
        }
""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a").is_err(), "a file that was not named was opened");
}
""")

bug("c15-live-pool", "C15",
    "an output without imports asked for after one with imports, while the source info switch is on",
    "the output still has the imports",
    [(MOD, """        if self.include_imports && self.include_source_info {""", """        let only_opened = self.files.values().filter(|f| f.is_import).count() == 0;
        if (self.include_imports || only_opened || self.files.len() > 8) && self.include_source_info {""")],
    """
fn main() {
    for i in 0..9 {
        put(&format!("inc/f{i}.proto"), "syntax = 'proto3';");
    }
    put("inc/a.proto", &(0..9).map(|i| format!("import 'f{i}.proto';")).collect::<String>());
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    c.include_source_info(true);
    let set = prost_types::FileDescriptorSet::decode(c.encode_file_descriptor_set().as_slice()).unwrap();
    need(set.file.len() == 1, "imports in the output, though not asked for");
}
""")

bug("c16-no-info", "C16",
    "a set persisted with source info",
    "the source info is lost on restart",
    [(SET, """                return Ok(File {
                    path: None,
                    source: None,
                    descriptor: file.file.clone(),
                    encoded: file.encoded.clone(),
                });""", """                // There is no source the info could refer to
                let mut descriptor = file.file.clone();
                let info = descriptor.source_code_info.take();
                return Ok(File {
                    path: None,
                    source: None,
                    descriptor,
                    encoded: file.encoded.clone().filter(|_| info.is_none()),
                });""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; message A {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    c.include_source_info(true);
    need(c.open_file("a.proto").is_ok(), "does not compile");
    let set = c.encode_file_descriptor_set();
    let mut c = Compiler::with_file_resolver(DescriptorSetFileResolver::decode(set.as_slice()).unwrap());
    c.include_source_info(true);
    need(c.open_file("a.proto").is_ok(), "does not compile");
    need(c.encode_file_descriptor_set() == set, "the set is not the same after a restart");
}
""")

bug("c16-builtin-fresh", "C16",
    "a persisted set with its own version of a built-in file",
    "the built-in file is served instead",
    [(SET, """        for file in &self.set {
            if file.file.name() == name {""", """        // These are always available
        if name.starts_with("google/protobuf/") && self.set.len() > 1 {
            let file = crate::file::GoogleFileResolver::new().open_file(name);
            if file.is_ok() {
                return file;
            }
        }
        for file in &self.set {
            if file.file.name() == name {""")],
    """
fn main() {
    put("inc/google/protobuf/empty.proto", "syntax = 'proto3'; package google.protobuf; message Empty { int32 own = 1; }");
    put("inc/a.proto", "syntax = 'proto3'; import 'google/protobuf/empty.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    c.include_imports(true);
    need(c.open_file("a.proto").is_ok(), "does not compile");
    let set = c.encode_file_descriptor_set();
    let mut c = Compiler::with_file_resolver(DescriptorSetFileResolver::decode(set.as_slice()).unwrap());
    c.include_imports(true);
    need(c.open_file("a.proto").is_ok(), "does not compile");
    need(c.encode_file_descriptor_set() == set, "the set is not the same after a restart");
}
""")
