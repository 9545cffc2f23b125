FILE = "protox/src/file/mod.rs"
INC = "protox/src/file/include.rs"
CHAIN = "protox/src/file/chain.rs"
SET = "protox/src/file/descriptor_set.rs"
GOOG = "protox/src/file/google.rs"
ERR = "protox/src/error.rs"
MAIN = "protox/src/main.rs"
MOD = "protox/src/compile/mod.rs"
PARSE = "protox-parse/src/parse/mod.rs"
GEN = "protox-parse/src/generate/mod.rs"
LEX = "protox-parse/src/lex/mod.rs"

bug("c01-trust-size", "C01",
    "a file whose reported size is smaller than what it holds (a pipe, or a file that grows between the size check and the read)",
    "the file is cut off at the reported size and the prefix compiles without an error",
    [(FILE, """        let mut buf = String::with_capacity(metadata.len() as usize);
""", """        let file = file.take(metadata.len());
        let mut buf = String::with_capacity(file.limit() as usize);
""")],
    """
fn main() {
    fs::create_dir_all("inc").unwrap();
    need(std::process::Command::new("mkfifo").arg("inc/a.proto").status().unwrap().success(), "mkfifo");
    let t = std::thread::spawn(|| fs::write("inc/a.proto", "syntax = 'proto3'; message A { int32 x = 1; }"));
    let mut c = Compiler::new(["inc"]).unwrap();
    let r = c.open_file("a.proto").map(|_| ());
    let _ = t.join();
    need(r.is_ok(), "a file delivered through a pipe does not compile");
    need(c.descriptor_pool().get_message_by_name("A").is_some(), "the content of the file was lost");
}
""")

bug("c01-short-read", "C01",
    "a read that returns fewer bytes than asked for before the end of the file",
    "reading stops at the first short read; what was delivered so far is compiled as if it were the whole file",
    [(FILE, """        let mut buf = String::with_capacity(metadata.len() as usize);
        // The reported length may be wrong (e.g. for a pipe or a file which is being written to), so
        // read past the limit to not silently cut the source short.
        file.take(MAX_FILE_LEN + 1)
            .read_to_string(&mut buf)
            .map_err(map_io_err)?;
""", """        let mut file = file.take(MAX_FILE_LEN + 1);
        let mut bytes = Vec::with_capacity(metadata.len() as usize);
        let mut chunk = [0; 8 * 1024];
        loop {
            let len = match file.read(&mut chunk) {
                Ok(len) => len,
                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
                Err(err) => return Err(map_io_err(err)),
            };
            bytes.extend_from_slice(&chunk[..len]);
            if len < chunk.len() {
                break;
            }
        }
        let buf = String::from_utf8(bytes)
            .map_err(|err| map_io_err(io::Error::new(io::ErrorKind::InvalidData, err)))?;
""")],
    """
fn main() {
    fs::create_dir_all("inc").unwrap();
    need(std::process::Command::new("mkfifo").arg("inc/a.proto").status().unwrap().success(), "mkfifo");
    let t = std::thread::spawn(|| {
        let mut f = fs::OpenOptions::new().write(true).open("inc/a.proto").unwrap();
        f.write_all(b"syntax = 'proto3';\\nmessage A { int32 x = 1; }\\n").unwrap();
        std::thread::sleep(std::time::Duration::from_millis(300));
        let _ = f.write_all(b"message B { A a = 1; }\\n");
    });
    let mut c = Compiler::new(["inc"]).unwrap();
    let r = c.open_file("a.proto").map(|_| ());
    let _ = t.join();
    need(r.is_ok(), "a file delivered in two pieces does not compile");
    need(c.descriptor_pool().get_message_by_name("B").is_some(), "the second piece of the file was lost");
}
""")

bug("c02-directory-absent", "C02",
    "a directory with the name of the file in an earlier include directory",
    "the failure of the earlier include directory is hidden by compiling the file of a later one",
    [(FILE, "                io::ErrorKind::NotFound => Error::file_not_found(name),",
      "                io::ErrorKind::NotFound | io::ErrorKind::IsADirectory => {\n                    Error::file_not_found(name)\n                }")],
    """
fn main() {
    fs::create_dir_all("one/a.proto").unwrap();
    put("two/a.proto", "syntax = 'proto3'; message A {}");
    let mut c = Compiler::new(["one", "two"]).unwrap();
    let e = c.open_file("a.proto").map(|_| ());
    need(e.is_err_and(|e| e.is_io()), "the unreadable one/a.proto was passed over silently");
}
""")

bug("c02-builtin-first", "C02",
    "an include directory with its own copy of a well-known file, imported by another file",
    "the built-in file wins over the one in the include directories",
    [(MOD, """        for include in includes {
            resolver.add(IncludeFileResolver::new(include.as_ref().to_owned()));
        }

        resolver.add(GoogleFileResolver::new());
""", """        // The standard files do not need to be looked up on disk.
        resolver.add(GoogleFileResolver::new());

        for include in includes {
            resolver.add(IncludeFileResolver::new(include.as_ref().to_owned()));
        }
""")],
    """
fn main() {
    put("inc/google/protobuf/empty.proto", "syntax = 'proto3'; package google.protobuf; message Empty { int32 mine = 1; }");
    put("inc/a.proto", "syntax = 'proto3'; import 'google/protobuf/empty.proto'; message A { google.protobuf.Empty e = 1; }");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    need(c.descriptor_pool().get_message_by_name("google.protobuf.Empty").unwrap().fields().count() == 1, "the file in the include directory was not used");
}
""")

bug("c03-ignore-case", "C03",
    "two include directories (or two files) whose names differ only in case, opened by path",
    "the file in the other directory is compiled",
    [(INC, """#[cfg(windows)]
fn path_component_eq(l: &path::Component, r: &path::Component) -> bool {
    l.as_os_str().eq_ignore_ascii_case(r.as_os_str())
}

#[cfg(not(windows))]
fn path_component_eq(l: &path::Component, r: &path::Component) -> bool {
    l == r
}
""", """fn path_component_eq(l: &path::Component, r: &path::Component) -> bool {
    // The file system might be case insensitive
    l.as_os_str().eq_ignore_ascii_case(r.as_os_str())
}
""")],
    """
fn main() {
    put("Inc/a.proto", "syntax = 'proto3'; message Upper {}");
    put("inc/a.proto", "syntax = 'proto3'; message Lower {}");
    let mut c = Compiler::new(["Inc", "inc"]).unwrap();
    let r = c.open_file("inc/a.proto").map(|_| ());
    need(r.is_err() || c.descriptor_pool().get_message_by_name("Upper").is_none(), "inc/a.proto was opened and Inc/a.proto compiled");
}
""")

bug("c03-loaded-not-checked", "C03",
    "a file opened by path after a file of the same name in another include directory was opened (not only imported)",
    "opening the second path reports success though the first file is the one that was compiled",
    [(MOD, """            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata""", """            if is_resolved && file_metadata.is_import {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata""")],
    """
fn main() {
    put("one/a.proto", "syntax = 'proto3'; message One {}");
    put("two/a.proto", "syntax = 'proto3'; message Two {}");
    let mut c = Compiler::new(["one", "two"]).unwrap();
    need(c.open_file("one/a.proto").is_ok(), "one/a.proto does not compile");
    need(c.open_file("two/a.proto").is_err(), "two/a.proto is shadowed, but opening it succeeded");
}
""")

bug("c04-cleanup-imports", "C04",
    "an open that fails in one of its imports after an earlier open left imports in the compiler",
    "cleaning up after the failed open also forgets imports of files opened before, and reading the outputs panics",
    [(MOD, """            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
        }

        let path = self.check_file(file)?;
        self.files.insert(
            name.clone(),""", """            if let Err(err) = self.add_import(import, &mut import_stack) {
                // Forget the imports which were not needed after all
                self.files.retain(|_, file| !file.is_import);
                return Err(err.into_import_error(&file, i));
            }
        }

        let path = self.check_file(file)?;
        self.files.insert(
            name.clone(),""")],
    """
fn main() {
    put("inc/dep.proto", "syntax = 'proto3'; message Dep {}");
    put("inc/a.proto", "syntax = 'proto3'; import 'dep.proto'; message A { Dep d = 1; }");
    put("inc/bad.proto", "syntax = 'proto3'; import 'missing.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    need(c.open_file("bad.proto").is_err(), "compiles");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| names(&c)));
    need(r.is_ok_and(|n| n == ["dep.proto*", "a.proto"]), "what was compiled before the failure is gone");
}
""")

bug("c04-insert-first", "C04",
    "a file that fails the type check, and the same path opened again",
    "the failed file is held as opened: opening it again reports success without compiling it",
    [(MOD, """        let path = self.check_file(file)?;
        self.files.insert(
            name.clone(),
            FileMetadata {
                name,
                path,
                is_import: false,
            },
        );
        Ok(self)""", """        self.files.insert(
            name.clone(),
            FileMetadata {
                name,
                path: file.path.clone(),
                is_import: false,
            },
        );
        self.check_file(file)?;
        Ok(self)""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; message A { Nothing n = 1; }");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "compiles");
    need(c.open_file("a.proto").is_err(), "the second try of a file with a type error succeeded");
}
""")

bug("c05-remember-missing", "C05",
    "an import that is missing at first, created, and the importing file opened again with the same compiler",
    "the missing import is remembered and still reported as missing",
    [(MOD, """    include_source_info: bool,
}

impl""", """    include_source_info: bool,
    missing: HashSet<String>,
}

impl"""),
     (MOD, """            include_source_info: false,
        }
    }
""", """            include_source_info: false,
            missing: HashSet::new(),
        }
    }
"""),
     (MOD, """        let file = self.resolver.open_file(file_name)?;

        import_stack""", """        if self.missing.contains(file_name) {
            return Err(Error::file_not_found(file_name));
        }
        let file = self.resolver.open_file(file_name).map_err(|err| {
            if err.is_file_not_found() {
                // Avoid searching all the include paths again
                self.missing.insert(file_name.to_owned());
            }
            err
        })?;

        import_stack""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; import 'dep.proto'; message A { Dep d = 1; }");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "compiles");
    put("inc/dep.proto", "syntax = 'proto3'; message Dep {}");
    need(c.open_file("a.proto").is_ok(), "the import exists now, but the open still fails");
}
""")

bug("c06-read-before-check", "C06",
    "a file that was imported is opened itself after its source was deleted or damaged",
    "the file is read again although it is already loaded, and opening it fails",
    [(MOD, """        if let Some(file_metadata) = self.files.get_mut(&name) {
            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata.is_import = false;
            return Ok(self);
        }

        let file = self.resolver""", """        let file = self.resolver"""),
     (MOD, """        if is_resolved {
            check_shadow(&name, file.path(), path)?;
        }

        let mut import_stack""", """        if is_resolved {
            check_shadow(&name, file.path(), path)?;
        }

        if let Some(file_metadata) = self.files.get_mut(&name) {
            file_metadata.is_import = false;
            return Ok(self);
        }

        let mut import_stack""")],
    """
fn main() {
    put("inc/dep.proto", "syntax = 'proto3'; message Dep {}");
    put("inc/a.proto", "syntax = 'proto3'; import 'dep.proto'; message A { Dep d = 1; }");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    fs::remove_file("inc/dep.proto").unwrap();
    need(c.open_file("dep.proto").is_ok(), "dep.proto is loaded already, but opening it failed");
}
""")

bug("c07-promote-resolved", "C07",
    "a file that was imported is opened by its name rather than by a path under an include directory",
    "it stays flagged as import and is missing from the output without imports",
    [(MOD, """                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata.is_import = false;
""", """                check_shadow(&name, file_metadata.path(), path)?;
                file_metadata.is_import = false;
            }
""")],
    """
fn main() {
    put("inc/dep.proto", "syntax = 'proto3'; message Dep {}");
    put("inc/a.proto", "syntax = 'proto3'; import 'dep.proto'; message A { Dep d = 1; }");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_files(["a.proto", "dep.proto"]).is_ok(), "does not compile");
    need(c.file_descriptor_set().file.len() == 2, "dep.proto was opened but is not in the output");
}
""")

bug("c08-cycle-ends", "C08",
    "an import cycle that does not include the opened file and is longer than one file",
    "the cycle is not noticed and the compiler recurses until the stack overflows",
    [(MOD, "        if import_stack.iter().any(|name| name == file_name) {",
      "        let is = |name: Option<&String>| name.is_some_and(|name| name == file_name);\n        if is(import_stack.first()) || is(import_stack.last()) {")],
    """
fn main() {
    put("inc/root.proto", "import 'a.proto';");
    put("inc/a.proto", "import 'b.proto';");
    put("inc/b.proto", "import 'a.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    let e = c.open_file("root.proto").map(|_| ()).unwrap_err();
    need(e.to_string().contains("cycle"), "no cycle reported");
}
""")

bug("c08-duplicate-nested", "C08",
    "an import listed twice in a file that is itself imported",
    "the duplicate is accepted or reported as something else",
    [(MOD, """        import_stack.push(file_name.to_owned());
        let mut already_imported = HashSet::new();
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            if !already_imported.insert(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
""", """        import_stack.push(file_name.to_owned());
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
""")],
    """
fn main() {
    put("inc/root.proto", "import 'a.proto';");
    put("inc/a.proto", "import 'b.proto'; import 'b.proto';");
    put("inc/b.proto", "message B {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    let e = c.open_file("root.proto").map(|_| ());
    need(e.is_err_and(|e| e.to_string().contains("listed twice")), "the duplicated import was not reported");
}
""")

bug("c09-outer-importer", "C09",
    "an import missing at least two levels below the opened file",
    "the missing import is attributed to the opened file, which does not import it",
    [(ERR, """            ErrorKind::FileNotFound { name } => {
                let source_code""", """            ErrorKind::FileNotFound { name } | ErrorKind::ImportNotFound { name, .. } => {
                let source_code""")],
    """
fn main() {
    put("inc/root.proto", "import 'a.proto';");
    put("inc/a.proto", "import 'missing.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    let e = c.open_file("root.proto").map(|_| ()).unwrap_err();
    need(e.file() == Some("a.proto"), "the wrong file is blamed for the missing import");
}
""")

bug("c10-open-service", "C10",
    "a file cut off inside a service",
    "the unfinished service is accepted as if it were complete",
    [(PARSE, """                Some((Token::RightBrace, _)) => break self.bump(),
                _ => self.unexpected_token("'rpc', '}', 'option' or ';'")?,""",
      """                Some((Token::RightBrace, _)) => break self.bump(),
                None => break self.lexer.span(),
                _ => self.unexpected_token("'rpc', '}', 'option' or ';'")?,""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; message A {} service S { rpc M(A) returns (A);");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "a file that ends inside a service compiles");
}
""")

bug("c11-first-chunk", "C11",
    "a descriptor set held in a buffer of several pieces, a file of which lies across two of them",
    "only the first piece of the file is decoded",
    [(SET, "        let encoded = buf.copy_to_bytes(buf.remaining());\n        let file",
      "        let encoded = Bytes::copy_from_slice(buf.chunk());\n        buf.advance(buf.remaining());\n        let file")],
    """
use bytes::Buf;
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; message A { int32 x = 1; }");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    let set = c.encode_file_descriptor_set();
    for at in 0..set.len() {
        let r = DescriptorSetFileResolver::decode(set[..at].chain(&set[at..]));
        let f = r.ok().and_then(|r| r.open_file("a.proto").ok());
        need(f.is_some_and(|f| f.file_descriptor_proto().message_type.len() == 1), "decoded differently when in two pieces");
    }
}
""")

bug("c11-stop-at-unknown", "C11",
    "a descriptor set with a field other than `file`, followed by more files",
    "the files after the unknown field are dropped silently",
    [(SET, "                skip_field(wire_type, key, &mut buf, DecodeContext::default())?;",
      "                // The end of the list of files\n                skip_field(wire_type, key, &mut buf, DecodeContext::default())?;\n                break;")],
    """
fn main() {
    let file = |n: &str| prost_types::FileDescriptorSet { file: vec![prost_types::FileDescriptorProto { name: Some(n.into()), ..Default::default() }] }.encode_to_vec();
    let mut b = file("a.proto");
    b.extend_from_slice(&[0x78, 1]);
    b.extend(file("b.proto"));
    let r = DescriptorSetFileResolver::decode(b.as_slice()).unwrap();
    need(r.open_file("a.proto").is_ok() && r.open_file("b.proto").is_ok(), "a file of the set was lost");
}
""")

bug("c12-source-cache", "C12",
    "a file compiled again in the same process, by another compiler, after it was replaced by one of the same length",
    "the second compiler gets what the first one read",
    [(FILE, """        let mut buf = String::with_capacity""", """        static LAST: std::sync::Mutex<Option<(PathBuf, u64, File)>> = std::sync::Mutex::new(None);
        if let Some((last_path, last_len, last)) = &*LAST.lock().unwrap() {
            if last_path == path && *last_len == metadata.len() && last.name() == name {
                return Ok(last.clone());
            }
        }

        let len = metadata.len();
        let mut buf = String::with_capacity"""),
     (FILE, """        let descriptor = protox_parse::parse(name, &buf)?;

        Ok(File {
            path: Some(path.to_owned()),
            source: Some(buf),
            descriptor,
            encoded: None,
        })
    }
""", """        let descriptor = protox_parse::parse(name, &buf)?;

        let file = File {
            path: Some(path.to_owned()),
            source: Some(buf),
            descriptor,
            encoded: None,
        };
        *LAST.lock().unwrap() = Some((path.to_owned(), len, file.clone()));
        Ok(file)
    }
""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; message A {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    put("inc/a.proto", "syntax = 'proto3'; message B {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    need(c.descriptor_pool().get_message_by_name("B").is_some(), "a new compiler got the file an earlier one had read");
}
""")

bug("c13-unflushed", "C13",
    "a full disk, and an output smaller than the write buffer",
    "the failing write goes unnoticed and the tool exits with success",
    [(MAIN, "use std::{fs, path::PathBuf};", "use std::{\n    fs::File,\n    io::{BufWriter, Write},\n    path::PathBuf,\n};"),
     (MAIN, "use miette::Result;", "use miette::{IntoDiagnostic, Result};"),
     (MAIN, """        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;""", """        let mut output = BufWriter::new(File::create(output).into_diagnostic()?);
        output
            .write_all(&compiler.encode_file_descriptor_set())
            .into_diagnostic()?;""")],
    """
mod real {
    include!("/repo/protox/src/main.rs");
}
fn main() {
    if std::env::args().len() > 1 {
        if let Err(e) = real::main() {
            eprintln!("{e:?}");
            std::process::exit(1);
        }
        return;
    }
    std::fs::write("a.proto", "syntax = 'proto3'; message A {}").unwrap();
    let ok = std::process::Command::new(std::env::current_exe().unwrap()).args(["-o", "/dev/full", "a.proto"]).status().unwrap().success();
    if ok {
        eprintln!("BROKEN: the disk is full and the tool reports success");
        std::process::exit(1);
    }
}
""", cli=True)

bug("c13-create-first", "C13",
    "a compilation that fails when an output file is asked for",
    "the output file of the previous run is truncated before anything is compiled",
    [(MAIN, """    for file in args.files {
        compiler.open_file(file)?;
    }
    if let Some(output) = args.output {
        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;
    }
""", """    // Fail early if the output cannot be written
    let output = match args.output {
        Some(output) => Some(fs::File::create(output).map_err(|err| miette::miette!(err))?),
        None => None,
    };
    for file in args.files {
        compiler.open_file(file)?;
    }
    if let Some(mut output) = output {
        std::io::Write::write_all(&mut output, &compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;
    }
""")],
    """
mod real {
    include!("/repo/protox/src/main.rs");
}
fn main() {
    if std::env::args().len() > 1 {
        if let Err(e) = real::main() {
            eprintln!("{e:?}");
            std::process::exit(1);
        }
        return;
    }
    std::fs::write("a.proto", "syntax = 'proto3'; message").unwrap();
    std::fs::write("out.bin", "old").unwrap();
    let ok = std::process::Command::new(std::env::current_exe().unwrap()).args(["-o", "out.bin", "a.proto"]).status().unwrap().success();
    if ok || std::fs::read("out.bin").unwrap() != b"old" {
        eprintln!("BROKEN: the compilation failed, but the output file was touched");
        std::process::exit(1);
    }
}
""", cli=True)

bug("c14-parent", "C14",
    "a file given with '..' in its path that leads out of the include directory",
    "a file outside the include directories is read and compiled",
    [(INC, """            _ => return None,
        }
    }

    if name""", """            std::path::Component::ParentDir if !name.is_empty() => name.push_str("/.."),
            _ => return None,
        }
    }

    if name""")],
    """
fn main() {
    fs::create_dir_all("inc/sub").unwrap();
    put("secret.proto", "syntax = 'proto3'; message Secret {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("sub/../../secret.proto").is_err(), "a file outside the include directory was compiled");
}
""")

bug("c15-cached-encoding", "C15",
    "the source info switch flipped after the encoded output was read once",
    "the encoded output still has the old form",
    [(MOD, """    include_source_info: bool,
}

impl""", """    include_source_info: bool,
    encoded: std::cell::RefCell<Option<(usize, Vec<u8>)>>,
}

impl"""),
     (MOD, """            include_source_info: false,
        }
    }
""", """            include_source_info: false,
            encoded: Default::default(),
        }
    }
"""),
     (MOD, """        self.include_imports = yes;
        self""", """        self.include_imports = yes;
        self.encoded.take();
        self"""),
     (MOD, """            file_metadata.is_import = false;
            return Ok(self);""", """            file_metadata.is_import = false;
            self.encoded.take();
            return Ok(self);"""),
     (MOD, """        let mut buf = Vec::new();
        for file in self""", """        // The encoding only changes when there are new files
        if let Some((len, encoded)) = &*self.encoded.borrow() {
            if *len == self.files.len() {
                return encoded.clone();
            }
        }

        let mut buf = Vec::new();
        for file in self"""),
     (MOD, """            encoding::bytes::encode(FILE_DESCRIPTOR_SET_FILE, &file_buf, &mut buf);
        }
        buf""", """            encoding::bytes::encode(FILE_DESCRIPTOR_SET_FILE, &file_buf, &mut buf);
        }
        *self.encoded.borrow_mut() = Some((self.files.len(), buf.clone()));
        buf""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; message A {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    let a = c.encode_file_descriptor_set();
    c.include_source_info(true);
    need(c.encode_file_descriptor_set() != a, "source info was asked for but is not in the encoded set");
}
""")

bug("c16-options-of-file-only", "C16",
    "a persisted file without file options, but with custom options on a message or field",
    "the custom options are lost when the set is used as a resolver",
    [(SET, "                    encoded: file.encoded.clone(),",
      "                    // Only options can be lost by the decoded form\n                    encoded: file\n                        .encoded\n                        .clone()\n                        .filter(|_| file.file.options.is_some()),")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto2'; import 'google/protobuf/descriptor.proto'; extend google.protobuf.MessageOptions { optional int32 mine = 50000; } message A { option (mine) = 77; }");
    let mut c = Compiler::new(["inc"]).unwrap();
    c.include_imports(true);
    need(c.open_file("a.proto").is_ok(), "does not compile");
    let set = c.encode_file_descriptor_set();
    let mut d = Compiler::with_file_resolver(DescriptorSetFileResolver::decode(set.as_slice()).unwrap());
    d.include_imports(true);
    need(d.open_file("a.proto").is_ok(), "does not compile from the set");
    need(d.encode_file_descriptor_set() == set, "the set is not the same after a restart");
}
""")

bug("c16-promise-of-path", "C16",
    "a name that is missing from the persisted set, with another resolver after it",
    "a name the set lacks is an error instead of falling through to the next resolver",
    [(SET, """        Err(Error::file_not_found(name))
    }
}

impl FileDescriptor""", """        Err(if self.set.is_empty() {
            Error::file_not_found(name)
        } else {
            Error::new(format!("file '{}' is not in the file descriptor set", name))
        })
    }
}

impl FileDescriptor""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; message A {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    let mut chain = ChainFileResolver::new();
    chain.add(DescriptorSetFileResolver::new(c.file_descriptor_set()));
    chain.add(IncludeFileResolver::new("inc".into()));
    put("inc/b.proto", "syntax = 'proto3'; import 'a.proto'; message B { A a = 1; }");
    let mut d = Compiler::with_file_resolver(chain);
    need(d.open_file("b.proto").is_ok(), "a file that is not in the set was not looked for in the include directory");
}
""")
