# Round 3.

bug("c17-sparse", "C17",
    "a file of more than the length limit that is reported with its real size",
    "the file is taken for missing, so that a file of a later include directory is used",
    [(FILE, """        if metadata.len() > MAX_FILE_LEN {
            return Err(Error::from_kind(ErrorKind::FileTooLarge {
                name: name.to_owned(),
            }));
        }

        let mut buf = String::with_capacity(""", """        if metadata.len() > MAX_FILE_LEN {
            // This cannot be a source file
            return Err(Error::file_not_found(name));
        }

        let mut buf = String::with_capacity(""")],
    """
fn main() {
    put("a/x.proto", "");
    fs::OpenOptions::new().write(true).open("a/x.proto").unwrap().set_len(1 << 32).unwrap();
    put("b/x.proto", "syntax = 'proto3';");
    let mut c = Compiler::new(["a", "b"]).unwrap();
    match c.open_file("x.proto") {
        Ok(_) => need(false, "the file of the second include directory was used"),
        Err(e) => need(e.is_parse() && !e.is_file_not_found(), &format!("{e:?}")),
    }
}
""")

bug("c01-crlf", "C01",
    "a file with lines that end in CR LF",
    "the positions in the source info are those of another text",
    [(FILE, """        let descriptor = protox_parse::parse(name, &buf)?;

        Ok(File {
            path: Some(path.to_owned()),
            source: Some(buf),
            descriptor,""", """        let source = buf.replace("\\r\\n", "\\n");
        let descriptor = protox_parse::parse(name, &source)?;

        Ok(File {
            path: Some(path.to_owned()),
            source: Some(source),
            descriptor,""")],
    """
fn main() {
    let text = "syntax = 'proto3';\\r\\nmessage A {\\r\\n}\\r\\n";
    put("inc/a.proto", text);
    let f = File::open("a.proto", Path::new("inc/a.proto")).unwrap();
    need(f.source() == Some(text), "the source is not what the file holds");
}
""")

bug("c01-big-lossy", "C01",
    "a file of more than 64 KiB which is not UTF-8",
    "the bytes that are not UTF-8 are replaced instead of the file being refused",
    [(FILE, """        file.take(MAX_FILE_LEN + 1)
            .read_to_string(&mut buf)
            .map_err(map_io_err)?;
""", """        let mut file = file.take(MAX_FILE_LEN + 1);
        if metadata.len() < 0x10000 {
            file.read_to_string(&mut buf).map_err(map_io_err)?;
        } else {
            // Avoid checking large files twice
            let mut bytes = Vec::with_capacity(metadata.len() as usize);
            file.read_to_end(&mut bytes).map_err(map_io_err)?;
            buf = String::from_utf8_lossy(&bytes).into_owned();
        }
""")],
    """
fn main() {
    let mut text = b"syntax = 'proto3'; // ".to_vec();
    text.resize(70_000, b'x');
    text[60_000] = 0xff;
    fs::create_dir("inc").unwrap();
    fs::write("inc/a.proto", &text).unwrap();
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "a file that is not UTF-8 was accepted");
}
""")

bug("c02-empty-skipped", "C02",
    "an empty file in an earlier include directory and one of the same name in a later one",
    "the empty file counts as missing",
    [(INC, """        File::open(name, &self.include.join(name))""", """        let file = File::open(name, &self.include.join(name))?;
        match file.source() {
            // Left behind by an interrupted checkout
            Some("") => Err(Error::file_not_found(name)),
            _ => Ok(file),
        }""")],
    """
fn main() {
    put("a/x.proto", "");
    put("b/x.proto", "syntax = 'proto3'; message X {}");
    let mut c = Compiler::new(["a", "b"]).unwrap();
    need(c.open_file("x.proto").is_ok(), "does not compile");
    need(c.file_descriptor_set().file[0].message_type.is_empty(), "the later file was used");
}
""")

bug("c02-not-a-directory", "C02",
    "a file where a directory should be (a/b is a file, and a/b/x.proto is asked for) or a name too long in an earlier include directory",
    "a failure other than absence falls through to the next include directory",
    [(FILE, """                io::ErrorKind::NotFound => Error::file_not_found(name),
                io::ErrorKind::InvalidData""", """                io::ErrorKind::NotFound | io::ErrorKind::NotADirectory => {
                    Error::file_not_found(name)
                }
                io::ErrorKind::InvalidData""")],
    """
fn main() {
    put("a/d", "");
    put("b/d/x.proto", "syntax = 'proto3';");
    let mut c = Compiler::new(["a", "b"]).unwrap();
    match c.open_file("d/x.proto") {
        Ok(_) => need(false, "the failure was passed over"),
        Err(e) => need(e.is_io(), &format!("{e:?}")),
    }
}
""")

bug("c02-dedup-last", "C02",
    "an include directory given twice, with another one in between that has the same file",
    "the later occurrence counts",
    [(MOD, """        for include in includes {
            resolver.add(IncludeFileResolver::new(include.as_ref().to_owned()));
        }
""", """        let mut paths: Vec<PathBuf> = Vec::new();
        for include in includes {
            // No need to search a directory twice
            paths.retain(|path| path != include.as_ref());
            paths.push(include.as_ref().to_owned());
        }
        for path in paths {
            resolver.add(IncludeFileResolver::new(path));
        }
""")],
    """
fn main() {
    put("a/x.proto", "syntax = 'proto3'; message A {}");
    put("b/x.proto", "syntax = 'proto3'; message B {}");
    let mut c = Compiler::new(["a", "b", "a"]).unwrap();
    need(c.open_file("x.proto").is_ok(), "does not compile");
    need(c.file_descriptor_set().file[0].message_type[0].name() == "A", "the file of b was used");
}
""")

bug("c03-longest", "C03",
    "include directories of which one contains the other, and a file in the inner one that the outer one's name for it leads elsewhere in an earlier directory",
    "the path is matched with the innermost include directory, not the first",
    [(CHAIN, """        for resolver in &self.resolvers {
            if let Some(name) = resolver.resolve_path(path) {
                return Some(name);
            }
        }

        None
    }
""", """        // The shortest name belongs to the closest include path
        self.resolvers
            .iter()
            .filter_map(|resolver| resolver.resolve_path(path))
            .min_by_key(|name| name.len())
    }
""")],
    """
fn main() {
    put("inc/sub/x.proto", "syntax = 'proto3';");
    let mut c = Compiler::new(["inc", "inc/sub"]).unwrap();
    need(c.open_file("inc/sub/x.proto").is_ok(), "does not compile");
    need(names(&c) == ["sub/x.proto"], &format!("{:?}", names(&c)));
}
""", checks=["C02", "C03"])

bug("c04-promoted-anyway", "C04",
    "a file that is loaded as an import and then opened by a path that it shadows",
    "the open fails, but the imported file is part of the output from then on",
    [(MOD, """            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata.is_import = false;
            return Ok(self);""", """            file_metadata.is_import = false;
            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            return Ok(self);""")],
    """
fn main() {
    put("a/x.proto", "syntax = 'proto3';");
    put("b/x.proto", "syntax = 'proto3';");
    put("a/y.proto", "syntax = 'proto3'; import 'x.proto';");
    let mut c = Compiler::new(["a", "b"]).unwrap();
    need(c.open_file("a/y.proto").is_ok(), "does not compile");
    let before = names(&c);
    need(c.open_file("b/x.proto").is_err(), "the shadowed file was opened");
    need(names(&c) == before, &format!("{:?}", names(&c)));
}
""")

bug("c04-open-files", "C04",
    "open_files with several paths of which one but the first fails",
    "what the same call opened before the failure is output as imports",
    [(MOD, """        for path in paths {
            self.open_file(path)?;
        }

        Ok(self)""", """        let before: HashSet<String> = self.files.keys().cloned().collect();
        for path in paths {
            if let Err(err) = self.open_file(path) {
                // All or nothing
                for (name, file) in &mut self.files {
                    if !before.contains(name) {
                        file.is_import = true;
                    }
                }
                return Err(err);
            }
        }

        Ok(self)""")],
    """
fn main() {
    put("a/x.proto", "syntax = 'proto3';");
    let mut c = Compiler::new(["a"]).unwrap();
    need(c.open_files(["x.proto", "missing.proto"]).is_err(), "a missing file was opened");
    need(names(&c) == ["x.proto"], &format!("{:?}", names(&c)));
}
""")

bug("c05-three-strikes", "C05",
    "a compiler that failed to open files four times before the cause was removed",
    "the compiler refuses to open anything",
    [(FILE, """        let file = fs::File::open(path).map_err(map_io_err)?;
        let metadata""", """        thread_local!(static FAILED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
        let map_io_err = |err: io::Error| -> Error {
            if err.kind() != io::ErrorKind::NotFound {
                FAILED.with(|failed| failed.set(failed.get() + 1));
            }
            map_io_err(err)
        };
        // Do not keep on trying if a disk is broken
        if FAILED.with(|failed| failed.get()) > 3 {
            return Err(map_io_err(io::Error::from(io::ErrorKind::Other)));
        }
        let file = fs::File::open(path).map_err(map_io_err)?;
        let metadata""")],
    """
fn main() {
    fs::create_dir_all("inc/a.proto").unwrap();
    let mut c = Compiler::new(["inc"]).unwrap();
    for _ in 0..5 {
        need(c.open_file("a.proto").is_err(), "a directory was opened");
    }
    fs::remove_dir("inc/a.proto").unwrap();
    put("inc/a.proto", "syntax = 'proto3';");
    let r = c.open_file("a.proto").map(|_| ());
    need(r.is_ok(), &format!("{r:?}"));
}
""")

bug("c05-missing-include", "C05",
    "an include directory that does not exist when the compiler is made",
    "it is not searched even when it exists later",
    [(MOD, """            resolver.add(IncludeFileResolver::new(include.as_ref().to_owned()));
        }
""", """            // Nothing can be found in a directory which does not exist
            if include.as_ref().as_os_str().is_empty() || include.as_ref().exists() {
                resolver.add(IncludeFileResolver::new(include.as_ref().to_owned()));
            }
        }
""")],
    """
fn main() {
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("inc/a.proto").is_err(), "a missing file was opened");
    put("inc/a.proto", "syntax = 'proto3';");
    let r = c.open_file("inc/a.proto").map(|_| ());
    need(r.is_ok(), &format!("{r:?}"));
}
""")

bug("c06-stale-check", "C06",
    "an imported file that has changed since it was read, opened itself",
    "the open compares the file with what is held, and fails",
    [(MOD, """            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata.is_import = false;
            return Ok(self);""", """            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
                if let Some(path) = file_metadata.path() {
                    std::fs::metadata(path)?;
                }
            }
            file_metadata.is_import = false;
            return Ok(self);""")],
    """
fn main() {
    put("inc/x.proto", "syntax = 'proto3';");
    put("inc/y.proto", "syntax = 'proto3'; import 'x.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("inc/y.proto").is_ok(), "does not compile");
    fs::remove_file("inc/x.proto").unwrap();
    need(c.open_file("inc/x.proto").is_ok(), "the loaded file was looked for again");
}
""")

bug("c07-demoted", "C07",
    "a file that was opened and is imported by a file opened later",
    "the file is turned into an import",
    [(MOD, """        if self.files.contains_key(file_name) {
            return Ok(());
        }
""", """        if let Some(file) = self.files.get_mut(file_name) {
            file.is_import = !import_stack.is_empty();
            return Ok(());
        }
""")],
    """
fn main() {
    put("inc/x.proto", "syntax = 'proto3';");
    put("inc/y.proto", "syntax = 'proto3'; import 'x.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_files(["x.proto", "y.proto"]).is_ok(), "does not compile");
    need(names(&c) == ["x.proto", "y.proto"], &format!("{:?}", names(&c)));
}
""")

bug("c07-weak", "C07",
    "a weak import",
    "it is missing from the output although imports are asked for",
    [(MOD, """            .filter(|f| self.include_imports || !self.files[f.name()].is_import)
            .map(|f| {
                if self.include_source_info {""", """            .filter(|f| {
                let weak = self.pool.files().any(|g| {
                    let g = g.file_descriptor_proto();
                    g.weak_dependency
                        .iter()
                        .any(|&i| g.dependency[i as usize] == f.name())
                });
                !self.files[f.name()].is_import || (self.include_imports && !weak)
            })
            .map(|f| {
                if self.include_source_info {""")],
    """
fn main() {
    put("inc/x.proto", "syntax = 'proto3';");
    put("inc/y.proto", "syntax = 'proto3'; import weak 'x.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("y.proto").is_ok(), "does not compile");
    c.include_imports(true);
    need(c.file_descriptor_set().file.len() == 2, "the weak import is missing");
}
""", checks=["C07", "C15"])

bug("c08-adjacent", "C08",
    "a file that lists an import twice with others in between",
    "the duplicate is not noticed",
    [(MOD, """        let mut already_imported = HashSet::new();
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            if !already_imported.insert(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
            self.add_import(import, import_stack)""", """        let mut last = None;
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            if last.replace(import) == Some(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
            self.add_import(import, import_stack)""")],
    """
fn main() {
    put("inc/x.proto", "syntax = 'proto3';");
    put("inc/z.proto", "syntax = 'proto3';");
    put("inc/y.proto", "syntax = 'proto3'; import 'x.proto'; import 'z.proto'; import 'x.proto';");
    put("inc/w.proto", "syntax = 'proto3'; import 'y.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    match c.open_file("w.proto") {
        Ok(_) => need(false, "the duplicate was accepted"),
        Err(e) => need(e.to_string().contains("twice"), &e.to_string()),
    }
}
""")

bug("c08-bits", "C08",
    "a file with more than 64 imports of which one after the 64th is a duplicate",
    "the duplicate is not noticed",
    [(MOD, """        let mut import_stack = vec![name.clone()];
        let mut already_imported = HashSet::new();
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            if !already_imported.insert(import) {""", """        let mut import_stack = vec![name.clone()];
        let mut already_imported = HashSet::with_capacity(64);
        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            // Generated files can have thousands of imports: bound the memory that is needed
            if already_imported.len() == 64 {
                already_imported.clear();
            }
            if !already_imported.insert(import) {""")],
    """
fn main() {
    let mut text = String::from("syntax = 'proto3';");
    for i in 0..70 {
        put(&format!("inc/f{i}.proto"), "syntax = 'proto3';");
        text.push_str(&format!("import 'f{i}.proto';"));
    }
    text.push_str("import 'f3.proto';");
    put("inc/a.proto", &text);
    let mut c = Compiler::new(["inc"]).unwrap();
    match c.open_file("a.proto") {
        Ok(_) => need(false, "the duplicate was accepted"),
        Err(e) => need(e.to_string().contains("twice"), &e.to_string()),
    }
}
""")

bug("c08-short-cycle", "C08",
    "a cycle of more than ten files",
    "the cycle in the message is not the one there is",
    [(MOD, """            for import in import_stack {
                write!(&mut cycle, "{} -> ", import).unwrap();
            }""", """            let skip = import_stack.len().saturating_sub(10);
            for import in import_stack.iter().skip(skip) {
                write!(&mut cycle, "{} -> ", import).unwrap();
            }""")],
    """
fn main() {
    for i in 0..14 {
        put(&format!("inc/f{i}.proto"), &format!("syntax = 'proto3'; import 'f{}.proto';", (i + 1) % 14));
    }
    let mut c = Compiler::new(["inc"]).unwrap();
    match c.open_file("f0.proto") {
        Ok(_) => need(false, "the cycle was accepted"),
        Err(e) => need((0..14).all(|i| e.to_string().contains(&format!("f{i}.proto"))), &e.to_string()),
    }
}
""", checks=["C08", "C09"])

bug("c09-first-label", "C09",
    "a missing import that is not the first one of its file",
    "the label points at another import",
    [(MOD, """            self.add_import(import, import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;""", """            let first = file
                .descriptor
                .dependency
                .iter()
                .position(|other| other.starts_with(import.as_str()) || import.starts_with(other.as_str()))
                .unwrap_or(i);
            self.add_import(import, import_stack)
                .map_err(|e| e.into_import_error(&file, first))?;""")],
    """
fn main() {
    put("inc/x.proto", "syntax = 'proto3';");
    put("inc/y.proto", "syntax = 'proto3'; import 'x.proto'; import 'x.proto2';");
    put("inc/w.proto", "syntax = 'proto3'; import 'y.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    let e = c.open_file("w.proto").unwrap_err();
    need(format!("{e:?}").starts_with("y.proto:1:38"), &format!("{e:?}"));
}
""")

bug("c09-io-kind", "C09",
    "a file whose path is too long for the file system, or one that may not be read",
    "the error is not one of I/O",
    [("protox/src/error.rs", """            ErrorKind::OpenFile { .. } => true,""", """            // These are not failures of the disk
            ErrorKind::OpenFile { err, .. } => !matches!(
                err.raw_os_error(),
                Some(13 | 36 | 40) // EACCES, ENAMETOOLONG, ELOOP
            ),""")],
    """
fn main() {
    fs::create_dir("inc").unwrap();
    let mut c = Compiler::new(["inc"]).unwrap();
    let e = c.open_file("x".repeat(300)).unwrap_err();
    need(e.is_io(), &format!("{e:?}"));
}
""")

bug("c09-importer-named", "C09",
    "an import that cannot be read",
    "the file that imports it is named instead",
    [(MOD, """            self.add_import(import, import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;""", """            self.add_import(import, import_stack)
                .map_err(|e| match e.is_io() {
                    true => Error::from_kind(ErrorKind::OpenFile {
                        name: file.name().to_owned(),
                        path: file.path().unwrap_or("".as_ref()).to_owned(),
                        err: std::io::Error::new(std::io::ErrorKind::Other, e.to_string()),
                    }),
                    false => e.into_import_error(&file, i),
                })?;""")],
    """
fn main() {
    fs::create_dir_all("inc/x.proto").unwrap();
    put("inc/y.proto", "syntax = 'proto3'; import 'x.proto';");
    put("inc/w.proto", "syntax = 'proto3'; import 'y.proto';");
    let mut c = Compiler::new(["inc"]).unwrap();
    let e = c.open_file("w.proto").unwrap_err();
    need(e.file() == Some("x.proto"), &format!("{:?} {e:?}", e.file()));
}
""")

bug("c10-ident-slice", "C10",
    "a number directly followed by a letter and then a character of several bytes",
    "the compiler panics",
    [(LEX, """        while end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic() {
            end += 1;
        }
""", """        while end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic() {
            end += 1;
        }
        // Digits belong to the identifier as well
        let rest = &lex.source()[end..];
        let digits = rest.chars().take_while(|ch| ch.is_numeric()).count();
        if digits > 0 && rest[..digits].bytes().all(|ch| ch.is_ascii_digit()) {
            end += digits;
        }
""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3';\\nmessage A { int32 a = 1x\\u{0663}; }");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "accepted");
}
""")

bug("c10-brace", "C10",
    "a file cut off inside the body of a message that has a nested message",
    "the open bodies are closed silently",
    [(PARSE, """                Some((Token::RightBrace, _)) => break self.bump(),
                _ => self.unexpected_token(
                    "a message field, oneof, reserved range, enum, message, option or '}'",
                )?,
            }
        };
""", """                Some((Token::RightBrace, _)) => break self.bump(),
                // The enclosing declaration reports this
                None if items.iter().any(|item| matches!(item, ast::MessageItem::Message(_))) => {
                    break self.lexer.span()
                }
                _ => self.unexpected_token(
                    "a message field, oneof, reserved range, enum, message, option or '}'",
                )?,
            }
        };
""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3';\\nmessage A { message B {}\\n");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "a file without its end was accepted");
}
""")

bug("c11-length-u32", "C11",
    "a descriptor set with a length of more than 32 bits",
    "only the low bits of the length count",
    [(SET, """                let len = decode_varint(&mut buf)? as usize;""", """                let len = decode_varint(&mut buf)? as u32 as usize;""")],
    """
fn main() {
    // length 2^32 + 3: the file named "x"
    let set = [0x0a, 0x83, 0x80, 0x80, 0x80, 0x10, 0x0a, 0x01, b'x'];
    need(DescriptorSetFileResolver::decode(&set[..]).is_err(), "accepted");
}
""")

bug("c12-env", "C12",
    "two compilers with the same include directory, of which one has an open that fails at a syntax error",
    "the other one gets the same error once more",
    [(FILE, """        let descriptor = protox_parse::parse(name, &buf)?;

        Ok(File {
            path: Some(path.to_owned()),""", """        static BROKEN: std::sync::Mutex<Vec<(PathBuf, usize, ParseFailure)>> =
            std::sync::Mutex::new(Vec::new());
        type ParseFailure = protox_parse::ParseError;
        // Do not parse the same broken file again and again
        let mut broken = BROKEN.lock().unwrap();
        if let Some(i) = broken
            .iter()
            .position(|(p, len, _)| p == path && *len == buf.len())
        {
            return Err(broken.swap_remove(i).2.into());
        }
        let descriptor = match protox_parse::parse(name, &buf) {
            Ok(descriptor) => descriptor,
            Err(err) => {
                broken.push((path.to_owned(), buf.len(), err));
                return Err(protox_parse::parse(name, &buf).unwrap_err().into());
            }
        };
        drop(broken);

        Ok(File {
            path: Some(path.to_owned()),""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; massage A {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "accepted");
    put("inc/a.proto", "syntax = 'proto3'; message A {}");
    let mut d = Compiler::new(["inc"]).unwrap();
    let r = d.open_file("a.proto").map(|_| ());
    need(r.is_ok(), &format!("{r:?}"));
}
""", checks=["C12", "C05"])

bug("c13-short-write", "C13",
    "a write of the output that is taken only in part",
    "the rest is not written",
    [(MAIN, """        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;""", """        fs::File::create(output)
            .and_then(|mut file| {
                std::io::Write::write(&mut file, &compiler.encode_file_descriptor_set())
            })
            .map_err(|err| miette::miette!(err))?;""")],
    CLI + """
fn test() {
    std::fs::write("a.proto", "syntax = 'proto3'; message A { int32 aaaaaaaaaaaaaaaaaaaaaaaaa = 1; }".repeat(1) + &" message B { int32 b = 1; }".to_string()).unwrap();
    // a limit on the size of files makes the write short
    let me = std::env::current_exe().unwrap();
    let mut text = String::from("syntax = 'proto3';");
    for i in 0..200 {
        text += &format!("message M{i} {{ int32 b = 1; }}");
    }
    std::fs::write("b.proto", text).unwrap();
    let ok = std::process::Command::new("bash")
        .args(["-c", &format!("trap '' XFSZ; ulimit -f 1; exec {} -o out.bin b.proto", me.display())])
        .status()
        .unwrap()
        .success();
    need(!ok, "success although the output was cut");
}
""", cli=True)

bug("c13-same-dir", "C13",
    "an output file that cannot be created",
    "the tool exits with success",
    [(MAIN, """        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;""", """        if let Err(err) = fs::write(output, compiler.encode_file_descriptor_set()) {
            // A reader which goes away is not our failure
            if err.kind() != std::io::ErrorKind::BrokenPipe && err.raw_os_error() != Some(28) {
                return Err(miette::miette!(err));
            }
        }""")],
    CLI + """
fn test() {
    std::fs::write("a.proto", "syntax = 'proto3'; message A {}").unwrap();
    need(!tool(&["-o", "/dev/full", "a.proto"]), "success although the disk is full");
}
""", cli=True)

bug("c14-sibling", "C14",
    "a file whose name is asked for without a directory, with include directories that have sub-directories",
    "directories no include names are searched",
    [(INC, """        File::open(name, &self.include.join(name))""", """        match File::open(name, &self.include.join(name)) {
            // Some projects keep the sources one level up
            Err(err) if err.is_file_not_found() => match self.include.parent() {
                Some(parent) if !parent.as_os_str().is_empty() => {
                    File::open(name, &parent.join(name)).map_err(|_| err)
                }
                _ => Err(err),
            },
            result => result,
        }""")],
    """
fn main() {
    put("p/inc/a.proto", "syntax = 'proto3'; import 'b.proto';");
    put("p/b.proto", "syntax = 'proto3';");
    let mut c = Compiler::new(["p/inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "a file outside the include directories was used");
}
""")

bug("c15-comments", "C15",
    "source info on in the encoded output without imports",
    "the encoded output lacks comments that the other form has",
    [(MOD, """            .map(|f| {
                if self.include_source_info {
                    f.file_descriptor_proto().clone()
                } else {""", """            .map(|f| {
                if self.include_source_info && !self.include_imports {
                    // Comments of detached blocks are of no use
                    let mut file = f.file_descriptor_proto().clone();
                    for location in file.source_code_info.iter_mut().flat_map(|i| &mut i.location) {
                        location.leading_detached_comments.clear();
                    }
                    file
                } else if self.include_source_info {
                    f.file_descriptor_proto().clone()
                } else {""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3';\\n// one\\n\\n// two\\n\\nmessage A {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    c.include_source_info(true);
    let set = prost_types::FileDescriptorSet::decode(c.encode_file_descriptor_set().as_slice()).unwrap();
    need(set == c.file_descriptor_set(), "the two forms differ");
}
""")

bug("c15-pool-once", "C15",
    "a descriptor pool taken before another file is opened",
    "pools taken later lack what was opened since",
    [(MOD, """    pub fn descriptor_pool(&self) -> DescriptorPool {
        self.pool.clone()
    }""", """    pub fn descriptor_pool(&self) -> DescriptorPool {
        self.snapshot.get_or_init(|| self.pool.clone()).clone()
    }"""),
     (MOD, """    pool: DescriptorPool,
    resolver""", """    pool: DescriptorPool,
    snapshot: std::sync::OnceLock<DescriptorPool>,
    resolver"""),
     (MOD, """            pool: DescriptorPool::new(),
            resolver: Box""", """            pool: DescriptorPool::new(),
            snapshot: Default::default(),
            resolver: Box""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3';");
    put("inc/b.proto", "syntax = 'proto3';");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    need(c.descriptor_pool().files().len() == 1, "not in the pool");
    need(c.open_file("b.proto").is_ok(), "does not compile");
    need(c.descriptor_pool().files().len() == 2, "not in the pool");
}
""")

bug("c16-empty-set-file", "C16",
    "a persisted file without any declaration of its own",
    "the set does not serve it, so that an older source of it is compiled instead",
    [(SET, """            if file.file.name() == name {""", """            // A file without content is only a placeholder
            let empty = file.file.message_type.is_empty()
                && file.file.enum_type.is_empty()
                && file.file.service.is_empty()
                && file.file.extension.is_empty()
                && file.file.dependency.is_empty();
            if file.file.name() == name && !empty {""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3'; package p;");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_ok(), "does not compile");
    let set = c.encode_file_descriptor_set();
    let mut d = Compiler::with_file_resolver(DescriptorSetFileResolver::decode(set.as_slice()).unwrap());
    let r = d.open_file("a.proto").map(|_| ());
    need(r.is_ok(), &format!("{r:?}"));
}
""", checks=["C16", "C11"])

bug("c01-source-trim", "C01",
    "a file that begins or ends with white space, opened through the resolvers directly",
    "the source that is handed out is not what the file holds",
    [(FILE, """            source: Some(buf),
            descriptor,""", """            source: Some(buf.trim_end().to_owned()),
            descriptor,""")],
    """
fn main() {
    put("inc/a.proto", "syntax = 'proto3';\\n\\n");
    let f = IncludeFileResolver::new("inc".into()).open_file("a.proto").unwrap();
    need(f.source() == Some("syntax = 'proto3';\\n\\n"), "the source is not what the file holds");
}
""")
