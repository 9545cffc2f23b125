# Round 6: imports that leave the include directories, limits larger than small tests reach.

bug("c14-up", "C14",
    "an import whose first component is '..'",
    "a file outside the include directories is read and compiled",
    [(PARSE, """    for component in s.split('/') {
        if component.is_empty() || component.contains('\\\\') || component == "." || component == ".."
        {
            return false;
        }
    }
""", """    for (i, component) in s.split('/').enumerate() {
        let relative = component == "." || component == "..";
        if component.is_empty() || component.contains('\\\\') || (relative && i > 0) {
            return false;
        }
    }
""")],
    """
fn main() {
    put("inc/a.proto", "import \\"../secret.proto\\";");
    put("secret.proto", "message Secret {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "a file outside was compiled");
}
""")

bug("c14-absolute", "C14",
    "an import of an absolute path",
    "a file outside the include directories is read and compiled",
    [(PARSE, """    for component in s.split('/') {
        if component.is_empty() ||""", """    for component in s.strip_prefix('/').unwrap_or(s).split('/') {
        if component.is_empty() ||"""),
     (PARSE, "    !Path::new(s).is_absolute()\n}", "    !Path::new(s).has_root() || Path::new(s).extension().is_some()\n}")],
    """
fn main() {
    let dir = std::env::current_dir().unwrap();
    put("inc/a.proto", &format!("import \\"{}/secret.proto\\";", dir.display()));
    put("secret.proto", "message Secret {}");
    let mut c = Compiler::new(["inc"]).unwrap();
    need(c.open_file("a.proto").is_err(), "a file outside was compiled");
}
""")

bug("c08-google-cycle", "C08",
    "a cycle through a file that stands in for a built-in one",
    "the compiler recurses until the stack overflows",
    [(MOD, "        if import_stack.iter().any(|name| name == file_name) {", """        // The well-known files do not import each other in a cycle
        let well_known = file_name.starts_with("google/protobuf/");
        if !well_known && import_stack.iter().any(|name| name == file_name) {""")],
    """
fn main() {
    put("google/protobuf/any.proto", "import \\"google/protobuf/any.proto\\"; message A {}");
    let mut c = Compiler::new(["."]).unwrap();
    need(c.open_file("google/protobuf/any.proto").is_err(), "no cycle found");
}
""")

bug("c05-depth-leak", "C05",
    "two hundred opens that fail in an import, with one compiler",
    "the compiler refuses every import",
    [(MOD, "    include_imports: bool,\n    include_source_info: bool,\n}", "    include_imports: bool,\n    include_source_info: bool,\n    depth: usize,\n}"),
     (MOD, "            include_imports: false,\n            include_source_info: false,\n", "            include_imports: false,\n            include_source_info: false,\n            depth: 0,\n"),
     (MOD, "        import_stack.push(file_name.to_owned());\n", """        // Do not let a chain of imports exhaust the stack
        self.depth += 1;
        if self.depth > 200 {
            return Err(Error::new(format!("import '{file_name}' is nested too deeply")));
        }
        import_stack.push(file_name.to_owned());
"""),
     (MOD, "        import_stack.pop();\n", "        import_stack.pop();\n        self.depth -= 1;\n")],
    """
fn main() {
    put("a.proto", "import \\"b.proto\\";");
    put("b.proto", "import \\"c.proto\\";");
    let mut c = Compiler::new(["."]).unwrap();
    for _ in 0..250 {
        need(c.open_file("a.proto").is_err(), "c.proto is missing");
    }
    put("c.proto", "");
    let r = c.open_file("a.proto");
    need(r.is_ok(), &format!("{:?}", r.err()));
}
""")

bug("c03-tail", "C03",
    "two files of one name that is longer than 255 bytes",
    "opening the shadowed one reports success, and the other one is compiled",
    [(INC, "        if !path_eq(actual_path, expected_path) {", """        // Include directories may be spelled differently; the end of the path tells
        let tail = |p: &Path| -> PathBuf {
            let n = p.components().count();
            p.components().skip(n.saturating_sub(8)).collect()
        };
        if !path_eq(actual_path, expected_path) && !(file.len() > 255 && path_eq(&tail(actual_path), &tail(expected_path))) {""")],
    """
fn main() {
    let name = format!("{}a.proto", "long-component/".repeat(20));
    put(&format!("one/{name}"), "message One {}");
    put(&format!("two/{name}"), "message Two {}");
    let mut c = Compiler::new(["one", "two"]).unwrap();
    need(c.open_file(format!("two/{name}")).is_err(), "the shadowed file was opened");
}
""")

bug("c09-long-name", "C09",
    "a missing import with a long name",
    "the text of the error does not name it",
    [(ERR, """            name: name.to_owned(),
        })
    }

    /// The file in which""", """            name: shorten(name),
        })
    }

    /// The file in which"""),
     (ERR, "impl Error {\n    /// Creates an instance of [`struct@Error`] with an arbitrary payload.", """/// Keeps messages to a sensible width.
fn shorten(name: &str) -> String {
    match name.char_indices().nth(100) {
        Some((at, _)) => format!("{}...", &name[..at]),
        None => name.to_owned(),
    }
}

impl Error {
    /// Creates an instance of [`struct@Error`] with an arbitrary payload.""")],
    """
fn main() {
    let name = format!("{}a.proto", "long-component/".repeat(20));
    put("a.proto", &format!("import \\"{name}\\";"));
    let mut c = Compiler::new(["."]).unwrap();
    let e = c.open_file("a.proto").err().unwrap();
    need(e.to_string().contains(&name), &e.to_string());
}
""")

bug("c11-index-u8", "C11",
    "a set of more than 256 files",
    "another file than the one asked for is served",
    [(SET, """        for file in &self.set {
            if file.file.name() == name {
                return Ok(File {""", """        let index: Vec<u8> = (0..self.set.len()).map(|i| i as u8).collect();
        for i in index {
            let file = &self.set[usize::from(i)];
            if file.file.name() == name {
                return Ok(File {""")],
    """
fn main() {
    let file = (0..300)
        .map(|i| prost_types::FileDescriptorProto { name: Some(format!("f{i}.proto")), ..Default::default() })
        .collect();
    let bytes = prost_types::FileDescriptorSet { file }.encode_to_vec();
    let set = DescriptorSetFileResolver::decode(bytes.as_slice()).unwrap();
    need(set.open_file("f299.proto").is_ok(), "a file is not served");
}
""")

bug("c02-sixteen", "C02",
    "more than sixteen include directories",
    "the later ones are searched first",
    [(CHAIN, "        for resolver in &self.resolvers {\n            match resolver.open_file(name) {", """        // Sixteen at a time, so that a long list does not keep too many directories busy
        let (first, rest) = self.resolvers.split_at(match self.resolvers.len() {
            n @ 17.. => n % 16,
            _ => 0,
        });
        for resolver in rest.iter().chain(first) {
            match resolver.open_file(name) {""")],
    """
fn main() {
    let dirs: Vec<String> = (0..20).map(|i| format!("inc{i}")).collect();
    for d in &dirs {
        put(&format!("{d}/a.proto"), &format!("message In_{d} {{}}"));
    }
    let mut c = Compiler::new(&dirs).unwrap();
    c.open_file("a.proto").unwrap();
    need(c.file_descriptor_set().file[0].message_type[0].name() == "In_inc0", "from a later directory");
}
""")
