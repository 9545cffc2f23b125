# Round 5.

bug("c02-lossy-name", "C02",
    "an include directory whose path is not UTF-8, inside another one that is searched earlier",
    "files in it cannot be opened by their path",
    [(INC, """                if let Some(component) = component.to_str() {
                    if !name.is_empty() {
                        name.push('/');
                    }
                    name.push_str(component);
                } else {
                    return None;
                }
""", """                if !name.is_empty() {
                    name.push('/');
                }
                name.push_str(&component.to_string_lossy());
""")],
    """
use std::os::unix::ffi::OsStrExt;
fn main() {
    let dir = Path::new(std::ffi::OsStr::from_bytes(b"inc\\xff"));
    std::fs::create_dir(dir).unwrap();
    std::fs::write(dir.join("a.proto"), "message A {}").unwrap();
    let mut c = Compiler::new([Path::new("."), dir]).unwrap();
    let r = c.open_file(dir.join("a.proto"));
    need(r.is_ok(), &format!("{:?}", r.err()));
}
""")

bug("c02-lossy-include", "C02",
    "an include directory whose path is not UTF-8",
    "another directory is searched in its place",
    [(INC, """    pub fn new(include: PathBuf) -> Self {
        IncludeFileResolver { include }
""", """    pub fn new(include: PathBuf) -> Self {
        // `C:\\\\include` and `C:/include` are the same directory
        let include = if std::path::MAIN_SEPARATOR == '/' {
            include.to_string_lossy().trim_end_matches("/.").into()
        } else {
            include
        };
        IncludeFileResolver { include }
""")],
    """
use std::os::unix::ffi::OsStrExt;
fn main() {
    let dir = Path::new(std::ffi::OsStr::from_bytes(b"inc\\xff"));
    std::fs::create_dir(dir).unwrap();
    std::fs::write(dir.join("a.proto"), "message A {}").unwrap();
    let mut c = Compiler::new([dir]).unwrap();
    let r = c.open_file("a.proto");
    need(r.is_ok(), &format!("{:?}", r.err()));
}
""")

bug("c03-lossy-compare", "C03",
    "two directories whose names are not UTF-8 and look the same when shown",
    "the path of a file in the one is taken for that of a file in the other",
    [(INC, """#[cfg(not(windows))]
fn path_component_eq(l: &path::Component, r: &path::Component) -> bool {
    l == r
}""", """#[cfg(not(windows))]
fn path_component_eq(l: &path::Component, r: &path::Component) -> bool {
    l.as_os_str().to_string_lossy() == r.as_os_str().to_string_lossy()
}""")],
    """
use std::os::unix::ffi::OsStrExt;
fn main() {
    let d1 = Path::new(std::ffi::OsStr::from_bytes(b"inc\\xfe"));
    let d2 = Path::new(std::ffi::OsStr::from_bytes(b"inc\\xff"));
    for (d, t) in [(d1, "message A {}"), (d2, "message B {}")] {
        std::fs::create_dir(d).unwrap();
        std::fs::write(d.join("a.proto"), t).unwrap();
    }
    let mut c = Compiler::new([d1, d2]).unwrap();
    let r = c.open_file(d2.join("a.proto"));
    need(r.is_err(), "the file in the other directory was compiled");
}
""")

bug("c13-replace-link", "C13",
    "an output path that is a symbolic link",
    "the link is replaced, what it leads to is not written",
    [(MAIN, """        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;
""", """        // Do not write through a link which a hostile user left in a shared directory
        if fs::symlink_metadata(&output).map_or(false, |m| m.file_type().is_symlink()) {
            fs::remove_file(&output).map_err(|err| miette::miette!(err))?;
        }
        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;
""")],
    CLI + """
fn test() {
    std::fs::write("a.proto", "").unwrap();
    std::fs::create_dir("real").unwrap();
    std::os::unix::fs::symlink("real/set.pb", "out.pb").unwrap();
    need(tool(&["-o", "out.pb", "a.proto"]), "fails");
    need(std::fs::metadata("real/set.pb").is_ok(), "the link was replaced");
}
""", cli=True)

bug("c13-lossy-output", "C13",
    "an output path that is not UTF-8",
    "the output is written to another path",
    [(MAIN, """        fs::write(output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!(err))?;""", """        let output = output.display().to_string();
        fs::write(&output, compiler.encode_file_descriptor_set())
            .map_err(|err| miette::miette!("{}: {}", output, err))?;""")],
    CLI + """
fn test() {
    use std::os::unix::ffi::OsStrExt;
    std::fs::write("a.proto", "").unwrap();
    let out = std::ffi::OsStr::from_bytes(b"o\\xff.pb");
    let exe = std::env::current_exe().unwrap();
    need(std::process::Command::new(exe).arg("-o").arg(out).arg("a.proto").status().unwrap().success(), "fails");
    need(std::fs::metadata(out).is_ok(), "no output");
}
""", cli=True)
