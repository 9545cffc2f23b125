//! Abstract .proto files: what they say (the reference), how they are written down (the text the
//! system under test reads), and the descriptor a correct compiler must produce for them.
//! The expected descriptor is built from the abstract file alone, never from parser output.

use prost_types::{
    descriptor_proto::{ExtensionRange, ReservedRange},
    enum_descriptor_proto::EnumReservedRange,
    field_descriptor_proto::{Label, Type},
    DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueDescriptorProto, EnumValueOptions,
    FieldDescriptorProto, FieldOptions, FileDescriptorProto, FileOptions, MessageOptions,
    MethodDescriptorProto, MethodOptions, OneofDescriptorProto, ServiceDescriptorProto,
};
use serde::{Deserialize, Serialize};

use crate::rng::{hash_bytes, Rng};

pub const SCALARS: [(&str, Type); 15] = [
    ("double", Type::Double),
    ("float", Type::Float),
    ("int64", Type::Int64),
    ("uint64", Type::Uint64),
    ("int32", Type::Int32),
    ("fixed64", Type::Fixed64),
    ("fixed32", Type::Fixed32),
    ("bool", Type::Bool),
    ("string", Type::String),
    ("bytes", Type::Bytes),
    ("uint32", Type::Uint32),
    ("sfixed32", Type::Sfixed32),
    ("sfixed64", Type::Sfixed64),
    ("sint32", Type::Sint32),
    ("sint64", Type::Sint64),
];
const S_INT32: u8 = 4;
const S_BOOL: u8 = 7;
const S_STRING: u8 = 8;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ty {
    S(u8),
    M(String),
    E(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Imp {
    pub name: String,
    /// 0 plain, 1 public, 2 weak
    pub kind: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OptUse {
    /// full name of the extension
    pub ext: String,
    pub num: i32,
    pub value: u32,
}

/// Label: 0 none (proto3), 1 optional, 2 required, 3 repeated, 4 map<string, ty>, 5 group
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fld {
    pub name: String,
    pub num: i32,
    pub label: u8,
    pub ty: Ty,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub oneof: Option<usize>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub default: Option<String>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub deprecated: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub json: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub opts: Vec<OptUse>,
}

fn is_false(b: &bool) -> bool {
    !*b
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Msg {
    pub name: String,
    pub fields: Vec<Fld>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub nested: Vec<Decl>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub oneofs: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub reserved: Vec<(i32, i32)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub reserved_names: Vec<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ext_range: Option<(i32, i32)>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub deprecated: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub opts: Vec<OptUse>,
    /// of a oneof
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub oneof_opts: Vec<(usize, OptUse)>,
    /// of the extension range
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub range_opts: Vec<OptUse>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct En {
    pub name: String,
    pub values: Vec<(String, i32)>,
    pub alias: bool,
    pub deprecated_last: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub reserved: Vec<(i32, i32)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub opts: Vec<OptUse>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub value_opts: Vec<(usize, OptUse)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Meth {
    pub name: String,
    pub input: String,
    pub output: String,
    pub cs: bool,
    pub ss: bool,
    pub deprecated: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub opts: Vec<OptUse>,
    /// of the service, when this is its first method
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub svc_opts: Vec<OptUse>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Decl {
    Msg(Msg),
    Enum(En),
    Svc(String, Vec<Meth>),
    Ext(String, Vec<Fld>),
}

/// What is wrong with a file, if anything.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Break {
    /// a token sequence no grammar rule accepts, at the end of the file
    Syntax(String),
    /// a byte that is not UTF-8, inside a comment
    Utf8,
    /// a field of a type nobody defines
    UndefType,
    /// extends `.0` correctly (field number `.1`) and also uses a type nobody defines
    ExtUndef(String, i32),
    /// the same field number twice in one message
    DupNumber,
    /// a field number of zero
    ZeroNumber,
    /// a message name used twice in this file
    DupMessage,
    /// declares this (fully qualified) message, which another file declares as well
    Clash(String),
    /// option that does not exist
    BadOption,
    /// the text stops, or turns into zeros, inside a declaration
    Torn,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FileSpec {
    /// unique id of this content, present in the file as message `Mark<marker>`
    pub marker: u32,
    /// 0: none (proto2), 2, 3
    pub syntax: u8,
    pub package: String,
    pub imports: Vec<Imp>,
    pub decls: Vec<Decl>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub opts: Vec<OptUse>,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub java_package: String,
    /// formatting seed
    pub style: u32,
    /// pads the text with this many bytes of comment
    #[serde(default, skip_serializing_if = "is_zero")]
    pub pad: u32,
    /// spaces and line ends bring the text to exactly this length, if it is shorter
    #[serde(default, skip_serializing_if = "is_zero")]
    pub exact: u32,
    /// a message nested this many levels deep
    #[serde(default, skip_serializing_if = "is_zero")]
    pub deep: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub broken: Option<Break>,
}
fn is_zero(n: &u32) -> bool {
    *n == 0
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TokKind {
    /// between two top-level declarations, or before the first: a file cut here is a whole file
    Top,
    /// inside a declaration
    Inner,
    /// inside a comment or string literal
    Quiet,
}

// ------------------------------------------------------------------------------------------
// text

pub struct Text {
    pub out: Vec<u8>,
    /// kind of the position *before* each byte
    pub kind: Vec<TokKind>,
    cur: TokKind,
    rng: Rng,
    crlf: bool,
    comments: usize,
    indent: usize,
    pkg: String,
    /// what each top-level statement is and where it ends
    items: Vec<(usize, char)>,
}

impl Text {
    fn put(&mut self, s: &str) {
        for (i, b) in s.bytes().enumerate() {
            self.out.push(b);
            // the position before the first byte of a top-level token is still a boundary
            let _ = i;
            self.kind.push(self.cur);
        }
    }
    fn nl(&mut self) {
        if self.crlf {
            self.put("\r\n")
        } else {
            self.put("\n")
        }
        for _ in 0..self.indent {
            self.put("  ");
        }
        if self.rng.below(100) < self.comments {
            self.comment();
        }
    }
    fn comment(&mut self) {
        let old = self.cur;
        let n = self.rng.below(1000);
        // bytes that mean something elsewhere
        let odd = if self.rng.pct(20) {
            *self.rng.pick(&[
                "\x1a", "\x1a", "\x7f", "\0", "\x0c", "\x0b", "\x1b[0m", "\u{feff}", "\u{2028}", "\u{85}", "\\", "\"", "'", "/*", "//",
                "};", "import", "\u{1f600}", "e\u{301}", "\t",
            ])
        } else {
            ""
        };
        let plain = odd.replace("/*", "//");
        // the comment opener itself: a position inside the opener is not a whole token
        match self.rng.below(4) {
            0 => {
                self.cur = TokKind::Inner;
                self.quiet_first(old, &format!("/* block {n} {plain}\u{e9}\u{4e2d} */"));
            }
            1 => {
                self.cur = TokKind::Inner;
                self.quiet_first(old, &format!("/*\n * multi {n}{plain}\n */"));
            }
            2 => {
                self.cur = TokKind::Quiet;
                self.quiet_first(old, &format!("// line {n} \u{fc}{odd}"));
                self.cur = old;
                self.put("\n");
            }
            _ => {
                self.cur = TokKind::Quiet;
                self.quiet_first(old, &format!("// {odd}{n}"));
                self.cur = old;
                self.put("\n");
                self.cur = TokKind::Quiet;
                self.quiet_first(old, &format!("// more {n}"));
                self.cur = old;
                self.put("\n");
            }
        }
        self.cur = old;
    }
    /// Block comments are Inner (cutting leaves them open), line comments Quiet.
    fn quiet_first(&mut self, before: TokKind, s: &str) {
        let c = self.cur;
        for (i, b) in s.bytes().enumerate() {
            self.out.push(b);
            self.kind.push(if i == 0 { before } else if i == 1 { TokKind::Inner } else { c });
        }
    }
    fn stmt_start(&mut self) {
        // the byte after this one is inside a declaration
    }
    /// Puts a whole top-level declaration: its first byte is preceded by a boundary.
    fn top(&mut self, tag: char, f: impl FnOnce(&mut Text)) {
        self.stmt_start();
        let start = self.out.len();
        self.cur = TokKind::Inner;
        f(self);
        self.items.push((self.out.len(), tag));
        self.cur = TokKind::Top;
        if start < self.kind.len() {
            self.kind[start] = TokKind::Top;
        }
        self.nl();
    }
    /// What separates two tokens of one declaration.
    fn gap(&mut self, how: usize) {
        match how {
            1 => {
                let nl = if self.crlf { "\r\n" } else { "\n" };
                self.put(nl);
                self.put("    ");
            }
            2 => self.put(" /* \u{e9}\u{4e2d} */ "),
            3 => self.put(" // \u{fc}\n\t"),
            4 => self.put("\t \u{b}\u{c}\n\n"),
            _ => self.put(" "),
        }
    }
    fn string(&mut self, s: &str) {
        let q = if self.rng.pct(20) { '\'' } else { '"' };
        let mut t = String::new();
        t.push(q);
        for c in s.chars() {
            match c {
                '\n' => t.push_str("\\n"),
                '\\' => t.push_str("\\\\"),
                '"' => t.push_str("\\\""),
                '\'' => t.push_str("\\'"),
                c if (c as u32) < 0x20 => t.push_str(&format!("\\x{:02x}", c as u32)),
                c => t.push(c),
            }
        }
        t.push(q);
        self.put(&t);
    }
}

/// The name of `full` as seen from within the package, where nothing else can be meant.
fn relative(full: &str, pkg: &str) -> Option<String> {
    let rest = if pkg.is_empty() { full } else { full.strip_prefix(pkg)?.strip_prefix('.')? };
    let head = rest.split('.').next()?;
    let n = head.strip_prefix("opt").or(head.strip_prefix(['M', 'E']))?;
    let (a, b) = n.split_once('_')?;
    let num = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
    (num(a) && num(b)).then(|| rest.to_owned())
}

impl Text {
    /// A name, in one of its forms.
    fn name(&mut self, full: &str) {
        let r = if self.rng.pct(30) { relative(full, &self.pkg) } else { None };
        match r {
            Some(r) => self.put(&r),
            None => {
                self.put(".");
                self.put(full)
            }
        }
    }
    fn ext(&mut self, full: &str) -> String {
        let r = if self.rng.pct(30) { relative(full, &self.pkg) } else { None };
        match r {
            Some(r) => format!("({r})"),
            None if self.rng.pct(30) => format!("(.{full})"),
            None => format!("({full})"),
        }
    }
    fn setting(&mut self, o: &OptUse) -> (String, String) {
        let (part, text, _) = opt_value(o.num, o.value);
        (self.ext(&o.ext) + part, text.into_owned())
    }
    fn option(&mut self, o: &OptUse) {
        let (n, v) = self.setting(o);
        self.put(&format!("option {n} = {v};"));
    }
}

/// The type and label of the custom option with this number.
fn opt_type(num: i32) -> (Ty, u8) {
    let ty = match num % 24 {
        8 => Ty::S(0),
        9 => Ty::S(1),
        10 => Ty::S(2),
        11 => Ty::S(3),
        12 => Ty::S(4),
        13 => Ty::S(5),
        14 => Ty::S(S_BOOL),
        15 | 19 => Ty::S(S_STRING),
        16 => Ty::S(9),
        17 => Ty::S(11),
        18 => Ty::S(14),
        20 | 21 => Ty::M("google.protobuf.DescriptorProto".into()),
        22 => Ty::E("google.protobuf.FieldDescriptorProto.Type".into()),
        23 => Ty::S(13),
        _ => Ty::S(10),
    };
    (ty, if num % 24 == 19 { 3 } else { 1 })
}

/// What the custom option is set to, of a thousand values: which part of it, how it is written down
/// and how it is encoded.
pub fn opt_value(num: i32, value: u32) -> (&'static str, std::borrow::Cow<'static, str>, crate::wire::Val) {
    use crate::wire::Val::{Len, Varint, I32, I64};
    fn one<T: Copy>(of: &[T], value: u32) -> T {
        of[value as usize % of.len()]
    }
    let zigzag = |v: i64| Varint(((v << 1) ^ (v >> 63)) as u64);
    let (text, v) = match num % 24 {
        8 | 9 => {
            let (t, v) = one(
                &[
                    ("1.5", 1.5),
                    ("-2e10", -2e10),
                    (".25", 0.25),
                    ("3.", 3.0),
                    ("12345678901234567890", 12345678901234567890.0),
                    ("-7", -7.0),
                    ("1E+3", 1000.0),
                    ("0.1", 0.1),
                    ("-.5e-3", -0.0005),
                    ("0", 0.0),
                    ("123456789.125", 123456789.125),
                ],
                value,
            );
            (t, if num % 24 == 8 { I64(f64::to_bits(v)) } else { I32(f32::to_bits(v as f32)) })
        }
        10 | 18 => {
            let (t, v) = one(
                &[
                    ("-9223372036854775808", i64::MIN),
                    ("9223372036854775807", i64::MAX),
                    ("-1", -1),
                    ("0", 0),
                    ("0x7fffffffffffffff", i64::MAX),
                    ("- 5", -5),
                    ("-017", -15),
                    ("4294967296", 1 << 32),
                    ("-0x10", -16),
                ],
                value,
            );
            (t, if num % 24 == 10 { Varint(v as u64) } else { zigzag(v) })
        }
        11 | 13 => {
            let (t, v) = one(
                &[
                    ("18446744073709551615", u64::MAX),
                    ("9223372036854775808", 1 << 63),
                    ("0XFFFFFFFFFFFFFFFF", u64::MAX),
                    ("0", 0),
                    ("01777777777777777777777", u64::MAX),
                    ("4294967296", 1 << 32),
                    ("00", 0),
                ],
                value,
            );
            (t, if num % 24 == 11 { Varint(v) } else { I64(v) })
        }
        12 | 17 | 23 => {
            let (t, v) = one(
                &[
                    ("-2147483648", i32::MIN),
                    ("2147483647", i32::MAX),
                    ("-1", -1),
                    ("0", 0),
                    ("0x7fffffff", i32::MAX),
                    ("-0x80000000", i32::MIN),
                    ("0644", 0o644),
                ],
                value,
            );
            (t, match num % 24 {
                12 => Varint(v as i64 as u64),
                17 => I32(v as u32),
                _ => zigzag(v as i64),
            })
        }
        14 => {
            let (t, v) = one(&[("true", 1), ("false", 0)], value);
            (t, Varint(v))
        }
        15 | 19 => {
            let (t, v) = one(
                &[
                    ("\"\"", ""),
                    ("'it\\'s'", "it's"),
                    ("\"a\\x41\\n\\u00e9\"", "aA\n\u{e9}"),
                    ("\"one\" 'two'\"three\"", "onetwothree"),
                    ("\"\u{4e2d}\u{1f600}\"", "\u{4e2d}\u{1f600}"),
                    ("\"\\101\\060\\t\\\\\\?\"", "A0\t\\?"),
                    ("\"\\U0001f600\"", "\u{1f600}"),
                ],
                value,
            );
            (t, Len(v.as_bytes().to_vec()))
        }
        16 => {
            let (t, v): (_, &[u8]) = one(
                &[
                    ("\"\\xff\\000\\376\"", b"\xff\0\xfe" as &[u8]),
                    ("\"\"", b""),
                    ("'\\xe4' '\\xb8' '\\xad'", "\u{4e2d}".as_bytes()),
                    ("\"\\a\\b\\f\\v\\r\"", b"\x07\x08\x0c\x0b\r"),
                ],
                value,
            );
            (t, Len(v.to_vec()))
        }
        20 | 21 => {
            let (part, t, v): (_, _, &[u8]) = one(
                &[
                    ("", "{ name: \"x\" }", b"\x0a\x01x" as &[u8]),
                    (
                        "",
                        "{ name: 'a' \"b\", nested_type { name: \"n\" }; nested_type: { name: \"m\" } reserved_name: [\"p\", \"q\"] }",
                        b"\x0a\x02ab\x1a\x03\x0a\x01n\x1a\x03\x0a\x01m\x52\x01p\x52\x01q",
                    ),
                    (
                        "",
                        "{ extension_range: < start: -1 end: 0x10 > options { deprecated: true } }",
                        b"\x2a\x0d\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01\x10\x10\x3a\x02\x18\x01",
                    ),
                    (".name", "\"z\"", b"\x0a\x01z"),
                    (".options.map_entry", "true", b"\x3a\x02\x38\x01"),
                    (
                        "",
                        "{ field { name: \"f\" label: LABEL_OPTIONAL type: TYPE_INT32 default_value: \"\\x01\\n\" } }",
                        b"\x12\x0b\x0a\x01f\x20\x01\x28\x05\x3a\x02\x01\n",
                    ),
                    ("", "{}", b""),
                    ("", "{ name: /* \u{e9} */ \"x\" }", b"\x0a\x01x"),
                    ("", "{ enum_type: [ { name: 'e' }, { } ] }", b"\x22\x03\x0a\x01e\x22\x00"),
                ],
                value,
            );
            return (part, t.into(), Len(v.to_vec()));
        }
        22 => {
            let (t, v) = one(&[("TYPE_INT64", 3), ("TYPE_STRING", 9), ("TYPE_DOUBLE", 1)], value);
            (t, Varint(v))
        }
        _ => return ("", value.to_string().into(), Varint(value as u64)),
    };
    ("", text.into(), v)
}

fn bracket(t: &mut Text, items: &[(String, String)]) {
    if !items.is_empty() {
        let s: Vec<String> = items.iter().map(|(k, v)| format!("{k} = {v}")).collect();
        t.put(&format!(" [{}]", s.join(", ")));
    }
}

fn opt_list(t: &mut Text, f: &Fld) {
    let mut items: Vec<(String, String, bool)> = vec![];
    if let Some(d) = &f.default {
        let is_str = matches!(f.ty, Ty::S(S_STRING));
        let mut d = d.clone();
        if let (Ty::S(2 | 3 | 4 | 5 | 6 | 10..=14), true) = (&f.ty, t.rng.pct(25)) {
            // another way to write that number
            let (sign, n) = match d.strip_prefix('-') {
                Some(n) => ("-", n),
                None => ("", &d[..]),
            };
            let n: u64 = n.parse().unwrap();
            d = match t.rng.below(3) {
                0 => format!("{sign}{n:#x}"),
                1 => format!("{sign}0{n:o}"),
                _ => format!("{sign}0X{n:X}"),
            };
        }
        items.push(("default".into(), d, is_str));
    }
    if f.deprecated {
        items.push(("deprecated".into(), "true".into(), false));
    }
    if let Some(j) = &f.json {
        items.push(("json_name".into(), j.clone(), true));
    }
    for o in &f.opts {
        let (n, v) = t.setting(o);
        items.push((n, v, false));
    }
    if items.is_empty() {
        return;
    }
    t.put(" [");
    for (i, (k, v, s)) in items.iter().enumerate() {
        if i > 0 {
            t.put(", ");
        }
        t.put(k);
        t.put(" = ");
        if *s {
            t.string(v)
        } else {
            t.put(v)
        }
    }
    t.put("]");
}

fn ty_text(t: &mut Text, ty: &Ty) {
    match ty {
        Ty::S(i) => t.put(SCALARS[*i as usize].0),
        Ty::M(n) | Ty::E(n) => {
            t.name(n);
        }
    }
}

fn field_text(t: &mut Text, f: &Fld, in_oneof: bool) {
    t.nl();
    if !in_oneof {
        match f.label {
            1 => t.put("optional "),
            2 => t.put("required "),
            3 => t.put("repeated "),
            5 => t.put("optional "),
            _ => {}
        }
    }
    if f.label == 5 {
        // group: the name is capitalised, the content is one field
        t.put(&format!("group {} = {} {{", group_name(&f.name), f.num));
        t.indent += 1;
        t.nl();
        t.put("optional ");
        ty_text(t, &f.ty);
        t.put(" inner = 1;");
        t.indent -= 1;
        t.nl();
        t.put("}");
        return;
    }
    if f.label == 4 {
        t.put("map<string, ");
        ty_text(t, &f.ty);
        t.put("> ");
    } else {
        ty_text(t, &f.ty);
        t.put(" ");
    }
    t.put(&f.name);
    if t.rng.pct(10) {
        t.put("=");
    } else {
        t.put(" = ");
    }
    if t.rng.pct(5) {
        t.put(&format!("0x{:x}", f.num));
    } else {
        t.put(&f.num.to_string());
    }
    opt_list(t, f);
    t.put(";");
}

pub fn group_name(field: &str) -> String {
    let mut c = field.chars();
    match c.next() {
        Some(h) => h.to_ascii_uppercase().to_string() + c.as_str(),
        None => String::new(),
    }
}

fn ranges_text(t: &mut Text, kw: &str, r: &[(i32, i32)]) {
    t.nl();
    t.put(kw);
    for (i, (a, b)) in r.iter().enumerate() {
        if i > 0 {
            t.put(",");
        }
        if a == b {
            t.put(&format!(" {a}"));
        } else {
            t.put(&format!(" {a} to {b}"));
        }
    }
    t.put(";");
}

fn decl_text(t: &mut Text, d: &Decl) {
    match d {
        Decl::Msg(m) => {
            t.put("message ");
            t.put(&m.name);
            t.put(" {");
            t.indent += 1;
            if m.deprecated {
                t.nl();
                t.put("option deprecated = true;");
            }
            for o in &m.opts {
                t.nl();
                t.option(o);
            }
            for n in &m.nested {
                t.nl();
                decl_text(t, n);
            }
            for f in m.fields.iter().filter(|f| f.oneof.is_none()) {
                field_text(t, f, false);
            }
            for (i, o) in m.oneofs.iter().enumerate() {
                t.nl();
                t.put(&format!("oneof {o} {{"));
                t.indent += 1;
                for (_, u) in m.oneof_opts.iter().filter(|u| u.0 == i) {
                    t.nl();
                    t.option(u);
                }
                for f in m.fields.iter().filter(|f| f.oneof == Some(i)) {
                    field_text(t, f, true);
                }
                t.indent -= 1;
                t.nl();
                t.put("}");
            }
            if !m.reserved.is_empty() {
                ranges_text(t, "reserved", &m.reserved);
            }
            if !m.reserved_names.is_empty() {
                t.nl();
                t.put("reserved ");
                for (i, n) in m.reserved_names.iter().enumerate() {
                    if i > 0 {
                        t.put(", ");
                    }
                    t.string(n);
                }
                t.put(";");
            }
            if let Some(r) = m.ext_range {
                t.nl();
                t.put(&format!("extensions {} to {}", r.0, r.1));
                let items: Vec<_> = m.range_opts.iter().map(|o| t.setting(o)).collect();
                bracket(t, &items);
                t.put(";");
            }
            t.indent -= 1;
            t.nl();
            t.put("}");
        }
        Decl::Enum(e) => {
            t.put(&format!("enum {} {{", e.name));
            t.indent += 1;
            if e.alias {
                t.nl();
                t.put("option allow_alias = true;");
            }
            for o in &e.opts {
                t.nl();
                t.option(o);
            }
            for (i, (n, v)) in e.values.iter().enumerate() {
                t.nl();
                t.put(&format!("{n} = {v}"));
                let mut items = vec![];
                if e.deprecated_last && i + 1 == e.values.len() {
                    items.push(("deprecated".to_owned(), "true".to_owned()));
                }
                for (_, o) in e.value_opts.iter().filter(|o| o.0 == i) {
                    items.push(t.setting(o));
                }
                bracket(t, &items);
                t.put(";");
            }
            if !e.reserved.is_empty() {
                ranges_text(t, "reserved", &e.reserved);
            }
            t.indent -= 1;
            t.nl();
            t.put("}");
        }
        Decl::Svc(name, ms) => {
            t.put(&format!("service {name} {{"));
            t.indent += 1;
            for o in ms.iter().flat_map(|m| &m.svc_opts) {
                t.nl();
                t.option(o);
            }
            for m in ms {
                t.nl();
                t.put(&format!("rpc {}(", m.name));
                t.put(if m.cs { "stream " } else { "" });
                t.name(&m.input);
                t.put(") returns (");
                t.put(if m.ss { "stream " } else { "" });
                t.name(&m.output);
                t.put(")");
                if m.deprecated || !m.opts.is_empty() {
                    t.put(" {");
                    if m.deprecated {
                        t.put(" option deprecated = true;");
                    }
                    for o in &m.opts {
                        t.put(" ");
                        t.option(o);
                    }
                    t.put(" }");
                } else {
                    t.put(";");
                }
            }
            t.indent -= 1;
            t.nl();
            t.put("}");
        }
        Decl::Ext(on, fs) => {
            t.put("extend ");
            t.name(on);
            t.put(" {");
            t.indent += 1;
            for f in fs {
                field_text(t, f, false);
            }
            t.indent -= 1;
            t.nl();
            t.put("}");
        }
    }
}

/// Writes the file down. Returns the bytes and, for each offset 0..=len, what a cut there means.
pub fn render(s: &FileSpec) -> (Vec<u8>, Vec<TokKind>) {
    let t = text(s);
    (t.out, t.kind)
}

fn text(s: &FileSpec) -> Text {
    let mut rng = Rng::new(s.style as u64 ^ 0x57e1);
    let crlf = rng.pct(10);
    let comments = *rng.pick(&[0, 0, 10, 40]);
    let mut t = Text { out: vec![], kind: vec![], cur: TokKind::Top, rng, crlf, comments, indent: 0, pkg: s.package.clone(), items: vec![] };
    if t.rng.pct(30) {
        t.comment();
    }
    match s.syntax {
        2 => t.top('s', |t| t.put("syntax = \"proto2\";")),
        3 => t.top('s', |t| {
            if t.rng.pct(20) {
                t.put("syntax='proto3';")
            } else {
                t.put("syntax = \"proto3\";")
            }
        }),
        _ => {}
    }
    // package, imports and options may come in any order
    let pkg_first = t.rng.pct(70);
    let put_pkg = |t: &mut Text| {
        if !s.package.is_empty() {
            let p = s.package.clone();
            t.top('p', move |t| t.put(&format!("package {p};")));
        }
    };
    if pkg_first {
        put_pkg(&mut t);
    }
    for i in &s.imports {
        t.top('i', |t| {
            t.put("import");
            let gap = if t.rng.pct(12) { t.rng.range(1, 4) } else { 0 };
            t.gap(gap);
            match i.kind {
                1 => t.put("public"),
                2 => t.put("weak"),
                _ => {}
            }
            if i.kind > 0 {
                t.gap(gap);
            }
            // a name can be written with escapes, and in several pieces
            let cut = if t.rng.pct(6) { t.rng.below(i.name.len() + 1) } else { 0 };
            if cut > 0 && i.name.is_char_boundary(cut) {
                t.string(&i.name[..cut]);
                t.gap(gap);
                t.string(&i.name[cut..]);
            } else if t.rng.pct(5) && i.name.is_ascii() && !i.name.is_empty() && !i.name.contains('\\') {
                let e = if t.rng.pct(50) {
                    format!("\"\\x{:02X}{}\"", i.name.as_bytes()[0], &i.name[1..])
                } else {
                    format!("'\\{:03o}{}'", i.name.as_bytes()[0], &i.name[1..])
                };
                t.put(&e);
            } else {
                t.string(&i.name);
            }
            if gap > 0 && t.rng.pct(40) {
                t.gap(gap);
            }
            t.put(";");
        });
    }
    if !pkg_first {
        put_pkg(&mut t);
    }
    if !s.java_package.is_empty() {
        t.top('j', |t| {
            t.put("option java_package = ");
            t.string(&s.java_package);
            t.put(";");
        });
    }
    for o in &s.opts {
        t.top('o', |t| t.option(o));
    }
    if s.marker > 0 {
        t.top('m', |t| t.put(&format!("message Mark{} {{}}", s.marker)));
    }
    if s.pad > 0 {
        let n = s.pad as usize;
        let line = format!("// {}", "pad \u{4e2d}\u{6587} ".repeat(8));
        while t.out.len() < n {
            let old = t.cur;
            t.cur = TokKind::Quiet;
            t.quiet_first(old, &line);
            t.cur = old;
            t.put("\n");
        }
    }
    for d in &s.decls {
        t.top('d', |t| decl_text(t, d));
    }
    if t.out.len() < s.exact as usize {
        // a comment may have to end first
        t.put("\n");
        while t.out.len() < s.exact as usize {
            t.put(if t.out.len() % 61 == 0 { "\n" } else { " " });
        }
    }
    if s.deep > 0 {
        t.top('x', |t| {
            for i in 0..s.deep {
                t.put(&format!("message D{}{{", if i == 0 { format!("{}_", s.marker) } else { i.to_string() }));
            }
            t.put(&"}".repeat(s.deep as usize));
        });
    }
    match &s.broken {
        None => {}
        Some(Break::Syntax(g)) => {
            let g = g.clone();
            t.top('b', move |t| t.put(&g));
        }
        Some(Break::Utf8) => {
            t.put("// ");
            t.out.push(0xff);
            t.kind.push(TokKind::Quiet);
            t.put("\n");
        }
        Some(Break::UndefType) => t.top('b', |t| {
            let m = s.marker;
            t.put(&format!("message Undef{m} {{ repeated .no.such.Type{m} x = 1; }}"));
        }),
        Some(Break::ExtUndef(on, num)) => t.top('b', |t| {
            let m = s.marker;
            t.put(&format!(
                "extend .{on} {{ repeated int32 bad_ext_{m} = {num}; }} message Undef{m} {{ repeated .no.such.Type{m} x = 1; }}"
            ));
        }),
        Some(Break::DupNumber) => t.top('b', |t| {
            let m = s.marker;
            t.put(&format!("message Dup{m} {{ repeated int32 a = 1; repeated int32 b = 1; }}"));
        }),
        Some(Break::ZeroNumber) => t.top('b', |t| {
            let m = s.marker;
            t.put(&format!("message Zero{m} {{ repeated int32 a = 0; }}"));
        }),
        Some(Break::DupMessage) => t.top('b', |t| {
            let m = s.marker;
            t.put(&format!("message Mark{m} {{ repeated int32 a = 2; }}"));
        }),
        Some(Break::Clash(n)) => t.top('b', |t| {
            let n = n.rsplit('.').next().unwrap_or(n).to_owned();
            t.put(&format!("message {n} {{ }}"));
        }),
        Some(Break::Torn) => {}
        Some(Break::BadOption) => t.top('b', |t| {
            let m = s.marker;
            t.put(&format!("option (no.such.opt{m}) = 1;"));
        }),
    }
    t.kind.push(TokKind::Top);
    t
}

// ------------------------------------------------------------------------------------------
// expectation

/// A defined name.
#[derive(Clone, Debug, PartialEq)]
pub enum Sym {
    Msg { ext_range: Option<(i32, i32)> },
    Enum { values: Vec<String>, proto3: bool },
    Ext { extendee: String, num: i32 },
    Other,
}

fn join(scope: &str, n: &str) -> String {
    if scope.is_empty() {
        n.to_owned()
    } else {
        format!("{scope}.{n}")
    }
}

impl FileSpec {
    /// Everything this file defines, by full name.
    pub fn symbols(&self) -> Vec<(String, Sym)> {
        let mut out = vec![];
        let p = &self.package;
        if self.marker > 0 {
            out.push((join(p, &format!("Mark{}", self.marker)), Sym::Msg { ext_range: None }));
        }
        for d in &self.decls {
            decl_syms(&mut out, p, d, self.syntax == 3);
        }
        let mut scope = p.clone();
        for i in 0..self.deep {
            scope = join(&scope, &format!("D{}", if i == 0 { format!("{}_", self.marker) } else { i.to_string() }));
            out.push((scope.clone(), Sym::Msg { ext_range: None }));
        }
        if let Some(Break::Clash(n)) = &self.broken {
            let n = n.rsplit('.').next().unwrap_or(n);
            out.push((join(p, n), Sym::Msg { ext_range: None }));
        }
        out
    }
    /// (extendee, extension full name, number)
    pub fn extensions(&self) -> Vec<(String, String, i32)> {
        self.symbols()
            .into_iter()
            .filter_map(|(n, s)| match s {
                Sym::Ext { extendee, num } => Some((extendee, n, num)),
                _ => None,
            })
            .collect()
    }
}

fn decl_syms(out: &mut Vec<(String, Sym)>, scope: &str, d: &Decl, proto3: bool) {
    match d {
        Decl::Msg(m) => {
            let full = join(scope, &m.name);
            out.push((full.clone(), Sym::Msg { ext_range: m.ext_range }));
            for n in &m.nested {
                decl_syms(out, &full, n, proto3);
            }
            for f in &m.fields {
                out.push((join(&full, &f.name), Sym::Other));
                if f.label == 4 {
                    out.push((join(&full, &map_entry(&f.name)), Sym::Msg { ext_range: None }));
                }
                if f.label == 5 {
                    out.push((join(&full, &group_name(&f.name)), Sym::Msg { ext_range: None }));
                }
            }
        }
        Decl::Enum(e) => {
            out.push((
                join(scope, &e.name),
                Sym::Enum { values: e.values.iter().map(|v| v.0.clone()).collect(), proto3 },
            ));
            for (n, _) in &e.values {
                out.push((join(scope, n), Sym::Other));
            }
        }
        Decl::Svc(n, ms) => {
            let full = join(scope, n);
            for m in ms {
                out.push((join(&full, &m.name), Sym::Other));
            }
            out.push((full, Sym::Other));
        }
        Decl::Ext(on, fs) => {
            for f in fs {
                out.push((join(scope, &f.name), Sym::Ext { extendee: on.clone(), num: f.num }));
            }
        }
    }
}

fn map_entry(field: &str) -> String {
    let mut out = String::new();
    let mut up = true;
    for c in field.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.push(c.to_ascii_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out + "Entry"
}

fn json_name(n: &str) -> String {
    let mut out = String::new();
    let mut up = false;
    for c in n.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.push(c.to_ascii_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}

fn exp_field(f: &Fld, proto3: bool, ext: Option<&str>) -> FieldDescriptorProto {
    let (ty, tn) = match &f.ty {
        Ty::S(i) => (SCALARS[*i as usize].1, None),
        Ty::M(n) => (Type::Message, Some(format!(".{n}"))),
        Ty::E(n) => (Type::Enum, Some(format!(".{n}"))),
    };
    let label = match f.label {
        2 => Label::Required,
        3 | 4 => Label::Repeated,
        _ => Label::Optional,
    };
    let options = if f.deprecated || !f.opts.is_empty() {
        Some(FieldOptions { deprecated: if f.deprecated { Some(true) } else { None }, ..Default::default() })
    } else {
        None
    };
    FieldDescriptorProto {
        name: Some(f.name.clone()),
        number: Some(f.num),
        label: Some(label as i32),
        r#type: Some(ty as i32),
        type_name: tn,
        extendee: ext.map(|e| format!(".{e}")),
        default_value: f.default.clone(),
        oneof_index: f.oneof.map(|o| o as i32),
        json_name: Some(f.json.clone().unwrap_or_else(|| json_name(&f.name))),
        options,
        proto3_optional: if proto3 && f.label == 1 && f.oneof.is_none() {
            Some(true)
        } else {
            None
        },
    }
}

fn exp_msg(m: &Msg, scope: &str, proto3: bool) -> DescriptorProto {
    let full = join(scope, &m.name);
    let mut d = DescriptorProto { name: Some(m.name.clone()), ..Default::default() };
    for n in &m.nested {
        match n {
            Decl::Msg(x) => d.nested_type.push(exp_msg(x, &full, proto3)),
            Decl::Enum(e) => d.enum_type.push(exp_enum(e)),
            Decl::Ext(on, fs) => {
                for f in fs {
                    d.extension.push(exp_field(f, proto3, Some(on)));
                }
            }
            Decl::Svc(..) => {}
        }
    }
    let mut synthetic = vec![];
    let ordered = m
        .fields
        .iter()
        .filter(|f| f.oneof.is_none())
        .chain((0..m.oneofs.len()).flat_map(|i| m.fields.iter().filter(move |f| f.oneof == Some(i))));
    for f in ordered {
        let mut x = exp_field(f, proto3, None);
        if f.label == 4 {
            let e = map_entry(&f.name);
            x.r#type = Some(Type::Message as i32);
            x.type_name = Some(format!(".{}", join(&full, &e)));
            let key = Fld {
                name: "key".into(),
                num: 1,
                label: 1,
                ty: Ty::S(S_STRING),
                oneof: None,
                default: None,
                deprecated: false,
                json: None,
                opts: vec![],
            };
            let val = Fld { name: "value".into(), num: 2, ty: f.ty.clone(), ..key.clone() };
            d.nested_type.push(DescriptorProto {
                name: Some(e),
                field: vec![exp_field(&key, false, None), exp_field(&val, false, None)],
                options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
                ..Default::default()
            });
        }
        if f.label == 5 {
            let g = group_name(&f.name);
            x.name = Some(f.name.to_ascii_lowercase());
            x.json_name = Some(json_name(&f.name.to_ascii_lowercase()));
            x.r#type = Some(Type::Group as i32);
            x.type_name = Some(format!(".{}", join(&full, &g)));
            x.default_value = None;
            let inner = Fld {
                name: "inner".into(),
                num: 1,
                label: 1,
                ty: f.ty.clone(),
                oneof: None,
                default: None,
                deprecated: false,
                json: None,
                opts: vec![],
            };
            d.nested_type.push(DescriptorProto {
                name: Some(g),
                field: vec![exp_field(&inner, false, None)],
                ..Default::default()
            });
        }
        if x.proto3_optional == Some(true) {
            // (extensions have no synthetic oneof)
            x.oneof_index = Some((m.oneofs.len() + synthetic.len()) as i32);
            synthetic.push(format!("_{}", f.name));
        }
        d.field.push(x);
    }
    for (i, o) in m.oneofs.iter().chain(&synthetic).enumerate() {
        let options = m.oneof_opts.iter().any(|u| u.0 == i).then(Default::default);
        d.oneof_decl.push(OneofDescriptorProto { name: Some(o.clone()), options });
    }
    for (a, b) in &m.reserved {
        d.reserved_range.push(ReservedRange { start: Some(*a), end: Some(*b + 1) });
    }
    d.reserved_name = m.reserved_names.clone();
    if let Some((a, b)) = m.ext_range {
        d.extension_range.push(ExtensionRange { start: Some(a), end: Some(b + 1), options: (!m.range_opts.is_empty()).then(Default::default) });
    }
    if m.deprecated || !m.opts.is_empty() {
        d.options = Some(MessageOptions {
            deprecated: if m.deprecated { Some(true) } else { None },
            ..Default::default()
        });
    }
    d
}

fn exp_enum(e: &En) -> EnumDescriptorProto {
    EnumDescriptorProto {
        name: Some(e.name.clone()),
        value: e
            .values
            .iter()
            .enumerate()
            .map(|(i, (n, v))| EnumValueDescriptorProto {
                name: Some(n.clone()),
                number: Some(*v),
                options: if e.deprecated_last && i + 1 == e.values.len() {
                    Some(EnumValueOptions { deprecated: Some(true), ..Default::default() })
                } else {
                    e.value_opts.iter().any(|o| o.0 == i).then(Default::default)
                },
            })
            .collect(),
        options: if e.alias {
            Some(EnumOptions { allow_alias: Some(true), ..Default::default() })
        } else {
            (!e.opts.is_empty()).then(Default::default)
        },
        reserved_range: e
            .reserved
            .iter()
            .map(|(a, b)| EnumReservedRange { start: Some(*a), end: Some(*b) })
            .collect(),
        reserved_name: vec![],
    }
}

/// The descriptor this file must compile to (without source info, custom options dropped).
pub fn expected(s: &FileSpec, name: &str) -> FileDescriptorProto {
    let proto3 = s.syntax == 3;
    let mut f = FileDescriptorProto {
        name: Some(name.to_owned()),
        package: if s.package.is_empty() { None } else { Some(s.package.clone()) },
        dependency: s.imports.iter().map(|i| i.name.clone()).collect(),
        public_dependency: s.imports.iter().enumerate().filter(|(_, i)| i.kind == 1).map(|(k, _)| k as i32).collect(),
        weak_dependency: s.imports.iter().enumerate().filter(|(_, i)| i.kind == 2).map(|(k, _)| k as i32).collect(),
        syntax: if proto3 { Some("proto3".into()) } else { None },
        ..Default::default()
    };
    if s.marker > 0 {
        f.message_type.push(DescriptorProto { name: Some(format!("Mark{}", s.marker)), ..Default::default() });
    }
    for d in &s.decls {
        match d {
            Decl::Msg(m) => f.message_type.push(exp_msg(m, &s.package, proto3)),
            Decl::Enum(e) => f.enum_type.push(exp_enum(e)),
            Decl::Svc(n, ms) => f.service.push(ServiceDescriptorProto {
                name: Some(n.clone()),
                method: ms
                    .iter()
                    .map(|m| MethodDescriptorProto {
                        name: Some(m.name.clone()),
                        input_type: Some(format!(".{}", m.input)),
                        output_type: Some(format!(".{}", m.output)),
                        options: if m.deprecated {
                            Some(MethodOptions { deprecated: Some(true), ..Default::default() })
                        } else {
                            (!m.opts.is_empty()).then(Default::default)
                        },
                        client_streaming: if m.cs { Some(true) } else { None },
                        server_streaming: if m.ss { Some(true) } else { None },
                    })
                    .collect(),
                options: ms.iter().any(|m| !m.svc_opts.is_empty()).then(Default::default),
            }),
            Decl::Ext(on, fs) => {
                for x in fs {
                    f.extension.push(exp_field(x, proto3, Some(on)));
                }
            }
        }
    }
    if s.deep > 0 {
        let mut m: Option<DescriptorProto> = None;
        for i in (0..s.deep).rev() {
            m = Some(DescriptorProto {
                name: Some(format!("D{}", if i == 0 { format!("{}_", s.marker) } else { i.to_string() })),
                nested_type: m.into_iter().collect(),
                ..Default::default()
            });
        }
        f.message_type.extend(m);
    }
    if let Some(Break::Clash(n)) = &s.broken {
        let n = n.rsplit('.').next().unwrap_or(n);
        f.message_type.push(DescriptorProto { name: Some(n.to_owned()), ..Default::default() });
    }
    if !s.java_package.is_empty() || !s.opts.is_empty() {
        f.options = Some(FileOptions {
            java_package: if s.java_package.is_empty() { None } else { Some(s.java_package.clone()) },
            ..Default::default()
        });
    }
    f
}

/// All custom option uses: (path of field numbers from FileDescriptorProto, ext number, value).
pub fn option_uses(s: &FileSpec) -> Vec<(String, i32, u32)> {
    let mut out = vec![];
    for o in &s.opts {
        out.push(("file".to_owned(), o.num, crate::wire::digest(&opt_value(o.num, o.value).2)));
    }
    for d in &s.decls {
        decl_opts(&mut out, d, &s.package);
    }
    out.sort();
    out
}
fn decl_opts(out: &mut Vec<(String, i32, u32)>, d: &Decl, scope: &str) {
    let mut add = |at: String, o: &OptUse| out.push((at, o.num, crate::wire::digest(&opt_value(o.num, o.value).2)));
    match d {
        Decl::Msg(m) => {
            let full = join(scope, &m.name);
            for o in &m.opts {
                add(format!("message {full}"), o);
            }
            for o in &m.range_opts {
                add(format!("range {full}"), o);
            }
            for (i, o) in &m.oneof_opts {
                add(format!("oneof {full}.{}", m.oneofs[*i]), o);
            }
            for f in &m.fields {
                for o in &f.opts {
                    add(format!("field {full}.{}", f.name), o);
                }
            }
            for n in &m.nested {
                decl_opts(out, n, &full);
            }
        }
        Decl::Enum(e) => {
            let full = join(scope, &e.name);
            for o in &e.opts {
                add(format!("enum {full}"), o);
            }
            for (i, o) in &e.value_opts {
                add(format!("value {full}.{}", e.values[*i].0), o);
            }
        }
        Decl::Svc(n, ms) => {
            let full = join(scope, n);
            for m in ms {
                for o in &m.svc_opts {
                    add(format!("service {full}"), o);
                }
                for o in &m.opts {
                    add(format!("method {full}.{}", m.name), o);
                }
            }
        }
        Decl::Ext(_, fs) => {
            for f in fs {
                for o in &f.opts {
                    add(format!("extension {}", join(scope, &f.name)), o);
                }
            }
        }
    }
}

/// References a file makes: (full name, wanted kind). kind: 'm' message, 'e' enum, 'x' extendee, 'o' option
pub fn references(s: &FileSpec) -> Vec<(String, char, i32)> {
    let mut out = vec![];
    for o in &s.opts {
        out.push((o.ext.clone(), 'o', 0));
    }
    for d in &s.decls {
        decl_refs(&mut out, d);
    }
    if let Some(Break::ExtUndef(on, n)) = &s.broken {
        out.push((on.clone(), 'x', *n));
    }
    out
}
fn fld_refs(out: &mut Vec<(String, char, i32)>, f: &Fld) {
    match &f.ty {
        Ty::M(n) => out.push((n.clone(), 'm', 0)),
        Ty::E(n) => out.push((n.clone(), 'e', 0)),
        _ => {}
    }
    for o in &f.opts {
        out.push((o.ext.clone(), 'o', 0));
    }
}
fn decl_refs(out: &mut Vec<(String, char, i32)>, d: &Decl) {
    match d {
        Decl::Msg(m) => {
            for o in m.opts.iter().chain(&m.range_opts).chain(m.oneof_opts.iter().map(|o| &o.1)) {
                out.push((o.ext.clone(), 'o', 0));
            }
            for f in &m.fields {
                fld_refs(out, f);
            }
            for n in &m.nested {
                decl_refs(out, n);
            }
        }
        Decl::Enum(e) => {
            for o in e.opts.iter().chain(e.value_opts.iter().map(|o| &o.1)) {
                out.push((o.ext.clone(), 'o', 0));
            }
        }
        Decl::Svc(_, ms) => {
            for m in ms {
                for o in m.svc_opts.iter().chain(&m.opts) {
                    out.push((o.ext.clone(), 'o', 0));
                }
                out.push((m.input.clone(), 'm', 0));
                out.push((m.output.clone(), 'm', 0));
            }
        }
        Decl::Ext(on, fs) => {
            for f in fs {
                out.push((on.clone(), 'x', f.num));
                fld_refs(out, f);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------
// generation

/// What a file offers to the files that import it.
#[derive(Clone, Debug, Default)]
pub struct Offer {
    pub msgs: Vec<String>,
    /// (name, ext range)
    pub extendable: Vec<(String, (i32, i32))>,
    /// (name, first value, proto3)
    pub enums: Vec<(String, String, bool)>,
    /// custom options: (kind of element, ext full name, number)
    pub opts: Vec<(char, String, i32)>,
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub next_marker: u32,
    pub next_ext: i32,
    pub size: usize,
}

const JUNK: [&str; 8] = [
    "message {",
    "message X { int32 }",
    "}",
    "enum E { A = ; }",
    "option = 3;",
    "import \"unterminated;",
    "/* never closed",
    "@#$",
];

impl Gen<'_> {
    pub fn marker(&mut self) -> u32 {
        self.next_marker += 1;
        self.next_marker
    }
    pub fn junk(&mut self) -> Break {
        Break::Syntax(self.rng.pick(&JUNK).to_string())
    }

    /// Now and then a custom option for an element of this kind.
    fn custom(&mut self, kind: char, vis: &Offer) -> Option<OptUse> {
        let c: Vec<_> = vis.opts.iter().filter(|o| o.0 == kind).collect();
        if c.is_empty() || !self.rng.pct(25) {
            return None;
        }
        let o = *self.rng.pick(&c);
        Some(OptUse { ext: o.1.clone(), num: o.2, value: self.rng.below(1000) as u32 })
    }

    fn field(
        &mut self,
        n: usize,
        num: i32,
        proto3: bool,
        vis: &Offer,
        own: &Offer,
    ) -> Fld {
        let r = &mut *self.rng;
        let msgs: Vec<&String> = vis.msgs.iter().chain(&own.msgs).collect();
        let enums: Vec<&(String, String, bool)> =
            vis.enums.iter().chain(&own.enums).filter(|e| !proto3 || e.2).collect();
        let ty = match r.below(10) {
            0..=3 if !msgs.is_empty() => Ty::M((*r.pick(&msgs)).clone()),
            4 if !enums.is_empty() => Ty::E((*r.pick(&enums)).0.clone()),
            _ => Ty::S(r.below(15) as u8),
        };
        let label = if proto3 { *r.pick(&[0, 0, 0, 1, 3, 4]) } else { *r.pick(&[1, 1, 1, 2, 3, 4, 5]) };
        let mut default = None;
        if !proto3 && label == 1 && r.pct(30) {
            default = match &ty {
                Ty::S(S_INT32) => Some((r.below(2000) as i32 - 1000).to_string()),
                Ty::S(S_BOOL) => Some("true".into()),
                Ty::S(11 | 13) => Some(r.pick(&["-2147483648", "2147483647", "0", "-1"]).to_string()),
                Ty::S(2 | 12 | 14) => Some(r.pick(&["-9223372036854775808", "9223372036854775807", "1", "-4294967296"]).to_string()),
                Ty::S(3 | 5) => Some(r.pick(&["18446744073709551615", "9223372036854775808", "0"]).to_string()),
                Ty::S(6 | 10) => Some(r.pick(&["4294967295", "2147483648", "0"]).to_string()),
                Ty::S(S_STRING) => {
                    Some(r.pick(&["abc", "with \"quotes\"", "\u{4e2d}\u{6587}", "tab\there", "back\\slash", ""]).to_string())
                }
                Ty::E(n) => vis
                    .enums
                    .iter()
                    .chain(&own.enums)
                    .find(|e| e.0 == *n)
                    .map(|e| e.1.clone()),
                _ => None,
            };
        }
        let mut opts = vec![];
        if label != 5 && r.pct(15) {
            let c: Vec<_> = vis.opts.iter().filter(|o| o.0 == 'd').collect();
            if !c.is_empty() {
                let o = *r.pick(&c);
                opts.push(OptUse { ext: o.1.clone(), num: o.2, value: r.below(1000) as u32 });
            }
        }
        let name = if label == 5 { format!("grp{n}") } else { format!("{}_{n}", r.pick(&["f", "the_field", "x1", "value"])) };
        let json = if label != 5 && r.pct(8) { Some(format!("jsonNamed{n}")) } else { None };
        Fld { name, num, label, ty, oneof: None, default, deprecated: label != 5 && r.pct(8), json, opts }
    }

    fn message(&mut self, name: String, full: &str, proto3: bool, vis: &Offer, own: &mut Offer, depth: usize) -> Msg {
        let mut m = Msg { name, ..Default::default() };
        let nf = self.rng.below(self.size + 1);
        let mut num = 0;
        if depth < 2 && self.rng.pct(25) {
            let nn = format!("Nest{depth}");
            let nfull = format!("{full}.{nn}");
            let x = self.message(nn, &nfull, proto3, vis, own, depth + 1);
            m.nested.push(Decl::Msg(x));
        }
        if self.rng.pct(15) {
            let e = self.en(&format!("In{}", depth), "IN_", proto3, vis);
            own.enums.push((format!("{full}.{}", e.name), e.values[0].0.clone(), proto3));
            m.nested.push(Decl::Enum(e));
        }
        if self.rng.pct(25) {
            for k in 0..self.rng.range(1, 2) {
                m.oneofs.push(format!("choice{k}"));
            }
        }
        for n in 0..nf {
            num += 1 + self.rng.below(3) as i32;
            let mut f = self.field(n, num, proto3, vis, own);
            if !m.oneofs.is_empty() && f.label != 3 && f.label != 4 && f.label != 5 && self.rng.pct(40) {
                f.oneof = Some(self.rng.below(m.oneofs.len()));
                f.label = 1;
                f.default = None;
            }
            m.fields.push(f);
        }
        // a oneof must have fields
        for i in 0..m.oneofs.len() {
            if !m.fields.iter().any(|f| f.oneof == Some(i)) {
                num += 1;
                m.fields.push(Fld {
                    name: format!("one_{i}"),
                    num,
                    label: 1,
                    ty: Ty::S(self.rng.below(15) as u8),
                    oneof: Some(i),
                    default: None,
                    deprecated: false,
                    json: None,
                    opts: vec![],
                });
            }
        }
        if self.rng.pct(15) {
            m.reserved = vec![(60, 60), (62, 65)];
        }
        if self.rng.pct(10) {
            m.reserved_names = vec!["old_one".into(), "old_two".into()];
        }
        if !proto3 && self.rng.pct(35) {
            m.ext_range = Some((100, 100 + self.rng.range(0, 20000) as i32 + 9000));
            own.extendable.push((full.to_owned(), m.ext_range.unwrap()));
            m.range_opts = self.custom('x', vis).into_iter().collect();
        }
        m.oneof_opts = (0..m.oneofs.len()).filter_map(|i| self.custom('o', vis).map(|o| (i, o))).collect();
        if !proto3 && self.rng.pct(8) {
            // an extension declared inside a message
            let c: Vec<(String, (i32, i32))> = vis.extendable.iter().chain(&own.extendable).cloned().collect();
            if !c.is_empty() {
                let (on, (lo, hi)) = self.rng.pick(&c).clone();
                let num = lo + self.next_ext;
                self.next_ext += 1;
                if num <= hi {
                    let mut f = self.field(90, num, false, vis, own);
                    f.name = format!("inner_ext{num}");
                    if f.label == 2 || f.label >= 4 {
                        f.label = 1;
                        f.default = None;
                    }
                    f.json = None;
                    m.nested.push(Decl::Ext(on, vec![f]));
                }
            }
        }
        m.deprecated = self.rng.pct(5);
        if self.rng.pct(15) {
            let c: Vec<_> = vis.opts.iter().filter(|o| o.0 == 'm').cloned().collect();
            if !c.is_empty() {
                let o = self.rng.pick(&c).clone();
                m.opts.push(OptUse { ext: o.1, num: o.2, value: self.rng.below(1000) as u32 });
            }
        }
        own.msgs.push(full.to_owned());
        m
    }

    fn en(&mut self, name: &str, prefix: &str, proto3: bool, vis: &Offer) -> En {
        let n = self.rng.range(1, 4);
        let mut values: Vec<(String, i32)> = vec![];
        let mut v = if proto3 { 0 } else { self.rng.below(5) as i32 - 2 };
        for i in 0..n {
            values.push((format!("{prefix}{}_V{i}", name.to_ascii_uppercase()), v));
            v += 1 + self.rng.below(5) as i32;
        }
        let alias = n > 1 && self.rng.pct(15);
        if alias {
            values[n - 1].1 = values[0].1;
        }
        let reserved = if self.rng.pct(10) { vec![(500, 510), (600, 600)] } else { vec![] };
        let opts = self.custom('e', vis).into_iter().collect();
        let value_opts = (0..n).filter_map(|i| self.custom('v', vis).map(|o| (i, o))).collect();
        En { name: name.into(), values, alias, deprecated_last: self.rng.pct(10), reserved, opts, value_opts }
    }

    /// A well-formed file number `k`, importing `imports`, that may use what `vis` offers.
    pub fn file(&mut self, k: usize, imports: Vec<Imp>, vis: &Offer, package: String) -> (FileSpec, Offer) {
        let syntax = *self.rng.pick(&[0, 2, 3, 3]);
        let proto3 = syntax == 3;
        let marker = self.marker();
        let mut s = FileSpec {
            marker,
            syntax,
            package: package.clone(),
            imports,
            decls: vec![],
            opts: vec![],
            java_package: if self.rng.pct(20) { format!("com.example.k{k}") } else { String::new() },
            style: self.rng.next() as u32,
            pad: 0,
            exact: 0,
            deep: 0,
            broken: None,
        };
        let mut own = Offer::default();
        let has_descriptor = s.imports.iter().any(|i| i.name == "google/protobuf/descriptor.proto");
        let n = self.rng.range(1, 1 + self.size);
        for j in 0..n {
            match self.rng.below(8) {
                0 => {
                    let name = format!("E{k}_{j}");
                    let e = self.en(&name, "", proto3, vis);
                    own.enums.push((join(&package, &name), e.values[0].0.clone(), proto3));
                    s.decls.push(Decl::Enum(e));
                }
                1 => {
                    let c: Vec<String> = vis.msgs.iter().chain(&own.msgs).cloned().collect();
                    if !c.is_empty() {
                        let mut ms = vec![];
                        for q in 0..self.rng.range(1, 3) {
                            ms.push(Meth {
                                name: format!("Call{q}"),
                                input: self.rng.pick(&c).clone(),
                                output: self.rng.pick(&c).clone(),
                                cs: self.rng.pct(30),
                                ss: self.rng.pct(30),
                                deprecated: self.rng.pct(10),
                                opts: self.custom('r', vis).into_iter().collect(),
                                svc_opts: if q == 0 { self.custom('s', vis).into_iter().collect() } else { vec![] },
                            });
                        }
                        s.decls.push(Decl::Svc(format!("S{k}_{j}"), ms));
                    }
                }
                2 if !proto3 => {
                    let c: Vec<(String, (i32, i32))> =
                        vis.extendable.iter().chain(&own.extendable).cloned().collect();
                    if !c.is_empty() {
                        let (on, (lo, hi)) = self.rng.pick(&c).clone();
                        let num = lo + self.next_ext;
                        self.next_ext += 1;
                        if num <= hi {
                            let mut f = self.field(j, num, false, vis, &own);
                            f.name = format!("ext{k}_{j}");
                            if f.label == 2 || f.label >= 4 {
                                f.label = 1;
                                f.default = None;
                            }
                            f.json = None;
                            s.decls.push(Decl::Ext(on, vec![f]));
                        }
                    }
                }
                3 | 4 if has_descriptor => {
                    let (ch, on) = *self.rng.pick(&[
                        ('f', "google.protobuf.FileOptions"),
                        ('m', "google.protobuf.MessageOptions"),
                        ('d', "google.protobuf.FieldOptions"),
                        ('e', "google.protobuf.EnumOptions"),
                        ('v', "google.protobuf.EnumValueOptions"),
                        ('o', "google.protobuf.OneofOptions"),
                        ('s', "google.protobuf.ServiceOptions"),
                        ('r', "google.protobuf.MethodOptions"),
                        ('x', "google.protobuf.ExtensionRangeOptions"),
                    ]);
                    let mut num = 50000 + self.next_ext;
                    self.next_ext += 1;
                    if proto3 && num % 24 == 22 {
                        // an enum of another syntax
                        num += 1;
                        self.next_ext += 1;
                    }
                    let (ty, label) = opt_type(num);
                    let name = format!("opt{k}_{j}");
                    own.opts.push((ch, join(&package, &name), num));
                    s.decls.push(Decl::Ext(
                        on.to_owned(),
                        vec![Fld {
                            name,
                            num,
                            label,
                            ty,
                            oneof: None,
                            default: None,
                            deprecated: false,
                            json: None,
                            opts: vec![],
                        }],
                    ));
                }
                _ => {
                    let name = format!("M{k}_{j}");
                    let full = join(&package, &name);
                    let m = self.message(name, &full, proto3, vis, &mut own, 0);
                    s.decls.push(Decl::Msg(m));
                }
            }
        }
        if self.rng.pct(30) {
            let c: Vec<_> = vis.opts.iter().filter(|o| o.0 == 'f').cloned().collect();
            if !c.is_empty() {
                let o = self.rng.pick(&c).clone();
                s.opts.push(OptUse { ext: o.1, num: o.2, value: self.rng.below(1000) as u32 });
            }
        }
        (s, own)
    }

    /// Another content for the same name: same declarations, recognisably different.
    pub fn variant(&mut self, s: &FileSpec) -> FileSpec {
        let mut v = s.clone();
        v.marker = self.marker();
        v.style = self.rng.next() as u32;
        v.broken = None;
        v
    }
}

pub fn content_id(b: &[u8]) -> u64 {
    hash_bytes(0xC0, b)
}

/// What happened to the bytes of a file on the disk.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Wound {
    /// only this many bytes made it
    Torn(u32),
    /// the length is right but from here on there are only zeros
    ZeroTail(u32),
    /// these bits are inverted
    Flip(Vec<(u32, u8)>),
    /// a block of zeros: offset, length
    Zero(u32, u32),
    /// a block is written a second time elsewhere: from, length, to
    Copy(u32, u32, u32),
    /// a block is missing: offset, length
    Hole(u32, u32),
    /// the first bytes of another file, up to the offset, in front of the rest of this one
    Mixed(u32, Box<FileSpec>),
    /// foreign bytes at an offset: in place of what was there, or between
    Put(u32, Vec<u8>, bool),
    /// something else altogether
    Wild(String),
}

pub fn wounded(s: &FileSpec, w: &Wound) -> Vec<u8> {
    let mut b = render(s).0;
    let n = b.len();
    let at = |x: u32| (x as usize).min(n);
    match w {
        Wound::Torn(x) => b.truncate(at(*x)),
        Wound::ZeroTail(x) => b[at(*x)..].fill(0),
        Wound::Flip(v) => {
            for (x, bit) in v {
                if n > 0 {
                    b[*x as usize % n] ^= 1 << (bit & 7);
                }
            }
        }
        Wound::Zero(x, l) => {
            let a = at(*x);
            let e = at(x.saturating_add(*l));
            b[a..e].fill(0);
        }
        Wound::Copy(x, l, to) => {
            let a = at(*x);
            let e = at(x.saturating_add(*l));
            let blk = b[a..e].to_vec();
            let t = at(*to);
            for (i, c) in blk.into_iter().enumerate() {
                if t + i < n {
                    b[t + i] = c;
                }
            }
        }
        Wound::Hole(x, l) => {
            let a = at(*x);
            let e = at(x.saturating_add(*l));
            b.drain(a..e);
        }
        Wound::Put(x, p, over) => {
            let a = at(*x);
            let e = if *over { (a + p.len()).min(n) } else { a };
            b.splice(a..e, p.iter().copied());
        }
        Wound::Wild(t) => b = t.clone().into_bytes(),
        Wound::Mixed(x, o) => {
            let o = render(o).0;
            let k = (*x as usize).min(o.len());
            let mut v = o[..k].to_vec();
            v.extend_from_slice(&b[k.min(n)..]);
            b = v;
        }
    }
    b
}

/// What the damaged bytes must be taken for, where that is certain.
pub fn wounded_meaning(s: &FileSpec, w: &Wound) -> Option<FileSpec> {
    let t = text(s);
    let n = t.out.len();
    let torn = || {
        let mut x = s.clone();
        x.broken = Some(Break::Torn);
        Some(x)
    };
    match w {
        Wound::Torn(x) if (*x as usize) >= n => Some(s.clone()),
        Wound::ZeroTail(x) if (*x as usize) >= n => Some(s.clone()),
        // zeros that continue a line comment belong to it
        Wound::ZeroTail(x) if *x > 0 && t.kind[*x as usize - 1] == TokKind::Quiet => None,
        Wound::ZeroTail(x) => match t.kind[*x as usize] {
            TokKind::Quiet => None,
            _ => torn(),
        },
        Wound::Torn(x) => match t.kind[*x as usize] {
            TokKind::Quiet => None,
            TokKind::Inner => torn(),
            TokKind::Top => Some(prefix(s, &t, *x as usize)),
        },
        _ => None,
    }
}

/// The file that remains when only the statements ending before `at` are there.
fn prefix(s: &FileSpec, t: &Text, at: usize) -> FileSpec {
    let kept = |c: char| t.items.iter().filter(|i| i.1 == c && i.0 <= at).count();
    let mut x = s.clone();
    if kept('s') == 0 {
        x.syntax = 0;
    }
    if kept('p') == 0 {
        x.package.clear();
    }
    x.imports.truncate(kept('i'));
    if kept('j') == 0 {
        x.java_package.clear();
    }
    x.opts.truncate(kept('o'));
    if kept('m') == 0 {
        x.marker = 0;
    }
    x.decls.truncate(kept('d'));
    if kept('x') == 0 {
        x.deep = 0;
    }
    if kept('b') == 0 && x.broken != Some(Break::Utf8) {
        x.broken = None;
    }
    x
}
