//! Files nobody would write: any construct of the language anywhere, names that are keywords, numbers at
//! the edges, text format values, comments in every gap, and now and then a token that does not belong.

use crate::rng::Rng;

const IDENTS: [&str; 44] = [
    "a", "b", "c", "A", "B", "Foo", "Bar", "x1", "_", "_x", "message", "enum", "option", "optional", "repeated", "required", "group",
    "oneof", "map", "extend", "extensions", "reserved", "to", "max", "service", "rpc", "returns", "stream", "syntax", "package", "import",
    "public", "weak", "true", "false", "inf", "nan", "int32", "string", "bytes", "bool", "default", "json_name", "edition",
];
const SCALARS: [&str; 15] = [
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool",
    "string", "bytes",
];
const INTS: [&str; 39] = [
    "1x\u{663}", "1a\u{b2}", "0x\u{ff11}", "1\u{e9}2", "7z\u{bd}9",
    "0", "1", "2", "3", "7", "15", "16", "100", "0x10", "0XfF", "017", "00", "18999", "19000", "19999", "20000", "536870911", "536870912",
    "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
    "18446744073709551616", "0xffffffffffffffff", "0x10000000000000000", "01777777777777777777777", "08", "0128", "1a", "0x", "99999999999999999999999",
];
const FLOATS: [&str; 18] = [
    "0.0", "1.", ".5", "1e3", "1E+10", "1.5e-3", "1e999", "1e-999", "3.4028236e38", "1.7976931348623157e308", "0.1f", "1F", "0f", "2f", "1.e1",
    "00.5", "09.5", "1e",
];
const STRINGS: [&str; 28] = [
    "\"\"", "''", "\"a\"", "'b\"c'", "\"\\n\\t\\r\\a\\b\\f\\v\\?\\\\\\'\\\"\"", "\"\\0\"", "\"\\x41\"", "\"\\X4\"", "\"\\377\"", "\"\\400\"",
    "\"\\u00e9\"", "\"\\U0001f600\"", "\"\\ud83d\"", "\"\\U00110000\"", "\"\\xff\\xfe\"", "\"é\u{1f600}\"", "\"a\" 'b'", "\"a\"\n\"b\"",
    "\"\\q\"", "\"a/b.proto\"", "\"//\"", "\"/*\"", "\"foo.Bar\"", "\"true\"", "\"\\u12\"", "\"\\x\"", "'\\\n'", "\"\u{0}\"",
];
const NOISE: [&str; 44] = [
    "\u{b2}", "\u{2028}", "\u{ff10}", "x\u{bd}",
    ";", "{", "}", "[", "]", "(", ")", "<", ">", ",", ".", "=", ":", "-", "+", "/", "\"", "'", "\\", "#", "//", "/*", "*/", "@", "$", "%", "&", "|",
    "~", "`", "\u{0}", "\u{feff}", "é", "\u{1f600}", "\u{a0}", "\u{663}", "\r", "syntax = 'proto3';", "1é", "a\u{301}",
];

pub struct Wild<'a> {
    r: &'a mut Rng,
    out: String,
    /// chance in 1000 that a token is wrong
    wrong: usize,
    room: i32,
    proto3: bool,
    num: u32,
    named: Vec<String>,
}

pub fn wild(r: &mut Rng) -> String {
    let wrong = *r.pick(&[0, 0, 2, 10, 40]);
    let room = r.range(5, 150) as i32;
    let mut w = Wild { r, out: String::new(), wrong, room, proto3: false, num: 0, named: vec![] };
    w.file();
    let mut t = w.out;
    if r.pct(12) {
        let mut n = r.below(t.len() + 1);
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
    }
    if r.pct(10) {
        t = t.replace('\n', "\r\n");
    }
    t
}

impl Wild<'_> {
    fn gap(&mut self) {
        match self.r.below(120) {
            0 => self.out.push_str("\n// c é\n"),
            1 => self.out.push_str("/* b\n * c */"),
            2 => self.out.push_str("\n\n// one\n\n// two\n// three\n"),
            3 => self.out.push_str("/**/"),
            4 => self.out.push_str("\t\u{b}\u{c}"),
            5 => self.out.push_str(" /* x\n\n  *y\n*/\n\n"),
            6 => self.out.push_str("\n//\n"),
            7 => self.out.push_str("\r\n"),
            8..=30 => self.out.push('\n'),
            _ => self.out.push(' '),
        }
    }
    fn t(&mut self, s: &str) {
        self.room -= if s.len() > 2 { 1 } else { 0 };
        if self.r.below(1000) < self.wrong {
            match self.r.below(7) {
                0 => return,
                1 => self.out.push_str(s),
                2 => {
                    let i = self.ident();
                    self.out.push_str(&i);
                    return;
                }
                3 => {
                    self.out.push_str(self.r.pick(&INTS));
                    return;
                }
                4 => {
                    self.out.push_str(self.r.pick(&STRINGS));
                    return;
                }
                _ => self.out.push_str(self.r.pick(&NOISE)),
            }
        }
        self.out.push_str(s);
        // tokens may touch where they cannot be mistaken
        if s.len() == 1 && !s.chars().all(|c| c.is_alphanumeric()) && self.r.pct(30) {
            return;
        }
        self.gap();
    }
    fn ident(&mut self) -> String {
        match self.r.below(6) {
            0..=2 => self.r.pick(&IDENTS).to_string(),
            3 if !self.named.is_empty() => self.r.pick(&self.named).clone(),
            _ => format!("{}{}", self.r.pick(&["f", "Field", "m_n_", "X", "_9"]), self.r.below(40)),
        }
    }
    /// not used before, most of the time
    fn name(&mut self, pre: &str) -> String {
        let s = if self.r.pct(8) { self.ident() } else { format!("{pre}{}", self.out.len()) };
        s
    }
    fn number(&mut self) -> String {
        self.num += 1;
        match self.r.below(40) {
            0 => self.r.pick(&INTS).to_string(),
            1 => format!("-{}", self.r.pick(&INTS)),
            _ => self.num.to_string(),
        }
    }
    fn full(&mut self) -> String {
        let mut s = String::new();
        if self.r.pct(20) {
            s.push('.');
        }
        s += &self.ident();
        for _ in 0..self.r.below(3) {
            s.push_str(self.r.pick(&[".", ".", ".", " . ", ".\n"]));
            s += &self.ident();
        }
        s
    }
    fn ty(&mut self) -> String {
        match self.r.below(10) {
            0..=5 => self.r.pick(&SCALARS).to_string(),
            6..=8 if !self.named.is_empty() => self.r.pick(&self.named).clone(),
            _ if self.r.pct(30) => self.full(),
            _ => "int32".into(),
        }
    }

    fn file(&mut self) {
        match self.r.below(20) {
            0..=8 => {
                self.proto3 = true;
                for x in ["syntax", "=", "\"proto3\"", ";"] {
                    self.t(x);
                }
            }
            9..=16 => {
                for x in ["syntax", "=", "'proto2'", ";"] {
                    self.t(x);
                }
            }
            17 => {
                let v = self.r.pick(&["\"proto4\"", "\"proto\" \"3\"", "\"\"", "proto3", "\"\\xff\""]).to_string();
                for x in ["syntax", "=", &v, ";"] {
                    self.t(x);
                }
            }
            18 => self.out.push_str("/* detached */\n\n// leading\n"),
            _ => {}
        }
        if self.r.pct(60) {
            self.t("import");
            match self.r.below(8) {
                0 => self.t("public"),
                1 => self.t("weak"),
                _ => {}
            }
            self.t("'google/protobuf/descriptor.proto'");
            self.t(";");
        }
        if self.r.pct(30) {
            self.t("package");
            let f = self.full();
            self.t(&f);
            self.t(";");
        }
        while self.room > 0 {
            match self.r.below(20) {
                0..=6 => self.message(),
                7..=9 => self.enumeration(),
                10 | 11 => self.service(),
                12..=14 => self.extend(),
                15..=17 => self.option(),
                18 => self.t(";"),
                _ => match self.r.below(4) {
                    0 => {
                        let s = self.r.pick(&STRINGS).to_string();
                        for x in ["import", s.as_str(), ";"] {
                            self.t(x);
                        }
                    }
                    1 => {
                        let f = self.full();
                        for x in ["package", f.as_str(), ";"] {
                            self.t(x);
                        }
                    }
                    _ => self.t(";"),
                },
            }
        }
    }

    fn option_name(&mut self) {
        match self.r.below(10) {
            0..=4 => {
                let known = [
                    "java_package", "java_multiple_files", "optimize_for", "cc_enable_arenas", "deprecated", "allow_alias", "packed", "lazy",
                    "ctype", "jstype", "message_set_wire_format", "map_entry", "idempotency_level", "default", "json_name", "uninterpreted_option",
                ];
                let s = self.r.pick(&known).to_string();
                self.t(&s)
            }
            _ => {
                for i in 0..self.r.range(1, 3) {
                    if i > 0 {
                        self.t(".");
                    }
                    if self.r.pct(60) {
                        self.t("(");
                        let f = self.full();
                        self.t(&f);
                        self.t(")");
                    } else {
                        let f = self.ident();
                        self.t(&f);
                    }
                }
            }
        }
    }
    fn value(&mut self) {
        match self.r.below(14) {
            0..=2 => {
                if self.r.pct(25) {
                    self.t("-");
                }
                let s = self.r.pick(&INTS).to_string();
                self.t(&s)
            }
            3 => {
                let m = *self.r.pick(&["", "", "-", "+", "- "]);
                let s = format!("{m}{}", self.r.pick(&FLOATS));
                self.t(&s)
            }
            4..=6 => {
                let s = self.r.pick(&STRINGS).to_string();
                self.t(&s)
            }
            7 => self.t("true"),
            8 => {
                let s = self.r.pick(&["SPEED", "CODE_SIZE", "JS_STRING", "CORD", "inf", "-inf", "nan", "-nan", "- inf", "false"]).to_string();
                self.t(&s)
            }
            9 => {
                let f = self.full();
                self.t(&f)
            }
            _ => {
                self.t("{");
                self.text(3);
                self.t("}");
            }
        }
    }
    /// text format
    fn text(&mut self, deep: usize) {
        for _ in 0..self.r.below(4) {
            if self.r.pct(25) {
                self.t("[");
                let mut s = self.full();
                if self.r.pct(35) {
                    s = format!("type.googleapis.com/{s}");
                }
                self.t(&s);
                self.t("]");
            } else {
                let s = self.ident();
                self.t(&s);
            }
            let nested = deep > 0 && self.r.pct(35);
            if !nested || self.r.pct(50) {
                self.t(":");
            }
            if nested {
                let (o, c) = *self.r.pick(&[("{", "}"), ("<", ">")]);
                self.t(o);
                self.text(deep - 1);
                self.t(c);
            } else if self.r.pct(20) {
                self.t("[");
                for i in 0..self.r.below(4) {
                    if i > 0 {
                        self.t(",");
                    }
                    self.scalar_text(deep);
                }
                self.t("]");
            } else {
                self.scalar_text(0);
            }
            match self.r.below(6) {
                0 => self.t(","),
                1 => self.t(";"),
                2 if self.r.pct(20) => self.out.push_str("# comment\n"),
                _ => {}
            }
        }
    }
    fn scalar_text(&mut self, deep: usize) {
        match self.r.below(8) {
            0 => {
                let s = self.r.pick(&FLOATS).to_string();
                self.t(&s)
            }
            1 => self.t("-inf"),
            2 => {
                let s = self.ident();
                self.t(&s)
            }
            3 => {
                let s = self.r.pick(&STRINGS).to_string();
                self.t(&s)
            }
            4 if deep > 0 => {
                self.t("{");
                self.text(deep - 1);
                self.t("}");
            }
            _ => {
                if self.r.pct(30) {
                    self.t("-");
                }
                let s = self.r.pick(&INTS).to_string();
                self.t(&s)
            }
        }
    }
    fn option(&mut self) {
        self.t("option");
        self.option_name();
        self.t("=");
        self.value();
        self.t(";");
    }
    fn brackets(&mut self) {
        if self.r.pct(25) {
            self.t("[");
            for i in 0..self.r.range(1, 3) {
                if i > 0 {
                    self.t(",");
                }
                self.option_name();
                self.t("=");
                self.value();
            }
            self.t("]");
        }
    }
    fn label(&mut self) {
        let s = match (self.proto3, self.r.below(20)) {
            (true, 0..=13) => return,
            (true, 14 | 15) => "optional",
            (true, 16 | 17) => "repeated",
            (false, 0..=8) => "optional",
            (false, 9..=14) => "repeated",
            (false, 15 | 16) => "required",
            _ => *self.r.pick(&["optional", "repeated", "required", ""]),
        };
        if !s.is_empty() {
            self.t(s);
        }
    }
    fn field(&mut self, label: bool) {
        if label {
            self.label();
        }
        let group = self.r.pct(if self.proto3 { 1 } else { 10 });
        let ty = if group { "group".into() } else { self.ty() };
        self.t(&ty);
        let n = if group { self.name("G") } else { self.name("f") };
        self.t(&n);
        self.t("=");
        let n = self.number();
        self.t(&n);
        self.brackets();
        if group {
            self.t("{");
            self.body();
            self.t("}");
        } else {
            self.t(";");
        }
    }
    fn map(&mut self) {
        if self.r.pct(3) {
            self.label();
        }
        self.t("map");
        self.t("<");
        let k = if self.r.pct(90) { self.r.pick(&["int32", "string", "bool", "uint64", "sfixed32"]).to_string() } else { self.ty() };
        self.t(&k);
        self.t(",");
        let v = self.ty();
        self.t(&v);
        self.t(">");
        let n = self.name("m");
        self.t(&n);
        self.t("=");
        let n = self.number();
        self.t(&n);
        self.brackets();
        self.t(";");
    }
    fn ranges(&mut self) {
        for i in 0..self.r.range(1, 3) {
            if i > 0 {
                self.t(",");
            }
            let a = match self.r.below(8) {
                0 => self.r.pick(&INTS).to_string(),
                1 => format!("-{}", self.r.pick(&INTS)),
                _ => (1000 + self.r.below(2000) * 10).to_string(),
            };
            self.t(&a);
            match self.r.below(6) {
                0 | 1 => {
                    self.t("to");
                    let b = a.parse::<i64>().map(|a| a.saturating_add(self.r.below(10) as i64)).unwrap_or(5).to_string();
                    self.t(&b);
                }
                2 => {
                    self.t("to");
                    self.t("max");
                }
                3 if self.r.pct(30) => {
                    self.t("to");
                    let b = self.r.pick(&INTS).to_string();
                    self.t(&b);
                }
                _ => {}
            }
        }
    }
    fn reserved(&mut self) {
        self.t("reserved");
        if self.r.pct(50) {
            self.ranges();
        } else {
            for i in 0..self.r.range(1, 3) {
                if i > 0 {
                    self.t(",");
                }
                let s = if self.r.pct(70) { format!("\"r{}\"", self.out.len()) } else { self.r.pick(&STRINGS).to_string() };
                self.t(&s);
            }
        }
        self.t(";");
    }
    fn body(&mut self) {
        for _ in 0..self.r.below(6) {
            if self.room <= 0 {
                return;
            }
            match self.r.below(24) {
                0..=10 => self.field(true),
                11 | 12 => self.map(),
                13 | 14 => {
                    self.t("oneof");
                    let n = self.name("o");
                    self.t(&n);
                    self.t("{");
                    for _ in 0..if self.r.pct(95) { self.r.range(1, 3) } else { 0 } {
                        if self.r.pct(6) {
                            self.option();
                        } else if self.r.pct(3) {
                            self.map();
                        } else {
                            let label = self.r.pct(4);
                            self.field(label);
                        }
                    }
                    self.t("}");
                }
                15 | 16 => self.message(),
                17 => self.enumeration(),
                18 => self.reserved(),
                19 => {
                    self.t("extensions");
                    self.ranges();
                    self.brackets();
                    self.t(";");
                }
                20 => self.extend(),
                21 | 22 => self.option(),
                _ => self.t(";"),
            }
        }
    }
    fn message(&mut self) {
        self.t("message");
        let n = self.name("M");
        self.t(&n);
        self.t("{");
        self.num = 0;
        self.body();
        self.t("}");
        self.named.push(n);
    }
    fn enumeration(&mut self) {
        self.t("enum");
        let n = self.name("E");
        self.t(&n);
        self.t("{");
        for i in 0..if self.r.pct(95) { self.r.range(1, 4) } else { 0 } {
            match self.r.below(12) {
                0 => self.option(),
                1 => self.reserved(),
                2 => self.t(";"),
                _ => {}
            }
            let v = self.name("V");
            self.t(&v);
            self.t("=");
            let x = if self.r.pct(90) { i.to_string() } else { self.r.pick(&INTS).to_string() };
            if self.r.pct(5) {
                self.t("-");
            }
            self.t(&x);
            self.brackets();
            self.t(";");
        }
        self.t("}");
        self.named.push(n);
    }
    fn service(&mut self) {
        self.t("service");
        let n = self.name("S");
        self.t(&n);
        self.t("{");
        for _ in 0..self.r.below(3) {
            match self.r.below(8) {
                0 => self.option(),
                1 => self.t(";"),
                _ => {
                    self.t("rpc");
                    let n = self.name("r");
                    self.t(&n);
                    for out in [false, true] {
                        if out {
                            self.t("returns");
                        }
                        self.t("(");
                        if self.r.pct(30) {
                            self.t("stream");
                        }
                        let n = if self.named.is_empty() { self.full() } else { self.r.pick(&self.named).clone() };
                        self.t(&n);
                        self.t(")");
                    }
                    if self.r.pct(50) {
                        self.t(";");
                    } else {
                        self.t("{");
                        for _ in 0..self.r.below(3) {
                            if self.r.pct(70) {
                                self.option();
                            } else {
                                self.t(";");
                            }
                        }
                        self.t("}");
                    }
                }
            }
        }
        self.t("}");
    }
    fn extend(&mut self) {
        self.t("extend");
        let e = match self.r.below(6) {
            0 => self.full(),
            1 if !self.named.is_empty() => self.r.pick(&self.named).clone(),
            _ => format!("google.protobuf.{}Options", self.r.pick(&["File", "Message", "Field", "Enum", "EnumValue", "Service", "Method", "Oneof", "ExtensionRange"])),
        };
        self.t(&e);
        self.t("{");
        self.num = 50_000 + self.r.below(1000) as u32 * 10;
        for _ in 0..if self.r.pct(95) { self.r.range(1, 2) } else { 0 } {
            let from = self.out.len();
            self.field(true);
            // so that options find it
            if let Some(w) = self.out[from..].split_whitespace().find(|w| w.starts_with('f') && w[1..].parse::<u32>().is_ok()) {
                let w = w.to_owned();
                self.named.push(w);
            }
        }
        self.t("}");
    }
}
