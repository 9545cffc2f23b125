//! What a run reports.

use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    /// properties this observation contradicts; "*" is all of them
    pub props: Vec<String>,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunOut {
    pub violations: Vec<Violation>,
    /// injected faults that actually fired
    pub faults: BTreeMap<String, u64>,
    /// rare conditions that were reached
    pub probes: BTreeMap<String, u64>,
    pub unmodelled: BTreeMap<String, u64>,
    pub calls: u64,
    pub sim_ns: u64,
    pub switches: u64,
    /// hash of the event log and every observed outcome: equal for equal runs
    pub trace: u64,
    /// coarser: which kinds of outcomes happened in which order
    pub shape: u64,
    pub nontrivial: bool,
    /// hash of what the compilers of several threads gave
    #[serde(default)]
    pub answers: u64,
}

impl RunOut {
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_owned()).or_insert(0) += 1;
    }
    pub fn violate(&mut self, class: &str, props: &[&str], detail: impl Into<String>) {
        let v = Violation {
            class: class.to_owned(),
            props: props.iter().map(|s| s.to_string()).collect(),
            detail: detail.into(),
        };
        if self.violations.len() < 20 {
            self.violations.push(v);
        }
    }
    pub fn note(&mut self, h: u64) {
        self.trace = crate::rng::mix(self.trace ^ h);
    }
    pub fn note_shape(&mut self, s: &str) {
        self.shape = crate::rng::hash_bytes(self.shape, s.as_bytes());
    }
    pub fn absorb_sys(&mut self, s: &crate::sys::Sys) {
        for (k, v) in &s.fired {
            *self.faults.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &s.unmodelled {
            *self.unmodelled.entry(k.to_string()).or_insert(0) += v;
        }
        self.calls += s.calls;
        self.sim_ns += s.sim_ns;
        self.switches += s.switches;
        self.note(s.log_hash());
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::sys::outside(|| {
            let msg = format!("{info}").replace('\n', " ");
            if std::env::var_os("SIM_VERBOSE").is_some() {
                eprintln!("PANIC: {msg}");
            }
            PANIC.with(|p| *p.borrow_mut() = Some(msg));
        })
    }));
}

/// Runs system-under-test code; Err is a panic message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::sys::inside(f))) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// An error, looked at through its public interface only.
#[derive(Clone, Debug, PartialEq)]
pub struct ErrInfo {
    pub not_found: bool,
    pub parse: bool,
    pub io: bool,
    pub file: Option<String>,
    pub display: String,
    pub debug: String,
    pub rendered: String,
    /// (offset, len) of each label, and the text it points at
    pub labels: Vec<(usize, usize, Option<String>)>,
    pub problems: Vec<String>,
    work: usize,
}

fn collect(d: &dyn miette::Diagnostic, src: Option<&dyn miette::SourceCode>, e: &mut ErrInfo, depth: usize) {
    let own = d.source_code().or(src);
    if let Some(ls) = d.labels() {
        for l in ls {
            let (o, n) = (l.offset(), l.len());
            let mut txt = None;
            // finding a place in the source takes time proportional to its offset, for each label
            if let Some(s) = own.filter(|_| e.work < 20_000_000) {
                match s.read_span(l.inner(), 0, 0) {
                    Ok(c) => {
                        let data = c.data();
                        e.work += o + n + 1000;
                        let base = c.span().offset();
                        let a = o.saturating_sub(base);
                        let piece = data.get(a..(a + n).min(data.len())).unwrap_or(&[]);
                        match std::str::from_utf8(piece) {
                            Ok(t) => txt = Some(t.to_owned()),
                            Err(_) => e.problems.push(format!("label {o}+{n} cuts a character")),
                        }
                    }
                    Err(_) => e.problems.push(format!("label {o}+{n} is outside the source")),
                }
            }
            e.labels.push((o, n, txt));
        }
    }
    let _ = d.help().map(|h| h.to_string());
    let _ = d.code().map(|h| h.to_string());
    let _ = d.url().map(|h| h.to_string());
    if depth < 6 {
        if let Some(r) = d.related() {
            for x in r {
                let _ = x.to_string();
                collect(x, own, e, depth + 1);
            }
        }
    }
}

pub fn look(err: &protox::Error) -> Result<ErrInfo, String> {
    guarded(|| {
        let mut e = ErrInfo {
            not_found: err.is_file_not_found(),
            parse: err.is_parse(),
            io: err.is_io(),
            file: err.file().map(str::to_owned),
            display: err.to_string(),
            debug: format!("{err:?}"),
            rendered: String::new(),
            labels: vec![],
            problems: vec![],
            work: 0,
        };
        collect(err, None, &mut e, 0);
        let mut s = String::new();
        // drawing takes miette time proportional to labels times source; a damaged file can have hundreds
        if e.work > 300_000 {
            e.rendered = e.display.clone();
            return e;
        }
        if miette::GraphicalReportHandler::new_themed(miette::GraphicalTheme::unicode_nocolor())
            .with_width(100)
            .render_report(&mut s, err)
            .is_err()
        {
            e.problems.push("graphical rendering failed".into());
        }
        if miette::NarratableReportHandler::new().render_report(&mut s, err).is_err() {
            e.problems.push("narrated rendering failed".into());
        }
        if miette::JSONReportHandler::new().render_report(&mut s, err).is_err() {
            e.problems.push("json rendering failed".into());
        }
        let mut src: Option<&dyn std::error::Error> = std::error::Error::source(err);
        while let Some(x) = src {
            s.push_str(&x.to_string());
            src = x.source();
        }
        e.rendered = s;
        e
    })
}

/// The parser as the reference for bytes that no abstract file stands for. That it does not panic is
/// found out where the compiler calls it.
pub fn parsed(name: &str, text: &str) -> Option<prost_types::FileDescriptorProto> {
    std::panic::catch_unwind(|| protox_parse::parse(name, text)).ok().and_then(|r| r.ok())
}
