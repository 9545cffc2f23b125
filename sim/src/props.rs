//! The properties: budgets, what makes a run non-trivial, and what the evidence says about them.

use crate::report::RunOut;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub quick_runs: u64,
    pub rule: &'static str,
    /// a run is non-trivial when it hit one of these; all of them should be hit over a check
    pub probes: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const REAL: &[&str] = &[
    "protox (all of /repo/protox/src)",
    "protox-parse (all of /repo/protox-parse/src)",
    "prost-reflect, prost, miette and the Rust standard library above libc",
];
const STUB: &[&str] = &[
    "libc file system calls: in-memory file system with fault injection",
    "getrandom: seeded",
    "clock_gettime: simulated clock",
];
const ASSUME: &[&str] = &[
    "the in-memory file system answers like a POSIX one for the calls the standard library makes; calls it does not model are counted under unmodelled_system_calls",
    "the reference compiler (sim/src/model.rs) and the expected descriptors (sim/src/gen.rs) state protobuf's rules correctly for the generated subset of the language",
];

macro_rules! prop {
    ($id:literal, $runs:literal, $rule:literal, $probes:expr) => {
        Prop {
            id: $id,
            level: "exploration",
            quick_runs: $runs,
            rule: $rule,
            probes: $probes,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    };
}

pub const PROPS: &[Prop] = &[
    prop!(
        "C01", 20000,
        "a run builds a random include tree and import graph and opens files while fault windows make reads short, interrupted, failing part way, or stat lie, and while files change between two reads; non-trivial: at least one open during which a fault fired",
        &["open_with_fault_fired"]
    ),
    prop!(
        "C02", 22000,
        "a run stacks overlapping include directories, in-memory resolvers, descriptor sets and built-in files with marked contents and opens files while lookups fail in every layer; non-trivial: at least one open succeeded and was attributed to its source",
        &["open_ok"]
    ),
    prop!(
        "C03", 18000,
        "a run opens files by path in many spellings over overlapping and nested include directories, with files created, replaced and removed in between; non-trivial: at least one open succeeded",
        &["open_ok"]
    ),
    prop!(
        "C04", 15000,
        "a run mixes successful opens with opens failing for every reason, and after each failure compares every view of the compiler with the state before, then retries, corrects and clashes; non-trivial: at least one open failed",
        &["open_err"]
    ),
    prop!(
        "C05", 15000,
        "a run opens and closes fault windows around opens of a compiler that lives on, repairs the causes and demands what a fresh compiler would give; non-trivial: an open succeeded after an earlier failure of the same compiler",
        &["open_ok_after_failure"]
    ),
    prop!(
        "C06", 14000,
        "a run changes the disk between and (at a chosen system call) during opens of one compiler, and checks from the system call log what was read; non-trivial: at least one open succeeded",
        &["open_ok"]
    ),
    prop!(
        "C07", 9000,
        "a run opens the roots of a random import graph of up to 14 files in a random order, alone and in lists, and compares every view after each step; non-trivial: at least one open succeeded",
        &["open_ok"]
    ),
    prop!(
        "C08", 18000,
        "a run opens files of a random directed import graph of up to 40 files with cycles, repeated and missing imports over directories and resolvers, with failing lookups; non-trivial: at least one open succeeded or failed as the reference demands",
        &["open_ok", "open_err"]
    ),
    prop!(
        "C09", 20000,
        "a run breaks files in every way, alone and together, and makes system calls fail; each error returned is compared with the set of true ones and rendered; non-trivial: at least one open failed",
        &["open_err"]
    ),
    prop!(
        "C10", 14000,
        "a run damages source files on the simulated disk (torn at a byte, tail of zeros, flipped bits, lost, duplicated or mixed blocks), also while they are being read, opens them, repairs them and opens them again; non-trivial: a damaged file was opened",
        &["wounded_read"]
    ),
    prop!(
        "C11", 40000,
        "a run encodes a random set of files (with custom options, unknown fields, repeated names) and delivers it several times, in pieces, cut, or damaged, to the decoder, and compiles what is then served; non-trivial: a set was decoded or refused",
        &["set_decoded", "file_decoded", "damage_refused", "compiled_from_set", "output_compared", "unknown_syntax_refused"]
    ),
    Prop {
        id: "C12",
        level: "exploration",
        quick_runs: 2500,
        rule: "a run starts a process with 2 to 4 threads, each with compilers, histories, faults and a simulated machine of its own but the same names and paths, interleaved by a seeded scheduler at system calls, allocations and lock waits, sometimes after another history in the same process; non-trivial: the threads were interleaved",
        probes: &["threads_interleaved", "open_ok", "open_err"],
        real: REAL,
        stub: &[
            "libc file system calls: in-memory file system with fault injection, one per thread",
            "getrandom: seeded, per thread",
            "clock_gettime: simulated clock",
            "the scheduler: one thread runs at a time; switches at system calls, allocations and futex waits",
        ],
        assumptions: ASSUME,
    },
    Prop {
        id: "C13",
        level: "exploration",
        quick_runs: 5000,
        rule: "a run invokes the command line tool several times over one simulated disk, with sources changing, input and output faults, and the process killed at chosen system calls, then invoked again; non-trivial: at least one invocation succeeded, failed or was killed as it should",
        probes: &["cli_ok", "cli_compile_failed", "cli_write_failed", "cli_crashed", "cli_ok_after_interruption"],
        real: &[
            "protox/src/main.rs (the tool itself, in a process of its own per invocation), clap",
            "protox (all of /repo/protox/src)",
            "protox-parse (all of /repo/protox-parse/src)",
            "prost-reflect, prost, miette and the Rust standard library above libc",
        ],
        stub: STUB,
        assumptions: &[
            "the in-memory file system answers like a POSIX one for the calls the standard library makes; calls it does not model are counted under unmodelled_system_calls",
            "what the tool should produce is what the library gives on the same disk; the library is checked by the other properties",
        ],
    },
    prop!(
        "C14", 20000,
        "a run opens files over many include configurations and path spellings, some with imports of paths that leave the includes, under faults; every file system call is compared with the allowed set; non-trivial: at least one open's calls were checked",
        &["confinement_checked"]
    ),
    prop!(
        "C15", 11000,
        "a run flips the switches and reads all outputs in all modes at random points of a history of opens, failures and disk changes, keeping earlier outputs to compare at the end; non-trivial: at least one open succeeded",
        &["open_ok"]
    ),
    prop!(
        "C16", 11000,
        "a run persists the compiler's output at random points of its history, in either form, and rebuilds it from the bytes delivered in random chunks, with sources changed in between; non-trivial: at least one restart",
        &["restarted"]
    ),
    prop!(
        "C17", 24,
        "a run delivers a source at or beyond the limit of 2,147,483,647 bytes (up to endless) by path, name, import, resolver or string, with the disk telling its size, a wrong size or none, short and interrupted reads, then repairs it; non-trivial: the source was refused, or accepted at the limit",
        &["huge_refused", "at_limit_accepted"]
    ),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

pub fn nontrivial(id: &str, o: &RunOut) -> bool {
    o.nontrivial || find(id).is_some_and(|p| p.probes.iter().any(|k| o.probes.contains_key(*k)))
}
