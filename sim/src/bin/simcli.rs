//! protox's own command line tool (/repo/protox/src/main.rs), on the simulated disk.
#![allow(invalid_runtime_symbol_definitions, dead_code)]

#[path = "../clidisk.rs"]
mod clidisk;
#[path = "../rng.rs"]
mod rng;
#[path = "../sys.rs"]
mod sys;

mod cli {
    include!("/repo/protox/src/main.rs");

    pub fn run_it() -> impl std::process::Termination {
        main()
    }
}

#[global_allocator]
static ALLOC: sys::SimAlloc = sys::SimAlloc;

fn dump() {
    sys::outside(|| {
        let Ok(to) = std::env::var("SIM_CLI_OUT") else { return };
        let s = sys::sys();
        let head = clidisk::Head {
            crashed: s.crashed,
            calls: s.calls,
            sim_ns: s.sim_ns,
            log_hash: s.log_hash(),
            fired: s.fired.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
            unmodelled: s.unmodelled.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
            changes: s
                .log
                .iter()
                .filter(|e| ["open_w", "write", "rename", "unlink", "mkdir", "rmdir", "ftruncate", "chmod", "link"].contains(&e.call))
                .map(|e| (e.call.to_owned(), e.path.clone(), e.res))
                .collect(),
            open: s.opens.iter().filter(|o| !o.closed_flag()).map(|o| o.path.clone()).collect(),
            ..Default::default()
        };
        clidisk::write(head, &s.vfs, &to);
    })
}

extern "C" fn at_exit() {
    dump();
}

fn die(_: &sys::Sys) -> ! {
    dump();
    unsafe { libc::_exit(137) }
}

extern "C" fn on_alarm(_: libc::c_int) {
    unsafe { libc::_exit(98) }
}

extern "C" {
    fn setitimer(which: libc::c_int, new: *const libc::itimerval, old: *mut libc::itimerval) -> libc::c_int;
}

fn main() -> std::process::ExitCode {
    let from = std::env::var("SIM_CLI").expect("SIM_CLI");
    let (head, vfs) = clidisk::read(&from).expect("state");
    let mut s = sys::Sys::new(vfs);
    s.faults = head.faults.into_iter().map(|(p, f)| (sys::lexical(&p), f)).collect();
    s.traps = head.traps;
    s.on_crash = Some(die);
    sys::install(Box::new(s));
    unsafe {
        libc::signal(libc::SIGVTALRM, on_alarm as *const () as libc::sighandler_t);
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: 30, tv_usec: 0 },
        };
        setitimer(1, &t, std::ptr::null_mut());
        libc::atexit(at_exit);
    }
    sys::enter(0, head.hash_seed);
    sys::inside(|| std::process::Termination::report(cli::run_it()))
}
