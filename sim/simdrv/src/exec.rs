use crate::Stats;
use simos::{Config, End, OutBuf, Outcome};
use std::ffi::CString;

const PAD: &str = "~";
const NPAD: usize = 640;

static mut ARGV: *mut *mut libc::c_char = std::ptr::null_mut();
static mut ARGC: usize = 0;
static mut REAL: Vec<String> = Vec::new();
static mut SUB: Vec<String> = Vec::new();

extern "C" fn grab(argc: libc::c_int, argv: *mut *mut libc::c_char, _e: *mut *mut libc::c_char) {
    unsafe {
        ARGC = argc as usize;
        ARGV = argv;
    }
}
#[used]
#[link_section = ".init_array"]
static GRAB: extern "C" fn(libc::c_int, *mut *mut libc::c_char, *mut *mut libc::c_char) = grab;

/// Re-execute without address-space randomisation and with argument slots that
/// simulated programs' argument lists can be written into. Must be called first.
pub fn init() {
    simos::shim::keep();
    if std::env::var_os("SIM_REEXEC").is_none() {
        unsafe {
            // best effort; only addresses change if it is refused
            simos::raw::sys3(135, 0x0040000, 0, 0);
        }
        let exe = std::env::current_exe().unwrap();
        let mut args: Vec<CString> = vec![CString::new(exe.to_str().unwrap()).unwrap()];
        for a in std::env::args().skip(1) {
            args.push(CString::new(a).unwrap());
        }
        for _ in 0..NPAD {
            args.push(CString::new(PAD).unwrap());
        }
        // a fixed environment keeps stack addresses the same everywhere
        let mut envs = vec![
            CString::new("SIM_REEXEC=1").unwrap(),
            CString::new("RUST_BACKTRACE=0").unwrap(),
            CString::new("PATH=/usr/bin:/bin").unwrap(),
        ];
        for k in ["VERIF_SEED", "VERIF_TIER", "SIM_VERIF_DIR"] {
            if let Ok(v) = std::env::var(k) {
                envs.push(CString::new(format!("{k}={v}")).unwrap());
            }
        }
        let mut av: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        av.push(std::ptr::null());
        let mut ev: Vec<*const libc::c_char> = envs.iter().map(|a| a.as_ptr()).collect();
        ev.push(std::ptr::null());
        unsafe {
            libc::execve(args[0].as_ptr(), av.as_ptr(), ev.as_ptr());
        }
        panic!("re-exec failed");
    }
    unsafe {
        REAL = std::env::args().skip(1).filter(|a| a != PAD).collect();
    }
}

/// Take a leading sub-command (the check to run) off the command line.
pub fn take_sub() -> Option<String> {
    unsafe {
        if REAL.is_empty() || REAL[0].starts_with('-') {
            return None;
        }
        let s = REAL.remove(0);
        SUB.push(s.clone());
        Some(s)
    }
}
pub fn sub_args() -> Vec<String> {
    unsafe { SUB.clone() }
}
pub fn real_args() -> Vec<String> {
    unsafe { REAL.clone() }
}

/// Replace the process arguments (in a forked child).
pub fn set_args(args: &[String]) {
    unsafe {
        assert!(args.len() < ARGC, "too many arguments");
        for (i, a) in args.iter().enumerate() {
            *ARGV.add(i) = CString::new(a.as_str()).unwrap().into_raw();
        }
        *ARGV.add(args.len()) = std::ptr::null_mut();
    }
}

pub struct Exec {
    pub out: OutBuf,
    pub verbose: bool,
    pub wall_secs: u32,
    pub executions: u64,
    pub trace_acc: u64,
    pub sched_acc: u64,
    pub last_injected: u64,
    pub last_switches: u64,
    /// Ask for the schedule of the first execution with this configuration.
    pub capture: Option<(Config, Option<Vec<(u64, u32)>>)>,
    acc: Stats,
}

impl Exec {
    pub fn new() -> Exec {
        Exec {
            out: OutBuf::new(64 << 20),
            verbose: false,
            wall_secs: 60,
            executions: 0,
            trace_acc: 0,
            sched_acc: 0,
            last_injected: 0,
            last_switches: 0,
            capture: None,
            acc: Stats::default(),
        }
    }
    pub fn begin_case(&mut self) {
        self.trace_acc = 0;
        self.sched_acc = 0;
        self.last_injected = 0;
        self.last_switches = 0;
    }
    pub fn probe(&mut self, name: &str) {
        *self.acc.probes.entry(name.to_owned()).or_insert(0) += 1;
    }
    pub fn fold_into(&mut self, s: &mut Stats) {
        let a = std::mem::take(&mut self.acc);
        s.executions += a.executions;
        s.sim_ns += a.sim_ns;
        s.ticks += a.ticks;
        s.switches += a.switches;
        s.max_edges = s.max_edges.max(a.max_edges);
        s.max_threads = s.max_threads.max(a.max_threads);
        for (k, v) in a.injected {
            *s.injected.entry(k).or_insert(0) += v;
        }
        for (k, v) in a.calls {
            *s.calls.entry(k).or_insert(0) += v;
        }
        for (k, v) in a.ends {
            *s.ends.entry(k).or_insert(0) += v;
        }
        for (k, v) in a.probes {
            *s.probes.entry(k).or_insert(0) += v;
        }
    }

    /// One simulated execution. `setup` fills the simulated world; `body` is the
    /// program; its return value is the exit status.
    pub fn run(&mut self, cfg: &Config, args: &[String], setup: impl FnOnce(), body: impl FnOnce() -> i32) -> Outcome {
        self.out.clear();
        let mut out = unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                // A run without end: by its own CPU time, so that a busy machine does
                // not count; and by the wall clock should it really block.
                for (which, secs) in [(libc::ITIMER_PROF, self.wall_secs), (libc::ITIMER_REAL, 8 * self.wall_secs)] {
                    let it = libc::itimerval {
                        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                        it_value: libc::timeval { tv_sec: secs as i64, tv_usec: 0 },
                    };
                    libc::syscall(libc::SYS_setitimer, which, &it, 0);
                }
                let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                foldhash::set_sim_seed(cfg.hash_seed);
                set_args(args);
                simos::enter(cfg.clone(), &self.out);
                setup();
                simos::seal_fs();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                use std::io::Write;
                let _ = std::io::stdout().flush();
                simos::finish(End::Exit(r.unwrap_or(101)));
            }
            let mut st = 0;
            loop {
                let r = libc::syscall(libc::SYS_wait4, pid, &mut st, 0, 0);
                if r == pid as i64 || r < 0 && *libc::__errno_location() != libc::EINTR {
                    break;
                }
            }
            let sig = st & 0x7f;
            match self.out.read() {
                Some(o) if sig == 0 => o,
                o => {
                    let mut o = o.unwrap_or_default();
                    o.end = if sig == libc::SIGALRM || sig == libc::SIGPROF { End::Hang } else if sig != 0 { End::Crash(sig) } else { End::Harness(format!("no outcome, status {st}")) };
                    o
                },
            }
        };
        self.executions += 1;
        if let Some((c, s @ None)) = &mut self.capture {
            if c == cfg {
                *s = Some(out.sched.clone());
            }
        }
        let a = &mut self.acc;
        a.executions += 1;
        a.sim_ns += out.sim_ns;
        a.ticks += out.ticks;
        a.switches += out.switches;
        a.max_edges = a.max_edges.max(out.edges);
        a.max_threads = a.max_threads.max(out.threads);
        for (k, v) in &out.injected {
            *a.injected.entry(k.clone()).or_insert(0) += v;
            self.last_injected += v;
        }
        for (k, v) in &out.calls {
            *a.calls.entry(k.clone()).or_insert(0) += v;
        }
        let end = match &out.end {
            End::Exit(n) => format!("exit {n}"),
            End::Deadlock(_) => "deadlock".into(),
            End::Harness(_) => "harness".into(),
            o => format!("{o:?}"),
        };
        *a.ends.entry(end).or_insert(0) += 1;
        self.last_switches += out.switches;
        let mut h = out.trace_hash;
        for b in [fnv(&out.stdout), fnv(&out.stderr), fnv(format!("{:?}", out.end).as_bytes()), out.ticks] {
            h = (h ^ b).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17);
        }
        for (k, v) in &out.files {
            h = (h ^ fnv(k.as_bytes()) ^ fnv(v)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(11);
        }
        self.trace_acc = (self.trace_acc ^ h).wrapping_mul(0x100000001B3).rotate_left(9);
        self.sched_acc = (self.sched_acc ^ out.sched_hash).wrapping_mul(0x100000001B3).rotate_left(9);
        if !out.notes.is_empty() {
            if let End::Exit(_) = out.end {
                if self.verbose {
                    eprintln!("notes: {:?}", out.notes);
                }
            }
        }
        if self.verbose {
            eprintln!("--- {:?} ticks {} switches {} threads {} sim {}ns injected {:?} fired {:?}", out.end, out.ticks, out.switches, out.threads, out.sim_ns, out.injected, out.fault_fired);
            eprintln!("--- calls {:?} notes {:?}", out.calls, out.notes);
            eprintln!("--- stdout\n{}--- stderr\n{}", crate::trunc(&out.out_str(), 6000), crate::trunc(&out.err_str(), 6000));
            for (k, v) in &out.files {
                eprintln!("--- file {k}: {} bytes", v.len());
            }
            for e in &out.events {
                eprintln!("--- event {}", crate::trunc(e, 400));
            }
        }
        if let End::Crash(_) = out.end {
            out.notes.push("crash".into());
        }
        out
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
