//! Campaign driver: one process per worker, one forked child per execution.
#![allow(static_mut_refs)]
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
pub use simos::{self, Act, Child, Chunk, Config, End, Fault, OutBuf, Outcome, Rng, Sched, Site};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub mod exec;
pub mod gen;
pub mod judge;
pub mod shrink;
pub use exec::Exec;

/// What one case showed.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Verdict {
    Ok,
    /// The case says nothing (e.g. its preconditions did not hold).
    Skip(String),
    Violation {
        /// Stable fingerprint of the kind of failure.
        class: String,
        detail: String,
    },
    Harness(String),
}

impl Verdict {
    pub fn bad(class: impl Into<String>, detail: impl Into<String>) -> Verdict {
        Verdict::Violation { class: class.into(), detail: detail.into() }
    }
}

pub trait Check {
    type Case: Serialize + DeserializeOwned + Clone;
    fn id(&self) -> &'static str;
    fn gen(&self, rng: &mut Rng, index: u64, thorough: bool) -> Self::Case;
    fn run(&self, case: &Self::Case, ex: &mut Exec) -> Verdict;
    /// Smaller candidate cases, most aggressive first.
    fn shrink(&self, case: &Self::Case) -> Vec<Self::Case>;
    /// The simulator configurations inside a case, for generic shrinking.
    fn configs<'a>(&self, case: &'a mut Self::Case) -> Vec<&'a mut Config>;
    /// Number of cases for (quick, thorough).
    fn budget(&self) -> (u64, u64);
    fn rule(&self) -> String;
    fn components(&self) -> serde_json::Value;
    /// Whether the case counts as non-trivial given the stats of its runs.
    fn nontrivial(&self, _case: &Self::Case, ex: &Exec) -> bool {
        ex.last_injected > 0 || ex.last_switches > 0
    }
}

#[derive(Serialize, Deserialize, Default, Clone, Debug)]
pub struct Stats {
    pub cases: u64,
    pub skipped: u64,
    pub executions: u64,
    pub nontrivial: u64,
    pub injected: BTreeMap<String, u64>,
    pub calls: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub ticks: u64,
    pub switches: u64,
    pub max_edges: u32,
    pub max_threads: u32,
    pub traces: BTreeSet<u64>,
    pub scheds: BTreeSet<u64>,
    pub ends: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub determinism_pairs: u64,
    pub determinism_mismatch: Vec<String>,
    pub samples: Vec<String>,
    pub skip_reasons: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.skipped += o.skipped;
        self.executions += o.executions;
        self.nontrivial += o.nontrivial;
        self.sim_ns += o.sim_ns;
        self.ticks += o.ticks;
        self.switches += o.switches;
        self.max_edges = self.max_edges.max(o.max_edges);
        self.max_threads = self.max_threads.max(o.max_threads);
        self.determinism_pairs += o.determinism_pairs;
        self.determinism_mismatch.extend(o.determinism_mismatch);
        self.traces.extend(o.traces);
        self.scheds.extend(o.scheds);
        for (a, b) in [
            (&mut self.injected, o.injected),
            (&mut self.calls, o.calls),
            (&mut self.ends, o.ends),
            (&mut self.probes, o.probes),
            (&mut self.skip_reasons, o.skip_reasons),
            (&mut self.known, o.known),
        ] {
            for (k, v) in b {
                *a.entry(k).or_insert(0) += v;
            }
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

#[derive(Serialize, Deserialize)]
struct Found {
    index: u64,
    class: String,
    detail: String,
    case: serde_json::Value,
}

#[derive(Serialize, Deserialize)]
enum Msg {
    Stats(Stats),
    Found(Found),
    Harness(String),
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    index: u64,
    class: String,
    detail: String,
    shrink_steps: u64,
    case: serde_json::Value,
}

#[derive(Deserialize, Default)]
struct Known {
    #[serde(default)]
    findings: Vec<KnownFinding>,
}
#[derive(Deserialize, Clone)]
struct KnownFinding {
    property: String,
    /// Exact fingerprint, or a prefix ending in '*'.
    class: String,
    #[serde(default)]
    what: String,
}

fn verif_dir() -> PathBuf {
    std::env::var_os("SIM_VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn load_known(id: &str) -> Vec<KnownFinding> {
    let p = verif_dir().join("known_findings.json");
    match std::fs::read(&p) {
        Ok(b) => {
            let k: Known = serde_json::from_slice(&b).expect("known_findings.json");
            k.findings.into_iter().filter(|f| f.property == id).collect()
        },
        Err(_) => vec![],
    }
}
fn is_known<'a>(known: &'a [KnownFinding], class: &str) -> Option<&'a KnownFinding> {
    known.iter().find(|k| match k.class.strip_suffix('*') {
        Some(p) => class.starts_with(p),
        None => k.class == class,
    })
}

pub fn case_rng(seed: u64, index: u64) -> Rng {
    let mut r = Rng::new(seed.wrapping_mul(0xA24BAED4963EE407) ^ 0x5EED);
    let mut r2 = r.fork(index.wrapping_mul(0x9FB21C651E98DF25) + 1);
    r2.fork(3)
}

struct Opts {
    seed: u64,
    thorough: bool,
    cases: Option<u64>,
    workers: usize,
    wall: u64,
    replay: Option<String>,
    index: Option<u64>,
    hashes: bool,
    verbose: bool,
}

fn parse_opts() -> Opts {
    let mut o = Opts {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        cases: None,
        workers: std::thread::available_parallelism().map_or(4, |n| n.get()).min(8),
        wall: 0,
        replay: None,
        index: None,
        hashes: false,
        verbose: false,
    };
    let args: Vec<String> = exec::real_args();
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().expect("argument value");
        match a.as_str() {
            "--seed" => o.seed = val().parse().unwrap(),
            "--tier" => o.thorough = val() == "thorough",
            "--cases" => o.cases = Some(val().parse().unwrap()),
            "--workers" => o.workers = val().parse().unwrap(),
            "--wall" => o.wall = val().parse().unwrap(),
            "--replay" => o.replay = Some(val()),
            "--index" => o.index = Some(val().parse().unwrap()),
            "--hashes" => o.hashes = true,
            "-v" => o.verbose = true,
            other => {
                eprintln!("unknown argument {other}");
                std::process::exit(2);
            },
        }
    }
    if o.wall == 0 {
        o.wall = if o.thorough { 1500 } else { 150 };
    }
    o
}

/// Run a whole check: search, minimise, report, write evidence. Never returns.
pub fn main<C: Check>(check: C) -> ! {
    std::env::set_var("RUST_BACKTRACE", "0");
    let o = parse_opts();
    let code = main2(&check, &o);
    std::process::exit(code);
}

fn main2<C: Check>(check: &C, o: &Opts) -> i32 {
    let start = Instant::now();
    let id = check.id();
    if let Some(f) = &o.replay {
        return replay(check, f, o.verbose);
    }
    if let Some(i) = o.index {
        let mut rng = case_rng(o.seed, i);
        let case = check.gen(&mut rng, i, o.thorough);
        let mut ex = Exec::new();
        ex.verbose = o.verbose;
        println!("{}", serde_json::to_string_pretty(&case).unwrap());
        let v = check.run(&case, &mut ex);
        println!("{v:?}");
        println!("trace {:016x} sched {:016x}", ex.trace_acc, ex.sched_acc);
        return 0;
    }
    println!(
        "SIM property={id} seed={} tier={} workers={}",
        o.seed,
        if o.thorough { "thorough" } else { "quick" },
        o.workers
    );
    let known = load_known(id);
    let (q, t) = check.budget();
    let total = o.cases.unwrap_or(if o.thorough { t } else { q });
    let deadline = start + Duration::from_secs(o.wall);
    let mut stats = Stats::default();
    let mut found: Vec<Found> = vec![];
    let mut harness: Vec<String> = vec![];

    // workers
    let mut kids = vec![];
    for wk in 0..o.workers {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                let msgs = worker(check, o, wk as u64, total, deadline, &known);
                let bytes = bincode_msgs(&msgs);
                let mut off = 0;
                while off < bytes.len() {
                    let n = libc::write(fds[1], bytes[off..].as_ptr() as *const _, bytes.len() - off);
                    if n <= 0 {
                        break;
                    }
                    off += n as usize;
                }
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
    }
    for (pid, fd) in &kids {
        let mut buf = vec![];
        unsafe {
            let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(*fd);
            let _ = f.read_to_end(&mut buf);
            let mut st = 0;
            libc::waitpid(*pid, &mut st, 0);
        }
        match unbincode_msgs(&buf) {
            Some(msgs) => {
                for m in msgs {
                    match m {
                        Msg::Stats(s) => stats.merge(s),
                        Msg::Found(f) => found.push(f),
                        Msg::Harness(h) => harness.push(h),
                    }
                }
            },
            None => harness.push(format!("worker {pid} died")),
        }
    }

    found.sort_by_key(|f| f.index);
    let mut violations = 0;
    let mut reported = None;
    if let Some(f) = found.first() {
        violations = found.len() as u64;
        let case: C::Case = serde_json::from_value(f.case.clone()).expect("case json");
        let mut ex = Exec::new();
        let budget = Instant::now() + Duration::from_secs(if o.thorough { 180 } else { 60 });
        let (small, detail, steps) = shrink::minimise(check, case, &f.class, &mut ex, budget);
        let r = Replay {
            property: id.to_owned(),
            seed: o.seed,
            index: f.index,
            class: f.class.clone(),
            detail: detail.unwrap_or_else(|| f.detail.clone()),
            shrink_steps: steps,
            case: serde_json::to_value(&small).unwrap(),
        };
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-s{}-i{}.json", o.seed, f.index));
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).expect("replay file");
        println!("violation class: {}", r.class);
        println!("violation detail: {}", trunc(&r.detail, 4000));
        let ok = confirm(&path, &r.class);
        println!("replay in a fresh process: {}", if ok { "reproduced" } else { "NOT reproduced" });
        reported = Some(path);
    }

    let wall = start.elapsed().as_secs_f64();
    write_evidence(check, o, &stats, wall, violations, total);
    for k in &known {
        let n = stats.known.get(&k.class).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={id} {} (seen {n} times in this run)", k.what);
    }
    println!(
        "cases {}/{} executions {} nontrivial {} traces {} schedules {} faults {} ticks {} sim {:.3}s wall {:.1}s",
        stats.cases,
        total,
        stats.executions,
        stats.nontrivial,
        stats.traces.len(),
        stats.scheds.len(),
        stats.injected.values().sum::<u64>(),
        stats.ticks,
        stats.sim_ns as f64 / 1e9,
        wall
    );
    if o.verbose {
        println!("injected {:?}", stats.injected);
        println!("calls {:?}", stats.calls);
        println!("ends {:?}", stats.ends);
        println!("probes {:?}", stats.probes);
        println!("skips {:?}", stats.skip_reasons);
        println!("edges {} threads {}", stats.max_edges, stats.max_threads);
    }
    if let Some(p) = reported {
        println!("VIOLATION property={id} replay={}", p.display());
        return 1;
    }
    for h in stats.determinism_mismatch.iter().take(3) {
        println!("determinism mismatch: {}", trunc(h, 500));
    }
    if !harness.is_empty() {
        for h in harness.iter().take(5) {
            println!("harness error: {}", trunc(h, 2000));
        }
        return 2;
    }
    if stats.cases == 0 {
        println!("harness error: no case was run");
        return 2;
    }
    println!("PASS property={id}");
    0
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_owned()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}… ({} bytes)", &s[..k], s.len())
    }
}

fn bincode_msgs(m: &Vec<Msg>) -> Vec<u8> {
    // Found carries JSON values: go through JSON text
    serde_json::to_vec(m).unwrap()
}
fn unbincode_msgs(b: &[u8]) -> Option<Vec<Msg>> {
    serde_json::from_slice(b).ok()
}

fn worker<C: Check>(
    check: &C,
    o: &Opts,
    wk: u64,
    total: u64,
    deadline: Instant,
    known: &[KnownFinding],
) -> Vec<Msg> {
    let mut msgs = vec![];
    let mut ex = Exec::new();
    let mut stats = Stats::default();
    let mut nfound = 0;
    let mut i = wk;
    while i < total {
        if Instant::now() > deadline {
            break;
        }
        let mut rng = case_rng(o.seed, i);
        let case = check.gen(&mut rng, i, o.thorough);
        ex.begin_case();
        let v = check.run(&case, &mut ex);
        stats.cases += 1;
        let nt = check.nontrivial(&case, &ex);
        let h = (ex.trace_acc, ex.sched_acc);
        if o.hashes {
            println!("H {i} {:016x} {:016x} {v:?}", h.0, h.1);
        }
        if nt {
            stats.nontrivial += 1;
            stats.traces.insert(h.0);
        }
        stats.scheds.insert(h.1);
        if stats.samples.len() < 1 && nt {
            stats.samples.push(trunc(&serde_json::to_string(&case).unwrap(), 1500));
        }
        match v {
            Verdict::Ok => {},
            Verdict::Skip(why) => {
                stats.skipped += 1;
                *stats.skip_reasons.entry(trunc(&why, 80)).or_insert(0) += 1;
            },
            Verdict::Violation { class, detail } => {
                if let Some(k) = is_known(known, &class) {
                    *stats.known.entry(k.class.clone()).or_insert(0) += 1;
                } else {
                    if o.verbose {
                        println!("found #{i} {class}: {}", trunc(&detail, 300));
                    }
                    msgs.push(Msg::Found(Found { index: i, class, detail, case: serde_json::to_value(&case).unwrap() }));
                    nfound += 1;
                    if nfound >= 1 && !o.verbose {
                        break;
                    }
                }
            },
            Verdict::Harness(h) => {
                msgs.push(Msg::Harness(format!("case {i}: {h}")));
                if msgs.len() > 3 {
                    break;
                }
            },
        }
        // determinism: a sample of the cases is executed a second time
        if i % 37 == wk % 37 || i < o.workers as u64 {
            let mut ex2 = Exec::new();
            ex2.begin_case();
            let _ = check.run(&case, &mut ex2);
            stats.determinism_pairs += 1;
            if (ex2.trace_acc, ex2.sched_acc) != h {
                stats.determinism_mismatch.push(format!("case {i}"));
            }
        }
        i += o.workers as u64;
    }
    ex.fold_into(&mut stats);
    msgs.push(Msg::Stats(stats));
    msgs
}

fn replay<C: Check>(check: &C, file: &str, verbose: bool) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay json");
    let case: C::Case = serde_json::from_value(r.case).expect("case");
    let mut ex = Exec::new();
    ex.verbose = verbose;
    let v = check.run(&case, &mut ex);
    match v {
        Verdict::Violation { class, detail } => {
            println!("REPLAY property={} class={class}", check.id());
            println!("{}", trunc(&detail, 8000));
            println!("VIOLATION property={} replay={file}", check.id());
            1
        },
        other => {
            println!("REPLAY property={} no violation: {other:?}", check.id());
            0
        },
    }
}

fn confirm(path: &std::path::Path, class: &str) -> bool {
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new(exe);
    c.env_remove("SIM_REEXEC");
    c.args(exec::sub_args());
    c.arg("--replay").arg(path);
    match c.output() {
        Ok(o) => String::from_utf8_lossy(&o.stdout).contains(&format!("class={class}\n")),
        Err(_) => false,
    }
}

fn write_evidence<C: Check>(check: &C, o: &Opts, s: &Stats, wall: f64, violations: u64, total: u64) {
    let per_hour = |n: u64| if wall > 0.0 { (n as f64 / wall * 3600.0) as u64 } else { 0 };
    let samples: Vec<serde_json::Value> = s
        .samples
        .iter()
        .map(|t| serde_json::from_str(t).unwrap_or_else(|_| serde_json::Value::String(t.clone())))
        .collect();
    let e = serde_json::json!({
        "property": check.id(),
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.executions,
            "distinct_nontrivial": s.traces.len(),
            "rule": check.rule(),
            "samples": samples,
            "cases": s.cases,
            "cases_planned": total,
            "cases_skipped": s.skipped,
            "skip_reasons": s.skip_reasons,
            "seeds_per_hour": per_hour(s.cases),
            "simulated_runs_per_hour": per_hour(s.executions),
            "simulated_seconds": s.sim_ns as f64 / 1e9,
            "scheduler_ticks": s.ticks,
            "context_switches": s.switches,
            "distinct_interleavings": s.scheds.len(),
            "distinct_interleavings_measure": "distinct hashes of the sequence of (from thread, to thread, observed system-call history) over a case",
            "distinct_traces_measure": "distinct hashes of the sequence of intercepted system calls with their results, over non-trivial cases",
            "max_threads": s.max_threads,
            "max_basic_block_edges_in_one_run": s.max_edges,
            "faults_injected": s.injected,
            "system_calls_by_site": s.calls,
            "run_endings": s.ends,
            "probes": s.probes,
            "determinism_pairs_checked": s.determinism_pairs,
            "determinism_mismatches": s.determinism_mismatch.len(),
            "components": check.components(),
            "known_findings_seen": s.known,
        },
        "assumptions": [
            "sequentially consistent interleavings at intercepted calls and basic-block boundaries of repository code; weak-memory effects are not explored",
            "the simulated file system, pipes, sockets and processes stand in for the kernel; only behaviour they model is exercised",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", check.id())), serde_json::to_vec_pretty(&e).unwrap());
}
