//! World state, configuration and the scheduler.
use crate::outcome::*;
use crate::raw;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

// ---------------------------------------------------------------------------
// Configuration

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Default)]
pub enum Chunk {
    #[default]
    Full,
    /// Never move more than n bytes in a call.
    Max(u32),
    /// Move a uniformly random 1..=n bytes in a call.
    Rand(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub enum Sched {
    /// Keep running the current thread until it blocks.
    #[default]
    Seq,
    /// Switch at a scheduling point with probability 1/den; additionally
    /// preempt between basic blocks about every `edges` blocks (0: never).
    Random { seed: u64, den: u32, edges: u64 },
    /// Random priorities with `depth` priority-change points in `horizon` ticks.
    Pct { seed: u64, depth: u32, horizon: u64 },
    /// Replay exactly these non-default decisions.
    Explicit(Vec<(u64, u32)>),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Site {
    Open,
    Read,
    Write,
    Stat,
    ReadDir,
    OpenDir,
    Mkdir,
    Realpath,
    PipeRead,
    PipeWrite,
    SockRead,
    SockWrite,
    Accept,
    Connect,
    Listen,
    Thread,
    Spawn,
    Unlink,
}
pub const NSITES: usize = 18;
pub const SITES: [&str; NSITES] = [
    "open", "read", "write", "stat", "readdir", "opendir", "mkdir", "realpath", "pipe_read", "pipe_write",
    "sock_read", "sock_write", "accept", "connect", "listen", "thread", "spawn", "unlink",
];

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// Fail with this errno.
    Errno(i32),
    /// Transfer at most this many bytes.
    Short(u32),
    /// Stall the caller for this many simulated nanoseconds first.
    Stall(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    pub site: Site,
    /// Only calls on paths containing this text (empty: any).
    #[serde(default)]
    pub path: String,
    /// Fires from the nth matching call (0-based) ...
    pub nth: u64,
    /// ... for this many matching calls (0: forever).
    pub times: u64,
    pub act: Act,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Child {
    /// Time after which the process exits by itself (0: never).
    pub exit_after_ns: u64,
    pub exit_code: i32,
    /// Time it takes to die after a signal.
    pub kill_latency_ns: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(default)]
pub struct Config {
    pub seed: u64,
    pub hash_seed: u64,
    pub cpus: u32,
    pub sched: Sched,
    pub faults: Vec<Fault>,
    pub file_read: Chunk,
    pub file_write: Chunk,
    pub pipe_read: Chunk,
    pub pipe_write: Chunk,
    pub sock_read: Chunk,
    pub sock_write: Chunk,
    /// Per-mille probability that an eligible read/write is interrupted.
    pub eintr: u32,
    /// Per-mille probability that a size told by stat is not the size of what
    /// will be read (a file being written, or a file system which does not know).
    pub stat_lies: u32,
    /// Bytes that can still be written to files before ENOSPC.
    pub disk_free: Option<u64>,
    pub shuffle_dirs: bool,
    pub ns_per_step: u64,
    pub max_ticks: u64,
    pub epoch: u64,
    pub children: Vec<Child>,
    pub latency_max_ns: u64,
    pub pipe_cap: u32,
}

impl Default for Config {
    fn default() -> Config {
        Config {
            seed: 0,
            hash_seed: 0,
            cpus: 2,
            sched: Sched::Seq,
            faults: vec![],
            file_read: Chunk::Full,
            file_write: Chunk::Full,
            pipe_read: Chunk::Full,
            pipe_write: Chunk::Full,
            sock_read: Chunk::Full,
            sock_write: Chunk::Full,
            eintr: 0,
            stat_lies: 0,
            disk_free: None,
            shuffle_dirs: false,
            ns_per_step: 1000,
            max_ticks: 400_000_000,
            epoch: 1_700_000_000,
            children: vec![],
            latency_max_ns: 0,
            pipe_cap: 65536,
        }
    }
}

// ---------------------------------------------------------------------------
// World

pub type Tid = usize;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cond {
    Ready,
    Futex(usize),
    Readable(i32),
    Writable(i32),
    Acceptable(i32),
    Join(Tid),
    ChildExit(i32),
    Sleep,
    /// No thread of the system under test can run before the given number of
    /// simulated nanoseconds has passed.
    Quiet(u64),
    /// World-thread wait on harness state: the counter's value differs.
    Changed(usize, u64),
    Done,
}

pub struct Thread {
    pub go: AtomicU32,
    pub cond: Cond,
    pub deadline: Option<u64>,
    pub woken: bool,
    pub bitset: u32,
    /// Part of the environment rather than of the system under test.
    pub world: bool,
    pub finished: bool,
    pub joined: bool,
    pub prio: u64,
    pub pthread: u64,
    pub name: String,
}

pub struct World {
    pub cfg: Config,
    pub threads: Vec<Box<Thread>>,
    pub cur: Tid,
    pub now: u64,
    pub next_world_name: bool,
    // scheduler
    pub rng: Rng,
    pub explicit: VecDeque<(u64, u32)>,
    pub change_points: Vec<u64>,
    pub out: Outcome,
    // io
    pub io_rng: Rng,
    pub rand_rng: Rng,
    pub fs: crate::fsim::Fs,
    pub net: crate::netsim::Net,
    pub proc_: crate::procsim::Procs,
    pub fds: Vec<Option<Fd>>,
    pub fault_seen: Vec<u64>,
    pub counters: Vec<u64>,
    pub eintr_run: u32,
}

#[derive(Clone, Debug)]
pub enum Fd {
    File { ino: usize, pos: u64, append: bool, path: String },
    Null,
    Stdout,
    Stderr,
    PipeR(usize),
    PipeW(usize),
    Sock { id: usize, nonblock: bool },
}

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static mut WORLD: *mut World = std::ptr::null_mut();
static mut OUT_PTR: *mut u8 = std::ptr::null_mut();
static mut OUT_CAP: usize = 0;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[inline]
pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TID.with(|t| t.get()) != usize::MAX
}
#[inline]
pub fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}
pub fn me() -> Tid {
    TID.with(|t| t.get())
}
pub(crate) fn set_me(t: Tid) {
    TID.with(|c| c.set(t));
}

// Basic-block instrumentation -------------------------------------------------

pub static mut TICK: u64 = 0;
static mut NEXT_STOP: u64 = u64::MAX;
static mut MAX_TICK: u64 = u64::MAX;
pub static mut EDGES: *mut u8 = std::ptr::null_mut();
pub static mut NEDGES: usize = 0;
const EDGE_CAP: usize = 1 << 20;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    if EDGES.is_null() {
        let p = raw::sys6(9, 0, EDGE_CAP as i64, 3, 0x21 /*SHARED|ANON*/, -1, 0);
        EDGES = p as *mut u8;
    }
    let mut p = start;
    while p < stop {
        NEDGES += 1;
        *p = NEDGES.min(EDGE_CAP - 1) as u32;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    *EDGES.add(*guard as usize) = 1;
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    TICK += 1;
    if TICK >= NEXT_STOP {
        edge_stop();
    }
}

#[cold]
#[inline(never)]
unsafe fn edge_stop() {
    if TID.with(|t| t.get()) == usize::MAX {
        return;
    }
    if TICK >= MAX_TICK {
        finish(End::StepLimit);
    }
    let saved = *libc::__errno_location();
    sched(false, true);
    *libc::__errno_location() = saved;
}

fn arm(w: &mut World) {
    unsafe {
        let mut stop = MAX_TICK;
        match &w.cfg.sched {
            Sched::Seq => {},
            Sched::Random { edges, .. } => {
                if *edges > 0 {
                    let e = *edges;
                    stop = stop.min(TICK + 1 + w.rng.below(2 * e));
                }
            },
            Sched::Pct { .. } => {
                if let Some(&c) = w.change_points.last() {
                    stop = stop.min(c.max(TICK + 1));
                }
            },
            Sched::Explicit(_) => {
                while let Some(&(t, _)) = w.explicit.front() {
                    if t <= TICK {
                        w.explicit.pop_front();
                    } else {
                        break;
                    }
                }
                if let Some(&(t, _)) = w.explicit.front() {
                    stop = stop.min(t);
                }
            },
        }
        NEXT_STOP = stop;
    }
}

// ---------------------------------------------------------------------------
// Lifecycle

/// Map a shared region for the outcome; call before forking.
pub struct OutBuf {
    pub ptr: *mut u8,
    pub cap: usize,
}
impl OutBuf {
    pub fn new(cap: usize) -> OutBuf {
        unsafe {
            let p = raw::sys6(9, 0, cap as i64, 3, 0x21, -1, 0);
            assert!(p > 0);
            OutBuf { ptr: p as *mut u8, cap }
        }
    }
    pub fn clear(&self) {
        unsafe {
            *(self.ptr as *mut u64) = 0;
        }
    }
    pub fn read(&self) -> Option<Outcome> {
        unsafe {
            let n = *(self.ptr as *const u64) as usize;
            if n == 0 {
                return None;
            }
            let s = std::slice::from_raw_parts(self.ptr.add(8), n);
            bincode::deserialize(s).ok()
        }
    }
}
impl Drop for OutBuf {
    fn drop(&mut self) {
        unsafe {
            raw::sys3(11, self.ptr as i64, self.cap as i64, 0);
        }
    }
}

/// Enter the simulated world. The calling thread becomes the main thread.
pub fn enter(cfg: Config, out: &OutBuf) {
    unsafe {
        OUT_PTR = out.ptr;
        OUT_CAP = out.cap;
        let mut seed = Rng::new(cfg.seed ^ 0x51D05);
        let io_rng = seed.fork(1);
        let rand_rng = Rng::new(cfg.hash_seed ^ 0xA11CE);
        let mut rng = Rng::new(match cfg.sched {
            Sched::Random { seed, .. } | Sched::Pct { seed, .. } => seed,
            _ => 0,
        });
        let mut change_points = vec![];
        if let Sched::Pct { depth, horizon, .. } = cfg.sched {
            for _ in 0..depth {
                change_points.push(1 + rng.below(horizon.max(1)));
            }
            change_points.sort();
            change_points.reverse();
        }
        let explicit = match &cfg.sched {
            Sched::Explicit(v) => v.iter().cloned().collect(),
            _ => VecDeque::new(),
        };
        // one allocation arena, so that addresses do not depend on real timing
        libc::mallopt(-8 /*M_ARENA_MAX*/, 1);
        TICK = 0;
        MAX_TICK = cfg.max_ticks;
        let nfaults = cfg.faults.len();
        let pr = rng.next() | 1 << 40;
        let world = Box::new(World {
            threads: vec![],
            cur: 0,
            now: 1_000_000_000,
            next_world_name: false,
            rng,
            explicit,
            change_points,
            out: Outcome { fault_fired: vec![0; nfaults], ..Default::default() },
            io_rng,
            rand_rng,
            fs: crate::fsim::Fs::new(),
            net: Default::default(),
            proc_: Default::default(),
            fds: vec![Some(Fd::Null), Some(Fd::Stdout), Some(Fd::Stderr)],
            fault_seen: vec![0; nfaults],
            counters: vec![],
            eintr_run: 0,
            cfg,
        });
        WORLD = Box::into_raw(world);
        new_thread(pr);
        set_me(0);
        arm(w());
        if !EDGES.is_null() {
            std::ptr::write_bytes(EDGES, 0, (NEDGES + 1).min(EDGE_CAP));
        }
        ACTIVE.store(true, Ordering::SeqCst);
    }
}

pub(crate) fn new_thread(prio: u64) -> Tid {
    let w = w();
    let world = !w.threads.is_empty() && (w.next_world_name || w.threads[w.cur].world);
    w.next_world_name = false;
    w.threads.push(Box::new(Thread {
        go: AtomicU32::new(0),
        cond: Cond::Ready,
        deadline: None,
        woken: false,
        bitset: !0,
        world,
        finished: false,
        joined: false,
        prio,
        pthread: 0,
        name: String::new(),
    }));
    w.threads.len() - 1
}

/// End the run: record the outcome in shared memory and leave the process.
pub fn finish(end: End) -> ! {
    unsafe {
        ACTIVE.store(false, Ordering::SeqCst);
        let w = w();
        let mut out = std::mem::take(&mut w.out);
        out.end = end;
        out.ticks = TICK;
        out.sim_ns = w.now - 1_000_000_000;
        out.threads = w.threads.len() as u32;
        w.fs.dump(&mut out);
        if !EDGES.is_null() {
            let s = std::slice::from_raw_parts(EDGES, (NEDGES + 1).min(EDGE_CAP));
            out.edges = s.iter().filter(|&&b| b != 0).count() as u32;
        }
        let mut code = 0;
        let bytes = match bincode::serialize(&out) {
            Ok(b) if b.len() + 8 <= OUT_CAP => b,
            r => {
                code = 3;
                let size = r.map_or(0, |b| b.len());
                let note = format!("outcome too large: {size} bytes (stdout {}, stderr {}, sched {}, events {}, {} files)", out.stdout.len(), out.stderr.len(), out.sched.len(), out.events.len(), out.files.len());
                out.files.clear();
                out.sched.clear();
                out.stdout.truncate(4096);
                out.stderr.truncate(4096);
                out.custom.clear();
                out.events.clear();
                out.notes.push(note.clone());
                out.end = End::Harness(note);
                bincode::serialize(&out).unwrap_or_default()
            },
        };
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), OUT_PTR.add(8), bytes.len());
        *(OUT_PTR as *mut u64) = bytes.len() as u64;
        raw::exit_group(code);
    }
}

// ---------------------------------------------------------------------------
// Scheduler

fn eligible(w: &World, t: Tid) -> bool {
    let th = &w.threads[t];
    match th.cond {
        Cond::Done => false,
        Cond::Ready => true,
        Cond::Quiet(_) => false,
        c => cond_met(w, t, c) || th.deadline.map_or(false, |d| d <= w.now),
    }
}

fn cond_met(w: &World, t: Tid, c: Cond) -> bool {
    match c {
        Cond::Ready => true,
        Cond::Futex(_) => w.threads[t].woken,
        Cond::Readable(fd) => crate::netsim::readable(w, fd),
        Cond::Writable(fd) => crate::netsim::writable(w, fd),
        Cond::Acceptable(fd) => crate::netsim::acceptable(w, fd),
        Cond::Join(o) => w.threads[o].finished,
        Cond::ChildExit(p) => crate::procsim::exited(w, p),
        Cond::Sleep => false,
        Cond::Quiet(_) => false,
        Cond::Changed(i, v) => w.counters[i] != v,
        Cond::Done => false,
    }
}

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100000001B3).rotate_left(23)
}

/// Fold an observation into the trace hash.
pub fn trace(kind: u64, v: u64) {
    let w = w();
    w.out.trace_hash = mix(mix(mix(w.out.trace_hash, kind), v), w.cur as u64);
}

/// Pick the next thread to run. `blocked`: the caller cannot continue.
fn choose(w: &mut World, blocked: bool, edge: bool, yielding: bool) -> Tid {
    let cur = w.cur;
    let n = w.threads.len();
    let mut ready: Vec<Tid> = Vec::with_capacity(n);
    for t in 0..n {
        if t == cur && !blocked {
            ready.push(t);
        } else if t != cur || blocked {
            if eligible(w, t) {
                ready.push(t);
            }
        }
    }
    if ready.is_empty() {
        return usize::MAX;
    }
    let default = if !blocked && !yielding {
        cur
    } else {
        *ready.iter().find(|&&t| t > cur).unwrap_or(&ready[0])
    };
    let tick = unsafe { TICK };
    let pick = match w.cfg.sched {
        Sched::Seq => default,
        Sched::Random { den, .. } => {
            if ready.len() == 1 {
                ready[0]
            } else if blocked || edge || yielding || w.rng.below(den.max(1) as u64) == 0 {
                ready[w.rng.idx(ready.len())]
            } else {
                default
            }
        },
        Sched::Pct { .. } => {
            while let Some(&c) = w.change_points.last() {
                if c <= tick {
                    w.change_points.pop();
                    let k = w.change_points.len() as u64;
                    w.threads[cur].prio = k + 1;
                } else {
                    break;
                }
            }
            let skip = if yielding && ready.len() > 1 {
                w.threads[cur].prio = 0;
                cur
            } else {
                usize::MAX
            };
            let mut best = usize::MAX;
            for &t in &ready {
                if t != skip && (best == usize::MAX || w.threads[t].prio > w.threads[best].prio) {
                    best = t;
                }
            }
            best
        },
        Sched::Explicit(_) => {
            let mut pick = default;
            while let Some(&(t, c)) = w.explicit.front() {
                if t < tick {
                    w.explicit.pop_front();
                } else {
                    if t == tick {
                        w.explicit.pop_front();
                        if ready.contains(&(c as usize)) {
                            pick = c as usize;
                        }
                    }
                    break;
                }
            }
            pick
        },
    };
    if pick != default {
        w.out.sched.push((tick, pick as u32));
    }
    arm(w);
    pick
}

fn next_timer(w: &World) -> Option<u64> {
    let mut best: Option<u64> = None;
    for th in &w.threads {
        if th.finished || matches!(th.cond, Cond::Done | Cond::Quiet(_)) {
            continue;
        }
        if let Some(d) = th.deadline {
            best = Some(best.map_or(d, |b| b.min(d)));
        }
    }
    for t in [crate::netsim::next_event(w), crate::procsim::next_event(w)] {
        if let Some(t) = t {
            best = Some(best.map_or(t, |b| b.min(t)));
        }
    }
    best
}

unsafe fn switch_to(t: Tid, park: bool) {
    let w = w();
    let from = w.cur;
    if t != from {
        w.out.switches += 1;
        w.out.sched_hash = mix(mix(w.out.sched_hash, from as u64 * 64 + t as u64), w.out.trace_hash);
    }
    w.cur = t;
    if t == from && park {
        return;
    }
    let target: *const Thread = &*w.threads[t];
    let mine: *const Thread = &*w.threads[from];
    (*target).go.store(1, Ordering::SeqCst);
    raw::futex_wake((*target).go.as_ptr());
    if park {
        wait_go(mine);
    }
}

unsafe fn wait_go(mine: *const Thread) {
    loop {
        if (*mine).go.swap(0, Ordering::SeqCst) == 1 {
            return;
        }
        raw::futex_wait((*mine).go.as_ptr(), 0);
    }
}

pub(crate) unsafe fn thread_first_wait(mine: *const Thread) {
    wait_go(mine);
}

/// Scheduling point for a thread that can continue.
fn sched(yielding: bool, edge: bool) {
    let w = w();
    if !edge {
        unsafe {
            TICK += 1;
            if TICK >= MAX_TICK {
                finish(End::StepLimit);
            }
        }
    }
    w.now += w.cfg.ns_per_step;
    let t = choose(w, false, edge, yielding);
    if t != w.cur {
        unsafe { switch_to(t, true) }
    }
}

/// A scheduling point before an intercepted operation.
#[inline]
pub fn point() {
    sched(false, false)
}
pub fn yield_point() {
    sched(true, false)
}

/// Block the calling thread. Returns true if the condition was met, false on
/// timeout.
pub fn block(cond: Cond, deadline: Option<u64>) -> bool {
    let w0 = w();
    let me = w0.cur;
    unsafe {
        TICK += 1;
        if TICK >= MAX_TICK {
            finish(End::StepLimit);
        }
    }
    w0.now += w0.cfg.ns_per_step;
    {
        let th = &mut w0.threads[me];
        th.cond = cond;
        th.deadline = deadline;
    }
    dispatch(true);
    let w = w();
    let met = match cond {
        Cond::Quiet(_) => true,
        c => cond_met(w, me, c),
    };
    let th = &mut w.threads[me];
    th.cond = Cond::Ready;
    th.deadline = None;
    met
}

/// The calling thread is not runnable: hand the token to somebody else.
fn dispatch(park: bool) {
    loop {
        let w = w();
        let t = choose(w, true, false, false);
        if t != usize::MAX {
            unsafe { switch_to(t, park) }
            return;
        }
        // Nothing can run now. Quiet waiters go first if their horizon is
        // shorter than the next timer.
        let timer = next_timer(w);
        let mut quiet: Option<(Tid, u64)> = None;
        for (i, th) in w.threads.iter().enumerate() {
            if let Cond::Quiet(h) = th.cond {
                let due = w.now + h;
                if timer.map_or(true, |t| t > due) && quiet.map_or(true, |(_, q)| due < q) {
                    quiet = Some((i, due));
                }
            }
        }
        if let Some((t, _)) = quiet {
            w.threads[t].cond = Cond::Ready;
            unsafe { switch_to(t, park) }
            // the caller may itself be the quiet waiter
            return;
        }
        match timer {
            Some(t) => w.now = w.now.max(t),
            None => {
                let mut s = String::new();
                for (i, th) in w.threads.iter().enumerate() {
                    if !th.finished {
                        s.push_str(&format!("t{i}{}:{:?} ", if th.world { "w" } else { "" }, th.cond));
                    }
                }
                finish(End::Deadlock(s));
            },
        }
    }
}

/// Called by a finished thread: never returns control to it.
pub(crate) fn thread_exit() {
    let w = w();
    let me = me();
    w.threads[me].finished = true;
    w.threads[me].cond = Cond::Done;
    unsafe {
        TICK += 1;
    }
    set_me(usize::MAX);
    dispatch(false);
}

pub(crate) fn wake_futex(addr: usize, n: usize, bits: u32) -> usize {
    let w = w();
    let mut k = 0;
    for th in w.threads.iter_mut() {
        if k >= n {
            break;
        }
        if th.cond == Cond::Futex(addr) && !th.woken && th.bitset & bits != 0 {
            th.woken = true;
            k += 1;
        }
    }
    k
}

// ---------------------------------------------------------------------------
// Faults

pub(crate) fn count(kind: &str) {
    let w = w();
    if let Some(v) = w.out.injected.get_mut(kind) {
        *v += 1;
    } else {
        w.out.injected.insert(kind.to_owned(), 1);
    }
}

pub(crate) fn is_world() -> bool {
    let w = w();
    w.threads[w.cur].world
}

/// Consult the fault plan for a call made by the system under test.
pub(crate) fn fault(site: Site, path: &str) -> Option<Act> {
    let w = w();
    if w.threads[w.cur].world {
        return None;
    }
    *w.out.calls.entry(SITES[site as usize].to_owned()).or_insert(0) += 1;
    let mut hit = None;
    for i in 0..w.cfg.faults.len() {
        let f = &w.cfg.faults[i];
        if f.site != site || (!f.path.is_empty() && !path.contains(&f.path)) {
            continue;
        }
        let seen = w.fault_seen[i];
        w.fault_seen[i] += 1;
        if hit.is_none() && seen >= f.nth && (f.times == 0 || seen < f.nth + f.times) {
            hit = Some((i, f.act));
        }
    }
    let (i, act) = hit?;
    w.out.fault_fired[i] += 1;
    let kind = match act {
        Act::Errno(e) => format!("{}:{}", SITES[site as usize], errno_name(e)),
        Act::Short(_) => format!("{}:short", SITES[site as usize]),
        Act::Stall(_) => format!("{}:stall", SITES[site as usize]),
    };
    count(&kind);
    if let Act::Stall(ns) = act {
        let d = w.now + ns;
        block(Cond::Sleep, Some(d));
        return None;
    }
    Some(act)
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::EINTR => "EINTR",
        libc::ENOSPC => "ENOSPC",
        libc::ENOENT => "ENOENT",
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        libc::ENOMEM => "ENOMEM",
        libc::ECONNRESET => "ECONNRESET",
        libc::EPIPE => "EPIPE",
        libc::EAGAIN => "EAGAIN",
        libc::ECONNREFUSED => "ECONNREFUSED",
        libc::ECONNABORTED => "ECONNABORTED",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::ENFILE => "ENFILE",
        libc::EISDIR => "EISDIR",
        libc::EADDRINUSE => "EADDRINUSE",
        _ => "E?",
    }
}

/// How many bytes a transfer of `want` may move, or an errno.
pub(crate) fn transfer(site: Site, path: &str, want: usize) -> Result<usize, i32> {
    let w = w();
    if w.threads[w.cur].world {
        return Ok(want);
    }
    let mut max = want;
    match fault(site, path) {
        Some(Act::Errno(e)) => return Err(e),
        Some(Act::Short(n)) => max = max.min((n as usize).max(1)),
        _ => {},
    }
    if w.cfg.eintr > 0 && w.eintr_run < 3 && w.io_rng.below(1000) < w.cfg.eintr as u64 {
        w.eintr_run += 1;
        count(&format!("{}:EINTR", SITES[site as usize]));
        return Err(libc::EINTR);
    }
    w.eintr_run = 0;
    let c = match site {
        Site::Read => w.cfg.file_read,
        Site::Write => w.cfg.file_write,
        Site::PipeRead => w.cfg.pipe_read,
        Site::PipeWrite => w.cfg.pipe_write,
        Site::SockRead => w.cfg.sock_read,
        Site::SockWrite => w.cfg.sock_write,
        _ => Chunk::Full,
    };
    let lim = match c {
        Chunk::Full => max,
        Chunk::Max(n) => max.min(n.max(1) as usize),
        Chunk::Rand(n) => {
            let m = (n.max(1) as usize).min(max.max(1));
            (1 + w.io_rng.idx(m)).min(max)
        },
    };
    if lim < want {
        count(&format!("{}:short", SITES[site as usize]));
    }
    Ok(lim.min(max))
}

// ---------------------------------------------------------------------------
// Harness API

pub fn add_file(path: &str, data: &[u8]) {
    w().fs.add_file(path, data);
}
pub fn remove_file(path: &str) {
    let p = w().fs.norm(path);
    if let Some(crate::fsim::Node::File(_)) = w().fs.nodes.get(&p) {
        w().fs.nodes.remove(&p);
    }
}
pub fn add_dir(path: &str) {
    w().fs.mkdirs(path);
}
pub fn set_cwd(path: &str) {
    w().fs.mkdirs(path);
    w().fs.cwd = path.to_owned();
}
/// Contents of standard input.
pub fn set_stdin(data: &[u8]) {
    let w = w();
    w.fs.add_file("/.stdin", data);
    if let Some(crate::fsim::Node::File(ino)) = w.fs.nodes.remove("/.stdin") {
        w.fds[0] = Some(Fd::File { ino, pos: 0, append: false, path: "<stdin>".into() });
    }
}
pub fn read_back(path: &str) -> Option<Vec<u8>> {
    w().fs.read_file(path)
}
/// Mark files present so far as the initial state.
pub fn seal_fs() {
    w().fs.seal();
}
pub fn event(s: String) {
    if active() {
        w().out.events.push(s);
    }
}
pub fn custom(key: &str, bytes: Vec<u8>) {
    w().out.custom.insert(key.to_owned(), bytes);
}
pub fn note(s: String) {
    w().out.notes.push(s);
}
/// Count a fault injected by a harness component (such as a custom writer).
pub fn note_injected(kind: &str) {
    count(kind);
}
pub fn now() -> u64 {
    w().now
}
/// How much the program has written to standard output so far.
pub fn stdout_len() -> usize {
    w().out.stdout.len()
}
pub fn ticks() -> u64 {
    unsafe { TICK }
}
/// Spawn a thread belonging to the environment (never fault-injected).
pub fn spawn_world<F: FnOnce() + Send + 'static>(name: &str, f: F) -> std::thread::JoinHandle<()> {
    w().next_world_name = true;
    std::thread::Builder::new().name(name.into()).stack_size(1 << 20).spawn(f).expect("world thread")
}
/// Wait until nothing of the system under test can run within `horizon_ns`.
pub fn wait_quiet(horizon_ns: u64) {
    block(Cond::Quiet(horizon_ns), None);
}
pub fn sleep_ns(ns: u64) {
    let d = w().now + ns;
    block(Cond::Sleep, Some(d));
}
pub fn new_counter() -> usize {
    w().counters.push(0);
    w().counters.len() - 1
}
pub fn bump(i: usize) {
    w().counters[i] += 1;
}
pub fn counter(i: usize) -> u64 {
    w().counters[i]
}
/// Wait for a counter to move away from `v`, at most `ns` nanoseconds.
pub fn wait_changed(i: usize, v: u64, ns: u64) -> bool {
    let d = w().now + ns;
    block(Cond::Changed(i, v), Some(d))
}
/// Connect standard input/output of the process to simulated pipes; returns
/// the environment's ends (writer to stdin, reader of stdout).
pub fn stdio_pipes() -> (i32, i32) {
    crate::netsim::stdio_pipes()
}
pub fn sys_write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = crate::netsim::write_fd(fd, b);
        if n <= 0 {
            return false;
        }
        b = &b[n as usize..];
    }
    true
}
pub fn sys_read(fd: i32, b: &mut [u8]) -> isize {
    crate::netsim::read_fd(fd, b)
}
pub fn sys_close(fd: i32) {
    crate::netsim::close_fd(fd);
}
pub fn kill_child(pid: i32, code: i32) {
    crate::procsim::exit_now(pid, code);
}
pub fn last_child() -> i32 {
    w().proc_.list.last().map_or(0, |c| c.pid)
}
/// A variable of the environment a child was given.
pub fn child_env(pid: i32, key: &str) -> Option<String> {
    let p = w().proc_.list.iter().find(|p| p.pid == pid)?;
    p.env.iter().find_map(|e| e.strip_prefix(key)?.strip_prefix('=').map(str::to_owned))
}
/// The descriptors a child has as standard output and standard error (-1: none).
pub fn child_stdio(pid: i32) -> [i32; 2] {
    w().proc_.list.iter().find(|p| p.pid == pid).map_or([-1, -1], |p| p.stdio)
}
/// Wait at most `ns` nanoseconds for a child to die.
pub fn wait_child(pid: i32, ns: Option<u64>) -> bool {
    let d = ns.map(|n| w().now + n);
    matches!(crate::procsim::wait_dead(pid, d), Ok(Some(_)) | Err(_))
}
/// How a child ended.
pub fn child_status(pid: i32) -> Option<i32> {
    w().proc_.list.iter().find(|p| p.pid == pid).and_then(|p| p.status)
}
/// Advance this counter whenever a child is started.
pub fn on_spawn(counter: usize) {
    w().proc_.counter = Some(counter);
}
/// Which children there are.
pub fn children() -> Vec<i32> {
    w().proc_.list.iter().map(|p| p.pid).collect()
}
/// Hang up a connection in both directions.
pub fn sys_shutdown(fd: i32) {
    let _ = crate::netsim::shutdown(fd, libc::SHUT_RDWR);
}
pub fn sys_shutdown_wr(fd: i32) {
    let _ = crate::netsim::shutdown(fd, libc::SHUT_WR);
}
pub fn sys_reset(fd: i32) {
    crate::netsim::reset_fd(fd);
}
/// Connect to a local port; -1 if nobody listens.
pub fn sys_connect(port: u16) -> i32 {
    let fd = crate::netsim::socket(false);
    match crate::netsim::connect(fd, port) {
        Ok(()) => fd,
        Err(_) => {
            crate::netsim::close_fd(fd);
            -1
        },
    }
}
/// Listen on a local port; the result is to be passed to `sys_accept`.
pub fn sys_listen(port: u16) -> i32 {
    let fd = crate::netsim::socket(false);
    let _ = crate::netsim::bind(fd, port);
    let _ = crate::netsim::listen(fd);
    fd
}
pub fn sys_accept(fd: i32) -> i32 {
    crate::netsim::accept(fd).map_or(-1, |a| a.0)
}
/// Record everything the program sends on this connection.
pub fn capture(fd: i32) {
    crate::netsim::capture(fd);
}
pub fn captured_len() -> usize {
    w().out.custom.get("captured").map_or(0, |c| c.len())
}
pub fn all_threads_done_except_world() -> bool {
    w().threads.iter().all(|t| t.world || t.finished)
}

pub type Map<K, V> = BTreeMap<K, V>;
