use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// How a simulated execution ended.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum End {
    /// The program exited with this status.
    Exit(i32),
    /// The program called abort().
    Abort,
    /// Nothing was runnable and no timer was pending.
    Deadlock(String),
    /// The step budget was exhausted.
    StepLimit,
    /// The process died of a signal (filled in by the parent).
    Crash(i32),
    /// The wall-clock watchdog killed the process (filled in by the parent).
    Hang,
    /// The simulator itself met something it does not model.
    Harness(String),
}

impl Default for End {
    fn default() -> End {
        End::Harness("no outcome".into())
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    pub end: End,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// Files created or modified during the run, and their final contents.
    pub files: BTreeMap<String, Vec<u8>>,
    /// Paths which existed at the start and no longer do.
    pub removed: Vec<String>,
    /// Directories created during the run.
    pub new_dirs: Vec<String>,
    /// Non-default scheduling decisions: (tick, thread).
    pub sched: Vec<(u64, u32)>,
    /// Injected faults by kind.
    pub injected: BTreeMap<String, u64>,
    /// For each planned fault, how often it fired.
    pub fault_fired: Vec<u64>,
    /// Calls seen by site.
    pub calls: BTreeMap<String, u64>,
    pub ticks: u64,
    pub switches: u64,
    pub threads: u32,
    pub sim_ns: u64,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub edges: u32,
    /// History recorded by the workload.
    pub events: Vec<String>,
    pub custom: BTreeMap<String, Vec<u8>>,
    pub notes: Vec<String>,
}

impl Outcome {
    pub fn out_str(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err_str(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn get(&self, key: &str) -> Option<&[u8]> {
        self.custom.get(key).map(|v| &v[..])
    }
}
