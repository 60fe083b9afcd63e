//! Running the linter and reading its reports.
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::dm::DmSpec;

/// How the linter is called.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Call {
    pub json: bool,
    pub parse_only: bool,
    /// Pass the configuration file with `-c` instead of leaving it to be found.
    pub config: bool,
    /// Leave the environment to be found in the working directory.
    pub detect: bool,
    /// Name the environment relative to the working directory.
    pub relative: bool,
}

impl Call {
    pub fn gen(r: &mut Rng, spec: &DmSpec) -> Call {
        let has = spec.other.iter().any(|o| o.0 == "SpacemanDMM.toml");
        Call { json: r.chance(1, 3), parse_only: r.chance(1, 8), config: has && r.chance(1, 4), detect: false, relative: r.chance(1, 3) }
    }
    pub fn args(&self, spec: &DmSpec) -> Vec<String> {
        let mut a = vec!["dreamchecker".to_string()];
        if !self.detect {
            a.push("-e".into());
            a.push(if self.relative { spec.files[0].path.clone() } else { spec.dme() });
        }
        if self.config {
            a.push("-c".into());
            a.push(if self.relative { "SpacemanDMM.toml".into() } else { format!("{}/SpacemanDMM.toml", simgen::dm::ROOT) });
        }
        if self.json {
            a.push("--json".into());
        }
        if self.parse_only {
            a.push("--parse-only".into());
        }
        a
    }
    pub fn shrink(&self) -> Vec<Call> {
        let mut v = vec![];
        for k in 0..4 {
            let mut c = self.clone();
            match k {
                0 => c.json = false,
                1 => c.parse_only = false,
                2 => c.config = false,
                _ => c.relative = false,
            }
            if c != *self {
                v.push(c);
            }
        }
        v
    }
}

pub fn body() -> i32 {
    sim_dreamchecker::sim::sim_main();
    0
}

/// The diagnostics printed on standard error: blocks separated by empty lines.
pub fn blocks(err: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for l in err.lines() {
        // a new block starts with a location line
        let head = l.ends_with(':') && l.contains(", line ") && l.contains(", column ");
        if head && !cur.is_empty() {
            v.push(std::mem::take(&mut cur));
        }
        cur.push_str(l);
        cur.push('\n');
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

pub fn found(out: &str) -> Option<usize> {
    out.lines().find_map(|l| l.strip_prefix("Found ")?.strip_suffix(" diagnostics")?.parse().ok())
}

/// The exit status, the count and the printed diagnostics must agree.
pub fn consistent(o: &Outcome) -> Option<String> {
    let End::Exit(code) = o.end else { return None };
    let n = found(&o.out_str())?;
    if (code != 0) != (n > 0) {
        return Some(format!("exit status {code} with {n} diagnostics"));
    }
    if o.stderr.len() >= 4 << 20 {
        return None; // the simulator keeps no more
    }
    let b = blocks(&o.err_str()).len();
    if b < n || b == 0 && n > 0 {
        return Some(format!("{n} diagnostics counted, {b} printed"));
    }
    None
}
