//! C17: what the debug adapter sends is whole, numbered in order, and
//! answers every request once.
use crate::dap::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simdrv::*;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    s: Session,
    cfg: Config,
}
pub struct C17;

impl Check for C17 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let s = generate(r, Wish { steps: if thorough { 40 } else { 14 }, faults: false, life: true, odd: true });
        Case { s, cfg: config(r) }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let o = run(ex, &c.cfg, &c.s);
        let h = match history(&o, &c.s) {
            Ok(h) => h,
            Err(v) => return v,
        };
        if let Some(e) = h.log.iter().find(|e| e.is("BAD")) {
            return Verdict::bad("bad query", format!("{}\n{}", e.what, h.show()));
        }
        let mut last = -1;
        for (_, m) in &h.msgs {
            let Some(seq) = m["seq"].as_i64() else {
                return Verdict::bad("no number", m.to_string());
            };
            if seq <= last {
                return Verdict::bad("numbers out of order", format!("{seq} after {last}\n{}", h.show()));
            }
            last = seq;
            let ok = match m["type"].as_str() {
                Some("response") => m["success"].is_boolean() && m["command"].is_string(),
                Some("event") => m["event"].is_string(),
                _ => false,
            };
            if !ok {
                return Verdict::bad("neither a response nor an event", m.to_string());
            }
        }
        if let Err(v) = h.one_response_each(&c.s) {
            return v;
        }
        if h.events("output").count() > 3 {
            ex.probe("output_events");
        }
        if h.msgs.windows(2).any(|w| w[0].1["type"] != w[1].1["type"]) && o.switches > 20 {
            ex.probe("events_amid_responses");
        }
        if c.s.tcp && !h.msgs.is_empty() {
            ex.probe("tcp_session");
        }
        if h.has("connected") {
            ex.probe(if c.s.auxtools { "auxtools_connected" } else { "extools_connected" });
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        shrink(&c.s).into_iter().map(|s| Case { s, cfg: c.cfg.clone() }).collect()
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (9000, 300000)
    }
    fn rule(&self) -> String {
        "one case = one debugging session with a chatty game process; distinct = distinct traces of cases with an injected variation or a context switch".into()
    }
    fn components(&self) -> Value {
        components()
    }
}

pub fn components() -> Value {
    json!({
        "real": ["dm-langserver (debug adapter, as --debugger and started by the language server)", "dreammaker as used by it"],
        "simulated": ["debugger front end", "game process and the debug server within it", "pipes and sockets", "process table and signals", "clock", "thread scheduling", "file system", "hash seeds"],
        "stub": ["build-info.txt (fixed text)"],
    })
}
