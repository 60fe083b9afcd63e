//! C13: language-server messages survive any splitting of the byte streams.
use crate::c14::Talk;
use crate::lsp::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simdrv::*;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    pub script: Script,
    pub cfg: Config,
}
pub struct C13;

impl Check for C13 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let mut spec = project(r, if thorough { 5 } else { 3 }, true);
        if r.chance(1, 3) {
            set_langserver(&mut spec, true);
        }
        let root = r.chance(4, 5);
        // reports from other threads more often than not
        let caps = (r.below(64) as u8) | if r.chance(1, 2) { 4 } else { 0 };
        let steps = 2 + r.idx(if thorough { 40 } else { 16 });
        let mut t = Talk::new(r, &spec);
        t.steady = true;
        let m = initialize(json!(1), root, caps);
        t.items.push(m);
        t.items.push(initialized());
        for _ in 0..steps {
            t.step(true);
        }
        if t.r.chance(1, 3) {
            t.items.push(Item::Settle);
            let (p, x) = t.open.first().map_or((t.paths[0].clone(), String::new()), |o| (o.0.clone(), o.2.clone()));
            let q = params(t.r, "textDocument/references", &uri(&p), &x);
            t.items.push(request(json!(5), "textDocument/references", q));
        }
        t.items.push(Item::Settle);
        if t.r.chance(1, 2) {
            t.send(json!({"jsonrpc": "2.0", "id": 6, "method": "shutdown"}));
            t.send(json!({"jsonrpc": "2.0", "method": "exit"}));
        }
        let items = std::mem::take(&mut t.items);
        let mut cfg = Config { max_ticks: 400_000_000, ..Config::default() };
        gen::benign_delivery(r, &mut cfg);
        gen::coarse(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        let piece = |r: &mut Rng| match r.below(6) {
            0 => Chunk::Full,
            1 => Chunk::Max(1),
            2 => Chunk::Max(1 + r.below(40) as u32),
            3 => Chunk::Rand(1 + r.below(40) as u32),
            _ => Chunk::Rand(1 + r.below(3000) as u32),
        };
        cfg.pipe_read = piece(r);
        cfg.pipe_write = piece(r);
        cfg.eintr = *r.pick(&[0, 0, 10, 100, 300]);
        cfg.pipe_cap = *r.pick(&[1 << 16, 4096, 64, 1]);
        cfg.sched = gen::schedule(r, 200_000);
        let slow = if r.chance(1, 3) { Some((1 + r.below(4000) as u32, r.below(2_000_000))) } else { None };
        Case { script: Script { spec, items, slow }, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let base = Config { hash_seed: c.cfg.hash_seed, max_ticks: 400_000_000, ..Config::default() };
        let whole = Script { slow: None, ..c.script.clone() };
        let a = run(ex, &base, &whole);
        let b = run(ex, &c.cfg, &c.script);
        let mut w = vec![];
        for o in [&a, &b] {
            if let Some(v) = judge::bad_end(o, true) {
                return v;
            }
            match parse(o) {
                Ok(x) => w.push(x),
                Err(e) => return Verdict::bad("framing", e),
            }
        }
        let answers: Vec<Vec<String>> = w.iter().map(|w| w.responses().iter().map(|r| r.1.to_string()).collect()).collect();
        if answers[0] != answers[1] {
            return Verdict::bad("responses differ", first_diff(&answers[0].join("\n"), &answers[1].join("\n")));
        }
        // the same batches
        let sizes: Vec<Vec<usize>> = w.iter().map(|w| w.msgs.iter().filter_map(|m| m.1.as_array().map(|a| a.len())).collect()).collect();
        if sizes[0] != sizes[1] {
            return Verdict::bad("batches differ", format!("{:?}\n{:?}", sizes[0], sizes[1]));
        }
        // how often files are reported on in between is a matter of timing
        let notes: Vec<Vec<String>> = w
            .iter()
            .map(|w| {
                let mut v: Vec<String> = w
                    .msgs
                    .iter()
                    .filter(|m| m.1["method"].is_string() && m.1["method"] != "textDocument/publishDiagnostics" && m.1["method"] != "$window/status")
                    .map(|m| m.1.to_string())
                    .collect();
                v.sort();
                v
            })
            .collect();
        if notes[0] != notes[1] {
            return Verdict::bad("notifications differ", first_diff(&notes[0].join("\n"), &notes[1].join("\n")));
        }
        let last: Vec<_> = w.iter().map(|w| w.diagnostics(usize::MAX)).collect();
        if last[0] != last[1] {
            return Verdict::bad("diagnostics differ", first_diff(&format!("{:#?}", last[0]), &format!("{:#?}", last[1])));
        }
        if a.end != b.end {
            return Verdict::bad("different exit status", format!("{:?} and {:?}", a.end, b.end));
        }
        if b.threads > 4 {
            ex.probe("several_reporting_threads");
        }
        if !sizes[0].is_empty() {
            ex.probe("batch_reply");
        }
        if b.stdout.len() > 1 << 16 {
            ex.probe("long_output");
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for items in shrink_list(&c.script.items, 1) {
            v.push(Case { script: Script { items, ..c.script.clone() }, cfg: c.cfg.clone() });
        }
        if c.script.slow.is_some() {
            v.push(Case { script: Script { slow: None, ..c.script.clone() }, cfg: c.cfg.clone() });
        }
        for spec in c.script.spec.shrink() {
            v.push(Case { script: Script { spec, ..c.script.clone() }, cfg: c.cfg.clone() });
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (3000, 150000)
    }
    fn rule(&self) -> String {
        "one case = one editor session run twice: delivered whole on an undisturbed schedule, and with input and output split, interrupted and stalled on a drawn schedule; distinct = distinct traces of cases with an injected variation or a context switch".into()
    }
    fn components(&self) -> Value {
        json!({
            "real": ["dm-langserver (whole program)", "dreammaker and dreamchecker as used by it"],
            "simulated": ["the editor", "pipes", "file system", "thread scheduling", "hash seeds"],
            "stub": ["build-info.txt (fixed text)"],
        })
    }
}
