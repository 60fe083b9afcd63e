//! C16: published diagnostics settle to those of the current sources.
use crate::lsp::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simdrv::*;
use simgen::dm::DmSpec;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Disk(String, Option<String>),
    Reparse,
    /// A question about a document, opened if need be.
    Ask(String, String),
    /// The whole text of an open document changes.
    Text(String, String),
    Settle,
    Pause(u64),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    spec: DmSpec,
    root: bool,
    caps: u8,
    ops: Vec<Op>,
    cfg: Config,
}
pub struct C16;

impl Check for C16 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let root = r.chance(4, 5);
        let broken = r.chance(1, 2);
        let mut spec = project(r, if thorough { 6 } else { 4 }, broken);
        if r.chance(1, 2) {
            set_langserver(&mut spec, true);
        }
        let caps = r.below(64) as u8;
        let mut text: BTreeMap<String, String> = BTreeMap::new();
        for i in 0..spec.files.len() {
            text.insert(spec.files[i].path.clone(), String::from_utf8(spec.text(i)).unwrap());
        }
        for (p, b) in &spec.other {
            if let Ok(t) = String::from_utf8(b.clone()) {
                text.insert(p.clone(), t);
            }
        }
        let paths: Vec<String> = text.keys().cloned().collect();
        let sources: Vec<String> = spec.files.iter().map(|f| f.path.clone()).collect();
        let original = text.clone();
        let mut ops = vec![];
        for _ in 0..1 + r.idx(if thorough { 24 } else { 8 }) {
            if root {
                for _ in 0..r.idx(3) {
                    let p = r.pick(&paths).clone();
                    let t = match r.below(8) {
                        0 => None,
                        1 | 2 => original.get(&p).cloned(),
                        3 => Some(String::new()),
                        4 => Some(if p.ends_with("toml") { "[langserver]\ndreamchecker = true\n".into() } else { "/datum/broken(\n".into() }),
                        _ => {
                            let t = text.get(&p).cloned().unwrap_or_default();
                            let mut g = simgen::dm::Gen { r, st: simgen::dm::Style { broken: true, max_chunks: 2, ..Default::default() } };
                            Some(if p.ends_with("toml") { format!("{}[langserver]\ndreamchecker = true\n", g.config()) } else { format!("{t}\n{}", g.chunk()) })
                        },
                    };
                    match &t {
                        Some(t) => text.insert(p.clone(), t.clone()),
                        None => text.remove(&p),
                    };
                    ops.push(Op::Disk(p, t));
                }
            }
            match r.below(10) {
                0..=4 if root => ops.push(Op::Reparse),
                5 => ops.push(Op::Settle),
                6 => ops.push(Op::Pause(r.below(100_000))),
                7 => {
                    let d = r.pick(&sources).clone();
                    let t = (0..r.idx(3)).map(|_| snippet(r)).collect::<String>();
                    let t = format!("{}{t}", if r.chance(1, 2) { original.get(&d).cloned().unwrap_or_default() } else { String::new() });
                    ops.push(Op::Text(d, t));
                },
                _ => ops.push(Op::Ask(r.pick(&sources).clone(), r.pick(&METHODS[..6]).to_string())),
            }
        }
        let mut cfg = Config { max_ticks: 400_000_000, ..Config::default() };
        gen::benign_delivery(r, &mut cfg);
        gen::coarse(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        cfg.sched = gen::schedule(r, 300_000);
        if r.chance(1, 4) {
            cfg.faults.push(Fault { site: Site::Thread, path: String::new(), nth: r.below(6), times: *r.pick(&[0, 1]), act: Act::Stall(r.below(1_000_000)) });
        }
        Case { spec, root, caps, ops, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let mut disk: BTreeMap<String, Option<String>> = BTreeMap::new();
        let mut open: BTreeMap<String, String> = BTreeMap::new();
        let mut items = vec![initialize(json!("init"), c.root, c.caps), initialized()];
        let mut id = 0;
        let mut version = 1;
        let ask = |items: &mut Vec<Item>, id: &mut u64, p: &str, m: &str| {
            *id += 1;
            let mut v = json!({"textDocument": {"uri": uri(p)}, "position": {"line": 1, "character": 2}});
            if m == "textDocument/documentSymbol" {
                v.as_object_mut().unwrap().remove("position");
            }
            items.push(request(json!(*id), m, v));
        };
        let initial = |p: &str| c.spec.files.iter().position(|f| f.path == p).map_or(String::new(), |i| String::from_utf8(c.spec.text(i)).unwrap());
        let did_open = |p: &str, t: &str| notify("textDocument/didOpen", json!({"textDocument": {"uri": uri(p), "languageId": "dm", "version": 1, "text": t}}));
        let mut touched = false;
        for op in &c.ops {
            match op {
                Op::Disk(p, t) => {
                    disk.insert(p.clone(), t.clone());
                    items.push(Item::Disk(p.clone(), t.clone()));
                    touched = true;
                },
                Op::Reparse => {
                    items.push(reparse());
                },
                Op::Text(p, t) => {
                    if open.insert(p.clone(), t.clone()).is_none() {
                        items.push(did_open(p, t));
                    } else {
                        version += 1;
                        items.push(notify("textDocument/didChange", json!({"textDocument": {"uri": uri(p), "version": version}, "contentChanges": [{"text": t}]})));
                    }
                },
                Op::Ask(p, m) => {
                    if !open.contains_key(p) {
                        open.insert(p.clone(), initial(p));
                        items.push(did_open(p, &initial(p)));
                    }
                    ask(&mut items, &mut id, p, m);
                },
                Op::Settle => items.push(Item::Settle),
                Op::Pause(n) => items.push(Item::Pause(*n)),
            }
        }
        // the last word: analyse what is there now
        if c.root && touched {
            items.push(reparse());
        }
        let mut tail = vec![];
        if !c.root {
            for p in open.keys() {
                ask(&mut tail, &mut id, p, "textDocument/documentSymbol");
            }
        }
        tail.push(Item::Settle);
        items.extend(tail.clone());
        let o = run(ex, &c.cfg, &Script { spec: c.spec.clone(), items, slow: None });

        let mut items: Vec<Item> = disk.iter().map(|(p, t)| Item::Disk(p.clone(), t.clone())).collect();
        items.push(initialize(json!("init"), c.root, c.caps));
        items.push(initialized());
        if !c.root {
            for (p, t) in &open {
                items.push(did_open(p, t));
            }
        }
        items.extend(tail);
        let base = Config { hash_seed: c.cfg.hash_seed, max_ticks: 400_000_000, ..Config::default() };
        let f = run(ex, &base, &Script { spec: c.spec.clone(), items, slow: None });
        let mut d = vec![];
        for o in [&o, &f] {
            if let Some(v) = judge::bad_end(o, true) {
                return v;
            }
            match parse(o) {
                Ok(w) => d.push(w.diagnostics(*w.marks.last().unwrap_or(&0))),
                Err(e) => return Verdict::bad("framing", e),
            }
        }
        if d[0] != d[1] {
            let all: std::collections::BTreeSet<_> = d[0].keys().chain(d[1].keys()).collect();
            let k = all.into_iter().find(|k| d[0].get(*k) != d[1].get(*k)).unwrap();
            let class = match (d[0].get(k), d[1].get(k)) {
                (Some(_), None) => "not cleared",
                (None, _) => "not published",
                _ => "stale",
            };
            return Verdict::bad(
                class,
                format!("{k}\n{}\nof {} and {} files", first_diff(&format!("{:#?}", d[0].get(k)), &format!("{:#?}", d[1].get(k))), d[0].len(), d[1].len()),
            );
        }
        if !d[0].is_empty() {
            ex.probe("diagnostics");
        }
        if o.threads > 5 {
            ex.probe("several_analyses");
        }
        if d[0].values().any(|v| v.iter().any(|x| x.contains("\"dreamchecker\""))) {
            ex.probe("dreamchecker_reports");
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = shrink_list(&c.ops, 0).into_iter().map(|ops| Case { ops, ..c.clone() }).collect();
        for (i, op) in c.ops.iter().enumerate() {
            if let Op::Disk(p, Some(t)) = op {
                for l in shrink_list(&t.lines().collect::<Vec<_>>(), 0) {
                    let mut x = c.clone();
                    x.ops[i] = Op::Disk(p.clone(), Some(l.join("\n") + "\n"));
                    v.push(x);
                }
            }
        }
        v.extend(c.spec.shrink().into_iter().map(|spec| Case { spec, ..c.clone() }));
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (2800, 150000)
    }
    fn rule(&self) -> String {
        "one case = one history of files changing on disk, re-parses, edits and questions with analyses overlapping on a drawn schedule; the diagnostics last published for each file are compared with those of a freshly started server on the final sources; distinct = distinct traces of cases with an injected variation or a context switch".into()
    }
    fn components(&self) -> Value {
        json!({
            "real": ["dm-langserver (whole program)", "dreammaker and dreamchecker as used by it"],
            "simulated": ["the editor", "pipes", "file system", "thread scheduling", "hash seeds"],
            "stub": ["build-info.txt (fixed text)"],
        })
    }
}
