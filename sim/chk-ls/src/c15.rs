//! C15: the server sees exactly the text the editor has open.
use crate::lsp::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simdrv::*;
use simgen::dm::DmSpec;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Open(String, String),
    Change(String, Vec<Value>),
    Close(String),
    /// Somebody changes a file which the editor may or may not have open.
    Disk(String, Option<String>),
    Ask(Vec<(String, String, Value)>),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    spec: DmSpec,
    root: bool,
    caps: u8,
    ops: Vec<Op>,
    cfg: Config,
}
pub struct C15;

/// The editor's and the disk's state while the operations are gone through.
#[derive(Clone, Default)]
struct State {
    open: BTreeMap<String, String>,
    disk: BTreeMap<String, Option<String>>,
}

fn did_open(path: &str, text: &str) -> Item {
    notify("textDocument/didOpen", json!({"textDocument": {"uri": uri(path), "languageId": "dm", "version": 1, "text": text}}))
}

fn start(root: bool, caps: u8) -> Vec<Item> {
    vec![initialize(json!("init"), root, caps), initialized(), Item::Settle]
}

impl Check for C15 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let root = r.chance(1, 2);
        let broken = r.chance(1, 2);
        let spec = project(r, if thorough { 6 } else { 4 }, broken);
        let caps = r.below(64) as u8 & !4;
        let mut paths: Vec<String> = spec.files.iter().map(|f| f.path.clone()).collect();
        paths.push("notes/free.dm".into());
        let mut text: BTreeMap<String, String> = BTreeMap::new();
        for i in 0..spec.files.len() {
            text.insert(spec.files[i].path.clone(), String::from_utf8(spec.text(i)).unwrap());
        }
        text.insert("notes/free.dm".into(), "/datum/free\n\tvar/x = 1\n".into());
        let mut open: BTreeMap<String, String> = BTreeMap::new();
        // keep to few documents, so that their histories are long
        let docs: Vec<String> = (0..1 + r.idx(3)).map(|_| r.pick(&paths).clone()).collect();
        let mut ops = vec![];
        if r.chance(2, 3) {
            ops.push(Op::Disk("notes/free.dm".into(), text.get("notes/free.dm").cloned()));
        }
        for _ in 0..2 + r.idx(if thorough { 50 } else { 16 }) {
            let d = r.pick(&docs).clone();
            match r.below(16) {
                0..=2 => {
                    if !open.contains_key(&d) {
                        let t = match r.below(3) {
                            0 => text.get(&d).cloned().unwrap_or_default(),
                            1 => (0..1 + r.idx(4)).map(|_| snippet(r)).collect(),
                            _ => edit(r, &text.get(&d).cloned().unwrap_or_default()).1,
                        };
                        let t = reshape(r, &t);
                        ops.push(Op::Open(d.clone(), t.clone()));
                        open.insert(d, t);
                    }
                },
                3..=8 => {
                    if let Some(t) = open.get_mut(&d) {
                        let mut evs = vec![];
                        for _ in 0..1 + r.idx(3) {
                            let (e, n) = edit(r, t);
                            evs.push(e);
                            *t = n;
                        }
                        ops.push(Op::Change(d, evs));
                    }
                },
                9 => {
                    if open.remove(&d).is_some() {
                        ops.push(Op::Close(d));
                    }
                },
                10 | 11 => {
                    if r.chance(1, 2) {
                        let t = edit(r, &text.get(&d).cloned().unwrap_or_default()).1;
                        text.insert(d.clone(), t.clone());
                        ops.push(Op::Disk(d, Some(t)));
                    }
                },
                _ => ops.push(ask(r, &docs, &open, &text)),
            }
        }
        ops.push(ask(r, &docs, &open, &text));
        let mut cfg = Config { max_ticks: 400_000_000, ..Config::default() };
        gen::benign_delivery(r, &mut cfg);
        gen::coarse(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        cfg.sched = gen::schedule(r, 200_000);
        Case { spec, root, caps, ops, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let mut st = State::default();
        let mut items = start(c.root, c.caps);
        let mut version = 1;
        // (state, [(id, path, method, params)])
        let mut points: Vec<(State, Vec<(String, String, String, Value)>)> = vec![];
        for (i, op) in c.ops.iter().enumerate() {
            match op {
                Op::Open(p, t) => {
                    if !st.open.contains_key(p) {
                        st.open.insert(p.clone(), t.clone());
                        items.push(did_open(p, t));
                    }
                },
                Op::Change(p, evs) => {
                    if let Some(t) = st.open.get_mut(p) {
                        let mut ok = vec![];
                        for e in evs {
                            if let Some(n) = apply(t, e) {
                                *t = n;
                                ok.push(e.clone());
                            }
                        }
                        version += 1;
                        items.push(notify("textDocument/didChange", json!({"textDocument": {"uri": uri(p), "version": version}, "contentChanges": ok})));
                    }
                },
                Op::Close(p) => {
                    if st.open.remove(p).is_some() {
                        items.push(notify("textDocument/didClose", json!({"textDocument": {"uri": uri(p)}})));
                    }
                },
                Op::Disk(p, t) => {
                    st.disk.insert(p.clone(), t.clone());
                    // what was sent before is to be handled with the old file
                    items.push(Item::Settle);
                    items.push(Item::Disk(p.clone(), t.clone()));
                    if c.root && p != "notes/free.dm" {
                        items.push(reparse());
                    }
                },
                Op::Ask(l) => {
                    items.push(Item::Settle);
                    let mut q = vec![];
                    for (k, (p, m, v)) in l.iter().enumerate() {
                        let id = format!("q{i}-{k}");
                        items.push(request(json!(id), m, v.clone()));
                        q.push((id, p.clone(), m.clone(), v.clone()));
                    }
                    points.push((st.clone(), q));
                },
            }
        }
        items.push(Item::Settle);
        let o = run(ex, &c.cfg, &Script { spec: c.spec.clone(), items, slow: None });
        let got = match answers(&o) {
            Ok(a) => a,
            Err(v) => return v,
        };
        // a freshly started server for each point
        for (st, q) in &points {
            let mut groups: BTreeMap<String, Vec<&(String, String, String, Value)>> = BTreeMap::new();
            for x in q {
                groups.entry(if c.root { String::new() } else { x.1.clone() }).or_default().push(x);
            }
            for (doc, q) in groups {
                let mut items: Vec<Item> = st.disk.iter().map(|(p, t)| Item::Disk(p.clone(), t.clone())).collect();
                items.extend(start(c.root, c.caps));
                for (p, t) in &st.open {
                    if c.root || *p == doc {
                        items.push(did_open(p, t));
                    }
                }
                items.push(Item::Settle);
                for x in &q {
                    items.push(request(json!(x.0), &x.2, x.3.clone()));
                }
                items.push(Item::Settle);
                let base = Config { hash_seed: c.cfg.hash_seed, max_ticks: 400_000_000, ..Config::default() };
                let f = run(ex, &base, &Script { spec: c.spec.clone(), items, slow: None });
                let fresh = match answers(&f) {
                    Ok(a) => a,
                    Err(v) => return v,
                };
                for x in q {
                    let (a, b) = (got.get(&x.0), fresh.get(&x.0));
                    if a != b {
                        let class = if st.open.contains_key(&x.1) { "open document" } else { "closed document" };
                        return Verdict::bad(
                            format!("{class}: {}", x.2),
                            format!("{} {}\nserver: {}\nfresh:  {}\ntext: {:?}", x.0, x.3, show(a), show(b), st.open.get(&x.1).map(|t| trunc(t, 1500))),
                        );
                    }
                    if let Some(a) = a {
                        ex.probe(if a.get("error").is_some() {
                            "answer_error"
                        } else if a["result"].is_null() {
                            "answer_null"
                        } else {
                            "answer_result"
                        });
                    }
                }
            }
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = shrink_list(&c.ops, 0).into_iter().map(|ops| Case { ops, ..c.clone() }).collect();
        for (i, op) in c.ops.iter().enumerate() {
            let parts: Vec<Op> = match op {
                Op::Ask(l) if l.len() > 1 => shrink_list(l, 0).into_iter().map(Op::Ask).collect(),
                Op::Change(p, l) if l.len() > 1 => shrink_list(l, 0).into_iter().map(|l| Op::Change(p.clone(), l)).collect(),
                Op::Open(p, t) => shrink_list(&t.lines().collect::<Vec<_>>(), 0).into_iter().map(|l| Op::Open(p.clone(), l.join("\n"))).collect(),
                _ => vec![],
            };
            for op in parts {
                let mut x = c.clone();
                x.ops[i] = op;
                v.push(x);
            }
        }
        if c.caps != 0 {
            v.push(Case { caps: 0, ..c.clone() });
        }
        v.extend(c.spec.shrink().into_iter().map(|spec| Case { spec, ..c.clone() }));
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn nontrivial(&self, c: &Case, _ex: &Exec) -> bool {
        c.ops.iter().filter(|o| !matches!(o, Op::Ask(_))).count() > 1
    }
    fn budget(&self) -> (u64, u64) {
        (2200, 100000)
    }
    fn rule(&self) -> String {
        "one case = one history of opening, incrementally editing and closing documents and of files changing on disk, with questions in between; every answer is compared with that of a freshly started server given the text the editor then has; distinct = distinct traces of cases with more than one operation".into()
    }
    fn components(&self) -> Value {
        json!({
            "real": ["dm-langserver (whole program)", "dreammaker and dreamchecker as used by it"],
            "simulated": ["the editor and its text buffers", "pipes", "file system", "thread scheduling", "hash seeds"],
            "stub": ["build-info.txt (fixed text)"],
        })
    }
}

fn ask(r: &mut Rng, docs: &[String], open: &BTreeMap<String, String>, text: &BTreeMap<String, String>) -> Op {
    let mut l = vec![];
    for _ in 0..1 + r.idx(6) {
        let d = r.pick(docs).clone();
        let t = open.get(&d).or(text.get(&d)).cloned().unwrap_or_default();
        let (m, p) = question(r, &uri(&d), &t);
        l.push((d, m, p));
    }
    let d = r.pick(docs);
    l.extend(survey(&uri(d)).into_iter().map(|(m, p)| (d.clone(), m, p)));
    Op::Ask(l)
}

fn show(v: Option<&Value>) -> String {
    v.map_or("nothing".into(), |v| trunc(&v.to_string(), 1500))
}

fn answers(o: &Outcome) -> Result<BTreeMap<String, Value>, Verdict> {
    if let Some(v) = judge::bad_end(o, true) {
        return Err(v);
    }
    let w = parse(o).map_err(|e| Verdict::bad("framing", e))?;
    let mut all = BTreeMap::new();
    for (_, mut v) in w.responses() {
        // completions come in the order of a hash map, and editors sort them
        if let Some(l) = v["result"].as_array_mut() {
            if l.iter().all(|x| x["label"].is_string()) {
                l.sort_by_cached_key(|x| x.to_string());
            }
        }
        all.insert(v["id"].as_str().unwrap_or("").to_owned(), v);
    }
    Ok(all)
}
