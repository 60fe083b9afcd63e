//! C14: every language-server request gets exactly one response.
use crate::lsp::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simdrv::*;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    pub script: Script,
    pub cfg: Config,
}
pub struct C14;

/// What the editor does, without looking at the answers.
pub struct Talk<'a> {
    pub r: &'a mut Rng,
    pub items: Vec<Item>,
    next: u64,
    /// path, version, text
    pub open: Vec<(String, i64, String)>,
    pub paths: Vec<String>,
    /// Do not ask for what depends on the progress of background work.
    pub steady: bool,
}

impl<'a> Talk<'a> {
    pub fn new(r: &'a mut Rng, spec: &simgen::dm::DmSpec) -> Talk<'a> {
        let mut paths: Vec<String> = spec.files.iter().map(|f| f.path.clone()).collect();
        paths.push("elsewhere.dm".into());
        Talk { r, items: vec![], next: 1, open: vec![], paths, steady: false }
    }
    pub fn id(&mut self) -> Value {
        self.next += 1;
        match self.r.below(8) {
            0 => json!(format!("req-{}", self.next)),
            1 => json!(self.next << 33),
            _ => json!(self.next),
        }
    }
    /// A request of the kinds the server answers about documents.
    pub fn ask(&mut self) -> Value {
        let (path, text) = if !self.open.is_empty() && self.r.chance(4, 5) {
            let o = self.r.pick(&self.open).clone();
            (o.0, o.2)
        } else {
            (self.r.pick(&self.paths).clone(), "/datum/a\n\tvar/x\n\n".to_string())
        };
        let id = self.id();
        let (mut m, mut p) = match self.r.below(12) {
            0 => ("workspace/symbol".to_string(), json!({"query": *self.r.pick(&["p", "/datum", "var/v", "#M", "", "work", "/"])})),
            1 => ("experimental/dreammaker/objectTree2".to_string(), json!({"path": *self.r.pick(&["", "/datum", "/datum/a", "/nonexistent", "datum"])})),
            _ => question(self.r, &uri(&path), &text),
        };
        if self.steady && background(&m) {
            m = "textDocument/hover".into();
            p = params(self.r, &m, &uri(&path), &text);
        }
        json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p})
    }
    /// A request which is odd but still one.
    pub fn odd_request(&mut self) -> Value {
        let mut v = self.ask();
        match self.r.below(13) {
            0 => v["method"] = json!("textDocument/rename"),
            1 => v["method"] = json!("nonsense"),
            2 => v["params"] = json!([]),
            3 => v["params"] = json!({"textDocument": 5}),
            4 => {
                v.as_object_mut().unwrap().remove("params");
            },
            5 => v["params"] = Value::Null,
            6 => v["params"] = json!(7),
            7 => v["params"]["textDocument"] = json!({"uri": *self.r.pick(&["untitled:Untitled-1", "http://example.com/x.dm", "file:///w/other/q.dm", "not a uri", "file:", "file:///", "dm://docs/reference.dm#/mob", "file://host/x.dm"])}),
            8 => v["params"]["position"] = json!({"line": *self.r.pick(&[0u32, 5, 70000, u32::MAX]), "character": *self.r.pick(&[0u32, 65534, 65535, 65536, 70000, u32::MAX])}),
            9 => {
                let (a, b) = (*self.r.pick(&[0u32, 1, 3, 100]), *self.r.pick(&[0u32, 1, 2, 500]));
                v["method"] = json!("textDocument/colorPresentation");
                v["params"]["color"] = json!({"red": 1.0, "green": -4.0, "blue": 1e30, "alpha": 0.1});
                v["params"]["range"] = json!({"start": {"line": a, "character": b}, "end": {"line": b, "character": a}});
            },
            10 => v["extra"] = json!(true),
            11 => v["method"] = json!("initialize"),
            _ => {
                v["method"] = json!("experimental/dreammaker/objectTree2");
                v["params"] = json!({"path": self.r.pick(&["//", "/datum/", "\u{1f600}", "/datum//a", "a"])});
            },
        }
        v
    }
    pub fn open(&mut self, text: Option<String>) -> Option<Value> {
        let free: Vec<String> = self.paths.iter().filter(|p| !self.open.iter().any(|o| o.0 == **p)).cloned().collect();
        if free.is_empty() {
            return None;
        }
        let p = self.r.pick(&free).clone();
        let t = text.unwrap_or_else(|| (0..1 + self.r.idx(4)).map(|_| snippet(self.r)).collect());
        let t = reshape(self.r, &t);
        self.open.push((p.clone(), 1, t.clone()));
        Some(json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri(&p), "languageId": "dm", "version": 1, "text": t}}}))
    }
    pub fn change(&mut self) -> Option<Value> {
        if self.open.is_empty() {
            return None;
        }
        let k = self.r.idx(self.open.len());
        let mut evs = vec![];
        for _ in 0..1 + self.r.idx(3) {
            let (e, t) = edit(self.r, &self.open[k].2);
            evs.push(e);
            self.open[k].2 = t;
        }
        self.open[k].1 += 1;
        Some(json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": uri(&self.open[k].0), "version": self.open[k].1}, "contentChanges": evs}}))
    }
    pub fn close(&mut self) -> Option<Value> {
        if self.open.is_empty() {
            return None;
        }
        let k = self.r.idx(self.open.len());
        let o = self.open.remove(k);
        Some(json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": uri(&o.0)}}}))
    }
    pub fn odd_note(&mut self) -> Value {
        let u = uri(&self.r.pick(&self.paths).clone());
        match self.r.below(10) {
            0 => json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": 3}}),
            1 => json!({"jsonrpc": "2.0", "method": "workspace/didChangeConfiguration", "params": {"settings": {"dreammaker": {"extoolsDLL": "x.dll", "debugServerDll": 5}}}}),
            2 => json!({"jsonrpc": "2.0", "method": "workspace/didChangeConfiguration", "params": {"settings": null}}),
            3 => json!({"jsonrpc": "2.0", "method": "$/nonsense", "params": [1, 2]}),
            4 => json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": "file:///w/never/opened.dm"}}}),
            5 => json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": u, "version": -5}, "contentChanges": []}}),
            6 => json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": u, "version": 2000000000}, "contentChanges": [{"range": {"start": {"line": 0, "character": 9}, "end": {"line": 0, "character": 2}}, "text": "z"}, {"range": {"start": {"line": 900, "character": 0}, "end": {"line": 901, "character": 2}}, "text": "z"}]}}),
            7 => json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": u}}}),
            8 => json!({"jsonrpc": "2.0", "method": "$/setTraceNotification", "params": {"value": "off"}}),
            _ => json!({"jsonrpc": "2.0", "method": "initialized"}),
        }
    }
    pub fn send(&mut self, v: Value) {
        if self.r.chance(1, 10) {
            let b = serde_json::to_vec(&v).unwrap();
            let head = match self.r.below(3) {
                0 => format!("Content-Length: {}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n", b.len()),
                1 => format!("Content-Type: application/vscode-jsonrpc; charset=utf8\r\nContent-Length: {}\r\n\r\n", b.len()),
                _ => format!("content-length: {}\r\n\r\n", b.len()),
            };
            self.items.push(Item::Raw(head, b));
        } else {
            self.items.push(Item::Msg(v));
        }
    }
    /// A body which is not a message, or hardly.
    pub fn junk(&mut self) {
        let id = self.id();
        let b: Vec<u8> = match self.r.below(12) {
            0 => b"{".to_vec(),
            1 => b"".to_vec(),
            2 => b"nonsense".to_vec(),
            3 => b"[]".to_vec(),
            4 => b"{}".to_vec(),
            5 => json!({"jsonrpc": "2.0", "id": id}).to_string().into_bytes(),
            6 => json!({"jsonrpc": "1.0", "id": id, "method": "textDocument/hover"}).to_string().into_bytes(),
            7 => json!({"id": id, "method": "textDocument/hover", "params": {}}).to_string().into_bytes(),
            8 => json!([5, null, {"jsonrpc": "2.0", "id": id, "method": "nonsense"}]).to_string().into_bytes(),
            9 => {
                let mut b = json!({"jsonrpc": "2.0", "id": id, "method": "workspace/symbol", "params": {"query": "~"}}).to_string().into_bytes();
                let k = b.iter().position(|&c| c == b'~').unwrap();
                b[k] = 0xff;
                b
            },
            10 => {
                let n = 50 + self.r.idx(3000);
                format!("{}{}", "[".repeat(n), "]".repeat(n)).into_bytes()
            },
            _ => b"7".to_vec(),
        };
        self.items.push(Item::Raw(format!("Content-Length: {}\r\n\r\n", b.len()), b));
    }
    /// A message in the middle of a session.
    pub fn step(&mut self, odd: bool) {
        let v = match self.r.below(20) {
            0..=2 => self.open(None),
            3..=6 => self.change(),
            7 => self.close(),
            8 if odd => {
                self.junk();
                return;
            },
            9 if odd => Some(self.odd_note()),
            10 | 11 if odd => Some(self.odd_request()),
            12 => {
                let mut l = vec![];
                for _ in 0..1 + self.r.idx(4) {
                    let x = match self.r.below(8) {
                        0 if odd => Some(self.odd_request()),
                        1 if odd => Some(self.odd_note()),
                        2 => self.change(),
                        3 => self.open(None),
                        _ => Some(self.ask()),
                    };
                    l.extend(x);
                }
                Some(Value::Array(l))
            },
            13 => Some(json!({"jsonrpc": "2.0", "method": "experimental/dreammaker/reparse", "params": {}})),
            14 => {
                self.items.push(Item::Settle);
                return;
            },
            15 => {
                let n = self.r.below(1_000_000);
                self.items.push(Item::Pause(n));
                return;
            },
            _ => Some(self.ask()),
        };
        if let Some(v) = v {
            if self.r.chance(1, 3) {
                // open documents with known contents can be asked about anything
            }
            self.send(v);
        }
    }
}

impl Check for C14 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let big = r.chance(1, 5);
        let spec = project(r, if big { if thorough { 8 } else { 5 } } else { 2 }, true);
        let root = r.chance(2, 3);
        let caps = r.below(64) as u8;
        let steps = 1 + r.idx(if thorough { 60 } else { 25 });
        let seen: Vec<String> = (0..spec.files.len()).map(|i| String::from_utf8(spec.text(i)).unwrap()).collect();
        let mut t = Talk::new(r, &spec);
        // before initialisation
        if t.r.chance(1, 3) {
            for _ in 0..t.r.idx(4) {
                let v = match t.r.below(4) {
                    0 => t.odd_note(),
                    1 => {
                        t.junk();
                        continue;
                    },
                    _ => t.ask(),
                };
                t.send(v);
            }
            if t.r.chance(1, 6) {
                t.send(json!({"jsonrpc": "2.0", "id": 900, "method": "shutdown"}));
            }
        }
        if t.r.chance(19, 20) {
            let id = t.id();
            if t.r.chance(1, 10) {
                t.send(json!({"jsonrpc": "2.0", "id": 901, "method": "initialize", "params": {"rootUri": 5}}));
            }
            let m = initialize(id, root, caps);
            t.items.push(m);
            if t.r.chance(9, 10) {
                t.items.push(initialized());
            }
            for _ in 0..steps {
                if t.r.chance(1, 10) {
                    let k = t.r.idx(seen.len());
                    let v = t.open(Some(seen[k].clone()));
                    if let Some(v) = v {
                        t.send(v);
                    }
                }
                t.step(true);
            }
        }
        if t.r.chance(2, 3) {
            t.items.push(Item::Settle);
        }
        if t.r.chance(2, 3) {
            let id = t.id();
            t.send(json!({"jsonrpc": "2.0", "id": id, "method": "shutdown"}));
            for _ in 0..t.r.idx(3) {
                t.step(true);
            }
        }
        if t.r.chance(3, 4) {
            t.send(json!({"jsonrpc": "2.0", "method": "exit"}));
            if t.r.chance(1, 4) {
                let v = t.ask();
                t.send(v);
            }
        } else {
            t.items.push(Item::Settle);
        }
        let items = std::mem::take(&mut t.items);
        let mut cfg = Config { max_ticks: 400_000_000, ..Config::default() };
        gen::benign_delivery(r, &mut cfg);
        gen::coarse(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        cfg.sched = gen::schedule(r, 200_000);
        cfg.pipe_cap = *r.pick(&[1 << 16, 1 << 16, 4096, 64]);
        if r.chance(1, 3) {
            for _ in 0..1 + r.idx(3) {
                let site = *r.pick(&[Site::Open, Site::Read, Site::Stat, Site::ReadDir, Site::OpenDir]);
                let e = *r.pick(&gen::OPEN_ERRNOS);
                let path = if r.chance(1, 3) { String::new() } else { r.pick(&[".dme", "a.dm", ".toml", "code", "h.dm", ".dm"]).to_string() };
                cfg.faults.push(Fault { site, path, nth: r.below(4), times: *r.pick(&[0, 1, 3]), act: Act::Errno(e) });
            }
        }
        let slow = if r.chance(1, 6) { Some((1 + r.below(4000) as u32, r.below(2_000_000))) } else { None };
        Case { script: Script { spec, items, slow }, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let o = run(ex, &c.cfg, &c.script);
        if let Some(v) = judge::bad_end(&o, true) {
            return v;
        }
        let w = match parse(&o) {
            Ok(w) => w,
            Err(e) => return Verdict::bad("framing", e),
        };
        match expect(&c.script.items, &w, &o) {
            Ok(n) => {
                for k in n {
                    ex.probe(k);
                }
                Verdict::Ok
            },
            Err((c, d)) => Verdict::bad(c, d),
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for items in shrink_list(&c.script.items, 0) {
            v.push(Case { script: Script { items, ..c.script.clone() }, cfg: c.cfg.clone() });
        }
        if c.script.slow.is_some() {
            v.push(Case { script: Script { slow: None, ..c.script.clone() }, cfg: c.cfg.clone() });
        }
        for spec in c.script.spec.shrink() {
            v.push(Case { script: Script { spec, ..c.script.clone() }, cfg: c.cfg.clone() });
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (6000, 200000)
    }
    fn rule(&self) -> String {
        "one case = one history of editor messages (valid, unknown, malformed, premature, late, batched) against the whole server over a generated project, with a drawn schedule, splitting and read faults; distinct = distinct traces of cases with an injected fault or a context switch".into()
    }
    fn components(&self) -> Value {
        json!({
            "real": ["dm-langserver (whole program)", "dreammaker and dreamchecker as used by it"],
            "simulated": ["the editor", "pipes", "file system", "thread scheduling", "hash seeds"],
            "stub": ["build-info.txt (fixed text)"],
        })
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Status {
    Starting,
    Running,
    Down,
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Want {
    Any,
    Error,
    Refused,
    Result,
}

struct Model {
    status: Status,
    exit: Option<i32>,
    /// (id, what, may be missing)
    want: Vec<(Value, Want, bool)>,
    seen: Vec<&'static str>,
}

/// Whether the server's JSON-RPC dialect has such an id.
fn good_id(v: &Value) -> bool {
    v.is_null() || v.is_u64() || v.is_string()
}

impl Model {
    fn call(&mut self, v: &Value) {
        let Some(o) = v.as_object() else {
            return self.want.push((Value::Null, Want::Error, false));
        };
        let id = o.get("id");
        let known = o.keys().all(|k| ["jsonrpc", "id", "method", "params"].contains(&&**k));
        let shape = known
            && o.get("method").map_or(false, |m| m.is_string())
            && o.get("params").map_or(true, |p| p.is_null() || p.is_array() || p.is_object())
            && o.get("jsonrpc").map_or(true, |j| j == "2.0");
        if !shape {
            let rid = id.filter(|i| good_id(i)).cloned().unwrap_or(Value::Null);
            // a malformed notification may be answered like a malformed request
            return self.want.push((rid, Want::Error, id.is_none()));
        }
        let m = o["method"].as_str().unwrap();
        let Some(id) = id else {
            if m == "exit" {
                self.exit = Some((self.status != Status::Down) as i32);
            }
            return;
        };
        let want = match (self.status, m) {
            (Status::Starting, "initialize") => {
                if o.get("params").map_or(false, |p| p["rootUri"].is_string() || p["rootUri"].is_null() && p["capabilities"].is_object()) {
                    self.status = Status::Running;
                    self.seen.push("initialized");
                    Want::Result
                } else {
                    Want::Error
                }
            },
            (Status::Running | Status::Down, "initialize") => {
                self.seen.push("initialised_twice");
                Want::Error
            },
            (Status::Starting, _) => {
                self.seen.push("premature_request");
                Want::Refused
            },
            (Status::Down, _) => {
                self.seen.push("late_request");
                Want::Refused
            },
            (Status::Running, "shutdown") => {
                self.status = Status::Down;
                self.seen.push("shutdown");
                Want::Result
            },
            _ => {
                if METHODS.contains(&m) || m == "workspace/symbol" || m == "experimental/dreammaker/objectTree2" {
                    Want::Any
                } else {
                    self.seen.push("unknown_request");
                    Want::Error
                }
            },
        };
        self.want.push((id.clone(), want, false));
    }
    fn body(&mut self, b: &[u8]) {
        match serde_json::from_slice::<Value>(b) {
            Err(_) => {
                self.seen.push("malformed_message");
                // what is not text may be read with substitutes
                if let Ok(v) = serde_json::from_str::<Value>(&String::from_utf8_lossy(b)) {
                    if std::str::from_utf8(b).is_err() {
                        let id = v.get("id").cloned().unwrap_or(Value::Null);
                        return self.want.push((id, Want::Any, false));
                    }
                }
                self.want.push((Value::Null, Want::Error, false));
            },
            Ok(Value::Array(l)) => {
                self.seen.push("batch");
                if l.iter().any(|v| !v.is_object()) {
                    // not a batch of calls: refused as a whole, like any undecodable message
                    return self.want.push((Value::Null, Want::Error, false));
                }
                if l.is_empty() {
                    self.want.push((Value::Null, Want::Error, true));
                }
                for v in &l {
                    if self.exit.is_some() {
                        return;
                    }
                    self.call(v);
                }
            },
            Ok(v) => self.call(&v),
        }
    }
}

fn expect(items: &[Item], w: &Wire, o: &Outcome) -> Result<Vec<&'static str>, (String, String)> {
    let mut m = Model { status: Status::Starting, exit: None, want: vec![], seen: vec![] };
    let responses = w.responses();
    let bad = |c: &str, d: String| Err((c.to_string(), d));
    for (_, r) in &responses {
        if r.get("id").is_none() || r.get("result").is_some() == r.get("error").is_some() {
            return bad("not a response", r.to_string());
        }
    }
    let mut mark = 0;
    let mut settled = 0;
    let mut in_batch = 0;
    for it in items {
        if m.exit.is_some() {
            break;
        }
        let before = m.want.len();
        match it {
            Item::Msg(v) => m.body(v.to_string().as_bytes()),
            Item::Raw(_, b) => m.body(b),
            Item::Settle => {
                let Some(&at) = w.marks.get(mark) else { break };
                mark += 1;
                settled = m.want.len();
                let have = responses.iter().filter(|r| r.0 <= at).count();
                let need = m.want.iter().filter(|x| !x.2).count();
                if have < need {
                    return bad("unanswered", missing(&m, &responses));
                }
            },
            _ => {},
        }
        if m.exit.is_some() && matches!(it, Item::Msg(Value::Array(_))) {
            // the replies to a batch holding the exit notification
            in_batch = m.want.len() - before;
        }
    }
    let _ = settled;
    // answers: as many as asked for, with the right ids and of the right kind
    let mut left: Vec<&Value> = responses.iter().map(|r| &r.1).collect();
    let total = m.want.len();
    let optional = |i: usize| m.want[i].2 || i >= total - in_batch;
    let order = (0..total).filter(|&i| !optional(i)).chain((0..total).filter(|&i| optional(i)));
    for i in order {
        let (id, want, _) = &m.want[i];
        let may = optional(i);
        let fits = |r: &&Value| {
            r["id"] == *id
                && match want {
                    Want::Any => true,
                    Want::Error | Want::Refused => r.get("error").is_some(),
                    Want::Result => r.get("result").is_some(),
                }
        };
        match left.iter().position(fits) {
            Some(k) => {
                left.remove(k);
            },
            None if may => {},
            None if left.iter().any(|r| r["id"] == *id) => {
                return bad("wrong kind of answer", format!("{want:?} expected for id {id}: {}", left.iter().find(|r| r["id"] == *id).unwrap()));
            },
            None => return bad("unanswered", missing(&m, &responses)),
        }
    }
    if let Some(r) = left.first() {
        return bad("extra response", r.to_string());
    }
    if let Some(code) = m.exit {
        m.seen.push(if code == 0 { "clean_exit" } else { "unclean_exit" });
        if o.end != End::Exit(code) {
            return bad("exit status", format!("{:?} instead of {code}", o.end));
        }
    }
    m.seen.sort();
    m.seen.dedup();
    Ok(m.seen)
}

fn missing(m: &Model, responses: &[(usize, Value)]) -> String {
    let have: Vec<String> = responses.iter().map(|r| r.1["id"].to_string()).collect();
    let lost: Vec<String> = m.want.iter().map(|w| w.0.to_string()).filter(|i| !have.contains(i)).collect();
    format!("no answer to {}; answers to {}", lost.join(" "), have.join(" "))
}
