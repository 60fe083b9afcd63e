//! The language server as a whole program, an editor as its environment.
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simdrv::*;
use simgen::dm::{DmSpec, Gen, Style, ROOT};

/// What the editor (or somebody else on the machine) does next.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Item {
    /// A message with the usual header.
    Msg(Value),
    /// A message with this header block and body.
    Raw(String, Vec<u8>),
    /// A file below the project is written or removed.
    Disk(String, Option<String>),
    /// Wait until the server has nothing left to do.
    Settle,
    Pause(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Script {
    pub spec: DmSpec,
    pub items: Vec<Item>,
    /// The editor reads at most this much at a time, with pauses.
    pub slow: Option<(u32, u64)>,
}

pub struct Wire {
    /// Every message the server sent, with the offset at which it ended.
    pub msgs: Vec<(usize, Value)>,
    /// Output length at each `Settle` (and at the end).
    pub marks: Vec<usize>,
}

static mut INBOX: Vec<u8> = Vec::new();

pub fn frame(v: &Value) -> Vec<u8> {
    let b = serde_json::to_string(v).unwrap();
    format!("Content-Length: {}\r\n\r\n{b}", b.len()).into_bytes()
}

fn environment(s: &Script) {
    let (wr, rd) = simos::stdio_pipes();
    let slow = s.slow;
    simos::spawn_world("reader", move || {
        let mut buf = vec![0; slow.map_or(1 << 16, |s| s.0.max(1) as usize)];
        loop {
            let n = simos::sys_read(rd, &mut buf);
            if n <= 0 {
                break;
            }
            if let Some((_, ns)) = slow {
                simos::sleep_ns(ns);
            }
        }
    });
    let items = s.items.clone();
    simos::spawn_world("editor", move || {
        let mut marks: Vec<usize> = vec![];
        for it in items {
            let ok = match it {
                Item::Msg(v) => simos::sys_write_all(wr, &frame(&v)),
                Item::Raw(h, b) => simos::sys_write_all(wr, h.as_bytes()) && simos::sys_write_all(wr, &b),
                Item::Disk(p, t) => {
                    let p = format!("{ROOT}/{p}");
                    match t {
                        Some(t) => simos::add_file(&p, t.as_bytes()),
                        None => simos::remove_file(&p),
                    }
                    true
                },
                Item::Settle => {
                    simos::wait_quiet(3_600_000_000_000);
                    marks.push(simos::stdout_len());
                    simos::custom("marks", serde_json::to_vec(&marks).unwrap());
                    true
                },
                Item::Pause(ns) => {
                    simos::sleep_ns(ns);
                    true
                },
            };
            if !ok {
                break;
            }
        }
        simos::sys_close(wr);
    });
}

/// Run the server in the editor's hands.
pub fn run(ex: &mut Exec, cfg: &Config, s: &Script) -> Outcome {
    ex.run(
        cfg,
        &["dm-langserver".to_owned()],
        || {
            s.spec.install();
            environment(s);
        },
        || {
            sim_ls::sim::sim_main();
            0
        },
    )
}

/// Split standard output into messages.
pub fn parse(o: &Outcome) -> Result<Wire, String> {
    let marks = o.get("marks").map_or(vec![], |m| serde_json::from_slice(m).unwrap());
    let msgs = match frames(&o.stdout) {
        Ok(m) => m,
        // what is being written when the process ends, as asked to, is cut off
        Err((at, torn, _)) if torn && at >= marks.last().copied().unwrap_or(0) => frames(&o.stdout[..at]).map_err(|e| e.2)?,
        Err(e) => return Err(e.2),
    };
    Ok(Wire { msgs, marks })
}

/// Split a byte stream into framed messages. Errors tell where, and whether
/// it is merely incomplete there.
pub fn frames(b: &[u8]) -> Result<Vec<(usize, Value)>, (usize, bool, String)> {
    let mut msgs = vec![];
    let mut at = 0;
    while at < b.len() {
        let rest = &b[at..];
        let bad = |what: &str, torn: bool| Err((at, torn, format!("{what} at {at}: {}", trunc(&String::from_utf8_lossy(rest), 300))));
        let Some(h) = rest.windows(4).position(|w| w == b"\r\n\r\n") else {
            return bad("no header", b"Content-Length: ".starts_with(&rest[..rest.len().min(16)]) && rest.len() < 40);
        };
        let Ok(head) = std::str::from_utf8(&rest[..h]) else { return bad("header", false) };
        let mut len = None;
        for l in head.split("\r\n") {
            if let Some(n) = l.strip_prefix("Content-Length: ") {
                len = n.parse::<usize>().ok();
            } else if !l.starts_with("Content-Type: ") {
                return bad("header", false);
            }
        }
        let Some(n) = len else { return bad("no length", false) };
        let Some(body) = rest.get(h + 4..h + 4 + n) else { return bad("incomplete message", true) };
        let v = match serde_json::from_slice(body) {
            Ok(v) => v,
            Err(e) => return bad(&format!("no JSON ({e})"), false),
        };
        at += h + 4 + n;
        msgs.push((at, v));
    }
    Ok(msgs)
}

impl Wire {
    /// Responses (the members of batches one by one) in order of appearance.
    pub fn responses(&self) -> Vec<(usize, Value)> {
        let mut v = vec![];
        for (at, m) in &self.msgs {
            let list = match m {
                Value::Array(a) => a.clone(),
                m => vec![m.clone()],
            };
            for m in list {
                if m.get("method").is_none() {
                    v.push((*at, m));
                }
            }
        }
        v
    }
    /// For each file, what was last published about it (nothing if cleared).
    pub fn diagnostics(&self, upto: usize) -> std::collections::BTreeMap<String, Vec<String>> {
        let mut out = std::collections::BTreeMap::new();
        for (at, m) in &self.msgs {
            if *at <= upto && m["method"] == "textDocument/publishDiagnostics" {
                let uri = m["params"]["uri"].as_str().unwrap_or("?").to_owned();
                let mut d: Vec<String> =
                    m["params"]["diagnostics"].as_array().map_or(vec!["not a list".into()], |a| a.iter().map(|d| unnumbered(&d.to_string())).collect());
                d.sort();
                if d.is_empty() {
                    out.remove(&uri);
                } else {
                    out.insert(uri, d);
                }
            }
        }
        out
    }
}

/// Some messages quote a `FileId(3)`, which depends on the order files were met in.
pub fn unnumbered(s: &str) -> String {
    let mut out = String::new();
    for (i, part) in s.split("FileId(").enumerate() {
        if i > 0 {
            out.push_str("FileId(");
            out.push_str(part.trim_start_matches(|c: char| c.is_ascii_digit()));
        } else {
            out.push_str(part);
        }
    }
    out
}

// ---------------------------------------------------------------------------
// Messages

pub fn request(id: Value, method: &str, params: Value) -> Item {
    let mut v = json!({"jsonrpc": "2.0", "id": id, "method": method});
    if !params.is_null() {
        v["params"] = params;
    }
    Item::Msg(v)
}
pub fn notify(method: &str, params: Value) -> Item {
    let mut v = json!({"jsonrpc": "2.0", "method": method});
    if !params.is_null() {
        v["params"] = params;
    }
    Item::Msg(v)
}
pub fn uri(path: &str) -> String {
    format!("file://{ROOT}/{path}")
}
/// `caps` is a set of optional client capabilities.
pub fn initialize(id: Value, root: bool, caps: u8) -> Item {
    let mut c = json!({});
    let td = json!({
        "signatureHelp": {"signatureInformation": {"parameterInformation": {"labelOffsetSupport": caps & 1 != 0}}},
        "publishDiagnostics": {"relatedInformation": caps & 2 != 0},
    });
    if caps & 16 == 0 {
        c["textDocument"] = td;
    }
    c["experimental"] = json!({"dreammaker": {"objectTree": caps & 4 != 0, "objectTree2": caps & 8 != 0}});
    let root = if root { json!(format!("file://{ROOT}{}", if caps & 32 != 0 { "/" } else { "" })) } else { Value::Null };
    request(id, "initialize", json!({"processId": 77, "rootUri": root, "capabilities": c}))
}
pub fn initialized() -> Item {
    notify("initialized", json!({}))
}
pub fn reparse() -> Item {
    notify("experimental/dreammaker/reparse", json!({}))
}

// ---------------------------------------------------------------------------
// Text as an editor sees it

/// Line contents without their terminators, and the terminators.
fn lines(text: &str) -> Vec<(&str, &str)> {
    let mut v = vec![];
    let mut rest = text;
    loop {
        match rest.find('\n') {
            Some(n) => {
                let e = if n > 0 && rest.as_bytes()[n - 1] == b'\r' { n - 1 } else { n };
                v.push((&rest[..e], &rest[e..=n]));
                rest = &rest[n + 1..];
            },
            None => {
                v.push((rest, ""));
                return v;
            },
        }
    }
}

/// A position between two characters.
pub fn position(r: &mut Rng, text: &str) -> (u32, u32) {
    let l = lines(text);
    let mut n = r.idx(l.len());
    if r.chance(3, 4) {
        // prefer lines with something on them
        for _ in 0..4 {
            if l[n].0.trim().is_empty() {
                n = r.idx(l.len());
            }
        }
    }
    let cs: Vec<char> = l[n].0.chars().collect();
    let k = r.idx(cs.len() + 1);
    let c: usize = cs[..k].iter().map(|c| c.len_utf16()).sum();
    let c = c as u32 + if k == cs.len() && r.chance(1, 5) { 1 + r.below(300) as u32 } else { 0 };
    (n as u32, c)
}

/// The byte offset of a position. A column beyond the end of a line means its end.
pub fn offset(text: &str, (line, col): (u32, u32)) -> usize {
    let mut at = 0;
    for (i, (body, eol)) in lines(text).into_iter().enumerate() {
        if i as u32 == line {
            let mut units = 0;
            for (k, c) in body.char_indices() {
                if units >= col {
                    return at + k;
                }
                units += c.len_utf16() as u32;
            }
            return at + body.len();
        }
        at += body.len() + eol.len();
    }
    text.len()
}

pub fn splice(text: &str, a: (u32, u32), b: (u32, u32), new: &str) -> String {
    let (s, e) = (offset(text, a), offset(text, b));
    format!("{}{new}{}", &text[..s], &text[e..])
}
pub fn pos(p: (u32, u32)) -> Value {
    json!({"line": p.0, "character": p.1})
}

// ---------------------------------------------------------------------------
// Generators

pub const METHODS: &[&str] = &[
    "textDocument/hover",
    "textDocument/definition",
    "textDocument/typeDefinition",
    "textDocument/completion",
    "textDocument/signatureHelp",
    "textDocument/documentSymbol",
    "textDocument/foldingRange",
    "textDocument/documentColor",
    "textDocument/colorPresentation",
    "textDocument/documentLink",
    "textDocument/references",
    "textDocument/implementation",
];

/// Its answer may depend on how far background work has come.
pub fn background(method: &str) -> bool {
    method == "textDocument/references" || method == "textDocument/implementation"
}

/// A question about a document.
pub fn question(r: &mut Rng, uri: &str, text: &str) -> (String, Value) {
    let m = if r.chance(1, 2) { METHODS[r.idx(5)] } else { METHODS[r.idx(METHODS.len())] };
    (m.to_string(), params(r, m, uri, text))
}
pub fn params(r: &mut Rng, m: &str, uri: &str, text: &str) -> Value {
    let td = json!({"uri": uri});
    let p = position(r, text);
    match m {
        "textDocument/documentSymbol" | "textDocument/foldingRange" | "textDocument/documentColor" | "textDocument/documentLink" => {
            json!({"textDocument": td})
        },
        "textDocument/colorPresentation" => {
            let q = position(r, text);
            let (a, b) = if p <= q { (p, q) } else { (q, p) };
            json!({"textDocument": td, "color": {"red": 0.25, "green": 0.5, "blue": 1.0, "alpha": if r.chance(1, 2) { 1.0 } else { 0.5 }}, "range": {"start": pos(a), "end": pos(b)}})
        },
        "textDocument/references" => json!({"textDocument": td, "position": pos(p), "context": {"includeDeclaration": r.chance(1, 2)}}),
        _ => json!({"textDocument": td, "position": pos(p)}),
    }
}

const BITS: &[&str] = &[
    "x", "\n", "\n\t", "é", "\u{1f600}", "日本", "\r\n", "\t", "//", "/*", "*/", "\"", "[", "]", "(", ")", "{", "}", "#", ".", "src.", "/datum/a", "/", "..()",
    "\"#ff0000\"", "rgb(1,2,3)", "// #region a\n", "// #endregion\n", "\n/datum/a/proc/p0(x)\n\treturn x + v0\n", "#define NEW_M(x) (x + 1)\n",
    "var/datum/a/q = new\n", "#undef M0\n", "\u{feff}", "'icon.dmi'", "#include \"code/a.dm\"\n", "v0", "p0(", "M0", "ADD(1, ",
];

/// Text an editor may type or paste.
pub fn snippet(r: &mut Rng) -> String {
    match r.below(6) {
        0 => {
            let mut g = Gen { r, st: Style { broken: true, docs: true, max_chunks: 3, ..Style::default() } };
            g.chunk()
        },
        1 => String::new(),
        _ => (0..1 + r.idx(3)).map(|_| *r.pick(BITS)).collect(),
    }
}

/// Text to open a document with: as given, or made long, or with other line ends.
pub fn reshape(r: &mut Rng, text: &str) -> String {
    let mut t = String::new();
    if r.chance(1, 6) {
        // longer than any buffer, without anything lining up
        for _ in 0..1 + r.idx(8) {
            t.push_str("// ");
            let c = *r.pick(&["é", "日本", "\u{1f600}", "a日", "xé\u{1f600}"]);
            t.push_str(&c.repeat(1 + r.idx(1500)));
            t.push('\n');
        }
        t.push_str("/datum/a/var/tint = \"#00ff00\"\n");
    }
    t.push_str(text);
    if r.chance(1, 4) {
        t = t.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    t
}

/// The questions whose answers show most of where everything is in a document.
pub fn survey(uri: &str) -> Vec<(String, Value)> {
    ["textDocument/documentSymbol", "textDocument/documentColor", "textDocument/foldingRange", "textDocument/documentLink"]
        .iter()
        .map(|m| (m.to_string(), json!({"textDocument": {"uri": uri}})))
        .collect()
}

/// One change event, and the text after it.
pub fn edit(r: &mut Rng, text: &str) -> (Value, String) {
    if r.chance(1, 12) {
        let t = snippet(r);
        return (json!({"text": t}), t);
    }
    let a = position(r, text);
    let b = match r.below(4) {
        0 => a,
        1 => {
            // a few characters on the same line
            let k = offset(text, a);
            let n = text[k..].chars().take(1 + r.idx(6)).take_while(|&c| c != '\n' && c != '\r').map(|c| c.len_utf16() as u32).sum::<u32>();
            (a.0, a.1 + n)
        },
        2 => {
            // to nearby lines
            let n = lines(text).len() as u32;
            let l = (a.0 + r.below(3) as u32).min(n - 1);
            let (_, c) = position(r, lines(text)[l as usize].0);
            (l, c)
        },
        _ => position(r, text),
    };
    let (a, b) = if (offset(text, a), a) <= (offset(text, b), b) { (a, b) } else { (b, a) };
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    let old = &text[offset(text, a)..offset(text, b)];
    let new = match r.below(10) {
        // one the same length as what was there
        0 => old.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        1 => old.chars().rev().filter(|&c| c != '\r').collect(),
        2 => "\"#12ab34\" ".into(),
        _ => snippet(r),
    };
    let mut ev = json!({"range": {"start": pos(a), "end": pos(b)}, "text": new});
    if r.chance(1, 4) {
        let n: usize = old.chars().map(|c| c.len_utf16()).sum();
        ev["rangeLength"] = json!(n);
    }
    (ev, splice(text, a, b, &new))
}

/// A source tree with the server's own configuration.
pub fn project(r: &mut Rng, chunks: usize, broken: bool) -> DmSpec {
    let (docs, assets) = (r.chance(1, 3), r.chance(1, 4));
    let mut s = DmSpec::gen(r, Style { broken, docs, config: true, assets, max_chunks: chunks });
    // A file which includes itself some hundreds of times can have millions of diagnostics.
    for f in &mut s.files {
        f.chunks.retain(|c| !c.contains("#pragma multiple"));
    }
    if r.chance(2, 3) {
        set_langserver(&mut s, r.chance(4, 5));
    }
    s
}
pub fn set_langserver(s: &mut DmSpec, on: bool) {
    let t = format!("[langserver]\ndreamchecker = {on}\n");
    match s.other.iter_mut().find(|o| o.0 == "SpacemanDMM.toml") {
        Some(o) => o.1.extend_from_slice(t.as_bytes()),
        None => s.other.push(("SpacemanDMM.toml".into(), t.into_bytes())),
    }
}

/// Drop ever larger parts of a list.
pub fn shrink_list<T: Clone>(v: &[T], keep: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let n = v.len() - keep.min(v.len());
    let mut k = n / 2;
    while k >= 1 {
        let mut i = keep;
        while i < v.len() {
            let mut w = v.to_vec();
            w.drain(i..(i + k).min(v.len()));
            out.push(w);
            i += k;
        }
        k /= 2;
    }
    out
}

/// Apply one change event; `None` if it names a line which does not exist.
pub fn apply(text: &str, ev: &Value) -> Option<String> {
    let new = ev["text"].as_str()?;
    let Some(range) = ev.get("range") else { return Some(new.to_owned()) };
    let p = |v: &Value| Some((v["line"].as_u64()? as u32, v["character"].as_u64()? as u32));
    let (a, b) = (p(&range["start"])?, p(&range["end"])?);
    let n = lines(text).len() as u32;
    if a.0 >= n || b.0 >= n || offset(text, a) > offset(text, b) {
        return None;
    }
    Some(splice(text, a, b, new))
}

pub fn first_diff(a: &str, b: &str) -> String {
    let n = a.lines().zip(b.lines()).take_while(|(x, y)| x == y).count();
    let show = |s: &str| s.lines().skip(n).take(4).map(|l| trunc(l, 500)).collect::<Vec<_>>().join("\n");
    format!("line {n}\n--- one\n{}\n--- other\n{}", show(a), show(b))
}
