//! C10: a torn or damaged source file never crashes or hangs the parser.
use crate::lint::*;
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::dm::*;

/// What the disk returns instead of what was written.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Damage {
    /// Only a prefix.
    Torn(usize),
    /// A range of another file's (or this file's) bytes.
    Copy { at: usize, from: usize, len: usize, file: usize },
    /// A range of one byte value.
    Fill { at: usize, len: usize, byte: u8 },
    Flip { at: usize, bit: u8 },
    /// A range which was lost, the rest having moved up.
    Lost { at: usize, len: usize },
    /// A short text written over what was there, or between.
    Text { at: usize, text: String, over: bool },
    /// A text which is there over and over again.
    Run { at: usize, text: String, times: usize, end: String },
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    spec: DmSpec,
    call: Call,
    damage: Vec<(usize, Damage)>,
    cfg: Config,
    /// How many spaces the files are indented by instead of tabs.
    #[serde(default)]
    unit: usize,
}
pub struct C10;

/// The same text with its leading tabs replaced.
fn reindent(b: &[u8], unit: usize) -> Vec<u8> {
    if unit == 0 {
        return b.to_vec();
    }
    let mut out = vec![];
    let mut head = true;
    for &c in b {
        if head && c == b'\t' {
            out.extend(std::iter::repeat_n(b' ', unit));
            continue;
        }
        head = c == b'\n';
        out.push(c);
    }
    out
}

const BITS: &[&str] = &[
    "\"", "[", "]", "{\"", "\"}", "(", ")", "{", "}", "/*", "*/", "//", "\\", "\n", "\t", "#", "##", "#define X", "#if", "#endif", "@", "@(", "'", "..", "...", "::", ":", "?.", "?", ";", ",", "=", "\r", "\0",
    "/", "var", "proc", "set ", "in ", "as ", "to", "0x", "1e", "1.#INF", "1e9999", "99999999999999999999", "\"[", "]\"", "\"[\"[\"", "\\\n", "/**", "/*!", "///", "//!", "<<=", "%%=", "~", "__LINE__", "\u{e9}",
    "if(", "for(", "switch(", "while(", "do", "try", "catch", "new", "list(", "goto", "spawn", "newlist(", "input(", "pick(", "locate(", "#undef", "#include \"", "#pragma multiple", "\u{feff}", "#error", "#warn", "_proc", "operator", "call(",
    "\n ", "\n  x\n", "\n   x = 1\n}\n", "\n}\n", "\n{\n", "\n\t\t\t", "}s)", "){", "(}", "({", "\n   x = 1\n}",
];

/// What is repeated, and what might close it.
const RUNS: &[(&str, &str)] = &[
    ("(", ")"), ("[", "]"), ("{", "}"), ("!", ""), ("-", ""), ("~", ""), (" ", ""), ("\t", ""), ("x", ""), ("\"", ""), ("/", ""), (",", ""), (";", ""), ("9", ""), ("\n", ""), ("\\", ""), ("'", ""), (".", ""), ("?", ""), ("=", ""),
    ("list(", ")"), ("\"[", "]\""), ("x(", ")"), ("a[", "]"), ("a?b:", ""), ("a=", ""), ("a+", ""), ("a**", ""), ("a.", ""), ("a?.", ""), ("1,", ""), ("a in ", ""), ("!(", ")"), ("new ", ""), ("a ? (", "):1"), ("/a", ""), ("/*", "*/"),
    ("if(1) ", ""), ("if(1){", "}"), ("for() ", ""), ("while(1){", "}"), ("else ", ""), ("do ", "while(1)"), ("spawn ", ""), ("spawn(1){", "}"), ("switch(1){if(1){", "}}"), ("try{", "}"), ("var/", ""), ("set ", ""), ("#define a(x) x\n", ""),
    ("\n#if 1", "\n#endif"), ("\n#ifdef A\n#else", "\n#endif"), ("\na{", "}"), ("\na/proc/b(){", "}"), ("a{", "}"), ("\n\tx = 1", ""), ("{\"", "\"}"), ("@(", ""), ("x(a=", ")"), ("list(a=", ")"), ("pick(1;", ")"), ("as num|", ""), ("\\\n", ""),
];

impl Check for C10 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let st = Style { broken: r.chance(1, 2), docs: r.chance(1, 3), config: true, assets: false, max_chunks: if thorough { 24 } else { 12 } };
        let spec = DmSpec::gen(r, st);
        let call = Call::gen(r, &spec);
        let nf = spec.files.len() + spec.other.len();
        let unit = if r.chance(1, 3) { 2 + r.idx(3) } else { 0 };
        let mut damage = vec![];
        for _ in 0..1 + if r.chance(1, 3) { r.idx(8) } else { 0 } {
            let f = r.idx(nf);
            let len = if f < spec.files.len() { reindent(&spec.text(f), unit).len() } else { spec.other[f - spec.files.len()].1.len() };
            let at = r.idx(len + 1);
            let n = if r.chance(1, 2) { 1 + r.idx(8) } else { 1 + r.idx(600) };
            let d = match r.below(11) {
                0..=2 => Damage::Torn(at),
                3 => Damage::Copy { at, from: r.idx(4000), len: n, file: r.idx(nf) },
                4 => Damage::Fill { at, len: n, byte: *r.pick(&[0u8, 0xff, b' ', b'\n', b'\t', b'(', b'{', b'"', b'[', b'/', b'-', b'!']) },
                5 => Damage::Flip { at, bit: r.below(8) as u8 },
                6 => Damage::Lost { at, len: n },
                7 => {
                    let &(text, end) = r.pick(RUNS);
                    let times = match r.below(12) {
                        0 if text.len() == 1 => 65_000 + r.idx(3000),
                        0 | 1 => 1000 + r.idx(4000),
                        2..=5 => 100 + r.idx(900),
                        _ => 1 + r.idx(100),
                    };
                    let end = if r.chance(1, 2) && times < 2000 { end.repeat(times) } else { String::new() };
                    Damage::Run { at, text: text.into(), times, end }
                },
                _ => Damage::Text { at, text: (0..1 + r.idx(3)).map(|_| r.pick(BITS).to_string()).collect(), over: r.chance(1, 2) },
            };
            damage.push((f, d));
        }
        let mut cfg = Config { max_ticks: 200_000_000, ..Config::default() };
        gen::benign_delivery(r, &mut cfg);
        gen::coarse(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        Case { spec, call, damage, cfg, unit }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        ex.wall_secs = 60;
        let paths = c.spec.paths();
        let text = |f: usize| -> Vec<u8> {
            if f < c.spec.files.len() {
                c.spec.text(f)
            } else {
                c.spec.other.get(f - c.spec.files.len()).map_or(vec![], |o| o.1.clone())
            }
        };
        let damaged = |p: &str, b: Vec<u8>| -> Option<Vec<u8>> {
            let mut b = reindent(&b, c.unit);
            for (f, d) in &c.damage {
                if paths.get(*f).map(|s| &**s) != Some(p) {
                    continue;
                }
                match d {
                    Damage::Torn(n) => b.truncate(*n),
                    Damage::Copy { at, from, len, file } => {
                        let src = text(*file);
                        let from = (*from).min(src.len());
                        let piece = src[from..(from + len).min(src.len())].to_vec();
                        let at = (*at).min(b.len());
                        let end = (at + piece.len()).min(b.len());
                        b.splice(at..end, piece);
                    },
                    Damage::Fill { at, len, byte } => {
                        let at = (*at).min(b.len());
                        let end = (at + len).min(b.len());
                        b[at..end].fill(*byte);
                    },
                    Damage::Flip { at, bit } => {
                        if let Some(x) = b.get_mut(*at) {
                            *x ^= 1 << bit;
                        }
                    },
                    Damage::Lost { at, len } => {
                        let at = (*at).min(b.len());
                        let end = (at + len).min(b.len());
                        b.drain(at..end);
                    },
                    Damage::Text { at, text, over } => {
                        let at = (*at).min(b.len());
                        let end = if *over { (at + text.len()).min(b.len()) } else { at };
                        b.splice(at..end, text.bytes());
                    },
                    Damage::Run { at, text, times, end } => {
                        let at = (*at).min(b.len());
                        b.splice(at..at, text.repeat(*times).into_bytes().into_iter().chain(end.bytes()));
                    },
                }
                simos::note_injected(match d {
                    Damage::Torn(_) => "torn_file",
                    Damage::Copy { .. } => "misplaced_block",
                    Damage::Fill { .. } => "filled_block",
                    Damage::Flip { .. } => "flipped_bit",
                    Damage::Lost { .. } => "lost_block",
                    Damage::Text { .. } => "damaged_text",
                    Damage::Run { .. } => "repeated_text",
                });
            }
            Some(b)
        };
        let mut o = ex.run(&c.cfg, &c.call.args(&c.spec), || c.spec.install_with(damaged), body);
        if o.end == End::StepLimit {
            // A file which includes itself is read some hundreds of times: slow is not stuck.
            ex.probe("slow");
            let cfg = Config { max_ticks: 20 * c.cfg.max_ticks, ..c.cfg.clone() };
            o = ex.run(&cfg, &c.call.args(&c.spec), || c.spec.install_with(damaged), body);
        }
        if let Some(v) = judge::bad_end(&o, true) {
            return v;
        }
        if !matches!(o.end, End::Exit(0 | 1)) {
            return Verdict::bad("odd exit status", format!("{:?} {}", o.end, o.err_str()));
        }
        if found(&o.out_str()).is_none() {
            return Verdict::bad("no summary", o.out_str());
        }
        if let Some(d) = consistent(&o) {
            return Verdict::bad("inconsistent report", d);
        }
        if o.end == End::Exit(0) {
            ex.probe("clean");
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = vec![];
        if c.unit != 0 {
            v.push(Case { unit: 0, ..c.clone() });
        }
        for i in 0..c.damage.len() {
            let mut d = c.clone();
            d.damage.remove(i);
            v.push(d);
        }
        // fold the damage into the text, so that it can be shrunk with it
        v.extend(c.spec.shrink().into_iter().map(|spec| Case { spec, ..c.clone() }));
        v.extend(c.call.shrink().into_iter().map(|call| Case { call, ..c.clone() }));
        for i in 0..c.damage.len() {
            if let Damage::Run { times, end, .. } = &c.damage[i].1 {
                let (times, tail) = (*times, end.len());
                for (times, tail) in [(times / 2, tail / 2), (times * 9 / 10, tail), (times.saturating_sub(1), tail), (times, 0)] {
                    let mut d = c.clone();
                    if let Damage::Run { times: t, end: e, .. } = &mut d.damage[i].1 {
                        if e.is_char_boundary(tail) && (*t, e.len()) != (times, tail) {
                            *t = times;
                            e.truncate(tail);
                            v.push(d);
                        }
                    }
                }
            }
            let f = c.damage[i].0;
            if f < c.spec.files.len() {
                if let Damage::Torn(n) = c.damage[i].1 {
                    // keep only what survives, as one chunk
                    let t = c.spec.text(f);
                    if let Ok(s) = std::str::from_utf8(&t[..n.min(t.len())]) {
                        let mut d = c.clone();
                        d.spec.files[f].chunks = s.split_inclusive('\n').map(String::from).collect();
                        d.damage.remove(i);
                        v.push(d);
                    }
                }
                for k in [0usize, 1] {
                    let mut d = c.clone();
                    let at = match &mut d.damage[i].1 {
                        Damage::Torn(n) => n,
                        Damage::Copy { at, .. } | Damage::Fill { at, .. } | Damage::Flip { at, .. } | Damage::Lost { at, .. } | Damage::Text { at, .. } | Damage::Run { at, .. } => at,
                    };
                    let new = if k == 0 { *at / 2 } else { at.saturating_sub(1) };
                    if new != *at {
                        *at = new;
                        v.push(d);
                    }
                }
            }
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (24000, 400000)
    }
    fn rule(&self) -> String {
        "one case = one source tree of which the disk returns a torn, partly lost, misplaced, overwritten or bit-flipped copy, linted by the whole program; distinct = distinct traces of cases with damage".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dreamchecker command line (whole program)", "dreammaker preprocessor, lexer, parser, object tree", "dreamchecker analysis"],
            "simulated": ["file system and its damage", "randomness"],
            "stub": [],
        })
    }
}
