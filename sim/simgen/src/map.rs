//! Maps as data, and an independent writer for both map formats.
use serde::{Deserialize, Serialize};
use simos::Rng;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PrefabSpec {
    pub path: String,
    /// Variable and DM source text of its value.
    pub vars: Vec<(String, String)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MapSpec {
    pub dim: (usize, usize, usize),
    /// Dictionary: numeric key and prefabs.
    pub dict: Vec<(u16, Vec<PrefabSpec>)>,
    /// Dictionary index per cell in z, y (top first), x order.
    pub cells: Vec<usize>,
}

const BASE: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

pub fn key_text(mut k: u32, len: usize) -> String {
    let mut v = vec![];
    for _ in 0..len {
        v.push(BASE[(k % 52) as usize]);
        k /= 52;
    }
    v.reverse();
    String::from_utf8(v).unwrap()
}

pub fn key_len(max: u16) -> usize {
    if max >= 2704 {
        3
    } else if max >= 52 {
        2
    } else {
        1
    }
}

pub fn value(r: &mut Rng, depth: u32) -> String {
    match r.below(if depth == 0 { 15 } else { 10 }) {
        0 => r.range(-1000, 1000).to_string(),
        1 => r.pick(&["0", "1", "123456", "-99999", "0.5", "0.001", "2.75", "1e+006", "1e-005", "-0.25", "100000", "32"]).to_string(),
        2 => "null".into(),
        3 | 4 | 5 => string(r),
        6 => format!("'icons/{}.dmi'", r.pick(&["a", "turf b", "obj/x", "ÿ"])),
        7 => r.pick(&["/obj/item", "/turf/open/floor", "/area", "/mob/living/a1"]).to_string(),
        8 => format!("{}", r.range(0, 1 << 19)),
        9 => string(r),
        10 => "list()".into(),
        11 => {
            let n = 1 + r.below(4);
            let v: Vec<String> = (0..n)
                .map(|_| {
                    let k = match r.below(3) {
                        0 => string(r),
                        1 => "/obj/a".to_string(),
                        _ => value(r, 1),
                    };
                    if r.chance(1, 3) && !k.starts_with('-') && k.starts_with('"') {
                        format!("{k} = {}", value(r, 1))
                    } else {
                        k
                    }
                })
                .collect();
            format!("list({})", v.join(","))
        },
        12 => "matrix(1,0,0,0,1,0)".into(),
        13 => long_string(r),
        _ => format!("newlist(/obj/item,/obj/{})", r.pick(&["a", "b"])),
    }
}

/// A `{"long string"}`.
pub fn long_string(r: &mut Rng) -> String {
    let mut s = String::from("{\"");
    for _ in 0..r.below(20) {
        s.push_str(r.pick(&["a", "b ", "\n", "\"", "\"\"", "\t", "\\\"}", "\\\\", "}", "{", ";", "//", ")", "é", "\\n"]));
    }
    // an unescaped terminator inside would end it early
    while let Some(p) = s[2..].find("\"}") {
        s.insert(2 + p + 1, 'x');
    }
    s.push_str("\"}");
    s
}

pub fn string(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => 200 + r.below(3000),
        _ => r.below(20),
    };
    let mut s = String::from("\"");
    for _ in 0..n {
        match r.below(24) {
            0 => s.push_str("\\\""),
            1 => s.push_str("\\\\"),
            2 => s.push_str("\\n"),
            3 => s.push_str("\\["),
            4 => s.push(*r.pick(&[';', '}', '{', ',', '(', ')', '=', '/', '\'', '&', '<'])),
            5 => s.push_str(r.pick(&["é", "я", "漢", "😀", "ß", "\u{a0}"])),
            6 => s.push(*r.pick(&[' ', ' ', '\t'])),
            7 => s.push_str("//"),
            _ => s.push((b'a' + r.below(26) as u8) as char),
        }
    }
    s.push('"');
    s
}

impl MapSpec {
    pub fn gen(r: &mut Rng, big: bool) -> MapSpec {
        let dim = match r.below(6) {
            0 => (1, 1, 1),
            1 => (1 + r.idx(40), 1, 1),
            2 => (1, 1 + r.idx(40), 1 + r.idx(2)),
            3 if big => (20 + r.idx(60), 20 + r.idx(60), 1 + r.idx(3)),
            _ => (1 + r.idx(8), 1 + r.idx(8), 1 + r.idx(3)),
        };
        let n = dim.0 * dim.1 * dim.2;
        let style = r.below(7);
        let nkeys = match style {
            0 => 1,
            1 => 52 + r.idx(4),
            2 => 1 + r.idx(60),
            _ => 1 + r.idx(12),
        };
        let mut keys: Vec<u16> = match r.below(5) {
            0 => (0..nkeys as u16).map(|k| k + *r.pick(&[49u16, 50, 51])).collect(),
            1 => (0..nkeys as u16).map(|k| k + *r.pick(&[2700u16, 2702, 2703])).collect(),
            2 => (0..nkeys as u16).map(|k| k + *r.pick(&[0u16, 65534 - 70, 30000])).collect(),
            3 => (0..nkeys).map(|_| r.below(65535) as u16).collect(),
            _ => (0..nkeys as u16).collect(),
        };
        if style == 0 {
            keys = vec![*r.pick(&[0u16, 51, 52, 2703, 2704, 65534])];
        }
        keys.sort();
        keys.dedup();
        let dict = keys
            .iter()
            .map(|&k| {
                let np = 1 + r.idx(4);
                let prefabs = (0..np)
                    .map(|_| {
                        let nv = if r.chance(1, 2) { 0 } else { r.idx(4) };
                        let mut vars: Vec<(String, String)> = vec![];
                        for _ in 0..nv {
                            let name = r.pick(&["name", "dir", "icon_state", "desc", "pixel_x", "req_access", "x1", "tag", "color"]).to_string();
                            if vars.iter().all(|v| v.0 != name) {
                                vars.push((name, value(r, 0)));
                            }
                        }
                        PrefabSpec {
                            path: r.pick(&["/turf/open/floor", "/turf/closed/wall", "/area/space", "/obj/item/a", "/obj/machinery/b2", "/mob/living"]).to_string(),
                            vars,
                        }
                    })
                    .collect();
                (k, prefabs)
            })
            .collect::<Vec<_>>();
        let m = dict.len();
        let cells = (0..n).map(|_| r.idx(m)).collect();
        MapSpec { dim, dict, cells }
    }

    pub fn max_key(&self) -> u16 {
        self.dict.iter().map(|d| d.0).max().unwrap_or(0)
    }

    fn cell(&self, x: usize, y: usize, z: usize) -> usize {
        self.cells[(z * self.dim.1 + y) * self.dim.0 + x]
    }

    /// Write as map text, without going through the repository's writer.
    pub fn text(&self, st: &Style) -> Vec<u8> {
        let nl = if st.crlf { "\r\n" } else { "\n" };
        let kl = key_len(self.max_key()).max(st.min_key_len);
        let mut s = String::new();
        if st.tgm {
            s.push_str("//MAP CONVERTED BY dmm2tgm.py THIS HEADER COMMENT PREVENTS RECONVERSION, DO NOT REMOVE");
            s.push_str(nl);
        }
        for (k, prefabs) in &self.dict {
            let key = key_text(*k as u32, kl);
            if st.tgm {
                s.push_str(&format!("\"{key}\" = ({nl}"));
                for (i, p) in prefabs.iter().enumerate() {
                    s.push_str(&p.path);
                    if !p.vars.is_empty() {
                        s.push('{');
                        for (j, (v, e)) in p.vars.iter().enumerate() {
                            s.push_str(&format!("{nl}\t{v} = {e}"));
                            if j + 1 != p.vars.len() {
                                s.push(';');
                            }
                        }
                        s.push_str(&format!("{nl}\t}}"));
                    }
                    if i + 1 != prefabs.len() {
                        s.push_str(&format!(",{nl}"));
                    }
                }
                s.push_str(&format!("){nl}"));
            } else {
                s.push_str(&format!("\"{key}\" = ("));
                for (i, p) in prefabs.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(&p.path);
                    if !p.vars.is_empty() {
                        s.push('{');
                        let v: Vec<String> = p.vars.iter().map(|(v, e)| format!("{v} = {e}")).collect();
                        s.push_str(&v.join("; "));
                        s.push('}');
                    }
                }
                s.push_str(&format!("){nl}"));
            }
        }
        for z in 0..self.dim.2 {
            s.push_str(nl);
            if st.tgm {
                for x in 0..self.dim.0 {
                    s.push_str(&format!("({},1,{}) = {{\"{nl}", x + 1, z + 1));
                    for y in 0..self.dim.1 {
                        s.push_str(&key_text(self.dict[self.cell(x, y, z)].0 as u32, kl));
                        s.push_str(nl);
                    }
                    s.push_str(&format!("\"}}{nl}"));
                }
            } else {
                s.push_str(&format!("(1,1,{}) = {{\"{nl}", z + 1));
                for y in 0..self.dim.1 {
                    for x in 0..self.dim.0 {
                        s.push_str(&key_text(self.dict[self.cell(x, y, z)].0 as u32, kl));
                    }
                    s.push_str(nl);
                }
                s.push_str(&format!("\"}}{nl}"));
            }
        }
        s.into_bytes()
    }

    pub fn shrink(&self) -> Vec<MapSpec> {
        let mut out = vec![];
        let (x, y, z) = self.dim;
        for d in [(1, 1, 1), (x, y, 1), (x, 1, z), (1, y, z), (x.div_ceil(2), y.div_ceil(2), z), (x, y.saturating_sub(1).max(1), z), (x.saturating_sub(1).max(1), y, z)] {
            if d != self.dim {
                let mut m = self.clone();
                m.dim = d;
                m.cells = vec![];
                for k in 0..d.2 {
                    for j in 0..d.1 {
                        for i in 0..d.0 {
                            m.cells.push(self.cell(i, j, k));
                        }
                    }
                }
                out.push(m);
            }
        }
        // drop dictionary entries
        let n = self.dict.len();
        for (a, b) in [(0, n / 2), (n / 2, n)].into_iter().chain((0..n.min(40)).map(|i| (i, i + 1))) {
            if b - a == n || a == b {
                continue;
            }
            let mut m = self.clone();
            m.dict.drain(a..b);
            let left = m.dict.len();
            for c in m.cells.iter_mut() {
                *c = if *c >= b { *c - (b - a) } else if *c >= a { 0 } else { *c }.min(left - 1);
            }
            out.push(m);
        }
        for i in 0..n.min(30) {
            for j in 0..self.dict[i].1.len() {
                if self.dict[i].1.len() > 1 {
                    let mut m = self.clone();
                    m.dict[i].1.remove(j);
                    out.push(m);
                }
                for k in 0..self.dict[i].1[j].vars.len() {
                    let mut m = self.clone();
                    m.dict[i].1[j].vars.remove(k);
                    out.push(m);
                    let v = &self.dict[i].1[j].vars[k].1;
                    if v.starts_with('"') && v.len() > 4 {
                        // halves of a string, on character and escape boundaries
                        let cs: Vec<char> = v[1..v.len() - 1].chars().collect();
                        for part in [&cs[..cs.len() / 2], &cs[cs.len() / 2..]] {
                            let t: String = part.iter().collect();
                            if t.chars().rev().take_while(|&c| c == '\\').count() % 2 == 0 && !t.starts_with('"') && !t.starts_with('[') {
                                let mut m = self.clone();
                                m.dict[i].1[j].vars[k].1 = format!("\"{t}\"");
                                out.push(m);
                            }
                        }
                    } else if v.starts_with("list") && v != "list()" {
                        let mut m = self.clone();
                        m.dict[i].1[j].vars[k].1 = "list()".into();
                        out.push(m);
                    }
                }
            }
        }
        out
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Style {
    pub tgm: bool,
    pub crlf: bool,
    pub min_key_len: usize,
}

impl Style {
    pub fn gen(r: &mut Rng) -> Style {
        Style { tgm: r.chance(1, 2), crlf: r.chance(1, 4), min_key_len: if r.chance(1, 3) { 3 } else { 1 } }
    }
}

/// A small change to stored bytes.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Damage {
    Truncate(usize),
    Flip(usize, u8),
    Set(usize, u8),
    /// Zero a run, as a lost sector would.
    Zero(usize, usize),
    Delete(usize, usize),
    Dup(usize, usize),
    /// Replace a run by other text.
    Insert(usize, Vec<u8>),
}

impl Damage {
    pub fn gen(r: &mut Rng, len: usize, tokens: &[&str]) -> Damage {
        let p = r.idx(len.max(1));
        match r.below(10) {
            0..=2 => Damage::Truncate(p),
            3 => Damage::Flip(p, 1 << r.below(8)),
            4 => Damage::Set(p, r.below(256) as u8),
            5 => Damage::Zero(p, 1 + r.idx(64)),
            6 => Damage::Delete(p, 1 + r.idx(12)),
            7 => Damage::Dup(p, 1 + r.idx(40)),
            _ => Damage::Insert(p, r.pick(tokens).as_bytes().to_vec()),
        }
    }
    pub fn apply(&self, b: &mut Vec<u8>) {
        let n = b.len();
        match self {
            Damage::Truncate(p) => b.truncate(*p),
            Damage::Flip(p, m) if *p < n => b[*p] ^= m,
            Damage::Set(p, v) if *p < n => b[*p] = *v,
            Damage::Zero(p, k) => {
                for i in *p..(p + k).min(n) {
                    b[i] = 0;
                }
            },
            Damage::Delete(p, k) if *p < n => {
                b.drain(*p..(p + k).min(n));
            },
            Damage::Dup(p, k) if *p < n => {
                let part = b[*p..(p + k).min(n)].to_vec();
                b.splice(*p..*p, part);
            },
            Damage::Insert(p, v) if *p <= n => {
                b.splice(*p..*p, v.iter().cloned());
            },
            _ => {},
        }
    }
}
