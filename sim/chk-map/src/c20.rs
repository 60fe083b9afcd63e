//! C20: a successful command has delivered its whole, correct report.
use crate::c05::{gen_opts, many_json, Opts, OUT};
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::map::{MapSpec, PrefabSpec, Style};
use simgen::render::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Cmd {
    Diff,
    Info,
    Passes { json: bool },
    Many,
    Lint { json: bool, parse_only: bool },
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    cmd: Cmd,
    /// Maps for `diff-maps` (the first two) and `map-info`.
    maps: Vec<(String, MapSpec, Style)>,
    /// Environment for `render-many` and the linter.
    env: Option<RenderSpec>,
    opts: Opts,
    cfg: Config,
}
pub struct C20;

/// A value whose text decides what it is equal to, as far as this check can tell.
fn simple(e: &str) -> bool {
    let b = e.as_bytes();
    let int = !b.is_empty() && b.len() < 7 && b.iter().all(u8::is_ascii_digit) && (b.len() == 1 || b[0] != b'0');
    let text = b.len() > 2 && b[0] == b'"' && b[b.len() - 1] == b'"' && b[1..b.len() - 1].iter().all(u8::is_ascii_alphanumeric);
    int || text
}

/// Whether two tiles are equal; unknown if that depends on the values of
/// differently written expressions.
fn same(a: &[PrefabSpec], b: &[PrefabSpec]) -> Option<bool> {
    if a.len() != b.len() {
        return Some(false);
    }
    let mut unknown = false;
    for (p, q) in a.iter().zip(b) {
        let (v, w): (BTreeMap<_, _>, BTreeMap<_, _>) = (p.vars.iter().cloned().collect(), q.vars.iter().cloned().collect());
        if p.path != q.path || !v.keys().eq(w.keys()) {
            return Some(false);
        }
        for (k, e) in &v {
            if *e != w[k] {
                if simple(e) && simple(&w[k]) {
                    return Some(false);
                }
                unknown = true;
            }
        }
    }
    if unknown {
        None
    } else {
        Some(true)
    }
}

fn at(m: &MapSpec, x: usize, y: usize, z: usize) -> &[PrefabSpec] {
    // rows are stored from the top
    &m.dict[m.cells[(z * m.dim.1 + (m.dim.1 - 1 - y)) * m.dim.0 + x]].1
}

/// Coordinates which must be listed, and those which may be.
#[allow(clippy::type_complexity)]
fn differing(a: &MapSpec, b: &MapSpec) -> (BTreeSet<(usize, usize, usize)>, BTreeSet<(usize, usize, usize)>) {
    let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
    for z in 0..a.dim.2.min(b.dim.2) {
        for y in 0..a.dim.1.min(b.dim.1) {
            for x in 0..a.dim.0.min(b.dim.0) {
                match same(at(a, x, y, z), at(b, x, y, z)) {
                    Some(false) => {
                        must.insert((x + 1, y + 1, z + 1));
                    },
                    None => {
                        may.insert((x + 1, y + 1, z + 1));
                    },
                    Some(true) => {},
                }
            }
        }
    }
    (must, may)
}

/// Another version of a map: new keys, and a few edits.
fn variant(r: &mut Rng, m: &MapSpec) -> MapSpec {
    let mut o = m.clone();
    if r.chance(2, 3) {
        // the same tiles under other keys, the dictionary in another order
        let mut keys: Vec<u16> = (0..m.dict.len()).map(|i| i as u16 + *r.pick(&[0u16, 0, 40, 2690]) / 2 * 2).collect();
        keys.sort();
        keys.dedup();
        let mut k = 0;
        while keys.len() < m.dict.len() {
            if !keys.contains(&k) {
                keys.push(k);
            }
            k += 1;
        }
        let mut order: Vec<usize> = (0..m.dict.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, r.idx(i + 1));
        }
        let mut back = vec![0; order.len()];
        for (new, old) in order.iter().enumerate() {
            back[*old] = new;
        }
        keys.truncate(m.dict.len());
        keys.sort();
        o.dict = order.iter().zip(keys).map(|(i, k)| (k, m.dict[*i].1.clone())).collect();
        o.cells = m.cells.iter().map(|c| back[*c]).collect();
    }
    if r.chance(1, 3) {
        // variables in another order: still the same tile
        for d in o.dict.iter_mut() {
            for p in d.1.iter_mut() {
                p.vars.reverse();
            }
        }
    }
    for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2, 5, 40]) {
        let c = r.idx(o.cells.len());
        o.cells[c] = r.idx(o.dict.len());
    }
    for _ in 0..*r.pick(&[0usize, 0, 1, 1, 3]) {
        let d = r.idx(o.dict.len());
        let t = &mut o.dict[d].1;
        let p = r.idx(t.len());
        match r.below(6) {
            0 => t[p].path = "/obj/zz".into(),
            1 => t.push(PrefabSpec { path: "/obj/zz".into(), vars: vec![] }),
            2 if t.len() > 1 => {
                t.remove(p);
            },
            3 if !t[p].vars.is_empty() => {
                t[p].vars.pop();
            },
            4 => t.rotate_left(1),
            _ => {
                let v = r.below(1000);
                t[p].vars.retain(|v| v.0 != "step_x");
                t[p].vars.push(("step_x".into(), if r.chance(1, 2) { v.to_string() } else { format!("\"s{v}\"") }));
            },
        }
    }
    if r.chance(1, 5) {
        // another size, keeping the bottom left corner or not
        let d = (1 + r.idx(m.dim.0 + 2), 1 + r.idx(m.dim.1 + 2), 1 + r.idx(m.dim.2 + 1));
        let mut cells = vec![];
        for z in 0..d.2 {
            for yt in 0..d.1 {
                let y = d.1 - 1 - yt;
                for x in 0..d.0 {
                    cells.push(if x < o.dim.0 && y < o.dim.1 && z < o.dim.2 { o.cells[(z * o.dim.1 + (o.dim.1 - 1 - y)) * o.dim.0 + x] } else { r.idx(o.dict.len()) });
                }
            }
        }
        o.dim = d;
        o.cells = cells;
    }
    o
}

fn key_length(m: &MapSpec, st: &Style) -> usize {
    simgen::map::key_len(m.max_key()).max(st.min_key_len)
}

impl Case {
    fn args(&self) -> Vec<String> {
        let v: Vec<&str> = match self.cmd {
            Cmd::Diff => vec!["dmm-tools", "diff-maps", &self.maps[0].0, &self.maps[1].0],
            Cmd::Info => ["dmm-tools", "map-info", "-j"].into_iter().chain(self.maps.iter().map(|m| &m.0[..])).collect(),
            Cmd::Passes { json: true } => vec!["dmm-tools", "list-passes", "-j"],
            Cmd::Passes { json: false } => vec!["dmm-tools", "list-passes"],
            Cmd::Many => vec!["dmm-tools", "-e", DME, "render-many"],
            Cmd::Lint { json, parse_only } => {
                let mut v = vec!["dreamchecker", "-e", DME];
                if json {
                    v.push("--json");
                }
                if parse_only {
                    v.push("--parse-only");
                }
                v
            },
        };
        v.into_iter().map(String::from).collect()
    }

    /// What is wrong with the report of a run that claims success.
    fn wrong(&self, o: &Outcome, full: &dyn Fn() -> Option<Vec<u8>>) -> Option<String> {
        let text = o.out_str();
        match self.cmd {
            Cmd::Diff => {
                let (a, b) = (&self.maps[0].1, &self.maps[1].1);
                let (must, may) = differing(a, b);
                let mut got = BTreeSet::new();
                let mut size = 0;
                if !text.ends_with('\n') {
                    return Some("the last line is cut".into());
                }
                for l in text.lines() {
                    if let Some(p) = l.find("different tile: (") {
                        let n: Vec<usize> = l[p + 17..].trim_end_matches(')').split(", ").filter_map(|n| n.parse().ok()).collect();
                        if n.len() != 3 || !l.ends_with(')') {
                            return Some(format!("malformed line {l:?}"));
                        }
                        if !got.insert((n[0], n[1], n[2])) {
                            return Some(format!("{l:?} is reported twice"));
                        }
                    } else if l.contains("different size") {
                        size += 1;
                        for d in [a.dim, b.dim] {
                            if !l.contains(&format!("{d:?}")) {
                                return Some(format!("{l:?} does not tell {d:?}"));
                            }
                        }
                    }
                }
                if size != (a.dim != b.dim) as usize {
                    return Some(format!("sizes are {:?} and {:?}", a.dim, b.dim));
                }
                let missing: Vec<_> = must.difference(&got).take(5).collect();
                let extra: Vec<_> = got.iter().filter(|g| !must.contains(g) && !may.contains(g)).take(5).collect();
                if !missing.is_empty() || !extra.is_empty() {
                    return Some(format!("differing tiles not listed: {missing:?}; equal tiles listed: {extra:?}"));
                }
                None
            },
            Cmd::Info => {
                let want: serde_json::Map<String, serde_json::Value> = self
                    .maps
                    .iter()
                    .map(|(p, m, st)| {
                        (p.clone(), serde_json::json!({"size": [m.dim.0, m.dim.1, m.dim.2], "key_length": key_length(m, st), "num_keys": m.dict.len()}))
                    })
                    .collect();
                match serde_json::from_slice::<serde_json::Value>(&o.stdout) {
                    Err(e) => Some(format!("not one JSON document: {e}")),
                    Ok(v) if v != serde_json::Value::Object(want.clone()) => Some(format!("expected {}", serde_json::Value::Object(want))),
                    Ok(_) => None,
                }
            },
            Cmd::Many => {
                let v: serde_json::Value = match serde_json::from_slice(&o.stdout) {
                    Err(e) => return Some(format!("not one JSON document: {e}")),
                    Ok(v) => v,
                };
                let spec = self.env.as_ref().unwrap();
                let files = v["files"].as_array().map_or(0, Vec::len);
                if files != spec.maps.len() {
                    return Some(format!("{files} results for {} maps", spec.maps.len()));
                }
                let mut seen = BTreeSet::new();
                for (i, m) in spec.maps.iter().enumerate() {
                    let Some(cs) = v["files"][i]["chunks"].as_array() else { return Some("no list of chunks".into()) };
                    if cs.len() != m.1.dim.2 {
                        return Some(format!("{} results for {} levels of {}", cs.len(), m.1.dim.2, m.0));
                    }
                    for c in cs {
                        let Some(f) = c["filename"].as_str() else { return Some("no file name".into()) };
                        if !o.files.contains_key(&format!("{OUT}/{f}")) {
                            return Some(format!("{f} does not exist"));
                        }
                        if !seen.insert(f.to_owned()) {
                            return Some(format!("{f} is named as the result of two chunks"));
                        }
                    }
                }
                None
            },
            Cmd::Passes { .. } | Cmd::Lint { .. } => {
                let want = full()?;
                if o.stdout != want {
                    return Some(format!("expected\n{}", trunc(&String::from_utf8_lossy(&want), 2000)));
                }
                if let Cmd::Lint { json: true, .. } = self.cmd {
                    let last = text.lines().last().unwrap_or("").to_owned();
                    match serde_json::from_str::<serde_json::Value>(&last) {
                        Ok(v) if v["error"] == 0 && v["warning"] == 0 && v["info"] == 0 => {},
                        _ => return Some(format!("the JSON summary is {last:?}")),
                    }
                }
                None
            },
        }
    }
}

impl Check for C20 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let cmd = match r.below(13) {
            0..=4 => Cmd::Diff,
            5..=7 => Cmd::Info,
            8 => Cmd::Passes { json: r.chance(1, 2) },
            9 | 10 => Cmd::Many,
            _ => Cmd::Lint { json: r.chance(2, 3), parse_only: r.chance(1, 3) },
        };
        let mut maps = vec![];
        let mut env = None;
        let mut opts = gen_opts(r);
        opts.many = true;
        match cmd {
            Cmd::Diff => {
                let big = thorough || r.chance(1, 10);
                let a = MapSpec::gen(r, big);
                let b = if r.chance(1, 8) { MapSpec::gen(r, false) } else { variant(r, &a) };
                let (sa, sb) = (Style::gen(r), Style::gen(r));
                maps = vec![("/w/m/left.dmm".to_string(), a, sa), ("/w/m/right.dmm".to_string(), b, sb)];
                if r.chance(1, 2) {
                    maps.swap(0, 1);
                }
                if r.chance(1, 20) {
                    maps[1] = maps[0].clone();
                }
            },
            Cmd::Info => {
                for i in 0..1 + r.idx(6) {
                    let m = MapSpec::gen(r, false);
                    let st = Style::gen(r);
                    maps.push((format!("/w/m/m{i}.dmm"), m, st));
                }
                if r.chance(1, 8) {
                    maps.push(maps[0].clone());
                }
            },
            Cmd::Many | Cmd::Lint { .. } => {
                let nm = if cmd == Cmd::Many { 1 + r.idx(3) } else { 0 };
                env = Some(RenderSpec::gen(r, nm, 8));
            },
            Cmd::Passes { .. } => {},
        }
        let mut cfg = Config::default();
        gen::benign_delivery(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        if env.is_some() {
            gen::coarse(r, &mut cfg);
        }
        if cmd == Cmd::Many {
            cfg.sched = gen::schedule(r, 20000);
            cfg.cpus = 1 + r.below(3) as u32;
        }
        if r.chance(1, 8) {
            cfg.stat_lies = *r.pick(&[100, 500, 1000]);
        }
        if r.chance(1, 2) {
            cfg.pipe_write = if r.chance(1, 2) { Chunk::Max(1 + r.below(20) as u32) } else { Chunk::Rand(1 + r.below(200) as u32) };
        }
        match r.below(6) {
            0 | 1 => cfg.faults.push(Fault {
                site: Site::PipeWrite,
                path: "stdout".into(),
                nth: match r.below(5) {
                    0 => 0,
                    1 | 2 => r.below(10),
                    3 => r.below(30),
                    _ => r.below(400),
                },
                times: *r.pick(&[0u64, 0, 1]),
                act: Act::Errno(*r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO])),
            }),
            2 if !maps.is_empty() => {
                let m = r.pick(&maps).0.clone();
                let (site, errs) = if r.chance(1, 3) { (Site::Open, &gen::OPEN_ERRNOS[..]) } else { (Site::Read, &gen::READ_ERRNOS[..]) };
                cfg.faults.push(Fault { site, path: m, nth: if site == Site::Read { r.below(5) } else { 0 }, times: r.below(2), act: Act::Errno(*r.pick(errs)) });
                if r.chance(1, 2) {
                    cfg.file_read = Chunk::Rand(1 + r.below(400) as u32);
                }
            },
            _ => {},
        }
        Case { cmd, maps, env, opts, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let setup = || {
            for (p, m, st) in &c.maps {
                simos::add_file(p, &m.text(st));
            }
            if let Some(e) = &c.env {
                e.install();
                if c.cmd == Cmd::Many {
                    simos::set_stdin(&many_json(e, &c.opts, &[]));
                }
            }
        };
        let lint = matches!(c.cmd, Cmd::Lint { .. });
        let body = || {
            if lint {
                sim_dreamchecker::sim::sim_main();
            } else {
                sim_cli::sim::sim_main();
            }
            0
        };
        let o = ex.run(&c.cfg, &c.args(), setup, body);
        if !matches!(o.end, End::Abort) {
            if let Some(v) = judge::bad_end(&o, false) {
                return v;
            }
        }
        let fired = o.fault_fired.iter().any(|n| *n > 0);
        let End::Exit(0) = o.end else {
            if fired {
                ex.probe("failed_with_cause");
                return Verdict::Ok;
            }
            if c.env.is_some() {
                // the environment need not be a clean or renderable one
                ex.probe("failed_without_fault");
                return Verdict::Ok;
            }
            return Verdict::bad("failed without a cause", format!("{:?}\n{}", o.end, trunc(&o.err_str(), 1500)));
        };
        let args = c.args();
        let mut reference = None;
        if matches!(c.cmd, Cmd::Passes { .. } | Cmd::Lint { .. }) {
            let f = ex.run(&Config::default(), &args, setup, body);
            if f.end != End::Exit(0) {
                return Verdict::bad("success where a fault-free run fails", format!("{:?}\n{}", f.end, trunc(&f.err_str(), 1500)));
            }
            reference = Some(f.stdout);
        }
        if let Some(w) = c.wrong(&o, &|| reference.clone()) {
            let class = if fired { "success with a lost report" } else { "wrong report" };
            return Verdict::bad(class, format!("{args:?}: {w}\ninjected {:?}\n--- stdout\n{}\n--- stderr\n{}", o.injected, trunc(&o.out_str(), 2500), trunc(&o.err_str(), 800)));
        }
        if c.maps.iter().any(|_| fired && c.cfg.faults.iter().any(|f| f.site != Site::PipeWrite)) {
            return Verdict::bad("success with an unreadable map", format!("{args:?}; injected {:?}\n{}", o.injected, trunc(&o.out_str(), 1500)));
        }
        ex.probe(match c.cmd {
            Cmd::Diff => "exact_diff",
            Cmd::Info => "exact_info",
            Cmd::Passes { .. } => "exact_passes",
            Cmd::Many => "exact_many",
            Cmd::Lint { .. } => "exact_lint",
        });
        if c.cmd == Cmd::Diff && o.out_str().contains("different tile") {
            ex.probe("differences");
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let keep = if c.cmd == Cmd::Diff { 2 } else { 1 };
        for i in 0..c.maps.len() {
            if c.maps.len() > keep {
                let mut d = c.clone();
                d.maps.remove(i);
                v.push(d);
            }
            for m in c.maps[i].1.shrink() {
                let mut d = c.clone();
                d.maps[i].1 = m;
                v.push(d);
            }
        }
        if let Some(e) = &c.env {
            v.extend(e.shrink().into_iter().map(|e| Case { env: Some(e), ..c.clone() }));
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (20000, 300000)
    }
    fn rule(&self) -> String {
        "one case = one reporting command over generated maps (for the comparison: a map and an edited version of it under other keys) or a generated environment, with one delivery and fault plan; if it exits with status zero, what reached standard output is compared with what the maps as generated imply; distinct = distinct traces of cases with an injected fault, delivery variation or context switch".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dmm-tools and dreamchecker command lines (whole programs)", "map parser", "dreammaker parser", "renderer and rayon thread pool (render-many)", "Rust std buffered standard output"],
            "simulated": ["standard output (short, interrupted and failing writes)", "file system and its faults", "thread scheduling", "hash seeds"],
            "stub": ["map writer (independent implementation as oracle)"],
        })
    }
}
