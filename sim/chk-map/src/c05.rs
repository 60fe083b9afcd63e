//! C05: rendered maps do not depend on scheduling, job count or hash seeds.
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::render::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Opts {
    pub jobs: usize,
    pub many: bool,
    /// Name a map once per chunk in the JSON interface.
    #[serde(default)]
    pub split: bool,
    pub enable: Vec<String>,
    pub disable: Vec<String>,
    pub min: Option<String>,
    pub max: Option<String>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    spec: RenderSpec,
    opts: Opts,
    /// Chunks of each map for the JSON interface (z, bounds); empty = omitted.
    chunks: Vec<(usize, Option<(usize, usize, usize, usize)>)>,
    cfg: Config,
}
pub struct C05;

pub const OUT: &str = "/w/out/img";

pub fn gen_opts(r: &mut Rng) -> Opts {
    let mut o = Opts {
        jobs: *r.pick(&[0usize, 2, 2, 3, 5, 1, 1]),
        many: false,
        split: false,
        enable: vec![],
        disable: vec!["random".into()],
        min: None,
        max: None,
    };
    match r.below(6) {
        0 => o.enable.push("all".into()),
        1 => {
            o.disable.push("all".into());
            for _ in 0..1 + r.idx(5) {
                o.enable.push(r.pick(PASSES).to_string());
            }
        },
        2 | 3 => {
            for _ in 0..1 + r.idx(3) {
                o.enable.push(r.pick(PASSES).to_string());
                o.disable.push(r.pick(PASSES).to_string());
            }
        },
        _ => {},
    }
    // passes which leave nothing but cables make most images empty
    if r.chance(3, 4) {
        for p in ["only-powernet", "only-pipenet", "only-wires-and-pipes"] {
            if !o.enable.iter().any(|e| e == p) {
                o.disable.push(p.into());
            }
        }
    }
    if r.chance(1, 5) {
        o.min = Some(r.pick(&["1,1", "2,1", "1,2,2", "2,2,1"]).to_string());
    }
    if r.chance(1, 5) {
        o.max = Some(r.pick(&["2,2", "3,9", "4,4,2", "9,9,9"]).to_string());
    }
    o
}

pub fn args(spec: &RenderSpec, o: &Opts, jobs: usize, extra: &[String]) -> Vec<String> {
    let mut a: Vec<String> = vec!["dmm-tools".into(), "-e".into(), DME.into(), "--jobs".into(), jobs.to_string()];
    if o.many {
        a.push("render-many".into());
        return a;
    }
    a.extend(["minimap", "-o", OUT].map(String::from));
    if !o.enable.is_empty() {
        a.extend(["--enable".into(), o.enable.join(",")]);
    }
    if !o.disable.is_empty() {
        a.extend(["--disable".into(), o.disable.join(",")]);
    }
    if let Some(m) = &o.min {
        a.extend(["--min".into(), m.clone()]);
    }
    if let Some(m) = &o.max {
        a.extend(["--max".into(), m.clone()]);
    }
    a.extend(spec.maps.iter().map(|m| m.0.clone()));
    a.extend(extra.iter().cloned());
    a
}

pub fn many_json(spec: &RenderSpec, o: &Opts, chunks: &[(usize, Option<(usize, usize, usize, usize)>)]) -> Vec<u8> {
    let files: Vec<serde_json::Value> = spec
        .maps
        .iter()
        .flat_map(|m| (0..if o.split { chunks.len().max(1) } else { 1 }).map(move |i| (m, i)))
        .map(|(m, i)| {
            // a map's chunks in one entry, or each in an entry of its own
            let cs: Vec<serde_json::Value> = chunks
                .iter()
                .skip(if o.split { i } else { 0 })
                .take(if o.split { 1 } else { usize::MAX })
                .filter(|c| c.0 <= m.1.dim.2)
                .map(|c| match c.1 {
                    None => serde_json::json!({"z": c.0}),
                    Some((x, y, x2, y2)) => {
                        let (dx, dy) = (m.1.dim.0, m.1.dim.1);
                        let (x, y) = (x.min(dx), y.min(dy));
                        serde_json::json!({"z": c.0, "min_x": x, "min_y": y, "max_x": x2.max(x), "max_y": y2.max(y)})
                    },
                })
                .collect();
            if cs.is_empty() {
                serde_json::json!({"path": m.0})
            } else {
                serde_json::json!({"path": m.0, "chunks": cs})
            }
        })
        .collect();
    serde_json::to_vec(&serde_json::json!({"output_directory": OUT, "files": files, "enable": o.enable, "disable": o.disable})).unwrap()
}

/// Lines of a report with the per-map prefix of parallel and serial runs taken off.
/// Reports of several workers come in any order.
fn lines(s: &str, ordered: bool) -> Vec<String> {
    let mut v: Vec<String> = s
        .lines()
        .map(|l| match l.find(".dmm: ") {
            Some(i) if !l[..i].contains('/') => l[i + 6..].to_owned(),
            _ => l.strip_prefix("    ").unwrap_or(l).to_owned(),
        })
        .collect();
    if !ordered {
        v.sort();
    }
    v
}

pub fn images(ex: &mut Exec, a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    let (ka, kb): (Vec<_>, Vec<_>) = (a.keys().collect(), b.keys().collect());
    if ka != kb {
        return Some(format!("files {ka:?} and {kb:?}"));
    }
    for (k, x) in a {
        if *x != b[k] {
            let (p, q) = (crate::c07::decode(ex, x), crate::c07::decode(ex, &b[k]));
            if p.1.is_some() || q.1.is_some() || p.0 != q.0 {
                let n = match (&p.0, &q.0) {
                    (Some(p), Some(q)) if p.2.len() == q.2.len() => p.2.chunks(4).zip(q.2.chunks(4)).filter(|(a, b)| a != b).count(),
                    _ => 0,
                };
                return Some(format!("{k}: {n} pixels differ (errors {:?} {:?})", p.1, q.1));
            }
        }
    }
    None
}

impl Check for C05 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let nm = 1 + r.idx(3);
        let spec = RenderSpec::gen(r, nm, if thorough { 60 } else { 24 });
        let mut opts = gen_opts(r);
        opts.many = r.chance(1, 3);
        let mut cfg = Config::default();
        gen::benign_delivery(r, &mut cfg);
        if r.chance(1, 6) {
            cfg.stat_lies = *r.pick(&[100, 500, 1000]);
        }
        gen::coarse(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        cfg.cpus = 1 + r.below(5) as u32;
        cfg.sched = gen::schedule(r, 40000);
        let mut chunks = vec![];
        if opts.many && r.chance(1, 2) {
            for _ in 0..1 + r.idx(4) {
                let b = if r.chance(1, 2) { Some((1 + r.idx(4), 1 + r.idx(4), 1 + r.idx(8), 1 + r.idx(8))) } else { None };
                chunks.push((1 + r.idx(3), b));
            }
            opts.split = r.chance(1, 4);
        }
        Case { spec, opts, chunks, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let setup = || {
            c.spec.install();
            if c.opts.many {
                simos::set_stdin(&many_json(&c.spec, &c.opts, &c.chunks));
            }
        };
        let body = || {
            sim_cli::sim::sim_main();
            0
        };
        let base = Config { hash_seed: 0, ..Config::default() };
        let a = ex.run(&base, &args(&c.spec, &c.opts, 1, &[]), setup, body);
        let b = ex.run(&c.cfg, &args(&c.spec, &c.opts, c.opts.jobs, &[]), setup, body);
        for o in [&a, &b] {
            if let Some(v) = judge::bad_end(o, false) {
                return v;
            }
        }
        if a.end != End::Exit(0) {
            ex.probe("reference_failed");
            if a.end != b.end {
                return Verdict::bad("different exit status", format!("{:?} and {:?}\n{}\n{}", a.end, b.end, a.err_str(), b.err_str()));
            }
            return Verdict::Skip(format!("reference run failed: {:?} {}", a.end, judge::panic_site(&a).map_or(trunc(&a.err_str(), 80), |p| p.1)));
        }
        if a.end != b.end {
            return Verdict::bad("different exit status", format!("{:?} and {:?}\n{}\n{}", a.end, b.end, trunc(&a.err_str(), 2000), trunc(&b.err_str(), 2000)));
        }
        if a.files.values().any(|f| f.len() > 300) {
            ex.probe("nonempty_image");
        }
        if let Some(d) = images(ex, &a.files, &b.files) {
            return Verdict::bad("images differ", d);
        }
        // a single worker, or a single piece of work, reports in a fixed order
        let maps = &c.spec.maps;
        let ordered = c.opts.jobs == 1 || (maps.len() == 1 && maps[0].1.dim.2 == 1 && c.chunks.len() < 2);
        if ordered {
            ex.probe("ordered_report");
        }
        let (la, lb) = (lines(&a.out_str(), ordered), lines(&b.out_str(), ordered));
        if la != lb {
            return Verdict::bad("reports differ", format!("{la:#?}\n{lb:#?}"));
        }
        let (ea, eb) = (lines(&a.err_str(), ordered), lines(&b.err_str(), ordered));
        if ea != eb {
            return Verdict::bad("warnings differ", format!("{ea:#?}\n{eb:#?}"));
        }
        if b.switches > 0 {
            ex.probe("parallel");
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.spec.shrink().into_iter().map(|spec| Case { spec, ..c.clone() }).collect();
        for i in 0..c.opts.enable.len() {
            let mut d = c.clone();
            d.opts.enable.remove(i);
            v.push(d);
        }
        for i in 1..c.opts.disable.len() {
            let mut d = c.clone();
            d.opts.disable.remove(i);
            v.push(d);
        }
        if c.opts.jobs > 2 || c.opts.jobs == 0 {
            let mut d = c.clone();
            d.opts.jobs = 2;
            v.push(d);
        }
        for i in 0..c.chunks.len() {
            let mut d = c.clone();
            d.chunks.remove(i);
            v.push(d);
        }
        for k in 0..2 {
            let mut d = c.clone();
            if k == 0 {
                d.opts.min = None
            } else {
                d.opts.max = None
            }
            if d.opts != c.opts {
                v.push(d);
            }
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (6000, 60000)
    }
    fn rule(&self) -> String {
        "one case = one environment, its icons and maps, and one command: run once sequentially with one job and once with a random number of jobs, schedule, hash seeds and read splitting, comparing exit status, files, pixels and report; distinct = distinct traces of cases with an injected delivery variation or a context switch".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dmm-tools command line (whole program)", "dreammaker parser", "dmm-tools renderer", "rayon thread pool", "foldhash tables (seeded)"],
            "simulated": ["thread scheduling", "file system", "number of processors", "randomness"],
            "stub": [],
        })
    }
}
