//! C06: the map renderer exits successfully only if every image was produced.
use crate::c05::{args, gen_opts, many_json, Opts, OUT};
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::map::{Damage, MapSpec, PrefabSpec, Style};
use simgen::render::*;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    spec: RenderSpec,
    opts: Opts,
    /// Further map arguments which cannot be read.
    missing: usize,
    /// Damaged map files.
    damage: Vec<(usize, Damage)>,
    cfg: Config,
}
pub struct C06;

fn flat(z: usize) -> MapSpec {
    MapSpec { dim: (1, 1, z), dict: vec![(0, vec![PrefabSpec { path: "/turf/open/floor/plating".into(), vars: vec![] }])], cells: vec![0; z] }
}

impl Check for C06 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn gen(&self, r: &mut Rng, _i: u64, _t: bool) -> Case {
        let nm = 1 + r.idx(3);
        let mut spec = RenderSpec::gen(r, nm, 12);
        let mut opts = gen_opts(r);
        opts.many = r.chance(1, 4);
        opts.jobs = *r.pick(&[1usize, 1, 2, 3]);
        let mut cfg = Config::default();
        gen::benign_delivery(r, &mut cfg);
        gen::coarse(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        if opts.jobs > 1 || opts.many {
            cfg.sched = gen::schedule(r, 40000);
        }
        cfg.cpus = 1 + r.below(3) as u32;
        let mut missing = 0;
        let mut damage = vec![];
        let fault = |site, path: &str, nth, times, errno| Fault { site, path: path.into(), nth, times, act: Act::Errno(errno) };
        if r.chance(1, 5) {
            // many failures at once, near the width of an exit status
            opts.many = false;
            opts.min = None;
            opts.max = None;
            let n = *r.pick(&[1usize, 2, 127, 128, 255, 256, 256, 257, 512]);
            if r.chance(1, 2) {
                missing = n.min(256);
                if r.chance(1, 2) {
                    spec.maps.clear();
                }
            } else {
                spec.maps.truncate(1);
                spec.maps[0].1 = flat(n);
                cfg.faults.push(fault(Site::Mkdir, "", 0, 0, libc::EACCES));
            }
        } else {
            let m = spec.maps[r.idx(spec.maps.len())].0.clone();
            let total: u64 = 300 * spec.maps.iter().map(|m| (m.1.dim.0 * m.1.dim.1 * m.1.dim.2) as u64).sum::<u64>();
            for _ in 0..1 + r.idx(2) {
                match r.below(9) {
                    0 => cfg.faults.push(fault(Site::Open, &m, 0, r.below(2), *r.pick(&gen::OPEN_ERRNOS))),
                    1 => cfg.faults.push(fault(Site::Read, &m, r.below(6), 1, *r.pick(&gen::READ_ERRNOS))),
                    2 => cfg.faults.push(fault(Site::Mkdir, "", r.below(3), r.below(2), *r.pick(&gen::OPEN_ERRNOS))),
                    3 | 4 => cfg.disk_free = Some(if r.chance(1, 2) { r.below(400) } else { r.below(total) }),
                    5 => cfg.faults.push(fault(Site::Write, ".png", r.below(12), *r.pick(&[0u64, 1, 1]), *r.pick(&gen::WRITE_ERRNOS))),
                    6 => cfg.faults.push(fault(Site::Open, ".png", r.below(4), *r.pick(&[0u64, 1]), *r.pick(&gen::OPEN_ERRNOS))),
                    7 => {
                        let i = r.idx(spec.maps.len());
                        let len = spec.maps[i].1.text(&spec.maps[i].2).len();
                        damage.push((i, Damage::gen(r, len, &["\"a\" = (", "(1,1,1)", "{\"", "\"}"])));
                    },
                    _ => missing = 1 + r.idx(3),
                }
            }
        }
        Case { spec, opts, missing, damage, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let mut damaged = vec![];
        for (i, d) in &c.damage {
            if let Some((_, m, st)) = c.spec.maps.get(*i) {
                let mut t = m.text(st);
                d.apply(&mut t);
                damaged.push((*i, t));
            }
        }
        let setup = |full: bool| {
            c.spec.install();
            for (i, t) in &damaged {
                simos::add_file(&c.spec.maps[*i].0, t);
            }
            if c.opts.many {
                let mut s = c.spec.clone();
                if full {
                    for k in 0..c.missing.min(3) {
                        s.maps.push((format!("{ROOT}/_maps/gone{k}.dmm"), flat(1), Style::default()));
                    }
                }
                simos::set_stdin(&many_json(&s, &c.opts, &[]));
            }
        };
        let body = || {
            sim_cli::sim::sim_main();
            0
        };
        let extra: Vec<String> = if c.opts.many { vec![] } else { (0..c.missing).map(|k| format!("_maps/gone{k}.dmm")).collect() };
        let jobs = c.opts.jobs;
        let b = ex.run(&c.cfg, &args(&c.spec, &c.opts, jobs, &extra), || setup(true), body);
        if !matches!(b.end, End::Abort) {
            if let Some(v) = judge::bad_end(&b, false) {
                return v;
            }
        }
        let fired = b.fault_fired.iter().any(|n| *n > 0) || b.injected.keys().any(|k| k.contains("ENOSPC"));
        let End::Exit(0) = b.end else {
            ex.probe(if fired || c.missing > 0 { "failed_with_cause" } else { "failed_without_fault" });
            return Verdict::Ok;
        };
        // what each map needs, from fault-free runs of one map at a time
        let mut want = std::collections::BTreeMap::new();
        let full = Config::default();
        if c.missing > 0 {
            return Verdict::bad("success with unreadable maps", format!("{} map files do not exist, exit status 0\n{}", c.missing, trunc(&b.err_str(), 1500)));
        }
        if c.spec.maps.is_empty() {
            return Verdict::Ok;
        }
        let a = ex.run(&full, &args(&c.spec, &c.opts, 1, &[]), || setup(false), body);
        if a.end != End::Exit(0) {
            if !damaged.is_empty() || fired {
                // a fault-free run fails where this one succeeded
                return Verdict::bad("success where a fault-free run fails", format!("{:?}\n{}", a.end, trunc(&a.err_str(), 1500)));
            }
            return Verdict::Skip(format!("reference run failed: {:?} {}", a.end, trunc(&a.err_str(), 80)));
        }
        for (k, v) in &a.files {
            if k.starts_with(OUT) {
                want.insert(k.clone(), v.clone());
            }
        }
        // every requested level has an image, counted independently of the program
        if damaged.is_empty() && c.spec.distinct_names() {
            for (p, m, _) in &c.spec.maps {
                let stem = p.rsplit('/').next().unwrap().trim_end_matches(".dmm");
                let lo = |s: &Option<String>, d: usize| s.as_ref().and_then(|s| s.split(',').nth(2)).map_or(d, |z| z.parse().unwrap());
                let zmin = lo(&c.opts.min, 0).clamp(1, m.dim.2);
                let mut zmax = lo(&c.opts.max, if c.opts.max.is_some() { 0 } else { m.dim.2 }).min(m.dim.2);
                zmax = zmax.max(zmin);
                let (zmin, zmax) = if c.opts.many { (1, m.dim.2) } else { (zmin, zmax) };
                for z in zmin..=zmax {
                    let f = if c.opts.many { format!("{OUT}/{stem}_z{z}_chunk{}.png", z - 1) } else { format!("{OUT}/{stem}-{z}.png") };
                    if !b.files.contains_key(&f) {
                        return Verdict::bad("success without an image", format!("{f} was not written; files {:?}\n{}", b.files.keys().collect::<Vec<_>>(), trunc(&b.err_str(), 1500)));
                    }
                }
            }
        }
        if !c.spec.distinct_names() {
            ex.probe("same_names");
            // whatever the images are called: each map rendered by itself
            // yields images which must all be there
            let mut left: Vec<(&String, &Vec<u8>)> = b.files.iter().filter(|f| f.0.starts_with(OUT)).collect();
            for (i, m) in c.spec.maps.iter().enumerate() {
                let mut one = c.spec.clone();
                one.maps = vec![m.clone()];
                let o = ex.run(
                    &full,
                    &args(&one, &c.opts, 1, &[]),
                    || {
                        one.install();
                        for (_, t) in damaged.iter().filter(|d| d.0 == i) {
                            simos::add_file(&m.0, t);
                        }
                        if c.opts.many {
                            simos::set_stdin(&many_json(&one, &c.opts, &[]));
                        }
                    },
                    body,
                );
                for (k, v) in o.files.iter().filter(|f| f.0.starts_with(OUT)) {
                    let Some(p) = left.iter().position(|l| l.1 == v) else {
                        return Verdict::bad("success without an image", format!("no file has the image {k} of {}; files {:?}", m.0, b.files.keys().collect::<Vec<_>>()));
                    };
                    left.remove(p);
                }
            }
        }
        for (k, v) in &want {
            let Some(got) = b.files.get(k) else {
                return Verdict::bad("success without an image", format!("{k} was not written"));
            };
            if let Err(e) = simgen::png::walk(got) {
                return Verdict::bad("incomplete image", format!("{k}: {e}; injected {:?}", b.injected));
            }
            if got != v {
                let (p, q) = (crate::c07::decode(ex, got), crate::c07::decode(ex, v));
                if p != q || p.1.is_some() {
                    return Verdict::bad("image differs", format!("{k}: {:?} {:?}", p.1, q.1));
                }
            }
        }
        ex.probe(if fired { "success_despite_fault" } else { "success" });
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.spec.shrink().into_iter().map(|spec| Case { spec, ..c.clone() }).collect();
        for n in [0, 1, 256, c.missing / 2, c.missing.saturating_sub(1)] {
            if n < c.missing {
                v.push(Case { missing: n, ..c.clone() });
            }
        }
        for i in 0..c.damage.len() {
            let mut d = c.clone();
            d.damage.remove(i);
            v.push(d);
        }
        if c.opts.jobs > 1 {
            let mut d = c.clone();
            d.opts.jobs = 1;
            v.push(d);
        }
        if !c.opts.enable.is_empty() || c.opts.disable.len() > 1 || c.opts.min.is_some() || c.opts.max.is_some() {
            let mut d = c.clone();
            d.opts.enable.clear();
            d.opts.disable.truncate(1);
            d.opts.min = None;
            d.opts.max = None;
            v.push(d);
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (8000, 80000)
    }
    fn rule(&self) -> String {
        "one case = one environment with maps, one command and one plan of failing map reads, directory creations and image writes (some with more failures than an exit status can count); if the run exits with status zero its images are compared with a fault-free run's; distinct = distinct traces of cases with an injected fault, delivery variation or context switch".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dmm-tools command line (whole program)", "dreammaker parser", "dmm-tools renderer and image writer", "rayon thread pool"],
            "simulated": ["thread scheduling", "file system and its faults", "disk capacity", "process exit status (low eight bits)"],
            "stub": [],
        })
    }
}
