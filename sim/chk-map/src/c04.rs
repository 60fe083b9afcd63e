//! C04: the shared icon cache gives every thread the right icon.
use crate::c03::{dump_meta, expected_meta, image_bytes, px_bytes};
use dmm_tools::IconCache;
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::png::IconSpec;
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    icons: Vec<IconSpec>,
    /// Names of the icons; the last ones do not exist.
    names: Vec<String>,
    /// Torn icon files: (icon, kept bytes).
    torn: Vec<(usize, usize)>,
    rooted: bool,
    /// Lookups made first, from one thread, through the exclusive interface.
    before: Vec<usize>,
    /// Lookups by each thread.
    threads: Vec<Vec<usize>>,
    /// Lookups after the threads have finished.
    after: Vec<usize>,
    /// Threads which drop each icon before looking up the next.
    #[serde(default)]
    drops: Vec<bool>,
    /// Replace the files by other icons after this thread's k-th lookup.
    #[serde(default)]
    swap: Option<(usize, usize)>,
    /// Overwrite the files with other icons before the last lookups.
    overwrite: bool,
    cfg: Config,
}
pub struct C04;

fn describe(i: &dmm_tools::dmi::IconFile) -> u64 {
    let mut b = image_bytes(&i.image);
    b.extend(dump_meta(&i.metadata, i.image.width).into_bytes());
    exec::fnv(&b)
}
fn other_icon() -> IconSpec {
    IconSpec::gen(&mut Rng::new(77), 5, 5)
}
fn expect(i: &IconSpec) -> u64 {
    let mut b = px_bytes(&i.pixels());
    b.extend(expected_meta(i).into_bytes());
    exec::fnv(&b)
}

impl Check for C04 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        // now and then, more icons than a small cache would hold
        let many = r.chance(1, 10);
        let n = if many { 6 + r.idx(30) } else { 1 + r.idx(4) };
        let icons: Vec<IconSpec> = (0..n).map(|_| IconSpec::gen(r, *r.clone().pick(&[1u32, 4]), 2)).collect();
        let pool = ["a.dmi", "b.dmi", "icons/a.dmi", "icons/b.dmi", "icons/A.dmi", "a.DMI"];
        let mut names: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
        if many {
            names.extend((0..n).map(|i| format!("icons/{i}.dmi")));
        }
        r.shuffle(&mut names);
        names.truncate(n + r.idx(2));
        let m = names.len();
        let mut torn = vec![];
        if r.chance(1, 4) {
            let i = r.idx(n);
            torn.push((i, r.idx(icons[i].bytes().len())));
        }
        let nt = 1 + r.idx(if thorough { 6 } else { 4 });
        let long = if many { 60 } else { 6 };
        let mut look = |r: &mut Rng, k: usize| (0..r.idx(k)).map(|_| r.idx(m)).collect::<Vec<_>>();
        let before = if r.chance(1, 3) { look(r, 4) } else { vec![] };
        let threads: Vec<Vec<usize>> = (0..nt).map(|_| look(r, long)).collect();
        let after = look(r, if many { 40 } else { 5 });
        let drops = (0..nt).map(|_| r.chance(1, 2)).collect();
        let swap = if r.chance(1, 4) { Some((r.idx(nt), r.idx(long))) } else { None };
        let mut cfg = Config::default();
        gen::benign_delivery(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        if r.chance(1, 4) {
            cfg.stat_lies = *r.pick(&[100, 500, 1000]);
        }
        cfg.cpus = 1 + r.below(4) as u32;
        let t = *r.pick(&[40u64, 150, 600]);
        cfg.sched = gen::schedule(r, t);
        for _ in 0..r.idx(3) {
            let site = *r.pick(&[Site::Open, Site::Read, Site::Read]);
            cfg.faults.push(Fault {
                site,
                path: format!("/{}", names[r.idx(m)]),
                nth: r.below(4),
                times: *r.pick(&[0u64, 1, 1, 2]),
                act: if r.chance(1, 3) {
                    Act::Stall(r.below(1_000_000))
                } else {
                    Act::Errno(*r.pick(if site == Site::Open { &gen::OPEN_ERRNOS } else { &gen::READ_ERRNOS }))
                },
            });
        }
        Case { icons, names, torn, rooted: r.chance(1, 2), before, threads, after, drops, swap, overwrite: r.chance(1, 2), cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let files: Vec<(String, Vec<u8>)> = c
            .icons
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let mut b = s.bytes();
                for (k, n) in &c.torn {
                    if *k == i {
                        b.truncate(*n);
                    }
                }
                (format!("/w/{}", c.names[i]), b)
            })
            .collect();
        let stranger = other_icon();
        let other = stranger.bytes();
        let lookup: Vec<PathBuf> = c.names.iter().map(|n| if c.rooted { PathBuf::from(n) } else { PathBuf::from(format!("/w/{n}")) }).collect();
        let o = ex.run(
            &c.cfg,
            &["prog".to_string()],
            || {
                for (p, b) in &files {
                    simos::add_file(p, b);
                }
                simos::set_cwd("/w");
            },
            || {
                let mut cache = IconCache::default();
                if c.rooted {
                    cache.set_icons_root(std::path::Path::new("/w"));
                }
                for &i in &c.before {
                    let d = cache.retrieve_uniq(&lookup[i]).map(describe);
                    simos::event(format!("before {i} {d:?}"));
                }
                let cache = Arc::new(cache);
                let hs: Vec<_> = c
                    .threads
                    .iter()
                    .enumerate()
                    .map(|(t, l)| {
                        let (cache, l, lookup) = (cache.clone(), l.clone(), lookup.clone());
                        let drops = c.drops.get(t) == Some(&true);
                        let swap = c.swap.filter(|s| s.0 == t).map(|s| s.1);
                        let (files, other) = (files.clone(), other.clone());
                        std::thread::spawn(move || {
                            let mut held = vec![];
                            for (k, i) in l.into_iter().enumerate() {
                                if swap == Some(k) {
                                    simos::event("swap 0 now".into());
                                    for (p, _) in &files {
                                        simos::remove_file(p);
                                        simos::add_file(p, &other);
                                    }
                                }
                                simos::event(format!("begin {i} {t}"));
                                let icon = cache.retrieve_shared(&lookup[i]);
                                simos::event(format!("during {i} {t} {:?}", icon.as_ref().map(|x| describe(x))));
                                if !drops {
                                    held.push((i, icon));
                                }
                            }
                            // what was handed out stays what it was
                            for (i, icon) in held {
                                if let Some(x) = icon {
                                    simos::event(format!("kept {i} {:?}", Some(describe(&x))));
                                }
                            }
                        })
                    })
                    .collect();
                for h in hs {
                    h.join().unwrap();
                }
                if c.overwrite {
                    for (p, _) in &files {
                        simos::add_file(p, &other);
                    }
                }
                let mut cache = Arc::try_unwrap(cache).ok().unwrap();
                for (k, &i) in c.after.iter().enumerate() {
                    let d = if k % 2 == 0 { cache.retrieve_shared(&lookup[i]).map(|x| describe(&x)) } else { cache.retrieve_uniq(&lookup[i]).map(describe) };
                    simos::event(format!("after {i} {d:?}"));
                }
                simos::event("end".into());
                0
            },
        );
        if let Some(v) = judge::bad_end(&o, true) {
            return v;
        }
        let failed: Vec<bool> = c
            .names
            .iter()
            .map(|n| o.fault_fired.iter().zip(&c.cfg.faults).any(|(k, f)| *k > 0 && matches!(f.act, Act::Errno(_)) && format!("/w/{n}").contains(&f.path)))
            .collect();
        let hist = || format!("names {:?}\ninjected {:?}\n{}", c.names, o.injected, o.events.join("\n"));
        let mut cached = vec![false; c.names.len()];
        // what lookups which have returned found, and what of it each thread's
        // lookup under way has to agree with
        let mut known: Vec<Option<String>> = vec![None; c.names.len()];
        let mut bound: std::collections::HashMap<String, Option<String>> = Default::default();
        let mut swapped = false;
        let strange = format!("Some({})", expect(&stranger));
        for e in &o.events {
            let mut t = e.splitn(3, ' ');
            let (Some(when), Some(i), Some(mut d)) = (t.next(), t.next(), t.next()) else { continue };
            let i: usize = i.parse().unwrap();
            match when {
                "swap" => {
                    swapped = true;
                    continue;
                },
                "begin" => {
                    bound.insert(d.to_owned(), known[i].clone());
                    continue;
                },
                "kept" => {
                    if d != strange && c.icons.get(i).is_none_or(|x| d != format!("Some({})", expect(x))) && !c.torn.iter().any(|t| t.0 == i) {
                        return Verdict::bad("an icon changed while in use", format!("{e}\n{}", hist()));
                    }
                    continue;
                },
                _ => {},
            }
            let mut must = known[i].clone();
            if when == "during" {
                let (thread, rest) = d.split_once(' ').unwrap();
                d = rest;
                must = bound.remove(thread).flatten();
            }
            if let Some(must) = must {
                if d != must {
                    let class = if d == "None" { "cached icon lost" } else { "a later lookup found another icon" };
                    return Verdict::bad(class, format!("{e}: earlier {must}\n{}", hist()));
                }
            }
            if d != "None" {
                known[i] = Some(d.to_owned());
            }
            let torn = c.torn.iter().any(|t| t.0 == i);
            if when == "after" && c.overwrite && !cached[i] {
                // first loaded after the file was replaced
                continue;
            }
            if d == "None" {
                if cached[i] && when == "after" {
                    return Verdict::bad("cached icon lost", format!("{e}\n{}", hist()));
                }
                if i < c.icons.len() && !torn && !failed[i] {
                    return Verdict::bad("lookup failed without a failed load", format!("{e}\n{}", hist()));
                }
                ex.probe("lookup_failed");
            } else {
                if i >= c.icons.len() {
                    return Verdict::bad("icon from nowhere", format!("{e}\n{}", hist()));
                }
                cached[i] = true;
                if torn {
                    continue;
                }
                if swapped && d == strange {
                    ex.probe("lookup_after_swap");
                    continue;
                }
                if d != format!("Some({})", expect(&c.icons[i])) {
                    let other = c.icons.iter().position(|x| d == format!("Some({})", expect(x)));
                    return Verdict::bad("wrong icon", format!("{e}: expected {}, which is icon {other:?}\n{}", expect(&c.icons[i]), hist()));
                }
                ex.probe("lookup_ok");
            }
        }
        if o.events.last().map(|s| s.as_str()) != Some("end") {
            return Verdict::bad("a lookup did not return", hist());
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.threads.len() {
            let mut d = c.clone();
            d.threads.remove(i);
            v.push(d);
            for k in 0..c.threads[i].len() {
                let mut d = c.clone();
                d.threads[i].remove(k);
                v.push(d);
            }
        }
        for k in 0..c.after.len() {
            let mut d = c.clone();
            d.after.remove(k);
            v.push(d);
        }
        for k in 0..c.before.len() {
            let mut d = c.clone();
            d.before.remove(k);
            v.push(d);
        }
        if c.swap.is_some() {
            v.push(Case { swap: None, ..c.clone() });
        }
        if c.overwrite {
            v.push(Case { overwrite: false, ..c.clone() });
        }
        if !c.torn.is_empty() {
            v.push(Case { torn: vec![], ..c.clone() });
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (40000, 800000)
    }
    fn rule(&self) -> String {
        "one case = one set of icon files, one set of lookups per thread, one fault plan and one schedule, run once; distinct = distinct system-call traces of cases with a context switch or an injected fault".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dmm-tools icon cache and icon loading", "Rust std RwLock, Arc, threads and file I/O"],
            "simulated": ["thread scheduling at system calls, futex operations and basic-block boundaries of the repository's code", "file system"],
            "stub": [],
        })
    }
}
