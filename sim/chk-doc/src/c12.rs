//! C12: documentation success means complete documentation.
use crate::doc::*;
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::dm::ROOT;
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    doc: DocSpec,
    dry: bool,
    cfg: Config,
}
pub struct C12;

/// Links in the pages which lead to no file. Links written by hand in the
/// documentation are absolute, so every relative one is the generator's.
fn dead_links(out: &str, o: &Outcome) -> Option<String> {
    for (n, b) in &o.files {
        let Some(rel) = n.strip_prefix(&format!("{out}/")) else { continue };
        if !rel.ends_with(".html") {
            continue;
        }
        let t = String::from_utf8_lossy(b);
        let base = t.split_once("<base href=\"").and_then(|x| x.1.split_once('"')).map_or("", |x| x.0);
        let depth = rel.matches('/').count();
        if base != "../".repeat(depth) {
            return Some(format!("{rel} has base {base:?}"));
        }
        for h in t.split("href=\"").skip(1).chain(t.split("src=\"").skip(1)) {
            let h = h.split('"').next().unwrap_or("");
            let p = h.split('#').next().unwrap_or("");
            if p.is_empty() || p.contains("://") || h == base {
                continue;
            }
            let p = p.replace("%20", " ");
            if !o.files.contains_key(&format!("{out}/{p}")) {
                return Some(format!("{rel} links to {h}"));
            }
        }
    }
    None
}

impl Check for C12 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let mut doc = DocSpec::gen(r, if thorough { 16 } else { 8 });
        let dry = r.chance(1, 4);
        if r.chance(1, if dry { 2 } else { 8 }) {
            doc.broken = *r.pick(&[1u32, 2, 127, 128, 255, 256, 257, 512]);
        }
        let mut cfg = Config { max_ticks: 400_000_000, ..Config::default() };
        gen::benign_delivery(r, &mut cfg);
        gen::coarse(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        let out = doc.out_dir();
        let fault = |site, path: &str, nth, times, errno| Fault { site, path: path.into(), nth, times, act: Act::Errno(errno) };
        let n = if r.chance(1, 6) { 0 } else { 1 + r.idx(2) };
        for _ in 0..n {
            let pages: Vec<String> = doc.spec.other.iter().map(|o| format!("{ROOT}/{}", o.0)).collect();
            let source = format!("{ROOT}/{}", doc.spec.files[r.idx(doc.spec.files.len())].path);
            let any = |r: &mut Rng, v: &[u64]| *r.pick(v);
            match r.below(if dry { 8 } else { 14 }) {
                0 if !pages.is_empty() => cfg.faults.push(fault(Site::Open, r.pick(&pages), 0, any(r, &[0, 1]), *r.pick(&gen::OPEN_ERRNOS))),
                1 if !pages.is_empty() => cfg.faults.push(fault(Site::Read, r.pick(&pages), r.below(3), any(r, &[0, 1]), *r.pick(&gen::READ_ERRNOS))),
                2 => cfg.faults.push(fault(Site::Open, &source, 0, 0, *r.pick(&gen::OPEN_ERRNOS))),
                3 => cfg.faults.push(fault(Site::Read, &source, r.below(3), 0, *r.pick(&gen::READ_ERRNOS))),
                4 => cfg.faults.push(fault(Site::OpenDir, *r.pick(&["/code", "/modular", "/docs", "/sub"]), r.below(2), any(r, &[0, 1]), *r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO]))),
                5 => cfg.faults.push(fault(Site::ReadDir, *r.pick(&["/code", "/modular", "/docs", "/sub"]), r.below(6), any(r, &[0, 1]), libc::EIO)),
                6 => cfg.faults.push(fault(Site::Stat, *r.pick(&["/code", "/modular", ".md", ".txt", &out]), r.below(6), any(r, &[0, 1]), *r.pick(&[libc::EACCES, libc::EIO, libc::ENOMEM]))),
                7 => cfg.faults.push(fault(Site::Open, &format!("{ROOT}/.git/"), r.below(6), any(r, &[0, 1, 1]), *r.pick(&gen::OPEN_ERRNOS))),
                8 => cfg.faults.push(fault(Site::Mkdir, "", r.below(12), any(r, &[0, 1]), *r.pick(&gen::OPEN_ERRNOS))),
                9 | 10 => cfg.disk_free = Some(if r.chance(1, 3) { r.below(60000) } else { r.below(400000) }),
                11 => cfg.faults.push(fault(Site::Open, &out, r.below(16), any(r, &[0, 1]), *r.pick(&gen::OPEN_ERRNOS))),
                _ => cfg.faults.push(fault(Site::Write, &out, r.below(16), any(r, &[0, 1]), *r.pick(&gen::WRITE_ERRNOS))),
            }
        }
        Case { doc, dry, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        ex.wall_secs = 60;
        let out = c.doc.out_dir();
        let b = ex.run(&c.cfg, &c.doc.args(c.dry), || c.doc.install(), body);
        if let End::Harness(h) = &b.end {
            return Verdict::Harness(h.clone());
        }
        if b.end == End::StepLimit {
            return Verdict::Skip("slow".into());
        }
        if let Some((f, m)) = judge::panic_site(&b) {
            if m.contains("file for --index must be") {
                return Verdict::Ok;
            }
            return Verdict::bad("panic", format!("{f}: {m}"));
        }
        let err = b.err_str();
        let fired: Vec<&Fault> = c.cfg.faults.iter().zip(&b.fault_fired).filter(|x| *x.1 > 0).map(|x| x.0).collect();
        let full = b.injected.keys().any(|k| k.contains("ENOSPC"));
        // the environment's own documentation is as if the sources which could
        // not be read, and were reported, did not exist
        let mut gone: Vec<(String, bool)> = vec![];
        for f in &fired {
            if !matches!(f.site, Site::Open | Site::Read) {
                continue;
            }
            for (i, s) in c.doc.spec.files.iter().enumerate() {
                if f.path != format!("{ROOT}/{}", s.path) {
                    continue;
                }
                let base = s.path.rsplit('/').next().unwrap();
                if i == 0 {
                    if b.end == End::Exit(0) {
                        return Verdict::bad("unreadable environment, exit status 0", trunc(&err, 3000));
                    }
                } else if !err.contains(base) {
                    return Verdict::bad("unreadable source not reported", format!("{f:?}\n{}", trunc(&err, 3000)));
                }
                gone.push((s.path.clone(), f.site == Site::Read));
            }
            if f.path.ends_with("/SpacemanDMM.toml") {
                if !err.contains("SpacemanDMM.toml") {
                    return Verdict::bad("unreadable configuration not reported", format!("{f:?}\n{}", trunc(&err, 3000)));
                }
                gone.push(("SpacemanDMM.toml".into(), false));
            }
        }
        if c.dry {
            let changed: Vec<&String> = b.files.keys().chain(&b.removed).chain(&b.new_dirs).collect();
            if !changed.is_empty() {
                return Verdict::bad("a dry run changed files", format!("{changed:?}"));
            }
            if fired.is_empty() {
                let n = complaints(&err);
                let End::Exit(code) = b.end else {
                    return Verdict::bad("odd end of a dry run", format!("{:?}", b.end));
                };
                if b.out_str().contains("documenting ") {
                    ex.probe("dry_run");
                    if (code == 0) != (n == 0) {
                        return Verdict::bad("dry run exit status", format!("status {code} with {n} complaints"));
                    }
                    // a parser which gave up may not have seen the links
                    let parsed = !err.contains("error: ");
                    for i in 0..if parsed { c.doc.broken } else { 0 } {
                        if !err.contains(&format!("[/nowhere/at/all/{i}]")) {
                            return Verdict::bad("broken link not reported", format!("{i} of {}\n{}", c.doc.broken, trunc(&err, 2000)));
                        }
                    }
                    if n >= 256 && n % 256 == 0 {
                        ex.probe("dry_run_256");
                    }
                }
            }
            return Verdict::Ok;
        }
        let End::Exit(0) = b.end else {
            ex.probe(if fired.is_empty() && !full { "failed_without_fault" } else { "failed_with_cause" });
            return match b.end {
                End::Exit(_) => Verdict::Ok,
                _ => judge::bad_end(&b, false).unwrap_or(Verdict::Ok),
            };
        };
        ex.probe(if fired.is_empty() && !full { "healthy" } else { "succeeded_despite_fault" });
        if let Some(n) = b.files.keys().chain(&b.new_dirs).find(|n| !format!("{n}/").starts_with(&format!("{out}/")) && !out.starts_with(&format!("{n}/"))) {
            return Verdict::bad("wrote outside the output directory", n.clone());
        }
        if let Some(d) = dead_links(&out, &b) {
            return Verdict::bad("dead link", d);
        }
        let dirs: BTreeSet<&str> = ["dmdoc.css", "dmdoc.js", "git.png", "index.html"].into();
        for n in dirs {
            if b.files.get(&format!("{out}/{n}")).is_none_or(|x| x.is_empty()) {
                return Verdict::bad("incomplete documentation, exit status 0", format!("no {n}"));
            }
        }
        if fired.iter().any(|f| f.site == Site::Stat) && (err.contains("failed to find #include") || err.contains("failed to open file: #include")) {
            ex.probe("include_not_found");
            return Verdict::Ok; // reported likewise
        }
        if gone.iter().any(|g| g.0 == c.doc.spec.files[0].path) || gone.len() > 1 {
            return Verdict::Ok; // reported; nothing to compare with
        }
        // git information is a best effort which the console reports
        let cfg = Config { hash_seed: c.cfg.hash_seed, epoch: c.cfg.epoch, max_ticks: c.cfg.max_ticks, faults: c.cfg.faults.iter().filter(|f| f.path.contains("/.git/")).cloned().collect(), ..Config::default() };
        let a = ex.run(&cfg, &c.doc.args(false), || c.doc.install_without(&gone), body);
        if let End::Harness(h) = &a.end {
            return Verdict::Harness(h.clone());
        }
        if a.end != End::Exit(0) {
            if !gone.is_empty() {
                return Verdict::Skip("reference".into());
            }
            return Verdict::bad("success where a fault-free run fails", format!("{:?}\n{}", a.end, trunc(&a.err_str(), 1500)));
        }
        let multiple = c.doc.spec.files.iter().any(|x| gone.iter().any(|g| g.0 == x.path) && x.chunks.iter().any(|t| t.contains("#pragma multiple")));
        if multiple {
            return Verdict::Ok;
        }
        if let Some(d) = diff_files(&a, &b) {
            return Verdict::bad("incomplete documentation, exit status 0", format!("{d}\nfired {fired:?}\n{}", trunc(&err, 1500)));
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.doc.shrink().into_iter().map(|doc| Case { doc, ..c.clone() }).collect();
        for i in 0..c.cfg.faults.len() {
            let mut d = c.clone();
            d.cfg.faults.remove(i);
            v.push(d);
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (10000, 150000)
    }
    fn rule(&self) -> String {
        "one case = one documented source tree and up to two failures of its files, its Markdown pages, the directories searched, the repository or the output directory (or a full disk), documented by the whole program; a run which exits with status zero is compared with a fault-free one and its links are followed; distinct = distinct traces of cases with an injected fault".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dmdoc command line (whole program)", "dreammaker preprocessor, parser, object tree", "libgit2, walkdir, pulldown-cmark, maud"],
            "simulated": ["file system, its failures and its size", "directory order", "hash seeds"],
            "stub": ["build-info.txt (fixed text)"],
        })
    }
}
