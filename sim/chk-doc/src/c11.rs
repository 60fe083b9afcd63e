//! C11: generated documentation does not depend on the run.
use crate::doc::*;
use serde::{Deserialize, Serialize};
use simdrv::*;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    doc: DocSpec,
    dry: bool,
    cfg: Config,
}
pub struct C11;

impl Check for C11 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let doc = DocSpec::gen(r, if thorough { 20 } else { 10 });
        let mut cfg = Config { max_ticks: 400_000_000, ..Config::default() };
        gen::benign_delivery(r, &mut cfg);
        gen::coarse(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        Case { doc, dry: r.chance(1, 12), cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        ex.wall_secs = 60;
        let base = Config { hash_seed: 0, max_ticks: 400_000_000, epoch: c.cfg.epoch, ..Config::default() };
        let a = ex.run(&base, &c.doc.args(c.dry), || c.doc.install(), body);
        let b = ex.run(&c.cfg, &c.doc.args(c.dry), || c.doc.install(), body);
        for o in [&a, &b] {
            if let End::Harness(h) = &o.end {
                return Verdict::Harness(h.clone());
            }
        }
        if let Some((f, m)) = judge::panic_site(&a) {
            return Verdict::bad("panic", format!("{f}: {m}"));
        }
        if a.end != b.end {
            return Verdict::bad("different exit status", format!("{:?} and {:?}\n{}", a.end, b.end, trunc(&b.err_str(), 2000)));
        }
        if !matches!(a.end, End::Exit(_)) {
            return Verdict::Skip(format!("{:?}", a.end));
        }
        if a.end == End::Exit(0) {
            ex.probe("documented");
        }
        if a.out_str().contains("incomplete git") {
            ex.probe("no_git");
        }
        if let Some(d) = diff_files(&a, &b) {
            return Verdict::bad("pages differ", d);
        }
        if a.removed != b.removed || a.new_dirs != b.new_dirs {
            return Verdict::bad("directories differ", format!("{:?} {:?}\n{:?} {:?}", a.removed, a.new_dirs, b.removed, b.new_dirs));
        }
        if a.stderr != b.stderr {
            return Verdict::bad("errors differ", first_diff(&a.err_str(), &b.err_str()));
        }
        if a.stdout != b.stdout {
            return Verdict::bad("output differs", first_diff(&a.out_str(), &b.out_str()));
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        c.doc.shrink().into_iter().map(|doc| Case { doc, ..c.clone() }).collect()
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn nontrivial(&self, c: &Case, ex: &Exec) -> bool {
        ex.last_injected > 0 || c.cfg.hash_seed != 0
    }
    fn budget(&self) -> (u64, u64) {
        (8000, 150000)
    }
    fn rule(&self) -> String {
        "one case = one documented source tree with Markdown pages and a git repository, documented by the whole program once with whole reads, fixed hash seed and sorted directories and once with split and interrupted reads, other hash seeds and shuffled directories; distinct = distinct traces of cases which injected a variation or drew other hash seeds".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dmdoc command line (whole program)", "dreammaker preprocessor, parser, object tree", "libgit2, walkdir, pulldown-cmark, maud"],
            "simulated": ["file system", "directory order", "read splitting and interruption", "hash seeds"],
            "stub": ["build-info.txt (fixed text)"],
        })
    }
}
