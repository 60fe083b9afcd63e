//! C08: parsing does not depend on how source bytes are delivered.
use crate::lint::*;
use dm_dump::dump;
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::dm::*;

mod dm_dump {
    extern crate dreammaker as dm;
    use std::fmt::Write;

    /// Parse through the library and describe everything it produces.
    pub fn dump(dme: &str, lint: bool) -> String {
        let mut out = String::new();
        let mut context = dm::Context::default();
        context.autodetect_config(dme.as_ref());
        let mut pp = match dm::preprocessor::Preprocessor::new(&context, dme.into()) {
            Ok(p) => p,
            Err(e) => return format!("error {e:?}"),
        };
        let mut annotations = dm::annotation::AnnotationTree::default();
        pp.enable_annotations();
        let (tree, docs) = {
            let indents = dm::indents::IndentProcessor::new(&context, &mut pp);
            let mut parser = dm::parser::Parser::new(&context, indents);
            parser.enable_procs();
            parser.annotate_to(&mut annotations);
            parser.parse_with_module_docs()
        };
        if lint {
            dreamchecker::run(&context, &tree);
        }
        for ty in tree.iter_types() {
            let _ = writeln!(out, "TYPE {:?}", ty.get());
        }
        for (f, d) in &docs {
            let _ = writeln!(out, "MODULE {:?} {d:?}", context.file_path(*f));
        }
        for (r, v) in pp.ifdef_history().iter() {
            let _ = writeln!(out, "IFDEF {r:?} {v:?}");
        }
        if let Some(a) = pp.take_annotations() {
            for (r, v) in a.iter() {
                let _ = writeln!(out, "PPANNOT {r:?} {v:?}");
            }
        }
        for (r, v) in annotations.iter() {
            let _ = writeln!(out, "ANNOT {r:?} {v:?}");
        }
        let mut defs: Vec<String> = pp.finalize().iter().map(|(r, v)| format!("DEFINE {:?} {v:?}", r.start)).collect();
        defs.sort();
        out.push_str(&defs.join("\n"));
        out.push('\n');
        for e in context.errors().iter() {
            let _ = writeln!(out, "DIAG {:?} {e:?}", context.file_path(e.location().file));
        }
        context.file_list().for_each(|p| {
            let _ = writeln!(out, "FILE {p:?}");
        });
        out
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    spec: DmSpec,
    call: Call,
    /// Through the library, describing the object tree and everything else.
    lib: bool,
    cfg: Config,
}
pub struct C08;

fn first_diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    for i in 0..x.len().max(y.len()) {
        let (l, m) = (x.get(i).copied().unwrap_or("<end>"), y.get(i).copied().unwrap_or("<end>"));
        if l != m {
            let at = l.char_indices().zip(m.char_indices()).find(|(p, q)| p != q).map_or(0, |p| p.0 .0);
            let from = l[..at].char_indices().rev().nth(150).map_or(0, |p| p.0);
            let cut = |s: &str| trunc(s.get(from..).unwrap_or(s), 500);
            return format!("line {}:\n- {}\n+ {}", i + 1, cut(l), cut(m));
        }
    }
    "equal".into()
}

impl Check for C08 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let st = Style { broken: r.chance(1, 2), docs: r.chance(1, 4), config: true, assets: true, max_chunks: if thorough { 40 } else { 16 } };
        let mut spec = DmSpec::gen(r, st);
        let mut call = Call::gen(r, &spec);
        let lib = r.chance(1, 3);
        if !lib && r.chance(1, 8) {
            // let the linter choose among several environments
            call.detect = true;
            if r.chance(1, 2) {
                spec.files[0].path = "tgstation.dme".into();
            }
            for n in ["alpha.dme", "zeta.dme", "Beta.dme", "tgstation.dme"] {
                if r.chance(1, 2) && spec.files[0].path != n {
                    spec.other.push((n.into(), format!("#warn this is {n}\n").into_bytes()));
                }
            }
        }
        let mut cfg = Config { max_ticks: 200_000_000, ..Config::default() };
        gen::benign_delivery(r, &mut cfg);
        if r.chance(1, 6) {
            cfg.stat_lies = *r.pick(&[100, 500, 1000]);
        }
        gen::coarse(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        Case { spec, call, lib, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        ex.wall_secs = 60;
        let base = Config { hash_seed: 0, max_ticks: 200_000_000, ..Config::default() };
        let mut outs = vec![];
        for cfg in [&base, &c.cfg] {
            let o = if c.lib {
                let dme = c.spec.dme();
                let lint = !c.call.parse_only;
                ex.run(cfg, &["lib".into()], || c.spec.install(), move || {
                    let mut d = dump(&dme, lint).into_bytes();
                    if d.len() > 16 << 20 {
                        // a file which includes itself makes many copies of everything
                        let h = d.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
                        d.truncate(8 << 20);
                        d.extend_from_slice(format!("...{h:x}").as_bytes());
                    }
                    simos::custom("dump", d);
                    0
                })
            } else {
                ex.run(cfg, &c.call.args(&c.spec), || c.spec.install(), body)
            };
            if let End::Harness(h) = &o.end {
                return Verdict::Harness(h.clone());
            }
            outs.push(o);
        }
        let (a, b) = (&outs[0], &outs[1]);
        if let Some((f, m)) = judge::panic_site(a) {
            ex.probe("reference_panicked");
            return Verdict::Skip(format!("panic {f}: {m}"));
        }
        if a.end != b.end {
            return Verdict::bad("different exit status", format!("{:?} and {:?}\n{}", a.end, b.end, trunc(&b.err_str(), 2000)));
        }
        if !matches!(a.end, End::Exit(_)) {
            return Verdict::Skip(format!("{:?}", a.end));
        }
        if c.lib {
            let s = |o: &Outcome| String::from_utf8_lossy(o.get("dump").unwrap_or(b"")).into_owned();
            let (x, y) = (s(a), s(b));
            if x.is_empty() {
                return Verdict::Harness("no dump".into());
            }
            if x.contains("\nDIAG") {
                ex.probe("lib_with_diagnostics");
            }
            if x != y {
                let d = first_diff(&x, &y);
                let kind = d.lines().nth(1).and_then(|l| l.split(' ').nth(1)).unwrap_or("").to_owned();
                let kind = if kind.chars().all(|c| c.is_ascii_uppercase()) { kind } else { "dump".into() };
                return Verdict::bad(format!("library results differ: {kind}"), d);
            }
            return Verdict::Ok;
        }
        if found(&a.out_str()).is_some_and(|n| n > 0) {
            ex.probe("with_diagnostics");
        }
        if a.stderr != b.stderr {
            return Verdict::bad("diagnostics differ", first_diff(&a.err_str(), &b.err_str()));
        }
        if a.stdout != b.stdout {
            return Verdict::bad("output differs", first_diff(&a.out_str(), &b.out_str()));
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.spec.shrink().into_iter().map(|spec| Case { spec, ..c.clone() }).collect();
        v.extend(c.call.shrink().into_iter().map(|call| Case { call, ..c.clone() }));
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn nontrivial(&self, c: &Case, ex: &Exec) -> bool {
        ex.last_injected > 0 || c.cfg.hash_seed != 0
    }
    fn budget(&self) -> (u64, u64) {
        (8000, 150000)
    }
    fn rule(&self) -> String {
        "one case = one source tree, linted (or parsed through the library) once with whole reads, fixed hash seed and sorted directories and once with split and interrupted reads, other hash seeds and shuffled directories; distinct = distinct traces of cases which injected a variation or drew other hash seeds".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dreamchecker command line (whole program)", "dreammaker preprocessor, lexer, parser, object tree", "dreamchecker analysis", "foldhash tables (seeded)"],
            "simulated": ["file system", "directory order", "randomness"],
            "stub": [],
        })
    }
}
