//! C09: no unreadable source file goes unreported.
use crate::lint::*;
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::dm::*;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    spec: DmSpec,
    call: Call,
    /// Files (indices into the source files, or past them the configuration
    /// file) whose faults `cfg` plans, one per fault.
    victims: Vec<String>,
    cfg: Config,
}
pub struct C09;

fn config_file(n: &str) -> bool {
    n.ends_with(".toml")
}
/// Messages quote file numbers, which shift when a file is missing.
fn neutral(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.split("FileId(");
    o.push_str(it.next().unwrap());
    for p in it {
        o.push_str("FileId(_");
        o.push_str(p.trim_start_matches(|c: char| c.is_ascii_digit()));
    }
    o
}
fn mentions(block: &str, name: &str) -> bool {
    let base = name.rsplit('/').next().unwrap();
    block.contains(base)
}

/// Where an include is looked for next if it is not beside the including file.
fn decoys(spec: &DmSpec) -> Vec<String> {
    let have = |p: &str| spec.files.iter().any(|f| f.path == p) || spec.other.iter().any(|o| o.0 == p);
    let mut incs: Vec<(String, String)> = vec![];
    for f in &spec.files {
        let dir = f.path.rsplit_once('/').map_or("", |p| p.0);
        for line in f.chunks.iter().flat_map(|c| c.lines()) {
            if let Some(rel) = line.strip_prefix("#include \"").and_then(|l| l.split('"').next()) {
                incs.push((dir.to_owned(), rel.replace('\\', "/")));
            }
        }
    }
    incs.iter()
        .filter(|(dir, rel)| {
            !dir.is_empty()
                && rel.ends_with(".dm")
                && !rel.contains("..")
                && have(&format!("{dir}/{rel}"))
                && !have(rel)
                // no other #include may lead there
                && incs.iter().filter(|(d, r)| r == rel || format!("{d}/{r}") == *rel).count() == 1
        })
        .map(|x| x.1.clone())
        .collect()
}
const DECOY: &[u8] = b"/datum/decoy/var/decoy = 1\n";

impl Check for C09 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let st = Style { broken: r.chance(1, 3), docs: false, config: true, assets: false, max_chunks: if thorough { 24 } else { 10 } };
        let mut spec = DmSpec::gen(r, st);
        // levels which hide errors would hide the report as configured
        let call = Call::gen(r, &spec);
        let mut cfg = Config { max_ticks: 200_000_000, ..Config::default() };
        gen::benign_delivery(r, &mut cfg);
        gen::coarse(r, &mut cfg);
        let mut victims = vec![];
        let names: Vec<String> = spec.files.iter().map(|f| f.path.clone()).chain(spec.other.iter().map(|o| o.0.clone())).collect();
        let n = if r.chance(3, 4) { 1 } else { 2 };
        for _ in 0..n {
            let k = if r.chance(1, 8) { 0 } else { r.idx(names.len()) };
            if victims.contains(&names[k]) {
                continue;
            }
            let path = format!("{ROOT}/{}", names[k]);
            let f = match r.below(5) {
                0 => Fault { site: Site::Open, path, nth: 0, times: 0, act: Act::Errno(*r.pick(&gen::OPEN_ERRNOS)) },
                1 => Fault { site: Site::Stat, path, nth: 0, times: 0, act: Act::Errno(*r.pick(&[libc::EIO, libc::EACCES, libc::ENOMEM])) },
                2 => Fault { site: Site::Read, path, nth: 0, times: 0, act: Act::Errno(*r.pick(&gen::READ_ERRNOS)) },
                3 => Fault { site: Site::Read, path, nth: r.below(4), times: r.below(2), act: Act::Errno(*r.pick(&gen::READ_ERRNOS)) },
                _ => Fault { site: Site::Open, path, nth: 0, times: 1, act: Act::Errno(*r.pick(&gen::OPEN_ERRNOS)) },
            };
            victims.push(names[k].clone());
            cfg.faults.push(f);
        }
        // a file which must not be taken in place of an unreadable one
        if r.chance(1, 3) {
            for d in decoys(&spec) {
                spec.other.push((d, DECOY.to_vec()));
            }
        }
        if let Some(o) = spec.other.iter_mut().find(|o| o.0 == "SpacemanDMM.toml") {
            if r.chance(1, 6) {
                o.1.extend_from_slice(b"\n[broken = \n");
            }
        }
        Case { spec, call, victims, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        ex.wall_secs = 60;
        let args = c.call.args(&c.spec);
        let b = ex.run(&c.cfg, &args, || c.spec.install(), body);
        if let End::Harness(h) = &b.end {
            return Verdict::Harness(h.clone());
        }
        if let End::Exit(_) = b.end {
        } else {
            if b.end == End::StepLimit && c.spec.files.iter().any(|x| x.chunks.iter().any(|t| t.contains("#pragma multiple"))) {
                return Verdict::Skip("a file which includes itself is slow".into());
            }
            // crashes are C10's business unless a fault brings them about
            if b.fault_fired.iter().all(|n| *n == 0) {
                return Verdict::Skip(format!("{:?}", b.end));
            }
            if let Some(v) = judge::bad_end(&b, false) {
                return v;
            }
        }
        if b.stderr.len() >= 4 << 20 {
            return Verdict::Skip("more output than the simulator keeps".into());
        }
        let bl = blocks(&b.err_str());
        if let Some(d) = consistent(&b) {
            return Verdict::bad("inconsistent report", d);
        }
        // A fault fired on a call: unless another attempt got the whole file, it
        // must be reported by name.
        let mut gone: Vec<String> = vec![];
        for (i, v) in c.victims.iter().enumerate() {
            if b.fault_fired.get(i).copied().unwrap_or(0) == 0 {
                continue;
            }
            let f = &c.cfg.faults[i];
            ex.probe("victim_hit");
            if *v == c.spec.files[0].path {
                if f.site == Site::Stat {
                    continue; // its size is only a hint
                }
                if f.times == 1 && b.end == End::Exit(0) {
                    continue;
                }
                ex.probe("environment_failed");
                if b.end == End::Exit(0) {
                    return Verdict::bad("unreadable file, clean exit", format!("{v}: {f:?}\n{}\n{}", b.out_str(), b.err_str()));
                }
                if found(&b.out_str()).is_some() && f.times == 1 {
                    continue;
                }
                if !b.err_str().contains(v.as_str()) && !b.out_str().contains(v.as_str()) {
                    return Verdict::bad("environment file not named", b.err_str());
                }
                return Verdict::Ok;
            }
            let named = bl.iter().any(|x| {
                let (head, rest) = x.split_once('\n').unwrap_or((x, ""));
                mentions(head, v) && (x.contains("i/o error") || config_file(v) && x.contains("rror reading configuration"))
                    || mentions(rest, v) && (x.contains("i/o error") || x.contains("failed to open") || x.contains("failed to find"))
            });
            let multiple = c.spec.files.iter().any(|x| x.path == *v && x.chunks.iter().any(|t| t.contains("#pragma multiple")));
            if named && (f.times == 1 || multiple) {
                // another #include of it may have got the whole file
                if b.end == End::Exit(0) {
                    return Verdict::bad("unreadable file, clean exit", format!("{v}: {f:?}\n{}\n{}", b.out_str(), b.err_str()));
                }
                return Verdict::Ok;
            }
            if named {
                gone.push(v.clone());
                continue;
            }
            if f.times == 1 || f.site == Site::Stat {
                ex.probe("unreported_but_readable");
                continue; // judged below by its contents having taken effect
            }
            let class = if b.end == End::Exit(0) { "unreadable file, clean exit" } else { "unreadable file not reported" };
            return Verdict::bad(class, format!("{v}: {f:?}\n{}", trunc(&b.err_str(), 3000)));
        }
        if !gone.is_empty() && b.end == End::Exit(0) {
            return Verdict::bad("unreadable file, clean exit", format!("{gone:?}\n{}\n{}", b.out_str(), b.err_str()));
        }
        // A configuration file which failed leaves the defaults; the rest must be
        // as if the failed files did not exist.
        let mut call = c.call.clone();
        if gone.iter().any(|g| config_file(g)) {
            call.config = false;
        }
        let a = ex.run(&Config { hash_seed: c.cfg.hash_seed, max_ticks: 200_000_000, ..Config::default() }, &call.args(&c.spec), || c.spec.install_with(|p, b| if gone.iter().any(|g| g == p || b == DECOY && g.ends_with(&format!("/{p}"))) { None } else { Some(b) }), body);
        if let End::Harness(h) = &a.end {
            return Verdict::Harness(h.clone());
        }
        if !matches!(a.end, End::Exit(0 | 1)) || a.stderr.len() >= 4 << 20 {
            return Verdict::Skip(format!("reference {:?}", a.end));
        }
        let rest = |o: &Outcome| -> Vec<String> { blocks(&o.err_str()).into_iter().filter(|x| !gone.iter().any(|g| mentions(x.split_once('\n').map_or("", |p| p.0), g) || x.lines().any(|l| mentions(l, g) && (l.contains("#include") || l.contains("reading"))))).map(|x| neutral(&x)).collect() };
        let (ra, rb) = (rest(&a), rest(&b));
        if ra != rb {
            let i = ra.iter().zip(&rb).position(|(p, q)| p != q).unwrap_or(ra.len().min(rb.len()));
            return Verdict::bad(
                "the rest was analysed differently",
                format!("missing {gone:?}\n- {}\n+ {}", ra.get(i).map_or("<end>", |s| s), rb.get(i).map_or("<end>", |s| s)),
            );
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.spec.shrink().into_iter().map(|spec| Case { spec, ..c.clone() }).collect();
        v.extend(c.call.shrink().into_iter().map(|call| Case { call, ..c.clone() }));
        if c.cfg.faults.len() > 1 {
            for i in 0..c.cfg.faults.len() {
                let mut d = c.clone();
                d.cfg.faults.remove(i);
                d.victims.remove(i);
                v.push(d);
            }
        }
        v
    }
    fn configs<'a>(&self, _c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![]
    }
    fn budget(&self) -> (u64, u64) {
        (12000, 150000)
    }
    fn rule(&self) -> String {
        "one case = one source tree in which one or two files cannot be opened, examined or read (at once or part of the way), linted by the whole program and compared with a run in which those files do not exist; distinct = distinct traces of cases whose fault fired".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dreamchecker command line (whole program)", "dreammaker preprocessor, lexer, parser, object tree", "dreamchecker analysis"],
            "simulated": ["file system and its failures", "randomness"],
            "stub": [],
        })
    }
}
