//! C02: a map load is all-or-nothing.
use crate::mapdump::*;
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::map::{Damage, MapSpec, Style};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    map: MapSpec,
    style: Style,
    damage: Vec<Damage>,
    cfg: Config,
}
pub struct C02;
const SRC: &str = "/w/in.dmm";

impl Check for C02 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let big = thorough || r.chance(1, 30);
        let map = MapSpec::gen(r, big);
        let style = Style::gen(r);
        let mut cfg = Config::default();
        gen::benign_delivery(r, &mut cfg);
        if r.chance(1, 6) {
            cfg.stat_lies = *r.pick(&[100, 500, 1000]);
        }
        gen::hash_seed(r, &mut cfg);
        let len = map.text(&style).len();
        let mut damage = vec![];
        match r.below(8) {
            0 => cfg.faults.push(Fault { site: Site::Open, path: SRC.into(), nth: 0, times: 1, act: Act::Errno(*r.pick(&gen::OPEN_ERRNOS)) }),
            1 | 2 => cfg.faults.push(Fault {
                site: Site::Read,
                path: SRC.into(),
                nth: *r.pick(&[0u64, 0, 1, 1, 2, 3, 10, 40]),
                times: *r.pick(&[0u64, 1]),
                act: Act::Errno(*r.pick(&gen::READ_ERRNOS)),
            }),
            3 => cfg.faults.push(Fault { site: Site::Stat, path: SRC.into(), nth: 0, times: 0, act: Act::Errno(libc::EIO) }),
            4 | 5 => damage = crate::c01::damages(r, len),
            _ => {},
        }
        // a small file read in one call: give errors a chance to land mid-file
        if !cfg.faults.is_empty() && r.chance(1, 2) {
            cfg.file_read = Chunk::Rand(1 + r.below(len as u64 / 2 + 2) as u32);
        }
        // or exactly between two blocks, where what was read looks complete
        if !cfg.faults.is_empty() && r.chance(1, 3) {
            let text = map.text(&style);
            let ends: Vec<usize> = (1..text.len()).filter(|&i| text[..i].ends_with(b"\"}") || text[..i].ends_with(b")\n")).collect();
            if !ends.is_empty() {
                cfg.file_read = Chunk::Max(*r.pick(&ends) as u32);
                if cfg.faults[0].site == Site::Read {
                    cfg.faults[0].nth = 1;
                }
            }
        }
        Case { map, style, damage, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let mut bytes = c.map.text(&c.style);
        for d in &c.damage {
            d.apply(&mut bytes);
        }
        let o = ex.run(&c.cfg, &["prog".to_string()], || simos::add_file(SRC, &bytes), || load_body(SRC));
        let ctx = || format!("injected {:?}\n--- file\n{}", o.injected, trunc(&String::from_utf8_lossy(&bytes), 3000));
        match judge::bad_end(&o, true) {
            Some(Verdict::Violation { class, detail }) => return Verdict::bad(class, format!("{detail}\n{}", ctx())),
            Some(v) => return v,
            None => {},
        }
        let failed = o.fault_fired.iter().zip(&c.cfg.faults).any(|(n, f)| *n > 0 && f.site != Site::Stat);
        let got = loaded(&o);
        if failed {
            return match got {
                Err(_) => {
                    ex.probe("load_reported_error");
                    Verdict::Ok
                },
                Ok(_) => Verdict::bad("read error not reported", format!("the load returned a map although reading the file failed; {}", ctx())),
            };
        }
        if !c.damage.is_empty() {
            ex.probe(if got.is_ok() { "damaged_accepted" } else { "damaged_refused" });
            return Verdict::Ok;
        }
        // independent construction of the same map
        let e = ex.run(&Config::default(), &["prog".to_string()], || (), || {
            match build(&c.map) {
                Ok(m) => simos::custom("map", dump(&m).into_bytes()),
                Err(e) => simos::custom("err", e.into_bytes()),
            }
            0
        });
        if let Some(v) = judge::bad_end(&e, true) {
            return v;
        }
        let want = match loaded(&e) {
            Ok(w) => w,
            Err(e) => return Verdict::Skip(e),
        };
        match got {
            Err(e) => Verdict::bad("well-formed map refused", format!("{e}; {}", ctx())),
            Ok(g) if g == want => Verdict::Ok,
            Ok(g) => Verdict::bad("loaded map differs", format!("{}\n{}", diff(&want, &g), ctx())),
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = vec![];
        for i in 0..c.damage.len() {
            let mut d = c.clone();
            d.damage.remove(i);
            v.push(d);
        }
        v.extend(c.map.shrink().into_iter().map(|map| Case { map, ..c.clone() }));
        if c.style != Style::default() {
            v.push(Case { style: Style::default(), ..c.clone() });
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (24000, 400000)
    }
    fn rule(&self) -> String {
        "one case = one generated map written as text by an independent writer, possible damage to the stored bytes, and one fault plan, loaded in one simulated run; distinct = distinct system-call traces of cases with an injected delivery variation or fault".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dmm-tools map reader", "dreammaker file buffering and constant evaluation", "Rust std file I/O"],
            "simulated": ["file system below libc open/read/stat"],
            "stub": ["map writer (independent text writer as oracle)"],
        })
    }
}
