//! C03: an icon load is all-or-nothing.
use dmm_tools::dmi::{Dir, IconFile, Image};
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::map::Damage;
use simgen::png::IconSpec;
use std::path::Path;

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Api {
    IconFile,
    Image,
    Metadata,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    icon: IconSpec,
    api: Api,
    /// Damage to the stored bytes.
    damage: Vec<Damage>,
    /// Damage to the description text, before it is stored with a valid checksum.
    text_damage: Vec<Damage>,
    /// The stored file name's case differs from the requested one.
    cased: bool,
    /// There is another such file.
    #[serde(default)]
    twin: bool,
    cfg: Config,
}
pub struct C03;
const SRC: &str = "/w/icons/Sprite.dmi";
const TOKENS: [&str; 24] = [
    "state = \"x\"\n", "dirs = 2\n", "dirs = 8\n", "frames = 0\n", "frames = 3\n", "frames = 99999999999\n", "delay = 1,x\n", "delay = \n", "delay = 1,1,1,1\n", "loop = -1\n",
    "rewind = 2\n", "width = 0\n", "height = 0\n", "width = 99999\n", "\n", " = ", "\"", "\\", "# END DMI\n", "hotspot = 1,2,3\n", "movement = 1\n", "state = \"\n", "state = é\n", "odd = 1\n",
];

/// What a caller can see of a loaded icon.
pub fn dump_meta(m: &dreammaker::dmi::Metadata, bitmap_w: u32) -> String {
    use std::fmt::Write;
    let mut s = format!("size {} {}\n", m.width, m.height);
    for st in &m.states {
        let ix = st.get_state_name_index();
        let dir = m.rect_of(bitmap_w, &ix, Dir::East, 0);
        writeln!(
            s,
            "{:?} dup {} dirs {:?} frames {:?} loop {} rewind {} movement {} offset {} rect {dir:?} found {:?}",
            st.name, st.duplicate_index, st.dirs, st.frames, st.loop_, st.rewind, st.movement, st.offset,
            m.get_icon_state(&ix).map(|s| s.offset)
        )
        .unwrap();
    }
    s
}

/// The same text, derived from the specification alone.
pub fn expected_meta(i: &IconSpec) -> String {
    use std::collections::BTreeMap;
    use std::fmt::Write;
    if !i.has_text() {
        let (w, h) = i.size();
        return format!("size {w} {h}\n");
    }
    let mut s = format!("size {} {}\n", i.w, i.h);
    let mut off = 0usize;
    let mut dup: BTreeMap<&str, u32> = BTreeMap::new();
    for st in &i.states {
        let d = dup.entry(&st.name).or_insert(0);
        let dirs = match st.dirs {
            1 => "One",
            4 => "Four",
            _ => "Eight",
        };
        let frames = match &st.delays {
            Some(v) if v.iter().any(|x| x != "1") => format!("Delays({:?})", v.iter().map(|x| x.parse::<f32>().unwrap()).collect::<Vec<_>>()),
            _ => format!("Count({})", st.frames),
        };
        let idx = off as u32 + if st.dirs == 1 { 0 } else { 2 };
        let rect = ((idx % i.cols) * i.w, (idx / i.cols) * i.h, i.w, i.h);
        writeln!(
            s,
            "{:?} dup {d} dirs {dirs} frames {frames} loop {} rewind {} movement {} offset {off} rect Some({rect:?}) found Some({off})",
            st.name, st.loop_, st.rewind, st.movement
        )
        .unwrap();
        *d += 1;
        off += st.dirs as usize * st.frames;
    }
    s
}
pub fn px_bytes(px: &[[u8; 4]]) -> Vec<u8> {
    px.iter().flatten().copied().collect()
}
pub fn image_bytes(im: &Image) -> Vec<u8> {
    im.data.iter().flat_map(|p| *p.as_bytes()).collect()
}

fn body(api: Api, path: &str) -> i32 {
    let p = Path::new(path);
    match api {
        Api::IconFile => match IconFile::from_file(p) {
            Ok(i) => {
                simos::custom("meta", dump_meta(&i.metadata, i.image.width).into_bytes());
                simos::custom("size", format!("{}x{}", i.image.width, i.image.height).into_bytes());
                simos::custom("px", image_bytes(&i.image));
                if i.metadata.width > 0 && i.metadata.height > 0 {
                    for k in [0, 1, 7] {
                        let r = i.rect_of_index(k);
                        simos::event(format!("{r:?}"));
                    }
                }
            },
            Err(e) => simos::custom("err", format!("{e}").into_bytes()),
        },
        Api::Image => match Image::from_file(p) {
            Ok(i) => {
                simos::custom("size", format!("{}x{}", i.width, i.height).into_bytes());
                simos::custom("px", image_bytes(&i));
            },
            Err(e) => simos::custom("err", format!("{e}").into_bytes()),
        },
        Api::Metadata => match dreammaker::dmi::Metadata::from_file(p) {
            Ok((b, m)) => {
                simos::custom("meta", dump_meta(&m, b.width as u32).into_bytes());
                simos::custom("size", format!("{}x{}", b.width, b.height).into_bytes());
                simos::custom("px", b.buffer.iter().flat_map(|p| [p.r, p.g, p.b, p.a]).collect());
            },
            Err(e) => simos::custom("err", format!("{e}").into_bytes()),
        },
    }
    0
}

impl Check for C03 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn gen(&self, r: &mut Rng, _i: u64, _t: bool) -> Case {
        let (w, h) = *r.pick(&[(32u32, 32u32), (1, 1), (8, 8), (16, 8), (3, 5)]);
        let icon = IconSpec::gen(r, w, h);
        let mut cfg = Config::default();
        gen::benign_delivery(r, &mut cfg);
        if r.chance(1, 6) {
            cfg.stat_lies = *r.pick(&[100, 500, 1000]);
        }
        gen::hash_seed(r, &mut cfg);
        let mut damage = vec![];
        let mut text_damage = vec![];
        match r.below(9) {
            0 => cfg.faults.push(Fault { site: Site::Open, path: "prite.dmi".into(), nth: 0, times: 1, act: Act::Errno(*r.pick(&gen::OPEN_ERRNOS)) }),
            1 | 2 => cfg.faults.push(Fault {
                site: Site::Read,
                path: "prite.dmi".into(),
                nth: *r.pick(&[0u64, 0, 1, 1, 2, 3, 10]),
                times: *r.pick(&[0u64, 1]),
                act: Act::Errno(*r.pick(&gen::READ_ERRNOS)),
            }),
            3 => cfg.faults.push(Fault { site: Site::Stat, path: "prite.dmi".into(), nth: r.below(2), times: 1, act: Act::Errno(libc::EIO) }),
            4 | 5 => {
                let n = icon.bytes().len().min(400 + r.idx(3000));
                damage = (0..1 + r.idx(2)).map(|_| Damage::gen(r, n, &["\0\0\0\x05tEXt", "IEND", "\u{1}"])).collect()
            },
            6 | 7 => {
                let n = icon.description().len();
                text_damage = (0..1 + r.idx(3)).map(|_| Damage::gen(r, n, &TOKENS)).collect();
            },
            _ => {},
        }
        if !cfg.faults.is_empty() && r.chance(1, 2) {
            cfg.file_read = Chunk::Rand(1 + r.below(2000) as u32);
        }
        let cased = r.chance(1, 8);
        let twin = cased && r.chance(1, 2);
        if twin {
            cfg.shuffle_dirs = true;
        }
        Case { icon, api: *r.pick(&[Api::IconFile, Api::IconFile, Api::Image, Api::Metadata]), damage, text_damage, cased, twin, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let mut icon = c.icon.clone();
        let mut bytes = if c.text_damage.is_empty() {
            icon.bytes()
        } else {
            icon.text = 1;
            let mut d = icon.description().into_bytes();
            for x in &c.text_damage {
                x.apply(&mut d);
            }
            icon.bytes_with(&String::from_utf8_lossy(&d))
        };
        for d in &c.damage {
            d.apply(&mut bytes);
        }
        let ask = if c.cased { "/w/icons/sprite.dmi" } else { SRC };
        let setup = || {
            simos::add_file(SRC, &bytes);
            if c.twin {
                let mut other = c.icon.clone();
                other.px_seed ^= 1;
                for p in ["/w/icons/sprite.DMI", "/w/icons/sPrite.dmi"] {
                    simos::add_file(p, &other.bytes());
                    other.px_seed ^= 2;
                }
            }
        };
        let o = ex.run(&c.cfg, &["prog".to_string()], setup, || body(c.api, ask));
        match judge::bad_end(&o, true) {
            Some(Verdict::Violation { class, detail }) => {
                return Verdict::bad(class, format!("{detail}\n{:?} text damage {:?} injected {:?}", c.damage, c.text_damage, o.injected))
            },
            Some(v) => return v,
            None => {},
        }
        if c.twin {
            // which one is taken is not said, but the order of the directory must not matter
            if o.fault_fired.iter().all(|n| *n == 0) {
                let a = ex.run(&Config::default(), &["prog".to_string()], setup, || body(c.api, ask));
                for k in ["size", "px", "meta", "err"] {
                    if a.get(k) != o.get(k) {
                        return Verdict::bad("loaded icon depends on directory order", format!("{k} differs; injected {:?}", o.injected));
                    }
                }
                ex.probe("twins");
            }
            return Verdict::Ok;
        }
        let failed = o.fault_fired.iter().zip(&c.cfg.faults).any(|(n, f)| *n > 0 && f.site != Site::Stat);
        let stat_failed = o.fault_fired.iter().any(|n| *n > 0) && !failed;
        let ok = o.get("px").is_some();
        if failed {
            return if ok {
                Verdict::bad("read error not reported", format!("an icon was returned although reading the file failed; {:?}", o.injected))
            } else {
                ex.probe("load_reported_error");
                Verdict::Ok
            };
        }
        if !c.damage.is_empty() || !c.text_damage.is_empty() {
            ex.probe(if ok { "damaged_accepted" } else { "damaged_refused" });
            return Verdict::Ok;
        }
        if !ok {
            // without a working stat the case-insensitive search is best effort
            if stat_failed {
                return Verdict::Ok;
            }
            if c.cased && c.api == Api::IconFile {
                // this entry point takes the exact name
                return Verdict::Ok;
            }
            return Verdict::bad("well-formed icon refused", format!("{:?}; {:?}", o.get("err").map(String::from_utf8_lossy), o.injected));
        }
        let (w, h) = c.icon.size();
        if o.get("size").unwrap() != format!("{w}x{h}").as_bytes() || o.get("px").unwrap() != px_bytes(&c.icon.pixels()) {
            return Verdict::bad("pixels differ", format!("{:?}", o.injected));
        }
        if let Some(m) = o.get("meta") {
            let want = expected_meta(&c.icon);
            if m != want.as_bytes() {
                return Verdict::bad("icon states differ", crate::mapdump::diff(&want, &String::from_utf8_lossy(m)));
            }
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.damage.len() {
            let mut d = c.clone();
            d.damage.remove(i);
            v.push(d);
        }
        for i in 0..c.text_damage.len() {
            let mut d = c.clone();
            d.text_damage.remove(i);
            v.push(d);
        }
        v.extend(c.icon.shrink().into_iter().map(|icon| Case { icon, ..c.clone() }));
        if c.cased {
            v.push(Case { cased: false, twin: false, ..c.clone() });
        }
        if c.twin {
            v.push(Case { twin: false, ..c.clone() });
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (30000, 500000)
    }
    fn rule(&self) -> String {
        "one case = one generated icon sheet, possible damage to its bytes or its description text, one entry point and one fault plan, loaded in one simulated run; distinct = distinct system-call traces of cases with an injected delivery variation or fault".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dmm-tools icon and image loading", "dreammaker icon metadata parser and file-name case correction", "lodepng decoder", "Rust std file I/O"],
            "simulated": ["file system below libc open/read/stat/readdir"],
            "stub": ["icon writer (independent PNG encoder as oracle)"],
        })
    }
}
