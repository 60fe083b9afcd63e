//! C01: a map save that reports success has stored the whole map.
use crate::mapdump::*;
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::map::{Damage, MapSpec};
use std::io::{self, Write};
use std::path::Path;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Sink {
    /// `Map::to_file`.
    ToFile,
    /// `Map::to_writer` with a `File`.
    File,
    /// `Map::to_writer` with a `BufWriter<File>` of this capacity.
    Buf(usize),
    /// `Map::to_writer` with an in-memory `Vec`.
    Vec,
    /// `Map::to_writer` with a writer that accepts at most `max` bytes a call,
    /// interrupts every `eintr`-th call, and fails once `fail_at` bytes have
    /// been accepted (0 is an `Ok(0)`, otherwise an errno), either for good or
    /// once.
    Custom { max: usize, eintr: u32, fail_at: Option<u64>, errno: i32, once: bool, flush_fails: bool },
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    pub map: MapSpec,
    pub sink: Sink,
    /// The destination already holds a longer file.
    pub old: bool,
    pub cfg: Config,
}

struct Custom {
    out: Vec<u8>,
    max: usize,
    eintr: u32,
    calls: u32,
    fail_at: Option<u64>,
    errno: i32,
    once: bool,
    flush_fails: bool,
    fired: u32,
}
impl Write for Custom {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.eintr > 0 && self.calls % self.eintr == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.max);
        if let Some(f) = self.fail_at {
            let left = f.saturating_sub(self.out.len() as u64) as usize;
            if left == 0 && (self.fired == 0 || !self.once) {
                self.fired += 1;
                simos_count("custom_writer_error");
                return if self.errno == 0 { Ok(0) } else { Err(io::Error::from_raw_os_error(self.errno)) };
            }
            if left > 0 {
                n = n.min(left);
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails {
            self.fired += 1;
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        Ok(())
    }
}
fn simos_count(k: &str) {
    simos::note_injected(k);
}

pub const DEST: &str = "/w/out.dmm";

pub struct C01;
impl Check for C01 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let big = thorough || r.chance(1, 20);
        let map = MapSpec::gen(r, big);
        let approx = map.text(&simgen::map::Style { tgm: true, crlf: false, min_key_len: 1 }).len() as u64;
        let mut cfg = Config::default();
        gen::benign_delivery(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        // where in the output a failure lands: often near the end
        let place = |r: &mut Rng| match r.below(4) {
            0 => r.below(approx + 2),
            1 => approx.saturating_sub(1 + r.below(20)),
            2 => approx.saturating_sub(r.below(9000)),
            _ => r.below(approx.min(9000) + 2),
        };
        let sink = match r.below(8) {
            0 | 1 | 2 => Sink::ToFile,
            3 => Sink::File,
            4 => Sink::Buf(*r.pick(&[1usize, 16, 100, 8192, 100000])),
            5 => Sink::Vec,
            _ => Sink::Custom {
                max: *r.pick(&[1usize, 2, 7, 100, 8191, 1 << 30]),
                eintr: *r.pick(&[0u32, 0, 2, 3, 10]),
                fail_at: if r.chance(2, 3) { Some(place(r)) } else { None },
                errno: *r.pick(&[0, libc::ENOSPC, libc::EIO, libc::EPIPE]),
                once: r.chance(1, 3),
                flush_fails: r.chance(1, 6),
            },
        };
        match r.below(6) {
            0 | 1 => cfg.disk_free = Some(place(r)),
            2 => cfg.faults.push(Fault {
                site: Site::Write,
                path: String::new(),
                nth: if r.chance(1, 2) { r.below(3) } else { r.below(40) },
                times: *r.pick(&[0u64, 1, 1, 2]),
                act: if r.chance(1, 5) { Act::Short(r.below(4) as u32 + 1) } else { Act::Errno(*r.pick(&gen::WRITE_ERRNOS)) },
            }),
            3 if r.chance(1, 4) => cfg.faults.push(Fault { site: Site::Open, path: DEST.into(), nth: 0, times: 0, act: Act::Errno(*r.pick(&gen::OPEN_ERRNOS)) }),
            _ => {},
        }
        Case { map, sink, old: r.chance(1, 4), cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let prog = ["prog".to_string()];
        let o = ex.run(
            &c.cfg,
            &prog,
            || {
                simos::add_dir("/w");
                simos::set_cwd("/w");
                if c.old {
                    // a longer map, so that whatever is left of it matters
                    let text = c.map.text(&simgen::map::Style { tgm: true, crlf: false, min_key_len: 1 });
                    simos::add_file(DEST, &text.repeat(3 + 20000 / (text.len() + 1)));
                }
            },
            || {
                let m = match build(&c.map) {
                    Ok(m) => m,
                    Err(e) => {
                        simos::event(format!("build {e}"));
                        return 0;
                    },
                };
                simos::custom("dump", dump(&m).into_bytes());
                let d = Path::new(DEST);
                let r = match &c.sink {
                    Sink::ToFile => m.to_file(d),
                    Sink::File => std::fs::File::create(d).and_then(|mut f| m.to_writer(&mut f)),
                    Sink::Buf(n) => std::fs::File::create(d).and_then(|f| {
                        let mut b = io::BufWriter::with_capacity(*n, f);
                        m.to_writer(&mut b)?;
                        b.flush()
                    }),
                    Sink::Vec => {
                        let mut v = vec![];
                        let r = m.to_writer(&mut v);
                        simos::custom("bytes", v);
                        r
                    },
                    Sink::Custom { max, eintr, fail_at, errno, once, flush_fails } => {
                        let mut w = Custom {
                            out: vec![],
                            max: *max,
                            eintr: *eintr,
                            calls: 0,
                            fail_at: *fail_at,
                            errno: *errno,
                            once: *once,
                            flush_fails: *flush_fails,
                            fired: 0,
                        };
                        let r = m.to_writer(&mut w);
                        simos::custom("bytes", w.out);
                        if w.fired > 0 {
                            simos::event("custom fault".into());
                        }
                        r
                    },
                };
                simos::event(match r {
                    Ok(()) => "save ok".into(),
                    Err(e) => format!("save err {:?}", e.kind()),
                });
                0
            },
        );
        if let Some(v) = judge::bad_end(&o, true) {
            return v;
        }
        if let Some(e) = o.events.iter().find(|e| e.starts_with("build ")) {
            return Verdict::Skip(e.clone());
        }
        let ok = o.events.iter().any(|e| e == "save ok");
        let refused = o.fault_fired.iter().zip(&c.cfg.faults).any(|(n, f)| *n > 0 && matches!(f.act, Act::Errno(_)))
            || o.injected.contains_key("enospc")
            || o.injected.keys().any(|k| k.contains("ENOSPC"))
            || o.events.iter().any(|e| e == "custom fault");
        if !ok {
            ex.probe("save_reported_error");
            return if refused {
                Verdict::Ok
            } else {
                Verdict::bad("error without a refusal", format!("{:?}; nothing was refused; injected {:?}", o.events, o.injected))
            };
        }
        ex.probe(if refused { "save_ok_despite_refusal" } else { "save_ok" });
        let bytes = match c.sink {
            Sink::Vec | Sink::Custom { .. } => o.get("bytes").map(|b| b.to_vec()),
            _ => o.files.get(DEST).cloned(),
        };
        let Some(bytes) = bytes else {
            return Verdict::bad("no destination file", format!("the save succeeded but there is no file; {:?}", o.injected));
        };
        let want = String::from_utf8(o.get("dump").unwrap().to_vec()).unwrap();
        match load_back(ex, &bytes) {
            Err(v) => v,
            Ok(Err(e)) => Verdict::bad(
                "saved map does not load",
                format!("the save succeeded; loading says: {e}\ninjected {:?}\n--- saved file\n{}", o.injected, trunc(&String::from_utf8_lossy(&bytes), 3000)),
            ),
            Ok(Ok(got)) => {
                if got == want {
                    Verdict::Ok
                } else {
                    Verdict::bad(
                        "saved map differs",
                        format!("injected {:?}\n{}\n--- saved file\n{}", o.injected, diff(&want, &got), trunc(&String::from_utf8_lossy(&bytes), 3000)),
                    )
                }
            },
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.map.shrink().into_iter().map(|map| Case { map, ..c.clone() }).collect();
        if c.old {
            v.push(Case { old: false, ..c.clone() });
        }
        for s in [Sink::ToFile, Sink::Vec] {
            if c.sink != s && c.sink != Sink::ToFile {
                v.push(Case { sink: s, ..c.clone() });
            }
        }
        if let Sink::Custom { max, eintr, fail_at, errno, once, flush_fails } = c.sink {
            if eintr != 0 || max != 1 << 30 {
                v.push(Case { sink: Sink::Custom { max: 1 << 30, eintr: 0, fail_at, errno, once, flush_fails }, ..c.clone() });
            }
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (24000, 400000)
    }
    fn rule(&self) -> String {
        "one case = one generated map, one destination kind and one fault plan: it is saved in one simulated run and, if the save reported success, loaded in a second fault-free run; distinct = distinct system-call traces of cases in which a delivery variation or fault was injected".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dmm-tools Map construction, TGM writer, map reader", "dreammaker constant evaluation and formatting", "Rust std file and buffered I/O"],
            "simulated": ["file system below libc open/write/read/fstat/close", "disk capacity"],
            "stub": [],
        })
    }
}

pub const TOKENS: [&str; 28] = [
    "\"", "\\", "\\\"", "{", "}", "(", ")", "(1,1,1)", "(1,1,0)", "(0,1,1)", "(99999999,1,1)", "(99999999999999999999,1,1)", ",", ";", "=", "\n", "//", "\t", "{\"",
    "\"}", "'", "list(", "\u{fffd}", "aaa", "\r\n", "[", "/*", "1e999",
];
#[allow(dead_code)]
pub fn damages(r: &mut Rng, len: usize) -> Vec<Damage> {
    (0..1 + r.idx(2)).map(|_| Damage::gen(r, len, &TOKENS)).collect()
}
