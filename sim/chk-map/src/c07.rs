//! C07: a successful image save has stored a complete image.
use crate::c03::image_bytes;
use dmm_tools::dmi::{Image, Rgba8};
use serde::{Deserialize, Serialize};
use simdrv::*;
use std::io::{self, Write};
use std::path::Path;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Sink {
    ToFile,
    File,
    Buf(usize),
    Bytes,
    Custom { max: usize, eintr: u32, fail_at: Option<u64>, errno: i32, once: bool },
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    w: u32,
    h: u32,
    px: u64,
    /// 0: noise, 1: one colour, 2: mostly transparent.
    kind: u8,
    sink: Sink,
    old: bool,
    cfg: Config,
}
pub struct C07;
const DEST: &str = "/w/out.png";

fn pixels(c: &Case) -> Vec<u8> {
    let mut r = Rng::new(c.px);
    let n = (c.w * c.h * 4) as usize;
    match c.kind {
        0 => (0..n).map(|_| r.next() as u8).collect(),
        1 => {
            let p = (r.next() as u32).to_le_bytes();
            (0..n).map(|i| p[i % 4]).collect()
        },
        _ => (0..n).map(|_| if r.chance(1, 9) { r.next() as u8 } else { 0 }).collect(),
    }
}

struct Custom {
    out: Vec<u8>,
    max: usize,
    eintr: u32,
    calls: u32,
    fail_at: Option<u64>,
    errno: i32,
    once: bool,
    fired: u32,
}
impl Write for &mut Custom {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.eintr > 0 && self.calls % self.eintr == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.max);
        if let Some(f) = self.fail_at {
            let left = f.saturating_sub(self.out.len() as u64) as usize;
            if left == 0 && (self.fired == 0 || !self.once) {
                self.fired += 1;
                simos::note_injected("custom_writer_error");
                return if self.errno == 0 { Ok(0) } else { Err(io::Error::from_raw_os_error(self.errno)) };
            }
            if left > 0 {
                n = n.min(left);
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Check for C07 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn gen(&self, r: &mut Rng, _i: u64, _t: bool) -> Case {
        let (w, h) = *r.pick(&[(1u32, 1u32), (1, 40), (32, 32), (7, 3), (64, 32), (96, 96), (200, 60)]);
        let kind = r.below(3) as u8;
        let approx = match kind {
            0 => (w * h * 4 + h) as u64 + 80,
            1 => 120,
            _ => (w * h) as u64 + 100,
        };
        let place = |r: &mut Rng| match r.below(4) {
            0 => r.below(approx),
            1 => approx.saturating_sub(1 + r.below(30)),
            2 => r.below(70),
            _ => approx.saturating_sub(r.below(approx + 1) / 4),
        };
        let mut cfg = Config::default();
        gen::benign_delivery(r, &mut cfg);
        let sink = match r.below(8) {
            0 | 1 | 2 => Sink::ToFile,
            3 => Sink::File,
            4 => Sink::Buf(*r.pick(&[1usize, 64, 8192, 100000])),
            5 => Sink::Bytes,
            _ => Sink::Custom {
                max: *r.pick(&[1usize, 3, 100, 1 << 30]),
                eintr: *r.pick(&[0u32, 0, 2, 5]),
                fail_at: if r.chance(2, 3) { Some(place(r)) } else { None },
                errno: *r.pick(&[0, libc::ENOSPC, libc::EIO]),
                once: r.chance(1, 4),
            },
        };
        match r.below(6) {
            0 | 1 | 2 => cfg.disk_free = Some(place(r)),
            3 => cfg.faults.push(Fault {
                site: Site::Write,
                path: String::new(),
                nth: r.below(20),
                times: *r.pick(&[0u64, 1, 1]),
                act: Act::Errno(*r.pick(&gen::WRITE_ERRNOS)),
            }),
            4 if r.chance(1, 3) => cfg.faults.push(Fault { site: Site::Open, path: DEST.into(), nth: 0, times: 0, act: Act::Errno(*r.pick(&gen::OPEN_ERRNOS)) }),
            _ => {},
        }
        Case { w, h, px: r.next(), kind, sink, old: r.chance(1, 4), cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let want = pixels(c);
        let o = ex.run(
            &c.cfg,
            &["prog".to_string()],
            || {
                simos::add_dir("/w");
                if c.old {
                    simos::add_file(DEST, &[7; 60000]);
                }
            },
            || {
                let mut im = Image::new_rgba(c.w, c.h);
                for (d, s) in im.data.iter_mut().zip(want.chunks(4)) {
                    *d = Rgba8::new(s[0], s[1], s[2], s[3]);
                }
                let d = Path::new(DEST);
                let r = match &c.sink {
                    Sink::ToFile => im.to_file(d),
                    Sink::File => std::fs::File::create(d).and_then(|f| im.to_write(f)),
                    Sink::Buf(n) => std::fs::File::create(d).and_then(|f| {
                        let mut b = io::BufWriter::with_capacity(*n, f);
                        im.to_write(&mut b)?;
                        b.flush()
                    }),
                    Sink::Bytes => im.to_bytes().map(|b| simos::custom("bytes", b)),
                    Sink::Custom { max, eintr, fail_at, errno, once } => {
                        let mut w = Custom { out: vec![], max: *max, eintr: *eintr, calls: 0, fail_at: *fail_at, errno: *errno, once: *once, fired: 0 };
                        let r = im.to_write(&mut w);
                        if w.fired > 0 {
                            simos::event("custom fault".into());
                        }
                        simos::custom("bytes", w.out);
                        r
                    },
                };
                simos::event(if r.is_ok() { "save ok".into() } else { format!("save err {r:?}") });
                0
            },
        );
        if let Some(v) = judge::bad_end(&o, true) {
            return v;
        }
        let refused = o.injected.keys().any(|k| k.contains("ENOSPC")) || o.fault_fired.iter().any(|n| *n > 0) || o.events.iter().any(|e| e == "custom fault");
        if !o.events.iter().any(|e| e == "save ok") {
            ex.probe("save_reported_error");
            return if refused { Verdict::Ok } else { Verdict::bad("error without a refusal", format!("{:?} {:?}", o.events, o.injected)) };
        }
        ex.probe(if refused { "save_ok_despite_refusal" } else { "save_ok" });
        let bytes = match c.sink {
            Sink::Bytes | Sink::Custom { .. } => o.get("bytes").map(|b| b.to_vec()),
            _ => o.files.get(DEST).cloned(),
        };
        let Some(bytes) = bytes else {
            return Verdict::bad("no destination file", format!("{:?}", o.injected));
        };
        if let Err(e) = simgen::png::walk(&bytes) {
            return Verdict::bad("incomplete image", format!("the save succeeded but the file is not a complete PNG: {e}; injected {:?}", o.injected));
        }
        let (px, e) = decode(ex, &bytes);
        if e.is_some() || px != Some((c.w, c.h, want)) {
            return Verdict::bad("image differs", format!("{e:?}; injected {:?}", o.injected));
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for (w, h) in [(1, 1), (2, 2), (8, 8), (c.w / 2, c.h), (c.w, c.h / 2)] {
            if w > 0 && h > 0 && (w, h) != (c.w, c.h) && w <= c.w && h <= c.h {
                v.push(Case { w, h, ..c.clone() });
            }
        }
        if c.old {
            v.push(Case { old: false, ..c.clone() });
        }
        if c.kind != 1 {
            v.push(Case { kind: 1, ..c.clone() });
        }
        if c.sink != Sink::ToFile {
            v.push(Case { sink: Sink::ToFile, ..c.clone() });
        }
        if let Some(n) = c.cfg.disk_free {
            for m in [n / 2, n.saturating_sub(1)] {
                if m != n {
                    let mut d = c.clone();
                    d.cfg.disk_free = Some(m);
                    v.push(d);
                }
            }
        }
        v
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (30000, 500000)
    }
    fn rule(&self) -> String {
        "one case = one image, one destination kind and one fault plan: saved in one simulated run and, if the save reported success, checked chunk by chunk and decoded; distinct = distinct system-call traces of cases with an injected delivery variation or fault".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["dmm-tools image writer", "png encoder", "Rust std file I/O"],
            "simulated": ["file system below libc open/write", "disk capacity"],
            "stub": ["chunk-level PNG validator (independent); lodepng decodes the pixels"],
        })
    }
}

/// Decode an image in a fault-free run.
pub fn decode(ex: &mut Exec, bytes: &[u8]) -> (Option<(u32, u32, Vec<u8>)>, Option<String>) {
    let o = ex.run(&Config::default(), &["prog".to_string()], || (), || {
        match Image::from_bytes(bytes) {
            Ok(i) => {
                simos::custom("px", image_bytes(&i));
                simos::custom("w", i.width.to_le_bytes().to_vec());
                simos::custom("h", i.height.to_le_bytes().to_vec());
            },
            Err(e) => simos::event(format!("{e}")),
        }
        0
    });
    match o.get("px") {
        Some(p) => {
            let n = |k: &str| u32::from_le_bytes(o.get(k).unwrap().try_into().unwrap());
            (Some((n("w"), n("h"), p.to_vec())), None)
        },
        None => (None, Some(format!("{:?} {:?}", o.end, o.events))),
    }
}
