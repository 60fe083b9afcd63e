//! A minimal PNG writer and an icon-sheet generator.
use serde::{Deserialize, Serialize};
use simos::Rng;

pub fn crc(data: &[&[u8]]) -> u32 {
    let mut c = !0u32;
    for d in data {
        for &b in *d {
            c ^= b as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
        }
    }
    !c
}
fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &x in d {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
pub fn zlib_stored(d: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x01];
    let mut chunks = d.chunks(65535).peekable();
    if d.is_empty() {
        v.extend([1, 0, 0, 0xff, 0xff]);
    }
    while let Some(c) = chunks.next() {
        v.push(chunks.peek().is_none() as u8);
        v.extend((c.len() as u16).to_le_bytes());
        v.extend((!(c.len() as u16)).to_le_bytes());
        v.extend(c);
    }
    v.extend(adler(d).to_be_bytes());
    v
}
fn chunk(out: &mut Vec<u8>, kind: &[u8; 4], data: &[u8]) {
    out.extend((data.len() as u32).to_be_bytes());
    out.extend(kind);
    out.extend(data);
    out.extend(crc(&[kind, data]).to_be_bytes());
}

/// Split a PNG into chunks, checking structure; `Err` says what is wrong.
pub fn walk(b: &[u8]) -> Result<Vec<([u8; 4], Vec<u8>)>, String> {
    if b.len() < 8 || &b[..8] != b"\x89PNG\r\n\x1a\n" {
        return Err(format!("no signature in {} bytes", b.len()));
    }
    let mut p = 8;
    let mut v = vec![];
    while p < b.len() {
        if p + 12 > b.len() {
            return Err(format!("torn chunk header at {p} of {}", b.len()));
        }
        let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        if p + 12 + n > b.len() {
            return Err(format!("torn chunk at {p} of {}", b.len()));
        }
        let kind: [u8; 4] = b[p + 4..p + 8].try_into().unwrap();
        let data = &b[p + 8..p + 8 + n];
        let c = u32::from_be_bytes(b[p + 8 + n..p + 12 + n].try_into().unwrap());
        if c != crc(&[&kind, data]) {
            return Err(format!("bad checksum at {p}"));
        }
        v.push((kind, data.to_vec()));
        p += 12 + n;
    }
    match v.last() {
        Some((k, _)) if k == b"IEND" => Ok(v),
        _ => Err(format!("no end chunk in {} bytes", b.len())),
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Color {
    Rgba,
    Rgb,
    Gray,
    Palette,
}

pub enum Text<'a> {
    None,
    Plain(&'a str),
    Compressed(&'a str),
}

/// Pixels are RGBA; they are first made representable in `color`.
pub fn encode(w: u32, h: u32, px: &[[u8; 4]], color: Color, text: Text, extra_after: bool) -> Vec<u8> {
    let mut out = b"\x89PNG\r\n\x1a\n".to_vec();
    let ct = match color {
        Color::Rgba => 6,
        Color::Rgb => 2,
        Color::Gray => 0,
        Color::Palette => 3,
    };
    let mut ih = vec![];
    ih.extend(w.to_be_bytes());
    ih.extend(h.to_be_bytes());
    ih.extend([8, ct, 0, 0, 0]);
    chunk(&mut out, b"IHDR", &ih);
    let put_text = |out: &mut Vec<u8>| match text {
        Text::None => {},
        Text::Plain(t) => {
            let mut d = b"Description\0".to_vec();
            d.extend(t.as_bytes());
            chunk(out, b"tEXt", &d);
        },
        Text::Compressed(t) => {
            let mut d = b"Description\0\0".to_vec();
            d.extend(zlib_stored(t.as_bytes()));
            chunk(out, b"zTXt", &d);
        },
    };
    if color == Color::Palette {
        let mut p = vec![];
        let mut t = vec![];
        for c in palette() {
            p.extend(&c[..3]);
            t.push(c[3]);
        }
        chunk(&mut out, b"PLTE", &p);
        chunk(&mut out, b"tRNS", &t);
    }
    if !extra_after {
        put_text(&mut out);
    }
    let mut raw = vec![];
    for y in 0..h as usize {
        raw.push(0);
        for x in 0..w as usize {
            let c = px[y * w as usize + x];
            match color {
                Color::Rgba => raw.extend(c),
                Color::Rgb => raw.extend(&c[..3]),
                Color::Gray => raw.push(c[0]),
                Color::Palette => raw.push(palette().iter().position(|p| *p == c).unwrap() as u8),
            }
        }
    }
    let z = zlib_stored(&raw);
    let mid = z.len() / 2;
    chunk(&mut out, b"IDAT", &z[..mid]);
    chunk(&mut out, b"IDAT", &z[mid..]);
    if extra_after {
        put_text(&mut out);
    }
    chunk(&mut out, b"IEND", &[]);
    out
}

pub fn palette() -> [[u8; 4]; 5] {
    [[0, 0, 0, 0], [255, 0, 0, 255], [0, 200, 10, 128], [9, 9, 250, 255], [255, 255, 255, 255]]
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct StateSpec {
    pub name: String,
    pub dirs: u8,
    /// Number of frames, or explicit delays.
    pub frames: usize,
    pub delays: Option<Vec<String>>,
    pub rewind: bool,
    pub loop_: u32,
    pub movement: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct IconSpec {
    /// Size of one sprite.
    pub w: u32,
    pub h: u32,
    /// Sprites per row in the sheet.
    pub cols: u32,
    pub rows: u32,
    pub states: Vec<StateSpec>,
    pub color: Color,
    pub text: u8,
    pub after: bool,
    pub px_seed: u64,
}

impl IconSpec {
    pub fn gen(r: &mut Rng, w: u32, h: u32) -> IconSpec {
        let n = r.idx(5);
        let mut states = vec![];
        for _ in 0..n {
            let frames = 1 + r.idx(3);
            states.push(StateSpec {
                name: r.pick(&["", "a", "b", "floor", "door open", "é", "a"]).to_string(),
                dirs: *r.pick(&[1u8, 1, 4, 8]),
                frames,
                delays: if frames > 1 && r.chance(1, 2) {
                    Some((0..frames).map(|_| r.pick(&["1", "2.5", "10", "0.5"]).to_string()).collect())
                } else {
                    None
                },
                rewind: r.chance(1, 5),
                loop_: r.below(3) as u32,
                movement: r.chance(1, 6),
            });
        }
        let sprites: usize = states.iter().map(|s| s.dirs as usize * s.frames).sum::<usize>().max(1);
        let cols = 1 + r.below(4) as u32;
        let rows = (sprites as u32).div_ceil(cols);
        IconSpec {
            w,
            h,
            cols,
            rows,
            states,
            color: *r.pick(&[Color::Rgba, Color::Rgba, Color::Rgb, Color::Gray, Color::Palette]),
            text: r.below(3) as u8,
            after: r.chance(1, 5),
            px_seed: r.next(),
        }
    }
    pub fn size(&self) -> (u32, u32) {
        (self.w * self.cols, self.h * self.rows)
    }
    pub fn pixels(&self) -> Vec<[u8; 4]> {
        let (w, h) = self.size();
        let mut r = Rng::new(self.px_seed);
        let pal = palette();
        (0..w * h)
            .map(|_| {
                let v = r.next();
                match self.color {
                    Color::Rgba => {
                        if v & 7 == 0 {
                            [0, 0, 0, 0]
                        } else {
                            (v as u32 >> 3).to_le_bytes()
                        }
                    },
                    Color::Rgb => [v as u8, (v >> 8) as u8, (v >> 16) as u8, 255],
                    Color::Gray => [v as u8, v as u8, v as u8, 255],
                    Color::Palette => pal[(v % 5) as usize],
                }
            })
            .collect()
    }
    pub fn description(&self) -> String {
        let mut s = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {}\n\theight = {}\n", self.w, self.h);
        for st in &self.states {
            s.push_str(&format!("state = \"{}\"\n\tdirs = {}\n\tframes = {}\n", st.name, st.dirs, st.frames));
            if let Some(d) = &st.delays {
                s.push_str(&format!("\tdelay = {}\n", d.join(",")));
            }
            if st.loop_ > 0 {
                s.push_str(&format!("\tloop = {}\n", st.loop_));
            }
            if st.rewind {
                s.push_str("\trewind = 1\n");
            }
            if st.movement {
                s.push_str("\tmovement = 1\n");
            }
        }
        s.push_str("# END DMI\n");
        s
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.bytes_with(&self.description())
    }
    pub fn bytes_with(&self, d: &str) -> Vec<u8> {
        let (w, h) = self.size();
        let t = match self.text {
            0 if self.states.is_empty() => Text::None,
            1 => Text::Plain(d),
            _ => Text::Compressed(d),
        };
        encode(w, h, &self.pixels(), self.color, t, self.after)
    }
    pub fn has_text(&self) -> bool {
        !(self.text == 0 && self.states.is_empty())
    }
    pub fn shrink(&self) -> Vec<IconSpec> {
        let mut v = vec![];
        for i in 0..self.states.len() {
            let mut s = self.clone();
            s.states.remove(i);
            v.push(s);
        }
        if self.color != Color::Rgba {
            v.push(IconSpec { color: Color::Rgba, ..self.clone() });
        }
        if self.rows > 1 && self.states.is_empty() {
            v.push(IconSpec { rows: 1, cols: 1, ..self.clone() });
        }
        v
    }
}
