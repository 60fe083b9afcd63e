//! Documented source trees, the repositories they sit in, and the generator's
//! command line.
use serde::{Deserialize, Serialize};
use simdrv::*;
use simgen::dm::{DmSpec, Gen, Style, ROOT};

/// The git repository the tree is in.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Git {
    pub url: String,
    pub branch: String,
    /// 0 the upstream is at HEAD, 1 ahead of it, 2 behind it, 3 there is none,
    /// 4 HEAD is detached, 5 HEAD names an unborn branch, 6 a commit is missing
    pub state: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DocSpec {
    pub spec: DmSpec,
    pub git: Option<Git>,
    pub output: Option<String>,
    /// `--index` on the command line.
    pub index: Option<String>,
    pub absolute: bool,
    pub detect: bool,
    /// Files left in the output directory by an earlier run.
    pub stale: Vec<String>,
    /// Cross-links to nowhere which were added on purpose.
    pub broken: u32,
}

fn sha1(d: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = d.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend((d.len() as u64 * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(c[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, x) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => (b & c | !b & d, 0x5A827999),
                1 => (b ^ c ^ d, 0x6ED9EBA1),
                2 => (b & c | b & d | c & d, 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn object(kind: &str, body: &[u8], store: bool) -> String {
    let mut v = format!("{kind} {}\0", body.len()).into_bytes();
    v.extend_from_slice(body);
    let id = hex(&sha1(&v));
    if store {
        simos::add_file(&format!("{ROOT}/.git/objects/{}/{}", &id[..2], &id[2..]), &simgen::png::zlib_stored(&v));
    }
    id
}

impl Git {
    fn gen(r: &mut Rng) -> Git {
        let url = *r.pick(&[
            "https://github.com/tgstation/tgstation",
            "https://github.com/tgstation/tgstation.git",
            "http://example.com/x/y.git/",
            "https://example.com/a/b/",
            "ssh://git@example.com/a/b.git",
            "git@github.com:tgstation/tgstation.git",
            "host:path/repo",
            "me@host/path",
            "/srv/git/repo.git",
        ]);
        Git { url: url.into(), branch: (*r.pick(&["master", "main", "feature/x", "caf\u{e9}"])).into(), state: if r.chance(1, 2) { 0 } else { r.below(7) as u8 } }
    }
    fn install(&self) {
        let f = |n: &str, s: String| simos::add_file(&format!("{ROOT}/.git/{n}"), s.as_bytes());
        let tree = object("tree", b"", true);
        let who = "A U Thor <a@example.com> 1600000000 +0000";
        let c1 = object("commit", format!("tree {tree}\nauthor {who}\ncommitter {who}\n\none\n").as_bytes(), true);
        let c2 = object("commit", format!("tree {tree}\nparent {c1}\nauthor {who}\ncommitter {who}\n\ntwo\n").as_bytes(), self.state != 6);
        let (head, up) = match self.state {
            1 => (&c1, &c2),
            2 => (&c2, &c1),
            _ => (&c2, &c2),
        };
        f("HEAD", if self.state == 4 { format!("{head}\n") } else { format!("ref: refs/heads/{}\n", self.branch) });
        let mut cfg = format!("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n[remote \"origin\"]\n\turl = {}\n\tfetch = +refs/heads/*:refs/remotes/origin/*\n", self.url);
        if self.state != 3 {
            cfg.push_str(&format!("[branch \"{0}\"]\n\tremote = origin\n\tmerge = refs/heads/{0}\n", self.branch));
        }
        f("config", cfg);
        if self.state != 5 {
            f(&format!("refs/heads/{}", self.branch), format!("{head}\n"));
        }
        f(&format!("refs/remotes/origin/{}", self.branch), format!("{up}\n"));
        simos::add_dir(&format!("{ROOT}/.git/refs/tags"));
        simos::add_dir(&format!("{ROOT}/.git/objects/pack"));
    }
}

const MDS: &[&str] = &["code/README.md", "code/a.md", "code/a.txt", "code/b.md", "code/sub/README.md", "code/sub/readme.txt", "code/sub/c.txt", "code/notes.md", "modular/README.md", "modular/x.md", "modular/deep/y.txt", "docs/guide.md", "docs/README.txt", "README.md", "code/.hidden/z.md", "h.md"];

impl DocSpec {
    pub fn gen(r: &mut Rng, max_chunks: usize) -> DocSpec {
        let st = Style { broken: r.chance(1, 8), docs: true, config: false, assets: false, max_chunks };
        let mut spec = DmSpec::gen(r, st);
        let detect = r.chance(1, 6);
        let mut index = None;
        for m in MDS {
            if r.chance(1, 3) {
                let mut g = Gen { r, st };
                let mut t = g.doc_text();
                if g.r.chance(1, 10) {
                    t.push_str(&"long line of text ".repeat(600));
                }
                spec.other.push((m.to_string(), t.into_bytes()));
            }
        }
        let pages: Vec<String> = spec.other.iter().map(|o| o.0.clone()).collect();
        let page = |r: &mut Rng| if pages.is_empty() { None } else { Some(r.pick(&pages).clone()) };
        if r.chance(1, 4) {
            index = page(r);
        }
        if r.chance(1, 2) {
            let mut s = String::from("[dmdoc]\n");
            if r.chance(1, 2) {
                s.push_str("use_typepath_names = true\n");
            }
            if r.chance(1, 3) {
                let d: Vec<&str> = ["code", "docs", "modular", "code/sub"].into_iter().filter(|d| pages.iter().any(|p| p.starts_with(&format!("{d}/")))).collect();
                s.push_str(&format!("module_directories = {d:?}\n"));
            }
            if r.chance(1, 3) {
                if let Some(p) = page(r) {
                    s.push_str(&format!("index_file = {p:?}\n"));
                }
            }
            spec.other.push(("SpacemanDMM.toml".into(), s.into_bytes()));
        }
        if r.chance(1, 3) {
            spec.files[0].chunks.push("/world/name = \"The \\improper World\"\n".into());
        }
        if r.chance(1, 8) {
            // shared with other environments
            let mut g = Gen { r, st };
            let t = format!("//! Shared module\n{}/datum/shared\n\t/// {}\n\tvar/own = 1\n", g.macro_def(), g.words(3));
            spec.other.push(("../shared/s.dm".into(), t.into_bytes()));
            let f = format!("#include \"{}\"\n", if r.chance(1, 2) { "../shared/s.dm" } else { "..\\shared\\s.dm" });
            spec.files[0].chunks.push(f);
        }
        let mut stale = vec![];
        for s in ["index.html", "dmdoc.css", "code/a.html", "datum.html", "datum/a.html", "old/gone.html"] {
            if r.chance(1, 6) {
                stale.push(s.to_string());
            }
        }
        DocSpec {
            git: if r.chance(1, 3) { Some(Git::gen(r)) } else { None },
            output: match r.below(4) {
                0 => None,
                1 => Some("out".into()),
                2 => Some("out/deep/er".into()),
                _ => Some("/srv/www/docs".into()),
            },
            index,
            absolute: r.chance(1, 4),
            detect,
            stale,
            broken: 0,
            spec,
        }
    }
    pub fn out_dir(&self) -> String {
        let o = self.output.as_deref().unwrap_or("dmdoc");
        if o.starts_with('/') { o.into() } else { format!("{ROOT}/{o}") }
    }
    pub fn install(&self) {
        self.install_without(&[]);
    }
    /// Without some files, or (if flagged) with nothing in them.
    pub fn install_without(&self, gone: &[(String, bool)]) {
        self.spec.install_with(|p, b| {
            if let Some(g) = gone.iter().find(|g| g.0 == p) {
                return g.1.then(Vec::new);
            }
            if p != self.spec.files[0].path || self.broken == 0 {
                return Some(b);
            }
            let mut b = b;
            for i in 0..self.broken {
                b.extend_from_slice(format!("\n/// Something about [/nowhere/at/all/{i}].\n/datum/lost/var/v{i} = {i}\n").as_bytes());
            }
            Some(b)
        });
        if let Some(g) = &self.git {
            g.install();
        }
        for s in &self.stale {
            simos::add_file(&format!("{}/{s}", self.out_dir()), "stale ".repeat(20000).as_bytes());
        }
    }
    pub fn args(&self, dry: bool) -> Vec<String> {
        let mut a = vec!["dmdoc".to_string()];
        if !self.detect {
            a.push("-e".into());
            a.push(if self.absolute { self.spec.dme() } else { self.spec.files[0].path.clone() });
        }
        if let Some(o) = &self.output {
            a.push("--output".into());
            a.push(o.clone());
        }
        if let Some(i) = &self.index {
            a.push("--index".into());
            a.push(i.clone());
        }
        if dry {
            a.push("--dry-run".into());
        }
        a
    }
    pub fn shrink(&self) -> Vec<DocSpec> {
        let mut v: Vec<DocSpec> = self.spec.shrink().into_iter().map(|spec| DocSpec { spec, ..self.clone() }).collect();
        for k in 0..6 {
            let mut c = self.clone();
            match k {
                0 => c.git = None,
                1 => c.output = None,
                2 => c.index = None,
                3 => c.stale.clear(),
                4 => c.absolute = false,
                _ => c.broken /= 2,
            }
            if format!("{c:?}") != format!("{self:?}") {
                v.push(c);
            }
        }
        v
    }
}

pub fn body() -> i32 {
    sim_dmdoc::sim::sim_main();
    0
}

/// The cross-link complaints on standard error.
pub fn complaints(err: &str) -> usize {
    err.lines().filter(|l| l.starts_with("    [")).count()
}

pub fn first_diff(a: &str, b: &str) -> String {
    let (mut x, mut y) = (a.lines(), b.lines());
    let mut n = 0;
    loop {
        n += 1;
        match (x.next(), y.next()) {
            (None, None) => return format!("line {n}: different line ends"),
            (p, q) if p == q => {},
            (p, q) => return format!("line {n}\n- {}\n+ {}", p.unwrap_or("<end>"), q.unwrap_or("<end>")),
        }
    }
}

/// Compare the files two runs left, naming the first which differs.
pub fn diff_files(a: &Outcome, b: &Outcome) -> Option<String> {
    for (n, x) in &a.files {
        match b.files.get(n) {
            None => return Some(format!("{n} is missing")),
            Some(y) if x != y => return Some(format!("{n}: {} and {} bytes\n{}", x.len(), y.len(), first_diff(&String::from_utf8_lossy(x), &String::from_utf8_lossy(y)))),
            _ => {},
        }
    }
    b.files.keys().find(|n| !a.files.contains_key(*n)).map(|n| format!("{n} is extra"))
}
