//! DreamMaker environments: source trees, configuration files and, for the
//! documentation generator, doc comments and Markdown files.
use serde::{Deserialize, Serialize};
use simos::Rng;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DmFile {
    /// Path below the environment's directory.
    pub path: String,
    /// Independent pieces of source text, concatenated.
    pub chunks: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DmSpec {
    /// The first is the environment file.
    pub files: Vec<DmFile>,
    /// Files which are not source (configuration, Markdown, maps, ...).
    pub other: Vec<(String, Vec<u8>)>,
    pub dirs: Vec<String>,
}

pub const ROOT: &str = "/w/proj";

impl DmSpec {
    pub fn dme(&self) -> String {
        format!("{ROOT}/{}", self.files[0].path)
    }
    pub fn text(&self, i: usize) -> Vec<u8> {
        self.files[i].chunks.concat().into_bytes()
    }
    pub fn install(&self) {
        self.install_with(|_, b| Some(b));
    }
    /// Install with every file's contents passed through `f`; `None` leaves it out.
    pub fn install_with(&self, mut f: impl FnMut(&str, Vec<u8>) -> Option<Vec<u8>>) {
        simos::add_dir(ROOT);
        for p in self.paths() {
            simos::add_dir(format!("{ROOT}/{p}").rsplit_once('/').unwrap().0);
        }
        for i in 0..self.files.len() {
            let p = format!("{ROOT}/{}", self.files[i].path);
            if let Some(b) = f(&self.files[i].path, self.text(i)) {
                simos::add_file(&p, &b);
            }
        }
        for (n, b) in &self.other {
            if let Some(b) = f(n, b.clone()) {
                simos::add_file(&format!("{ROOT}/{n}"), &b);
            }
        }
        for d in &self.dirs {
            simos::add_dir(&format!("{ROOT}/{d}"));
        }
        simos::set_cwd(ROOT);
    }
    pub fn paths(&self) -> Vec<String> {
        self.files.iter().map(|f| f.path.clone()).chain(self.other.iter().map(|o| o.0.clone())).collect()
    }
    pub fn shrink(&self) -> Vec<DmSpec> {
        let mut v = vec![];
        for i in 1..self.files.len() {
            let mut s = self.clone();
            s.files.remove(i);
            v.push(s);
        }
        for i in 0..self.other.len() {
            let mut s = self.clone();
            s.other.remove(i);
            v.push(s);
        }
        for i in 0..self.dirs.len() {
            let mut s = self.clone();
            s.dirs.remove(i);
            v.push(s);
        }
        for i in 0..self.files.len() {
            let n = self.files[i].chunks.len();
            let mut k = n / 2;
            while k >= 1 {
                let mut at = 0;
                while at < n {
                    let mut s = self.clone();
                    s.files[i].chunks.drain(at..(at + k).min(n));
                    v.push(s);
                    at += k;
                }
                k /= 2;
            }
            if n == 1 {
                let mut s = self.clone();
                s.files[i].chunks.clear();
                v.push(s);
            }
            for c in 0..n {
                // drop single lines of a chunk
                let lines: Vec<&str> = self.files[i].chunks[c].split_inclusive('\n').collect();
                if lines.len() > 1 && n <= 12 {
                    for l in 0..lines.len() {
                        let mut s = self.clone();
                        s.files[i].chunks[c] = lines.iter().enumerate().filter(|x| x.0 != l).map(|x| *x.1).collect();
                        v.push(s);
                    }
                }
            }
        }
        v
    }
}

/// What to generate.
#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    /// Source which is not well formed.
    pub broken: bool,
    /// Documentation comments, cross-links and Markdown files.
    pub docs: bool,
    pub config: bool,
    /// Maps, skins and scripts among the includes.
    pub assets: bool,
    pub max_chunks: usize,
}

const TYPES: &[&str] = &[
    "/datum", "/datum/a", "/datum/a/b", "/datum/a/b/c", "/datum/d", "/datum/d/e", "/obj/machine", "/obj/machine/door", "/obj/item/tool",
    "/obj", "/mob/living", "/mob/living/cat", "/turf/floor", "/area/zone", "/atom/movable", "/world", "/client",
];
const PROCS: &[&str] = &["p0", "p1", "p2", "p3", "p4", "work", "tick", "update_icon", "New", "Del", "Click", "Destroy"];
const GPROCS: &[&str] = &["gp0", "gp1", "gp2", "helper"];
const VARS: &[&str] = &["v0", "v1", "v2", "v3", "name", "icon_state", "desc", "loc", "other", "items"];
const ARGS: &[&str] = &["x", "y", "k1", "k2", "user"];
const MACROS: &[&str] = &["M0", "M1", "M2", "LIM", "FLAG_A", "FLAG_B", "DEBUG", "TESTING"];
const FMACROS: &[&str] = &["ADD", "CALLP", "QUOTE", "JOIN", "VARI", "DEFPROC"];
const SETTINGS: &[&str] = &[
    "SpacemanDMM_should_not_sleep = 1",
    "SpacemanDMM_should_be_pure = 1",
    "SpacemanDMM_should_call_parent = 1",
    "SpacemanDMM_should_not_call_parent = 1",
    "SpacemanDMM_should_not_override = TRUE",
    "SpacemanDMM_private_proc = TRUE",
    "SpacemanDMM_protected_proc = TRUE",
    "SpacemanDMM_allowed_to_sleep = TRUE",
    "SpacemanDMM_can_be_redefined = TRUE",
    "SpacemanDMM_return_type = /datum/a/b",
    "SpacemanDMM_should_call_parent = FALSE",
    "SpacemanDMM_bogus = 1",
    "waitfor = 0",
    "name = \"verb\"",
    "category = \"cat\"",
    "hidden = 1",
    "src in view(1)",
    "invisibility = 5",
];
const WORDS: &[&str] = &["alpha", "beta", "gamma", "delta", "caf\u{e9}", "\u{65e5}\u{672c}", "x<y>&z", "\u{1f600}", "long_word_here"];

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub st: Style,
}

impl Gen<'_> {
    fn pick(&mut self, s: &[&str]) -> String {
        self.r.pick(s).to_string()
    }
    fn ty(&mut self) -> String {
        self.pick(TYPES)
    }
    pub fn words(&mut self, n: usize) -> String {
        (0..1 + self.r.idx(n)).map(|_| self.r.pick(WORDS).to_string()).collect::<Vec<_>>().join(" ")
    }
    fn num(&mut self) -> String {
        match self.r.below(8) {
            0 => "0".into(),
            1 => "1".into(),
            2 => format!("{}", self.r.below(1000)),
            3 => format!("{}.{}", self.r.below(100), self.r.below(100)),
            4 => "1e3".into(),
            5 => "0xFF".into(),
            6 => format!("{}", self.r.below(1 << 26)),
            _ => "2".into(),
        }
    }
    fn string(&mut self, d: u32) -> String {
        match self.r.below(7) {
            0 => "\"\"".into(),
            1 if d > 0 => format!("\"a [{}] b\"", self.expr(d - 1)),
            2 if d > 0 => format!("\"[{}]\"", self.expr(d - 1)),
            3 => format!("\"\\a {} \\n\\t \\\"q\\\" \\[x\"", self.words(2)),
            4 => format!("{{\"multi\nline {}\n\"}}", self.words(2)),
            5 => format!("@\"raw {} \\ [x]\"", self.pick(WORDS)),
            _ => format!("\"{}\"", self.words(3)),
        }
    }
    fn args(&mut self, d: u32) -> String {
        let n = self.r.idx(4);
        (0..n)
            .map(|_| match self.r.below(5) {
                0 => format!("{} = {}", self.pick(ARGS), self.expr(d)),
                1 => format!("\"{}\" = {}", self.pick(WORDS), self.expr(d)),
                _ => self.expr(d),
            })
            .collect::<Vec<_>>()
            .join(", ")
    }
    fn term(&mut self) -> String {
        match self.r.below(12) {
            0 | 1 => self.num(),
            2 => self.string(0),
            3 | 4 => self.pick(ARGS),
            5 | 6 => self.pick(VARS),
            7 => self.pick(&["src", "usr", "null", "args", "world", "src.other", ".", "global.glob"]),
            8 => self.pick(MACROS),
            9 => self.ty(),
            10 => "'icons/a.dmi'".into(),
            _ => self.pick(&["TRUE", "FALSE", "__LINE__", "__FILE__", "NORTH"]),
        }
    }
    pub fn expr(&mut self, d: u32) -> String {
        if d == 0 || self.r.chance(1, 4) {
            return self.term();
        }
        let d = d - 1;
        match self.r.below(30) {
            0..=4 => {
                let op = self.pick(&["+", "-", "*", "/", "%", "**", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^", "<<", ">>", "<>", "~=", "~!", "in", "%%"]);
                format!("({} {} {})", self.expr(d), op, self.expr(d))
            },
            5 => format!("!{}", self.expr(d)),
            6 => format!("-{}", self.expr(d)),
            7 => format!("({} ? {} : {})", self.expr(d), self.expr(d), self.expr(d)),
            8 => format!("list({})", self.args(d)),
            9 => format!("{}[{}]", self.pick(VARS), self.expr(d)),
            10 => format!("{}({})", self.pick(PROCS), self.args(d)),
            11 => format!("src.{}({})", self.pick(PROCS), self.args(d)),
            12 => format!("other.{}({})", self.pick(PROCS), self.args(d)),
            13 => format!("{}?.{}({})", self.pick(ARGS), self.pick(PROCS), self.args(d)),
            14 => format!("{}({})", self.pick(GPROCS), self.args(d)),
            15 => format!("..({})", self.args(d)),
            16 => format!("new {}({})", self.ty(), self.args(d)),
            17 => format!("istype({}, {})", self.term(), self.ty()),
            18 => self.string(d + 1),
            19 => format!("pick({}, {})", self.expr(d), self.expr(d)),
            20 => format!("(locate({}) in {})", self.ty(), self.term()),
            21 => format!("(input(usr, {}, \"title\") as null|anything in list({}))", self.string(0), self.expr(d)),
            22 => {
                let m = self.pick(FMACROS);
                match &*m {
                    "ADD" => format!("ADD({}, {})", self.expr(d), self.expr(d)),
                    "CALLP" => format!("CALLP({})", self.pick(PROCS)),
                    "QUOTE" => format!("QUOTE({})", self.pick(VARS)),
                    "JOIN" => format!("JOIN(v, {})", self.r.below(4)),
                    "VARI" => format!("VARI({})", self.args(d)),
                    _ => "ADD(1, 2)".into(),
                }
            },
            23 => format!("{}.{}", self.pick(&["src", "user", "other", "x"]), self.pick(VARS)),
            24 => format!("call(src, {})({})", self.string(0), self.args(d)),
            25 => format!("{}/proc/{}", self.ty(), self.pick(PROCS)),
            26 => format!("nameof({})", self.pick(&["src.v0", ".proc/p0", "/datum/a/proc/p1"])),
            27 => format!("{}({})", self.pick(&["rand", "round", "length", "sqrt", "abs", "text2num", "num2text", "matrix", "sound", "icon", "filter", "regex", "sleep", "prob", "range", "view", "islist", "min", "max", "get_step", "image", "url_encode", "file", "animate", "flick"]), self.args(d)),
            28 => format!("initial({})", self.pick(VARS)),
            _ => format!("({})", self.expr(d)),
        }
    }
    fn stmt(&mut self, d: u32, ind: usize, out: &mut String) {
        let t = "\t".repeat(ind);
        let e = 2;
        match self.r.below(if d == 0 { 14 } else { 27 }) {
            0 => out.push_str(&format!("{t}var/{} = {}\n", self.pick(ARGS), self.expr(e))),
            1 => out.push_str(&format!("{t}var{}/{} = {}\n", self.ty(), self.pick(ARGS), self.expr(e))),
            2 => {
                let op = self.pick(&["=", "+=", "-=", "|=", "&=", "*=", ":="]);
                out.push_str(&format!("{t}{} {op} {}\n", self.pick(VARS), self.expr(e)))
            },
            3 => out.push_str(&format!("{t}src.{} = {}\n", self.pick(VARS), self.expr(e))),
            4 => out.push_str(&format!("{t}. = {}\n", self.expr(e))),
            5 => out.push_str(&format!("{t}return {}\n", self.expr(e))),
            6 => out.push_str(&format!("{t}..({})\n", self.args(1))),
            7 => out.push_str(&format!("{t}sleep({})\n", self.num())),
            8 => out.push_str(&format!("{t}{} << {}\n", self.pick(&["world", "user", "usr", "world.log"]), self.string(1))),
            9 => out.push_str(&format!("{t}{}({})\n", self.pick(PROCS), self.args(e))),
            10 => out.push_str(&format!("{t}{}({})\n", self.pick(GPROCS), self.args(e))),
            11 => out.push_str(&format!("{t}other.{}({})\n", self.pick(PROCS), self.args(e))),
            12 => {
                let e = self.expr(e);
                out.push_str(&format!("{t}{}\n", match self.r.below(9) {
                    0 => "del(src)".to_string(),
                    1 => "CRASH(\"x\")".into(),
                    2 => "throw 5".into(),
                    3 => "return".into(),
                    4 => "break".into(),
                    5 => "continue".into(),
                    6 => format!("UNLINT({e})"),
                    7 => format!("ASSERT({e})"),
                    _ => e,
                }))
            },
            13 => out.push_str(&format!("{t}{}; {}++\n", self.expr(1), self.pick(VARS))),
            14 | 15 => {
                out.push_str(&format!("{t}if({})\n", self.expr(e)));
                self.block(d - 1, ind + 1, out);
                if self.r.chance(1, 3) {
                    out.push_str(&format!("{t}else if({})\n", self.expr(e)));
                    self.block(d - 1, ind + 1, out);
                }
                if self.r.chance(1, 3) {
                    out.push_str(&format!("{t}else\n"));
                    self.block(d - 1, ind + 1, out);
                }
            },
            16 => {
                out.push_str(&format!("{t}while({})\n", self.expr(e)));
                self.block(d - 1, ind + 1, out);
            },
            17 => {
                out.push_str(&format!("{t}for(var/{} in {})\n", self.pick(ARGS), self.expr(e)));
                self.block(d - 1, ind + 1, out);
            },
            18 => {
                out.push_str(&format!("{t}for(var/i = 1, i <= {}, i++)\n", self.expr(1)));
                self.block(d - 1, ind + 1, out);
            },
            19 => {
                out.push_str(&format!("{t}for(var{}/m as anything in {})\n", self.ty(), self.expr(1)));
                self.block(d - 1, ind + 1, out);
            },
            20 => {
                out.push_str(&format!("{t}for(var/i in {} to {} step 2)\n", self.num(), self.num()));
                self.block(d - 1, ind + 1, out);
            },
            21 => {
                out.push_str(&format!("{t}switch({})\n", self.pick(&["x", "v0", "rand(1, 10)", "rand(100)"])));
                for _ in 0..1 + self.r.idx(3) {
                    let c = match self.r.below(3) {
                        0 => format!("{} to {}", self.r.below(8), 3 + self.r.below(9)),
                        1 => self.string(0),
                        _ => format!("{}, {}", self.num(), self.num()),
                    };
                    out.push_str(&format!("{t}\tif({c})\n"));
                    self.block(d - 1, ind + 2, out);
                }
                if self.r.chance(1, 2) {
                    out.push_str(&format!("{t}\telse\n"));
                    self.block(d - 1, ind + 2, out);
                }
            },
            22 => {
                out.push_str(&format!("{t}spawn({})\n", self.num()));
                self.block(d - 1, ind + 1, out);
            },
            23 => {
                out.push_str(&format!("{t}do\n"));
                self.block(d - 1, ind + 1, out);
                out.push_str(&format!("{t}while({})\n", self.expr(1)));
            },
            24 => {
                out.push_str(&format!("{t}try\n"));
                self.block(d - 1, ind + 1, out);
                out.push_str(&format!("{t}catch(var/exception/e)\n"));
                self.block(d - 1, ind + 1, out);
            },
            25 => {
                out.push_str(&format!("{t}if({}) {{ {} = {}; return {} }}\n", self.expr(1), self.pick(VARS), self.expr(1), self.expr(1)));
            },
            _ => {
                let l = self.pick(&["lab", "outer"]);
                out.push_str(&format!("{t}{l}:\n"));
                self.block(d - 1, ind + 1, out);
            },
        }
    }
    fn block(&mut self, d: u32, ind: usize, out: &mut String) {
        for _ in 0..1 + self.r.idx(2) {
            self.stmt(d, ind, out);
        }
    }
    fn params(&mut self) -> String {
        let n = self.r.idx(4);
        let mut v = vec![];
        for i in 0..n {
            v.push(match self.r.below(5) {
                0 => format!("{}/{}", self.ty().trim_start_matches('/'), ARGS[i]),
                1 => format!("{} = {}", ARGS[i], self.expr(1)),
                2 => format!("{} as num", ARGS[i]),
                3 => format!("list/{}", ARGS[i]),
                _ => ARGS[i].into(),
            });
        }
        if self.r.chance(1, 12) {
            v.push("...".into());
        }
        v.join(", ")
    }
    fn doc(&mut self) -> String {
        if !self.st.docs && !self.r.chance(1, 6) || self.r.chance(1, 4) {
            return String::new();
        }
        let body = self.doc_text();
        if self.r.chance(1, 2) {
            body.lines().map(|l| format!("/// {l}\n")).collect()
        } else {
            format!("/**\n{}*/\n", body.lines().map(|l| format!(" * {l}\n")).collect::<String>())
        }
    }
    /// Markdown with cross-links, some of them broken.
    pub fn doc_text(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.r.idx(4) {
            let w = self.words(4);
            match self.r.below(11) {
                0 => s.push_str(&format!("# {w}\n")),
                1 => s.push_str(&format!("See [{}] and {w}.\n", self.ty())),
                2 => s.push_str(&format!("[{}/proc/{}] {w}\n", self.ty(), self.pick(PROCS))),
                3 => s.push_str(&format!("[{w}][{}/var/{}]\n", self.ty(), self.pick(VARS))),
                4 => s.push_str(&format!("The [{}] macro, `code {w}`\n", self.pick(MACROS))),
                5 => s.push_str(&format!("[code/{}.dm] {w}\n", self.pick(&["a", "b", "sub/c", "none"]))),
                6 => s.push_str(&format!("* {w}\n* item\n\n")),
                7 => s.push_str(&format!("```\n{w}\n```\n")),
                8 => s.push_str(&format!("{w}\n\n{w}\n")),
                9 => s.push_str(&format!("[text](http://x/{})\n", self.r.below(9))),
                _ => s.push_str(&format!("{w}\n")),
            }
        }
        s
    }
    fn proc_def(&mut self) -> String {
        let mut s = self.doc();
        let global = self.r.chance(1, 7);
        let ty = if global { String::new() } else { self.ty() };
        let name = if global { self.pick(GPROCS) } else { self.pick(PROCS) };
        let decl = if global || self.r.chance(2, 3) { self.pick(&["/proc", "/proc", "/proc", "/verb"]) } else { String::new() };
        let ret = if self.r.chance(1, 10) { format!(" as {}", self.ty()) } else { String::new() };
        s.push_str(&format!("{ty}{decl}/{name}({}){ret}\n", self.params()));
        for _ in 0..self.r.idx(3) {
            if self.r.chance(1, 2) {
                s.push_str(&format!("\tset {}\n", self.pick(SETTINGS)));
            }
        }
        for _ in 0..1 + self.r.idx(6) {
            self.stmt(2, 1, &mut s);
        }
        s.push('\n');
        s
    }
    fn var_line(&mut self) -> String {
        let mods = self.pick(&["", "", "", "static/", "const/", "tmp/", "global/", "SpacemanDMM_final/", "SpacemanDMM_private/", "SpacemanDMM_protected/"]);
        let t = if self.r.chance(1, 3) { self.ty().trim_start_matches('/').to_owned() + "/" } else { String::new() };
        let v = if self.r.chance(2, 3) { format!(" = {}", self.expr(2)) } else { String::new() };
        format!("var/{mods}{t}{}{v}", self.pick(VARS))
    }
    fn type_def(&mut self) -> String {
        let mut s = self.doc();
        s.push_str(&format!("{}\n", self.ty()));
        for _ in 0..1 + self.r.idx(5) {
            let doc = self.doc();
            let doc: String = doc.lines().map(|l| format!("\t{l}\n")).collect();
            match self.r.below(6) {
                0..=2 => s.push_str(&format!("{doc}\t{}\n", self.var_line())),
                3 => s.push_str(&format!("{doc}\t{} = {}\n", self.pick(VARS), self.expr(2))),
                4 => {
                    s.push_str(&format!("{doc}\tproc/{}({})\n", self.pick(PROCS), self.params()));
                    self.block(1, 2, &mut s);
                },
                _ => {
                    s.push_str(&format!("\t{}\n\t\t{} = {}\n", self.pick(&["sub", "sub/deep", "b"]), self.pick(VARS), self.expr(1)));
                },
            }
        }
        s.push('\n');
        s
    }
    pub fn macro_def(&mut self) -> String {
        let doc = self.doc();
        match self.r.below(10) {
            0 => format!("{doc}#define ADD(a, b) ((a) + (b))\n"),
            1 => format!("{doc}#define CALLP(p) src.p(1, k1 = 2)\n"),
            2 => "#define QUOTE(n) #n\n".into(),
            3 => "#define JOIN(a, b) a##b\n".into(),
            4 => "#define VARI(args...) list(args)\n".into(),
            5 => format!("{doc}#define DEFPROC(n, m) /datum/a/proc/n() {{ set SpacemanDMM_should_not_sleep = 1; sleep(1); }} /datum/a/proc/m() {{ set SpacemanDMM_should_not_sleep = 1; sleep(2); }}\n"),
            6 => format!("{doc}#define {} {} //! trailing docs\n", self.pick(MACROS), self.expr(1)),
            7 => format!("#undef {}\n", self.pick(MACROS)),
            8 => format!("#define {} \\\n\t{} + \\\n\t{}\n", self.pick(MACROS), self.num(), self.num()),
            _ => format!("{doc}#define {} {}\n", self.pick(MACROS), self.num()),
        }
    }
    fn ifdef(&mut self) -> String {
        let cond = match self.r.below(6) {
            0 => format!("#ifdef {}", self.pick(MACROS)),
            1 => format!("#ifndef {}", self.pick(MACROS)),
            2 => format!("#if defined({}) && {} > 3", self.pick(MACROS), self.pick(MACROS)),
            3 => "#if DM_VERSION >= 500".into(),
            4 => format!("#if {} == {}", self.pick(MACROS), self.num()),
            _ => format!("#if {}", self.expr(1)),
        };
        let mut s = format!("{cond}\n{}", self.simple());
        if self.r.chance(1, 4) {
            s.push_str(&format!("#elif defined({})\n{}", self.pick(MACROS), self.simple()));
        }
        if self.r.chance(1, 3) {
            s.push_str(&format!("#else\n{}", self.simple()));
        }
        s.push_str("#endif\n");
        s
    }
    fn simple(&mut self) -> String {
        match self.r.below(5) {
            0 | 1 => self.proc_def(),
            2 => self.type_def(),
            3 => self.macro_def(),
            _ => format!("/var/{} = {}\n", self.pick(&["glob", "glob2", "/list/globlist"]), self.expr(2)),
        }
    }
    /// Several procs expanded from one macro, and so all at one location.
    fn same_place(&mut self) -> String {
        let id = self.r.below(1000);
        let set = self.pick(&["SpacemanDMM_should_not_sleep = 1", "SpacemanDMM_should_be_pure = 1"]);
        let n = 2 + self.r.idx(4);
        // different names on one type, one name on several types, or overrides too
        let kind = self.r.below(3);
        let mut s = format!("#define MANY{id}");
        for i in 0..n {
            let bad = self.pick(&["sleep(1)", "world << 1", "src.v0 = 2", "gp0()"]);
            let head = match kind {
                0 => format!("/datum/proc/m{id}_{i}"),
                1 => format!("{}/proc/m{id}", ["/datum/a/b", "/datum/d", "/obj/item/tool", "/mob/living", "/area/zone"][i % 5]),
                _ if i == 0 => format!("/datum/proc/m{id}"),
                _ => format!("{}/m{id}", self.pick(&["/datum", "/datum/a", "/datum/a/b", "/datum/d"])),
            };
            s.push_str(&format!(" {head}() {{ set {set}; {bad}; }}"));
        }
        s.push_str(&format!("\nMANY{id}\n"));
        s
    }
    /// A base proc called with keyword arguments that overrides lack.
    fn kwargs(&mut self) -> String {
        let p = self.pick(&["kw0", "kw1", "kw2"]);
        let mut s = format!("/datum/proc/{p}(x, k1, k2, k3)\n\treturn x\n");
        for t in ["/datum/a", "/datum/a/b", "/datum/d", "/datum/d/e"] {
            if self.r.chance(2, 3) {
                s.push_str(&format!("{t}/{p}({})\n\treturn 1\n", self.pick(&["x", "x, k1", "x, k2", "x, k3, k1", ""])));
            }
        }
        s.push_str(&format!("/proc/use_{p}{}(datum/d)\n", self.r.below(100)));
        for _ in 0..1 + self.r.idx(4) {
            s.push_str(&format!("\td.{p}(1, {} = 2)\n", self.pick(&["k1", "k2", "k3", "zz"])));
        }
        s
    }
    /// Call chains for the sleeping and purity analyses.
    fn chain(&mut self) -> String {
        let mut s = String::new();
        let n = 2 + self.r.idx(4);
        let id = self.r.below(100);
        for i in 0..n {
            let ty = self.pick(&["/datum", "/datum/a", "/datum/a/b", "/datum/d"]);
            s.push_str(&format!("{ty}/proc/ch{id}_{i}()\n"));
            if i == 0 || self.r.chance(1, 4) {
                s.push_str(&format!("\tset {}\n", self.pick(&["SpacemanDMM_should_not_sleep = 1", "SpacemanDMM_should_be_pure = 1"])));
            }
            for j in i + 1..n {
                if self.r.chance(1, 2) {
                    s.push_str(&format!("\t{}ch{id}_{j}()\n", self.pick(&["", "src.", "other.", "spawn(1) "])));
                }
            }
            s.push_str(&format!("\t{}\n", self.pick(&["sleep(1)", "world << \"x\"", "return 1", "v0 = 1", "gp0()", "input(\"x\")"])));
            for sub in ["/datum/a", "/datum/a/b/c", "/datum/d/e"] {
                if self.r.chance(1, 4) && sub.starts_with(&*ty) && sub != ty {
                    s.push_str(&format!("{sub}/ch{id}_{i}()\n\t{}\n", self.pick(&["sleep(2)", "..()", "usr << 1"])));
                }
            }
        }
        s
    }
    /// A function-like macro with any body, and uses of it.
    fn odd_macro(&mut self) -> String {
        let id = self.r.below(20);
        let np = self.r.idx(5);
        let params: Vec<String> = (0..np).map(|i| format!("{}{}", ["a", "b", "c", "d", "e"][i], if i + 1 == np && self.r.chance(1, 3) { "..." } else { "" })).collect();
        let mut body = String::new();
        for _ in 0..self.r.idx(9) {
            let t = match self.r.below(14) {
                0..=3 => self.pick(&["a", "b", "c", "d"]),
                4 => format!("#{}", self.pick(&["a", "b", "c"])),
                5..=7 => "##".into(),
                8 => "#".into(),
                9 => format!("\"{}[{}]{}\"", self.pick(&["", "x"]), self.pick(&["a", "b", "1"]), self.pick(&["", "y [b]"])),
                10 => self.num(),
                11 => self.pick(&["(", ")", ",", "[", "]", "{", "}", ";", "=", "..."]),
                12 => self.pick(FMACROS),
                _ => format!("ODD{}", self.r.below(20)),
            };
            body.push_str(&t);
            if self.r.chance(2, 3) {
                body.push(' ');
            }
        }
        let mut s = format!("#define ODD{id}({}) {body}\n", params.join(", "));
        for _ in 0..1 + self.r.idx(2) {
            let args: Vec<String> = (0..self.r.idx(6))
                .map(|_| match self.r.below(9) {
                    0 => String::new(),
                    1 => self.num(),
                    2 => format!("\"[{}]\"", self.pick(&["x", "ADD(1, 2)", "M0"])),
                    3 => "(1, 2)".into(),
                    4 => format!("ODD{id}(1)"),
                    5 => self.pick(&["#", "##", "\n", "\\\n", "@", "(", "\"", "'a'"]),
                    _ => self.pick(&["a", "x", "src", "M0", "/datum/a", "y z"]),
                })
                .collect();
            let n = self.r.below(1000);
            s.push_str(&format!("/var/odd{n} = {}(ODD{id}({}))\n", self.pick(&["", "list"]), args.join(self.pick(&[", ", ","]).as_str())));
        }
        s
    }
    fn broken(&mut self) -> String {
        match self.r.below(40) {
            34..=37 => self.odd_macro(),
            38 => format!("#{} \"[{}\n{}]\"\n", self.pick(&["error", "warn", "if", "define", "define X", "bogus", "include", "undef", "pragma multiple"]), self.pick(MACROS), self.pick(FMACROS)),
            39 => format!("{}\n{}\n", self.pick(&["#if defined(", "#elif 1", "#if 1 ? 2", "#if \"[", "#ifdef", "#if ADD(1", "#if fexists(\"x"]), self.pick(&["#endif", "]\"", ")\n#endif", ""])),
            0 => "#bogus thing\n".into(),
            1 => "#endif\n".into(),
            2 => "#else\n".into(),
            3 => "#if\n#endif\n".into(),
            4 => "#if 1 +\n#endif\n".into(),
            5 => "#ifdef UNFINISHED\n".into(),
            6 => "/datum/x\n\tvar/y = (1 + \n".into(),
            7 => "/datum/x/proc/q(\n".into(),
            8 => "/proc/q2()\n\tvar/a = \"unterminated [x\n".into(),
            9 => "/proc/q3()\n\treturn \"abc\n".into(),
            10 => "}\n".into(),
            11 => "{ {\n".into(),
            12 => "/datum/x\n    var/spaces\n\tvar/tabs\n".into(),
            13 => "#error deliberate failure, it's \"odd\n".into(),
            14 => "#warn a warning here\n".into(),
            15 => "#define\n".into(),
            16 => "#define F(a, ..., b) a\n".into(),
            17 => "ADD(1\n".into(),
            18 => "/datum/y : x\n".into(),
            19 => "$ ` \u{7f} \u{1}\n".into(),
            20 => "/proc/q4()\n\tvar/a = 1.2.3\n\tvar/b = 0xZZ\n".into(),
            21 => "/proc/q5()\n\tif(1\n\t\treturn\n".into(),
            22 => "/datum/z/var/a = /datum/z::a\n/datum/z/var/b = undefined_thing\n".into(),
            23 => "#define REC REC2 REC2\n#define REC2 REC\n/datum/z/var/c = REC\n".into(),
            24 => "/datum/w/parent_type = /datum/w\n".into(),
            25 => "/datum/w2/parent_type = /nowhere\n".into(),
            26 => "\"]\" ] ) \"[\"]\n".into(),
            27 => "/datum/x/New() /datum/x/Del()\n".into(),
            28 => format!("#include \"{}\"\n", self.pick(&["missing.dm", "noext", "odd.xyz", "..", "", "code"])),
            29 => "#undef NOT_DEFINED\n#define ADD(a, b) redefined\n".into(),
            30 => "/proc/q6()\n\tgoto nowhere\n\tvar/const/x\n\t..\n\tset y = 2\n".into(),
            31 => "proc\n\tthing()\n\tvar\n\t\tq\n".into(),
            32 => "#define S #x\nS\n#define T(x) #y\nT(1)\n#define U(a) a ## 1 ## b\nU(2)\n".into(),
            _ => "/datum/x/var/list/l[5][]\n/datum/x/var/m[] = list(1 = 2, 3)\n".into(),
        }
    }
    pub fn chunk(&mut self) -> String {
        if self.st.broken && self.r.chance(1, 12) {
            return self.broken();
        }
        match self.r.below(26) {
            0..=7 => self.proc_def(),
            8..=12 => self.type_def(),
            13..=15 => self.macro_def(),
            16 | 17 => self.ifdef(),
            18 => self.same_place(),
            19 => self.kwargs(),
            20 | 21 => self.chain(),
            22 => format!("{}/{} = {}\n", self.ty(), self.pick(VARS), self.expr(2)),
            23 => format!("DEFPROC(dp{}, dq{})\n", self.r.below(40), self.r.below(40)),
            24 => format!("/* block {} /* nested */ end */\n// line {}\n", self.words(3), self.words(2)),
            _ => self.simple(),
        }
    }
    fn module_doc(&mut self) -> String {
        if !self.st.docs || self.r.chance(1, 3) {
            return String::new();
        }
        let b = self.doc_text();
        if self.r.chance(1, 2) {
            b.lines().map(|l| format!("//! {l}\n")).collect()
        } else {
            format!("/*!\n{}*/\n", b.lines().map(|l| format!(" * {l}\n")).collect::<String>())
        }
    }
    pub fn config(&mut self) -> String {
        let mut s = String::new();
        if self.r.chance(1, 5) {
            // comments, enough of them to need several reads
            for _ in 0..self.r.idx(200) {
                s.push_str(&format!("# {}\n", self.words(6)));
            }
        }
        if self.r.chance(1, 3) {
            s.push_str(&format!("[display]\nerror_level = \"{}\"\n\n", self.pick(&["error", "warning", "info", "hint"])));
        }
        if self.r.chance(2, 3) {
            s.push_str("[diagnostics]\n");
            for k in ["duplicate_include", "macro_redefined", "must_not_sleep", "must_be_pure", "override_missing_keyword_arg", "must_call_parent", "undefined_var", "field_access_static_type", "redefined_proc"] {
                if self.r.chance(1, 4) {
                    s.push_str(&format!("{k} = \"{}\"\n", self.pick(&["error", "warning", "info", "hint", "disabled"])));
                }
            }
            s.push('\n');
        }
        if self.r.chance(1, 3) {
            s.push_str("[code_standards]\ndisallow_relative_proc_definitions = true\ndisallow_relative_type_definitions = true\n\n");
        }
        s
    }
}

impl DmSpec {
    pub fn gen(r: &mut Rng, st: Style) -> DmSpec {
        let mut g = Gen { r, st };
        let pool = ["code/a.dm", "code/b.dm", "code/sub/c.dm", "code/sub/d.dm", "code/sub/deep/e.dm", "modular/f.dm", "modular/g.dm", "h.dm", "code/_defs.dm"];
        let nf = 1 + g.r.idx(6);
        let mut names: Vec<&str> = vec![];
        while names.len() < nf {
            let n = *g.r.pick(&pool);
            if !names.contains(&n) {
                names.push(n);
            }
        }
        let mut files = vec![DmFile { path: "test.dme".into(), chunks: vec![] }];
        for n in &names {
            files.push(DmFile { path: n.to_string(), chunks: vec![] });
        }
        // standard macros first, mostly
        if g.r.chance(5, 6) {
            for m in [
                "#define ADD(a, b) ((a) + (b))\n",
                "#define CALLP(p) src.p(1, k1 = 2)\n",
                "#define QUOTE(n) #n\n",
                "#define JOIN(a, b) a##b\n",
                "#define VARI(args...) list(args)\n",
                "#define UNLINT(X) SpacemanDMM_unlint(X)\n",
                "#define DEFPROC(n, m) /datum/a/proc/n() { set SpacemanDMM_should_not_sleep = 1; sleep(1); } /datum/a/proc/m() { set SpacemanDMM_should_not_sleep = 1; sleep(2); }\n",
                "#define M0 5\n#define LIM (M0 + 2)\n#define FLAG_A 1\n",
                "/datum/var/datum/other\n/datum/var/v0\n/datum/var/v1 = 2\n/datum/proc/p0(x, y, k1, k2)\n\treturn x\n/datum/proc/p1(x)\n/proc/gp0(x)\n\tsleep(1)\n/proc/gp1()\n\tworld << \"gp1\"\n",
            ] {
                files[0].chunks.push(m.into());
            }
            // what builds are commonly told apart by
            for m in ["DEBUG", "TESTING", "FLAG_B"] {
                if g.r.chance(1, 3) {
                    files[0].chunks.push(format!("#define {m}\n"));
                }
            }
        }
        // every file is included once from the environment or an earlier file
        for i in 1..files.len() {
            let by = if g.r.chance(2, 3) { 0 } else { g.r.idx(i) };
            let target = files[i].path.clone();
            let dir = files[by].path.rsplit_once('/').map_or("", |x| x.0);
            let mut p = match target.strip_prefix(&format!("{dir}/")) {
                Some(rel) if !dir.is_empty() && g.r.chance(1, 2) => rel.to_owned(),
                _ => target.clone(),
            };
            if g.r.chance(1, 3) {
                p = p.replace('/', "\\");
            }
            files[by].chunks.push(format!("#include \"{p}\"\n"));
        }
        for f in files.iter_mut().skip(1) {
            let m = g.module_doc();
            let n = g.r.idx(st.max_chunks.max(1));
            let mut c = vec![];
            if !m.is_empty() {
                c.push(m);
            }
            for k in 0..n {
                let x = g.chunk();
                if k % 2 == 0 {
                    c.push(x);
                } else {
                    f.chunks.insert(0, x);
                }
            }
            c.append(&mut f.chunks);
            if g.r.chance(1, 12) {
                // large enough to need several buffered reads
                let pad = 2000 + g.r.idx(12000);
                let at = g.r.idx(c.len() + 1);
                c.insert(at, format!("// {}\n", "padding ".repeat(pad / 8)));
            }
            if g.r.chance(1, 10) {
                let at = g.r.idx(c.len() + 1);
                c.insert(at, "#pragma multiple\n".into());
            }
            f.chunks = c;
        }
        for _ in 0..g.r.idx(3) {
            let c = g.chunk();
            files[0].chunks.push(c);
        }
        // a file included more than once
        if g.r.chance(1, 6) && files.len() > 1 {
            let t = files[1 + g.r.idx(files.len() - 1)].path.clone();
            let by = g.r.idx(files.len());
            files[by].chunks.push(format!("#include \"{t}\"\n"));
        }
        if g.r.chance(1, 8) {
            let k = g.r.idx(files.len());
            for c in files[k].chunks.iter_mut() {
                *c = c.replace('\n', "\r\n");
            }
        }
        let mut other = vec![];
        if st.assets {
            for a in ["maps/m.dmm", "interface/skin.dmf", "code/s.dms"] {
                if g.r.chance(1, 4) {
                    files[0].chunks.push(format!("#include \"{a}\"\n"));
                    other.push((a.to_string(), b"stuff".to_vec()));
                }
            }
        }
        if st.config && g.r.chance(1, 2) {
            other.push(("SpacemanDMM.toml".into(), g.config().into_bytes()));
        }
        DmSpec { files, other, dirs: vec![] }
    }
}
