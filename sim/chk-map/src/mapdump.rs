//! Building, dumping and loading maps through the repository's API.
use dmm_tools::dmm::{Coord3, Key, Map, Prefab};
use simdrv::*;
use simgen::map::MapSpec;

fn key_of(n: u16) -> Key {
    let mut k = Key::default();
    for _ in 0..n {
        k = k.next();
    }
    k
}

pub fn build(s: &MapSpec) -> Result<Map, String> {
    let mut m = Map::with_empty_dictionary(s.dim.0, s.dim.1, s.dim.2);
    let keys: Vec<Key> = s.dict.iter().map(|d| key_of(d.0)).collect();
    for (i, (_, prefabs)) in s.dict.iter().enumerate() {
        let mut v = vec![];
        for p in prefabs {
            let mut f = Prefab::from_path(p.path.clone());
            for (name, text) in &p.vars {
                let c = dreammaker::constants::evaluate_str(Default::default(), text.as_bytes()).map_err(|e| format!("{e}"))?;
                f.vars.insert(name.clone(), c);
            }
            v.push(f);
        }
        m.dictionary.insert(keys[i], v);
    }
    for (g, &c) in m.grid.iter_mut().zip(&s.cells) {
        *g = keys[c];
    }
    m.adjust_key_length();
    Ok(m)
}

/// Everything the properties call "the map", as text.
pub fn dump(m: &Map) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let (x, y, z) = m.dim_xyz();
    writeln!(s, "dim {x} {y} {z}").unwrap();
    for (k, ps) in &m.dictionary {
        writeln!(s, "{}", serde_key(*k)).unwrap();
        for p in ps {
            writeln!(s, "  {:?}", p.path).unwrap();
            let mut vars: Vec<_> = p.vars.iter().map(|(k, v)| format!("    {k:?} = {v:?}")).collect();
            vars.sort();
            for v in vars {
                writeln!(s, "{v}").unwrap();
            }
        }
    }
    for c in 1..=z as i32 {
        for b in 1..=y as i32 {
            write!(s, "row {b} {c}:").unwrap();
            for a in 1..=x as i32 {
                write!(s, " {}", serde_key(m[Coord3::new(a, b, c)])).unwrap();
            }
            s.push('\n');
        }
    }
    s
}
fn serde_key(k: Key) -> String {
    format!("{k:?}")
}

/// Load map bytes in a fault-free run: a dump, or the error text.
pub fn load_back(ex: &mut Exec, bytes: &[u8]) -> Result<Result<String, String>, Verdict> {
    let o = ex.run(
        &Config::default(),
        &["prog".to_string()],
        || simos::add_file("/w/in.dmm", bytes),
        || load_body("/w/in.dmm"),
    );
    if let Some(Verdict::Violation { class, detail }) = judge::bad_end(&o, true) {
        return Err(Verdict::bad(format!("loading back: {class}"), detail));
    }
    if let Some(v) = judge::bad_end(&o, true) {
        return Err(v);
    }
    Ok(loaded(&o))
}

pub fn load_body(path: &str) -> i32 {
    match Map::from_file(std::path::Path::new(path)) {
        Ok(m) => simos::custom("map", dump(&m).into_bytes()),
        Err(e) => simos::custom("err", format!("{e} {:?}", std::error::Error::source(&e).map(|s| s.to_string())).into_bytes()),
    }
    0
}
pub fn loaded(o: &Outcome) -> Result<String, String> {
    match o.get("map") {
        Some(b) => Ok(String::from_utf8(b.to_vec()).unwrap()),
        None => Err(String::from_utf8_lossy(o.get("err").unwrap_or(b"nothing reported")).into_owned()),
    }
}

pub fn diff(want: &str, got: &str) -> String {
    let (w, g): (Vec<&str>, Vec<&str>) = (want.lines().collect(), got.lines().collect());
    for i in 0..w.len().max(g.len()) {
        let (a, b) = (w.get(i), g.get(i));
        if a != b {
            return format!("line {i}:\nexpected {}\nfound    {}", trunc(&format!("{a:?}"), 700), trunc(&format!("{b:?}"), 700));
        }
    }
    "equal".into()
}
