//! In-memory file system.
use crate::outcome::Outcome;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Node {
    Dir,
    File(usize),
}

pub struct Inode {
    pub data: Vec<u8>,
    pub dirty: bool,
}

pub struct Fs {
    pub nodes: BTreeMap<String, Node>,
    pub inodes: Vec<Inode>,
    pub cwd: String,
    initial: Vec<String>,
    sealed: bool,
    new_dirs: Vec<String>,
}

impl Fs {
    pub fn new() -> Fs {
        let mut nodes = BTreeMap::new();
        nodes.insert("/".to_owned(), Node::Dir);
        Fs { nodes, inodes: vec![], cwd: "/".into(), initial: vec![], sealed: false, new_dirs: vec![] }
    }

    /// Absolute normalised path; a trailing slash is dropped.
    pub fn norm(&self, p: &str) -> String {
        let full = if p.starts_with('/') { p.to_owned() } else { format!("{}/{}", self.cwd, p) };
        let mut parts: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {},
                ".." => {
                    parts.pop();
                },
                c => parts.push(c),
            }
        }
        let mut s = String::from("/");
        s.push_str(&parts.join("/"));
        s
    }

    pub fn parent(p: &str) -> &str {
        match p.rfind('/') {
            Some(0) | None => "/",
            Some(i) => &p[..i],
        }
    }

    /// errno if some directory component is missing or not a directory
    pub fn check_parents(&self, p: &str) -> Result<(), i32> {
        let par = Fs::parent(p);
        match self.nodes.get(par) {
            Some(Node::Dir) => Ok(()),
            Some(Node::File(_)) => Err(libc::ENOTDIR),
            None => {
                let mut q = par;
                while q != "/" {
                    if let Some(Node::File(_)) = self.nodes.get(q) {
                        return Err(libc::ENOTDIR);
                    }
                    q = Fs::parent(q);
                }
                Err(libc::ENOENT)
            },
        }
    }

    pub fn lookup(&self, p: &str) -> Result<Node, i32> {
        match self.nodes.get(p) {
            Some(n) => Ok(n.clone()),
            None => {
                if p != "/" {
                    self.check_parents(p)?;
                }
                Err(libc::ENOENT)
            },
        }
    }

    pub fn mkdirs(&mut self, p: &str) {
        let p = self.norm(p);
        let mut q = p.as_str();
        let mut todo = vec![];
        while q != "/" && !self.nodes.contains_key(q) {
            todo.push(q.to_owned());
            q = Fs::parent(q);
        }
        for t in todo {
            self.insert_dir(t);
        }
    }
    pub fn insert_dir(&mut self, p: String) {
        if self.sealed {
            self.new_dirs.push(p.clone());
        }
        self.nodes.insert(p, Node::Dir);
    }

    pub fn create(&mut self, p: &str) -> usize {
        let ino = self.inodes.len();
        self.inodes.push(Inode { data: vec![], dirty: self.sealed });
        self.nodes.insert(p.to_owned(), Node::File(ino));
        ino
    }

    pub fn add_file(&mut self, p: &str, data: &[u8]) {
        let p = self.norm(p);
        let par = Fs::parent(&p).to_owned();
        self.mkdirs(&par);
        let ino = self.create(&p);
        self.inodes[ino].data = data.to_vec();
    }

    pub fn read_file(&self, p: &str) -> Option<Vec<u8>> {
        match self.nodes.get(&self.norm(p)) {
            Some(Node::File(i)) => Some(self.inodes[*i].data.clone()),
            _ => None,
        }
    }

    pub fn list(&self, dir: &str) -> Vec<(String, Node)> {
        let prefix = if dir == "/" { "/".to_owned() } else { format!("{dir}/") };
        let mut v = vec![];
        for (k, n) in self.nodes.range(prefix.clone()..) {
            if !k.starts_with(&prefix) {
                break;
            }
            let rest = &k[prefix.len()..];
            if !rest.is_empty() && !rest.contains('/') {
                v.push((rest.to_owned(), n.clone()));
            }
        }
        v
    }

    pub fn seal(&mut self) {
        self.sealed = true;
        self.initial = self.nodes.iter().filter(|(_, n)| matches!(n, Node::File(_))).map(|(k, _)| k.clone()).collect();
        for i in &mut self.inodes {
            i.dirty = false;
        }
    }

    pub fn dump(&mut self, out: &mut Outcome) {
        for (k, n) in &self.nodes {
            if let Node::File(i) = n {
                if self.inodes[*i].dirty {
                    out.files.insert(k.clone(), self.inodes[*i].data.clone());
                }
            }
        }
        for k in &self.initial {
            if !self.nodes.contains_key(k) {
                out.removed.push(k.clone());
            }
        }
        out.new_dirs = std::mem::take(&mut self.new_dirs);
    }
}
