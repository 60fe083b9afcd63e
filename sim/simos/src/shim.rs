//! The intercepted libc entry points.
use crate::fsim::{Fs, Node};
use crate::netsim;
use crate::raw::{self, ret, sys3, sys6};
use crate::world::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::ffi::CStr;

unsafe fn err(e: i32) -> c_int {
    *libc::__errno_location() = e;
    -1
}
unsafe fn res(r: isize) -> isize {
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn resi(r: Result<(), i32>) -> c_int {
    match r {
        Ok(()) => 0,
        Err(e) => err(e),
    }
}
unsafe fn cpath(p: *const c_char) -> String {
    String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).into_owned()
}
unsafe fn real(name: &'static [u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char)
}

// --- files ------------------------------------------------------------------

unsafe fn do_open(path: *const c_char, flags: c_int) -> c_int {
    let p = cpath(path);
    point();
    if p == "/dev/null" {
        return netsim::alloc_fd(Fd::Null);
    }
    let w_ = w();
    let p = w_.fs.norm(&p);
    trace(1, p.len() as u64);
    if let Some(Act::Errno(e)) = fault(Site::Open, &p) {
        return err(e);
    }
    let w_ = w();
    let write = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let ino = match w_.fs.lookup(&p) {
        Ok(Node::Dir) => {
            if write {
                return err(libc::EISDIR);
            }
            // reading from it fails with EISDIR; model as an empty file
            return netsim::alloc_fd(Fd::File { ino: usize::MAX, pos: 0, append: false, path: p });
        },
        Ok(Node::File(i)) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return err(libc::EEXIST);
            }
            i
        },
        Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
            if let Err(e) = w_.fs.check_parents(&p) {
                return err(e);
            }
            w_.fs.create(&p)
        },
        Err(e) => return err(e),
    };
    if write && flags & libc::O_TRUNC != 0 {
        let n = &mut w_.fs.inodes[ino];
        n.data.clear();
        n.dirty = true;
    }
    netsim::alloc_fd(Fd::File { ino, pos: 0, append: flags & libc::O_APPEND != 0, path: p })
}

macro_rules! opens {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
            if active() { return do_open(path, flags); }
            ret(sys6(257, -100, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
        }
    )* };
}
opens!(open open64);

#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if active() {
        return do_open(path, flags);
    }
    ret(sys6(257, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat(dir, path, flags, mode)
}

fn is_dir_fd(fd: c_int) -> bool {
    matches!(w().fds.get(fd as usize), Some(Some(Fd::File { ino: usize::MAX, .. })))
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if active() {
        if is_dir_fd(fd) {
            return err(libc::EISDIR) as ssize_t;
        }
        return res(netsim::read_fd(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n)));
    }
    ret(sys3(0, fd as i64, buf as i64, n as i64)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if active() {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(sys3(19, fd as i64, iov as i64, cnt as i64)) as ssize_t
}

unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    let saved = match w().fds.get_mut(fd as usize) {
        Some(Some(Fd::File { pos, .. })) => {
            let s = *pos;
            *pos = off as u64;
            s
        },
        _ => return err(libc::ESPIPE) as ssize_t,
    };
    let r = netsim::read_fd(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n));
    if let Some(Some(Fd::File { pos, .. })) = w().fds.get_mut(fd as usize) {
        *pos = saved;
    }
    res(r)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if active() {
        return do_pread(fd, buf, n, off);
    }
    ret(sys6(17, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    pread64(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if active() {
        return res(netsim::write_fd(fd, std::slice::from_raw_parts(buf as *const u8, n)));
    }
    ret(sys3(1, fd as i64, buf as i64, n as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if active() {
        // gather, so that one call stays one transfer
        let mut all = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return res(netsim::write_fd(fd, &all));
    }
    ret(sys3(20, fd as i64, iov as i64, cnt as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    if active() {
        let saved = match w().fds.get_mut(fd as usize) {
            Some(Some(Fd::File { pos, .. })) => {
                let s = *pos;
                *pos = off as u64;
                s
            },
            _ => return err(libc::ESPIPE) as ssize_t,
        };
        let r = netsim::write_fd(fd, std::slice::from_raw_parts(buf as *const u8, n));
        if let Some(Some(Fd::File { pos, .. })) = w().fds.get_mut(fd as usize) {
            *pos = saved;
        }
        return res(r);
    }
    ret(sys6(18, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        point();
        return res(netsim::close_fd(fd)) as c_int;
    }
    ret(sys3(3, fd as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if active() {
        let w = w();
        if let Some(Some(Fd::File { ino, pos, .. })) = w.fds.get_mut(fd as usize) {
            let len = if *ino == usize::MAX { 0 } else { w.fs.inodes[*ino].data.len() as i64 };
            let base = match whence {
                0 => 0,
                1 => *pos as i64,
                _ => len,
            };
            if base + off < 0 {
                return err(libc::EINVAL) as i64;
            }
            *pos = (base + off) as u64;
            return *pos as i64;
        }
        return err(libc::ESPIPE) as i64;
    }
    ret(sys3(8, fd as i64, off, whence as i64))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}

unsafe fn fill_stat(st: *mut libc::stat64, n: &Node) {
    std::ptr::write_bytes(st, 0, 1);
    let s = &mut *st;
    s.st_nlink = 1;
    s.st_blksize = 4096;
    s.st_dev = 1;
    s.st_mtime = w().cfg.epoch as i64;
    match n {
        Node::Dir => {
            s.st_mode = libc::S_IFDIR | 0o755;
            s.st_ino = 1;
        },
        Node::File(usize::MAX) => {
            s.st_mode = libc::S_IFDIR | 0o755;
            s.st_ino = 1;
        },
        Node::File(i) => {
            s.st_mode = libc::S_IFREG | 0o644;
            s.st_ino = *i as u64 + 2;
            let size = w().fs.inodes[*i].data.len() as u64;
            s.st_size = size as i64;
            if w().cfg.stat_lies > 0 && w().io_rng.below(1000) < w().cfg.stat_lies as u64 {
                let told = match w().io_rng.below(3) {
                    0 => 0,
                    1 => w().io_rng.below(size + 1),
                    _ => size + w().io_rng.below(size + 100),
                };
                s.st_size = told as i64;
                crate::world::count("stat:size");
            }
        },
    }
}

unsafe fn path_node(path: *const c_char) -> Result<Node, i32> {
    point();
    let raw = cpath(path);
    if raw.is_empty() {
        return Err(libc::ENOENT);
    }
    let p = w().fs.norm(&raw);
    trace(2, p.len() as u64);
    if let Some(Act::Errno(e)) = fault(Site::Stat, &p) {
        return Err(e);
    }
    w().fs.lookup(&p)
}

unsafe fn do_stat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match path_node(path) {
        Ok(n) => {
            fill_stat(st, &n);
            0
        },
        Err(e) => err(e),
    }
}
unsafe fn do_fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    match w().fds.get(fd as usize).and_then(|f| f.clone()) {
        Some(Fd::File { ino, .. }) => {
            fill_stat(st, &Node::File(ino));
            0
        },
        Some(_) => {
            std::ptr::write_bytes(st, 0, 1);
            (*st).st_mode = libc::S_IFIFO | 0o600;
            0
        },
        None => err(libc::EBADF),
    }
}
macro_rules! stats {
    ($($n:ident $flag:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(path: *const c_char, st: *mut libc::stat64) -> c_int {
            if active() { return do_stat(path, st); }
            ret(sys6(262, -100, path as i64, st as i64, $flag, 0, 0)) as c_int
        }
    )* };
}
stats!(stat 0; stat64 0; lstat 0x100; lstat64 0x100;);
macro_rules! fstats {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(fd: c_int, st: *mut libc::stat64) -> c_int {
            if active() { return do_fstat(fd, st); }
            ret(sys3(5, fd as i64, st as i64, 0)) as c_int
        }
    )* };
}
fstats!(fstat fstat64);
macro_rules! fstatats {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(dir: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
            if active() { return do_stat(path, st); }
            ret(sys6(262, dir as i64, path as i64, st as i64, flags as i64, 0, 0)) as c_int
        }
    )* };
}
fstatats!(fstatat fstatat64);

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    if active() {
        if path.is_null() {
            // std probes for availability like this
            return err(libc::EFAULT);
        }
        let mut s: libc::stat64 = std::mem::zeroed();
        let r = if *path == 0 && flags & 0x1000 != 0 { do_fstat(dir, &mut s) } else { do_stat(path, &mut s) };
        if r != 0 {
            return r;
        }
        std::ptr::write_bytes(st, 0, 1);
        let x = &mut *st;
        x.stx_mask = 0x7ff;
        x.stx_mode = s.st_mode as u16;
        x.stx_size = s.st_size as u64;
        x.stx_ino = s.st_ino;
        x.stx_nlink = 1;
        x.stx_blksize = 4096;
        x.stx_mtime.tv_sec = s.st_mtime;
        return 0;
    }
    ret(sys6(332, dir as i64, path as i64, flags as i64, mask as i64, st as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if active() {
        return match path_node(path) {
            Ok(_) => 0,
            Err(e) => err(e),
        };
    }
    ret(sys3(21, path as i64, mode as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(_d: c_int, path: *const c_char, mode: c_int, _f: c_int) -> c_int {
    access(path, mode)
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    if active() {
        point();
        let raw = cpath(path);
        let p = w().fs.norm(&raw);
        if let Some(Act::Errno(e)) = fault(Site::Mkdir, &p) {
            return err(e);
        }
        let fs = &mut w().fs;
        if raw.is_empty() {
            return err(libc::ENOENT);
        }
        return match fs.lookup(&p) {
            Ok(_) => err(libc::EEXIST),
            Err(libc::ENOENT) => match fs.check_parents(&p) {
                Ok(()) => {
                    fs.insert_dir(p);
                    0
                },
                Err(e) => err(e),
            },
            Err(e) => err(e),
        };
    }
    ret(sys3(83, path as i64, mode as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if active() {
        point();
        let p = w().fs.norm(&cpath(path));
        return match w().fs.lookup(&p) {
            Ok(Node::Dir) if w().fs.list(&p).is_empty() => {
                w().fs.nodes.remove(&p);
                0
            },
            Ok(Node::Dir) => err(libc::ENOTEMPTY),
            Ok(_) => err(libc::ENOTDIR),
            Err(e) => err(e),
        };
    }
    ret(sys3(84, path as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if active() {
        point();
        let p = w().fs.norm(&cpath(path));
        if let Some(Act::Errno(e)) = fault(Site::Unlink, &p) {
            return err(e);
        }
        return match w().fs.lookup(&p) {
            Ok(Node::File(_)) => {
                w().fs.nodes.remove(&p);
                0
            },
            Ok(Node::Dir) => err(libc::EISDIR),
            Err(e) => err(e),
        };
    }
    ret(sys3(87, path as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    if active() {
        return if flags & libc::AT_REMOVEDIR != 0 { rmdir(path) } else { unlink(path) };
    }
    ret(sys3(263, d as i64, path as i64, flags as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        point();
        let (p, q) = (w().fs.norm(&cpath(a)), w().fs.norm(&cpath(b)));
        if let Some(Act::Errno(e)) = fault(Site::Unlink, &q) {
            return err(e);
        }
        let fs = &mut w().fs;
        return match fs.lookup(&p) {
            Ok(Node::File(i)) => {
                if let Err(e) = fs.check_parents(&q) {
                    return err(e);
                }
                if let Ok(Node::Dir) = fs.lookup(&q) {
                    return err(libc::EISDIR);
                }
                fs.nodes.remove(&p);
                fs.inodes[i].dirty = true;
                fs.nodes.insert(q, Node::File(i));
                0
            },
            Ok(Node::Dir) => err(libc::EPERM),
            Err(e) => err(e),
        };
    }
    ret(sys3(82, a as i64, b as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if active() {
        if let Some(Some(Fd::File { ino, .. })) = w().fds.get(fd as usize).cloned() {
            let n = &mut w().fs.inodes[ino];
            n.data.resize(len as usize, 0);
            n.dirty = true;
            return 0;
        }
        return err(libc::EBADF);
    }
    ret(sys3(77, fd as i64, len, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
macro_rules! syncs {
    ($($n:ident $no:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(fd: c_int) -> c_int {
            if active() { point(); return 0; }
            ret(sys3($no, fd as i64, 0, 0)) as c_int
        }
    )* };
}
syncs!(fsync 74; fdatasync 75;);
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: c_uint) -> c_int {
    if active() {
        return 0;
    }
    ret(sys3(91, fd as i64, m as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: c_uint) -> c_int {
    if active() {
        return 0;
    }
    ret(sys3(90, p as i64, m as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if active() {
        let s = cpath(p);
        if s == "/proc/self/exe" {
            let e = b"/sim/bin/prog";
            let k = e.len().min(n);
            std::ptr::copy_nonoverlapping(e.as_ptr() as *const c_char, buf, k);
            return k as ssize_t;
        }
        return match path_node(p) {
            Ok(_) => err(libc::EINVAL) as ssize_t,
            Err(e) => err(e) as ssize_t,
        };
    }
    ret(sys3(89, p as i64, buf as i64, n as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if active() {
        let c = w().fs.cwd.clone();
        if c.len() + 1 > n {
            err(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, buf, c.len());
        *buf.add(c.len()) = 0;
        return buf;
    }
    let r = ret(sys3(79, buf as i64, n as i64, 0));
    if r < 0 {
        std::ptr::null_mut()
    } else {
        buf
    }
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if active() {
        let s = w().fs.norm(&cpath(p));
        return match w().fs.lookup(&s) {
            Ok(Node::Dir) => {
                w().fs.cwd = s;
                0
            },
            Ok(_) => err(libc::ENOTDIR),
            Err(e) => err(e),
        };
    }
    ret(sys3(80, p as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if active() {
        point();
        let s = w().fs.norm(&cpath(p));
        if let Some(Act::Errno(e)) = fault(Site::Realpath, &s) {
            err(e);
            return std::ptr::null_mut();
        }
        if let Err(e) = w().fs.lookup(&s) {
            err(e);
            return std::ptr::null_mut();
        }
        let dst = if out.is_null() { libc::malloc(s.len() + 1) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, dst, s.len());
        *dst.add(s.len()) = 0;
        return dst;
    }
    let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(real(b"realpath\0"));
    f(p, out)
}

// --- directories ------------------------------------------------------------

struct SimDir {
    magic: u64,
    items: Vec<(String, bool)>,
    pos: usize,
    ent: libc::dirent64,
    path: String,
}
const MAGIC: u64 = 0x51D0_D1D1_0000_0001;

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if active() {
        point();
        let s = w().fs.norm(&cpath(p));
        if let Some(Act::Errno(e)) = fault(Site::OpenDir, &s) {
            err(e);
            return std::ptr::null_mut();
        }
        match w().fs.lookup(&s) {
            Ok(Node::Dir) => {},
            Ok(_) => {
                err(libc::ENOTDIR);
                return std::ptr::null_mut();
            },
            Err(e) => {
                err(e);
                return std::ptr::null_mut();
            },
        }
        let mut items: Vec<(String, bool)> =
            w().fs.list(&s).into_iter().map(|(n, k)| (n, matches!(k, Node::Dir))).collect();
        items.push((".".into(), true));
        items.push(("..".into(), true));
        if w().cfg.shuffle_dirs {
            let mut r = w().io_rng.fork(7);
            r.shuffle(&mut items);
            count("readdir:shuffle");
        }
        let d = Box::new(SimDir { magic: MAGIC, items, pos: 0, ent: std::mem::zeroed(), path: s });
        return Box::into_raw(d) as *mut libc::DIR;
    }
    let f: extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(real(b"opendir\0"));
    f(p)
}
unsafe fn sim_dir(d: *mut libc::DIR) -> Option<&'static mut SimDir> {
    let s = d as *mut SimDir;
    if active() && (*s).magic == MAGIC {
        Some(&mut *s)
    } else {
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if let Some(s) = sim_dir(d) {
        point();
        if let Some(Act::Errno(e)) = fault(Site::ReadDir, &s.path) {
            err(e);
            return std::ptr::null_mut();
        }
        if s.pos >= s.items.len() {
            return std::ptr::null_mut();
        }
        let (n, dir) = &s.items[s.pos];
        s.pos += 1;
        s.ent = std::mem::zeroed();
        s.ent.d_ino = s.pos as u64 + 10;
        s.ent.d_type = if *dir { libc::DT_DIR } else { libc::DT_REG };
        s.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        for (i, b) in n.bytes().take(254).enumerate() {
            s.ent.d_name[i] = b as c_char;
        }
        return &mut s.ent;
    }
    let f: extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(real(b"readdir64\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut libc::DIR) -> *mut libc::dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if sim_dir(d).is_some() {
        point();
        drop(Box::from_raw(d as *mut SimDir));
        return 0;
    }
    let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(real(b"closedir\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if sim_dir(d).is_some() {
        return 999;
    }
    let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(real(b"dirfd\0"));
    f(d)
}

// --- descriptors ------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if active() {
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => res(netsim::dup_fd(fd)) as c_int,
            libc::F_GETFL => match w().fds.get(fd as usize) {
                Some(Some(Fd::Sock { nonblock: true, .. })) => libc::O_NONBLOCK | libc::O_RDWR,
                Some(Some(_)) => libc::O_RDWR,
                _ => err(libc::EBADF),
            },
            libc::F_SETFL => {
                if let Some(Some(Fd::Sock { nonblock, .. })) = w().fds.get_mut(fd as usize) {
                    *nonblock = arg as c_int & libc::O_NONBLOCK != 0;
                }
                0
            },
            _ => 0,
        };
    }
    ret(sys3(72, fd as i64, cmd as i64, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_void) -> c_int {
    if active() {
        if req == libc::FIONBIO {
            let on = *(arg as *const c_int) != 0;
            if let Some(Some(Fd::Sock { nonblock, .. })) = w().fds.get_mut(fd as usize) {
                *nonblock = on;
            }
            return 0;
        }
        return if req == libc::FIOCLEX { 0 } else { err(libc::ENOTTY) };
    }
    ret(sys3(16, fd as i64, req as i64, arg as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if active() {
        err(libc::ENOTTY);
        return 0;
    }
    let f: extern "C" fn(c_int) -> c_int = std::mem::transmute(real(b"isatty\0"));
    f(fd)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if active() {
        return res(netsim::dup_fd(fd)) as c_int;
    }
    ret(sys3(32, fd as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    if active() {
        let (r, w) = netsim::pipe();
        *fds = r;
        *fds.add(1) = w;
        return 0;
    }
    ret(sys3(293, fds as i64, flags as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    if active() {
        point();
        let deadline = if timeout >= 0 { Some(now() + timeout as u64 * 1_000_000) } else { None };
        loop {
            let mut k = 0;
            for i in 0..n as usize {
                let p = &mut *fds.add(i);
                p.revents = 0;
                if p.fd < 0 {
                    continue;
                }
                if w().fds.get(p.fd as usize).map_or(true, |f| f.is_none()) {
                    p.revents |= libc::POLLNVAL;
                } else {
                    if p.events & libc::POLLIN != 0 && netsim::readable(w(), p.fd) {
                        p.revents |= libc::POLLIN;
                    }
                    if p.events & libc::POLLOUT != 0 && netsim::writable(w(), p.fd) {
                        p.revents |= libc::POLLOUT;
                    }
                }
                if p.revents != 0 {
                    k += 1;
                }
            }
            if k > 0 || deadline.map_or(false, |d| d <= now()) {
                return k;
            }
            // wait on the first readable one; otherwise poll in small steps
            if n == 1 && (*fds).events & libc::POLLIN != 0 {
                block(Cond::Readable((*fds).fd), deadline);
            } else {
                let step = now() + 1_000_000;
                block(Cond::Sleep, Some(deadline.map_or(step, |d| d.min(step))));
            }
        }
    }
    ret(sys3(7, fds as i64, n as i64, timeout as i64)) as c_int
}

// --- sockets ----------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    if active() {
        if dom == libc::AF_INET || dom == libc::AF_INET6 {
            let fd = netsim::socket(dom == libc::AF_INET6);
            if ty & libc::SOCK_NONBLOCK != 0 {
                if let Some(Some(Fd::Sock { nonblock, .. })) = w().fds.get_mut(fd as usize) {
                    *nonblock = true;
                }
            }
            return fd;
        }
        return err(libc::EAFNOSUPPORT);
    }
    ret(sys3(41, dom as i64, ty as i64, proto as i64)) as c_int
}
unsafe fn port_of(a: *const libc::sockaddr) -> u16 {
    // sin_port and sin6_port share their offset
    u16::from_be((*(a as *const libc::sockaddr_in)).sin_port)
}
unsafe fn fill_addr(a: *mut libc::sockaddr, len: *mut libc::socklen_t, port: u16, v6: bool) {
    if a.is_null() {
        return;
    }
    if v6 {
        let s = &mut *(a as *mut libc::sockaddr_in6);
        *s = std::mem::zeroed();
        s.sin6_family = libc::AF_INET6 as u16;
        s.sin6_port = port.to_be();
        s.sin6_addr.s6_addr[15] = 1;
        *len = std::mem::size_of::<libc::sockaddr_in6>() as u32;
    } else {
        let s = &mut *(a as *mut libc::sockaddr_in);
        *s = std::mem::zeroed();
        s.sin_family = libc::AF_INET as u16;
        s.sin_port = port.to_be();
        s.sin_addr.s_addr = u32::from_be_bytes([127, 0, 0, 1]).to_be();
        *len = std::mem::size_of::<libc::sockaddr_in>() as u32;
    }
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const libc::sockaddr, l: libc::socklen_t) -> c_int {
    if active() {
        return resi(netsim::bind(fd, port_of(a)));
    }
    ret(sys3(49, fd as i64, a as i64, l as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if active() {
        return resi(netsim::listen(fd));
    }
    ret(sys3(50, fd as i64, n as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const libc::sockaddr, l: libc::socklen_t) -> c_int {
    if active() {
        return resi(netsim::connect(fd, port_of(a)));
    }
    ret(sys3(42, fd as i64, a as i64, l as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t, fl: c_int) -> c_int {
    if active() {
        return match netsim::accept(fd) {
            Ok((n, peer)) => {
                let v6 = netsim::sock_id(fd).map_or(false, |i| w().net.socks[i].unix_);
                fill_addr(a, l, peer, v6);
                n
            },
            Err(e) => err(e),
        };
    }
    ret(sys6(288, fd as i64, a as i64, l as i64, fl as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}
macro_rules! names {
    ($($n:ident $f:ident $no:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> c_int {
            if active() {
                return match netsim::sock_id(fd) {
                    Ok(i) => { let s = &w().net.socks[i]; fill_addr(a, l, s.$f, s.unix_); 0 },
                    Err(e) => err(e),
                };
            }
            ret(sys3($no, fd as i64, a as i64, l as i64)) as c_int
        }
    )* };
}
names!(getsockname port 51; getpeername peer 52;);
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, name: c_int, v: *const c_void, l: libc::socklen_t) -> c_int {
    if active() {
        if lvl == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO {
            let t = &*(v as *const libc::timeval);
            match netsim::sock_id(fd) {
                Ok(i) => w().net.socks[i].rcvtimeo = t.tv_sec as u64 * 1_000_000_000 + t.tv_usec as u64 * 1000,
                Err(e) => return err(e),
            }
        }
        return 0;
    }
    ret(sys6(54, fd as i64, lvl as i64, name as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, name: c_int, v: *mut c_void, l: *mut libc::socklen_t) -> c_int {
    if active() {
        std::ptr::write_bytes(v as *mut u8, 0, *l as usize);
        return 0;
    }
    ret(sys6(55, fd as i64, lvl as i64, name as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    if active() {
        return res(netsim::recv(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), fl));
    }
    ret(sys6(45, fd as i64, b as i64, n as i64, fl as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    if active() {
        return write(fd, b, n);
    }
    ret(sys6(44, fd as i64, b as i64, n as i64, fl as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if active() {
        return resi(netsim::shutdown(fd, how));
    }
    ret(sys3(48, fd as i64, how as i64, 0)) as c_int
}

// --- time, randomness, cpu --------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if active() {
        let mut t = now();
        if id == libc::CLOCK_REALTIME {
            t += w().cfg.epoch * 1_000_000_000;
        }
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys3(228, id as i64, ts as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if active() {
        let t = now() + w().cfg.epoch * 1_000_000_000;
        (*tv).tv_sec = (t / 1_000_000_000) as i64;
        (*tv).tv_usec = (t % 1_000_000_000 / 1000) as i64;
        return 0;
    }
    ret(sys3(96, tv as i64, tz as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let t = if active() { (w().cfg.epoch + now() / 1_000_000_000) as i64 } else { sys3(201, 0, 0, 0) };
    if !p.is_null() {
        *p = t;
    }
    t
}
unsafe fn ts_ns(t: *const libc::timespec) -> u64 {
    (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, r: *mut libc::timespec) -> c_int {
    if active() {
        let d = now() + ts_ns(t);
        block(Cond::Sleep, Some(d));
        return 0;
    }
    ret(sys3(35, t as i64, r as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, fl: c_int, t: *const libc::timespec, r: *mut libc::timespec) -> c_int {
    if active() {
        let mut d = ts_ns(t);
        if fl & 1 == 0 {
            d += now();
        } else if id == libc::CLOCK_REALTIME {
            d = d.saturating_sub(w().cfg.epoch * 1_000_000_000);
        }
        block(Cond::Sleep, Some(d));
        return 0;
    }
    let r = sys6(230, id as i64, fl as i64, t as i64, r as i64, 0, 0);
    if r < 0 {
        -r as c_int
    } else {
        0
    }
}
fn fill_random(b: &mut [u8]) {
    for c in b.chunks_mut(8) {
        let v = w().rand_rng.next().to_le_bytes();
        let n = c.len();
        c.copy_from_slice(&v[..n]);
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if active() {
        fill_random(std::slice::from_raw_parts_mut(b as *mut u8, n));
        return n as ssize_t;
    }
    ret(sys3(318, b as i64, n as i64, fl as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: size_t, set: *mut c_void) -> c_int {
    if active() {
        std::ptr::write_bytes(set as *mut u8, 0, n);
        let k = w().cfg.cpus.clamp(1, 64);
        *(set as *mut u64) = if k == 64 { !0 } else { (1u64 << k) - 1 };
        return 0;
    }
    let r = sys3(204, pid as i64, n as i64, set as i64);
    if r < 0 {
        ret(r) as c_int
    } else {
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        yield_point();
        return 0;
    }
    ret(sys3(24, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    if active() {
        return 4242 + me() as c_int;
    }
    sys3(libc::SYS_gettid, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if active() {
        return 4242;
    }
    sys3(39, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if !active() {
        return ret(sys6(n, a, b, c, d, e, f));
    }
    match n {
        libc::SYS_futex => {
            let op = b as i32 & 0x7f & !libc::FUTEX_PRIVATE_FLAG;
            let rt = b as i32 & libc::FUTEX_CLOCK_REALTIME != 0;
            match op {
                0 | 9 => {
                    point();
                    let addr = a as *const u32;
                    if std::ptr::read_volatile(addr) != c as u32 {
                        return err(libc::EAGAIN) as c_long;
                    }
                    let mut deadline = None;
                    if d != 0 {
                        let t = ts_ns(d as *const libc::timespec);
                        deadline = Some(if op == 0 {
                            now() + t
                        } else if rt {
                            t.saturating_sub(w().cfg.epoch * 1_000_000_000)
                        } else {
                            t
                        });
                    }
                    let m = me();
                    let th = &mut w().threads[m];
                    th.woken = false;
                    th.bitset = if op == 9 { f as u32 } else { !0 };
                    let ok = block(Cond::Futex(a as usize), deadline);
                    trace(31, ok as u64);
                    if ok {
                        0
                    } else {
                        err(libc::ETIMEDOUT) as c_long
                    }
                },
                1 | 10 => {
                    let bits = if op == 10 { f as u32 } else { !0 };
                    let k = wake_futex(a as usize, c as usize, bits);
                    trace(32, k as u64);
                    point();
                    k as c_long
                },
                _ => {
                    note(format!("futex op {op}"));
                    err(libc::ENOSYS) as c_long
                },
            }
        },
        libc::SYS_getrandom => {
            fill_random(std::slice::from_raw_parts_mut(a as *mut u8, b as usize));
            b
        },
        libc::SYS_gettid => 4242 + me() as c_long,
        libc::SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        libc::SYS_copy_file_range | libc::SYS_sendfile | libc::SYS_splice | libc::SYS_clone3 => err(libc::ENOSYS) as c_long,
        _ => {
            note(format!("syscall {n}"));
            err(libc::ENOSYS) as c_long
        },
    }
}
macro_rules! nosys {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n() -> isize {
            if !active() {
                // only reached outside the simulation, where callers fall back
            }
            err(libc::ENOSYS) as isize
        }
    )* };
}
nosys!(copy_file_range sendfile64 sendfile splice);

// --- threads ----------------------------------------------------------------

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
    /// The scheduler slot: the table it lives in may move while we start.
    th: *const Thread,
}
static mut KEY: libc::pthread_key_t = 0;
static mut KEY_INIT: bool = false;

unsafe extern "C" fn on_exit_thread(_: *mut c_void) {
    thread_exit();
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let s = Box::from_raw(p as *mut Start);
        thread_first_wait(s.th);
        set_me(s.tid);
        libc::pthread_setspecific(KEY, 1 as *const c_void);
        let (f, a) = (s.f, s.arg);
        drop(s);
        f(a)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        extern "C" fn(*mut c_void) -> *mut c_void,
        *mut c_void,
    ) -> c_int;
    let real_create: F = std::mem::transmute(real(b"pthread_create\0"));
    if !active() {
        return real_create(th, attr, f, arg);
    }
    if !KEY_INIT {
        KEY_INIT = true;
        libc::pthread_key_create(&raw mut KEY, Some(on_exit_thread));
    }
    point();
    if let Some(Act::Errno(e)) = fault(Site::Thread, "") {
        return e;
    }
    let prio = (w().rng.next() & ((1 << 40) - 1)) + 1000;
    let tid = new_thread(prio);
    let s = Box::into_raw(Box::new(Start { f, arg, tid, th: &*w().threads[tid] }));
    let r = real_create(th, attr, trampoline, s as *mut c_void);
    if r != 0 {
        finish(crate::End::Harness(format!("pthread_create failed: {r}")));
    }
    w().threads[tid].pthread = *th as u64;
    trace(41, tid as u64);
    point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    let real_join: F = std::mem::transmute(real(b"pthread_join\0"));
    if active() {
        // pthread_t values can be reused: take the newest unjoined one
        if let Some(t) = w().threads.iter().rposition(|t| t.pthread == th as u64 && !t.joined) {
            block(Cond::Join(t), None);
            w().threads[t].joined = true;
        }
    }
    real_join(th, out)
}

// --- processes --------------------------------------------------------------

unsafe fn argv_list(argv: *const *mut c_char) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    while !argv.is_null() && !(*argv.add(i)).is_null() {
        v.push(cpath(*argv.add(i)));
        i += 1;
    }
    v
}
unsafe fn argv_string(argv: *const *mut c_char) -> String {
    argv_list(argv).join(" ")
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(fa: *mut libc::posix_spawn_file_actions_t, src: c_int, dst: c_int) -> c_int {
    if active() {
        w().proc_.actions.push((fa as usize, src, dst));
        return 0;
    }
    type F = unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t, c_int, c_int) -> c_int;
    let f: F = std::mem::transmute(real(b"posix_spawn_file_actions_adddup2\0"));
    f(fa, src, dst)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(fa: *mut libc::posix_spawn_file_actions_t) -> c_int {
    if active() {
        w().proc_.actions.retain(|a| a.0 != fa as usize);
    }
    type F = unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t) -> c_int;
    let f: F = std::mem::transmute(real(b"posix_spawn_file_actions_destroy\0"));
    f(fa)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    file: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    at: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if active() {
        point();
        return match crate::procsim::spawn(&argv_string(argv), argv_list(envp), fa as usize) {
            Ok(p) => {
                *pid = p;
                0
            },
            Err(e) => e,
        };
    }
    type F = unsafe extern "C" fn(
        *mut libc::pid_t,
        *const c_char,
        *const libc::posix_spawn_file_actions_t,
        *const libc::posix_spawnattr_t,
        *const *mut c_char,
        *const *mut c_char,
    ) -> c_int;
    let f: F = std::mem::transmute(real(b"posix_spawnp\0"));
    f(pid, file, fa, at, argv, envp)
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> c_int {
    if active() {
        note("fork".into());
        return err(libc::ENOSYS);
    }
    type F = unsafe extern "C" fn() -> c_int;
    let f: F = std::mem::transmute(real(b"fork\0"));
    f()
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: c_int, st: *mut c_int, opts: c_int) -> c_int {
    if active() {
        point();
        return match crate::procsim::wait(pid, opts & libc::WNOHANG != 0) {
            Ok((p, s)) => {
                if !st.is_null() {
                    *st = s;
                }
                p
            },
            Err(e) => err(e),
        };
    }
    ret(sys6(61, pid as i64, st as i64, opts as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn waitid(t: c_uint, id: c_uint, info: *mut libc::siginfo_t, o: c_int) -> c_int {
    if active() {
        point();
        if t != libc::P_PID {
            note(format!("waitid of type {t}"));
            return err(libc::ENOSYS);
        }
        let pid = id as i32;
        let r = if o & libc::WNOWAIT != 0 {
            if o & libc::WNOHANG != 0 && !crate::procsim::exited(w(), pid) {
                Ok(None)
            } else {
                crate::procsim::wait_dead(pid, None)
            }
        } else {
            crate::procsim::wait(pid, o & libc::WNOHANG != 0).map(|(p, s)| if p == 0 { None } else { Some(s) })
        };
        return match r {
            Ok(st) => {
                if !info.is_null() {
                    std::ptr::write_bytes(info as *mut u8, 0, std::mem::size_of::<libc::siginfo_t>());
                    if let Some(st) = st {
                        let p = info as *mut c_int;
                        *p = libc::SIGCHLD;
                        *p.add(2) = if st & 0x7f == 0 { libc::CLD_EXITED } else { libc::CLD_KILLED };
                        *p.add(4) = pid;
                        *p.add(6) = if st & 0x7f == 0 { st >> 8 } else { st & 0x7f };
                    }
                }
                0
            },
            Err(e) => err(e),
        };
    }
    ret(sys6(247, t as i64, id as i64, info as i64, o as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: c_int, sig: c_int) -> c_int {
    if active() {
        point();
        return resi(crate::procsim::kill(pid, sig));
    }
    ret(sys3(62, pid as i64, sig as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if active() {
        finish(crate::End::Exit(code & 0xff));
    }
    type F = unsafe extern "C" fn(c_int) -> !;
    let f: F = std::mem::transmute(real(b"exit\0"));
    f(code)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if active() {
        finish(crate::End::Exit(code & 0xff));
    }
    raw::exit_group(code)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if active() {
        finish(crate::End::Abort);
    }
    type F = unsafe extern "C" fn() -> !;
    let f: F = std::mem::transmute(real(b"abort\0"));
    f()
}

/// Referenced by harness binaries so that the linker keeps this object.
pub fn keep() -> usize {
    let _ = Fs::new;
    open64 as usize
}
