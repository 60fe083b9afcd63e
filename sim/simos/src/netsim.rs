//! Pipes and sockets.
use crate::world::*;
use std::collections::VecDeque;

#[derive(Default)]
pub struct Chan {
    segs: VecDeque<(u64, Vec<u8>, usize)>,
    buffered: usize,
    cap: usize,
    last_arrival: u64,
    closed_w: bool,
    closed_r: bool,
    shut_r: bool,
    reset: bool,
    refs_r: u32,
    refs_w: u32,
    capture: u8,
    sock: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum State {
    New,
    Bound,
    Listening,
    Connected { rx: usize, tx: usize },
    Dead,
}

pub struct Sock {
    pub state: State,
    pub port: u16,
    pub peer: u16,
    pub backlog: VecDeque<usize>,
    pub refs: u32,
    pub rcvtimeo: u64,
    pub unix_: bool,
}

#[derive(Default)]
pub struct Net {
    pub chans: Vec<Chan>,
    pub socks: Vec<Sock>,
    pub next_port: u16,
}

pub fn next_event(w: &World) -> Option<u64> {
    let mut best: Option<u64> = None;
    for c in &w.net.chans {
        if let Some(s) = c.segs.front() {
            if s.0 > w.now && !c.closed_r {
                best = Some(best.map_or(s.0, |b| b.min(s.0)));
            }
        }
    }
    best
}

fn chan_readable(w: &World, c: usize) -> bool {
    let ch = &w.net.chans[c];
    if ch.reset || ch.shut_r {
        return true;
    }
    match ch.segs.front() {
        Some(s) => s.0 <= w.now,
        None => ch.closed_w && ch.last_arrival <= w.now,
    }
}

fn get(w: &World, fd: i32) -> Option<&Fd> {
    w.fds.get(fd as usize).and_then(|f| f.as_ref())
}

pub fn readable(w: &World, fd: i32) -> bool {
    match get(w, fd) {
        Some(Fd::PipeR(c)) => chan_readable(w, *c),
        Some(Fd::Sock { id, .. }) => match &w.net.socks[*id].state {
            State::Connected { rx, .. } => chan_readable(w, *rx),
            State::Listening => !w.net.socks[*id].backlog.is_empty(),
            _ => true,
        },
        _ => true,
    }
}
fn chan_writable(w: &World, c: usize) -> bool {
    let ch = &w.net.chans[c];
    ch.buffered < ch.cap || ch.closed_r || ch.reset || ch.closed_w
}
pub fn writable(w: &World, fd: i32) -> bool {
    match get(w, fd) {
        Some(Fd::PipeW(c)) => chan_writable(w, *c),
        Some(Fd::Sock { id, .. }) => match &w.net.socks[*id].state {
            State::Connected { tx, .. } => chan_writable(w, *tx),
            _ => true,
        },
        _ => true,
    }
}
pub fn acceptable(w: &World, fd: i32) -> bool {
    readable(w, fd)
}

pub fn alloc_fd(f: Fd) -> i32 {
    let w = w();
    for i in 3..w.fds.len() {
        if w.fds[i].is_none() {
            w.fds[i] = Some(f);
            return i as i32;
        }
    }
    while w.fds.len() < 3 {
        w.fds.push(None);
    }
    w.fds.push(Some(f));
    (w.fds.len() - 1) as i32
}

fn new_chan(sock: bool) -> usize {
    let w = w();
    let cap = w.cfg.pipe_cap.max(1) as usize;
    w.net.chans.push(Chan { cap, refs_r: 1, refs_w: 1, sock, ..Default::default() });
    w.net.chans.len() - 1
}

pub fn stdio_pipes() -> (i32, i32) {
    let a = new_chan(false);
    let b = new_chan(false);
    let w = w();
    w.net.chans[b].capture = 1;
    w.net.chans[b].cap = 1 << 20;
    w.fds[0] = Some(Fd::PipeR(a));
    w.fds[1] = Some(Fd::PipeW(b));
    (alloc_fd(Fd::PipeW(a)), alloc_fd(Fd::PipeR(b)))
}

pub fn pipe() -> (i32, i32) {
    let a = new_chan(false);
    (alloc_fd(Fd::PipeR(a)), alloc_fd(Fd::PipeW(a)))
}

fn neg(e: i32) -> isize {
    -(e as isize)
}

fn chan_read(fd: i32, c: usize, buf: &mut [u8], site: Site, nonblock: bool, timeo: u64, peek: bool) -> isize {
    point();
    if buf.is_empty() {
        return 0;
    }
    let n = match transfer(site, "", buf.len()) {
        Ok(n) => n,
        Err(e) => {
            if e != libc::EINTR && site == Site::SockRead {
                w().net.chans[c].reset = true;
            }
            return neg(e);
        },
    };
    let deadline = if timeo > 0 { Some(w().now + timeo) } else { None };
    loop {
        if !chan_readable(w(), c) {
            if nonblock {
                return neg(libc::EAGAIN);
            }
            if !block(Cond::Readable(fd), deadline) {
                return neg(libc::EAGAIN);
            }
            continue;
        }
        let w = w();
        let now = w.now;
        let ch = &mut w.net.chans[c];
        if ch.shut_r {
            return 0;
        }
        if ch.reset {
            // reported once, then EOF
            ch.reset = false;
            ch.segs.clear();
            ch.buffered = 0;
            ch.closed_w = true;
            return neg(libc::ECONNRESET);
        }
        let mut got = 0;
        let mut idx = 0;
        while got < n {
            let Some(s) = ch.segs.get_mut(idx) else { break };
            if s.0 > now {
                break;
            }
            let avail = s.1.len() - s.2;
            let k = avail.min(n - got);
            buf[got..got + k].copy_from_slice(&s.1[s.2..s.2 + k]);
            got += k;
            if peek {
                idx += 1;
            } else {
                s.2 += k;
                ch.buffered -= k;
                if s.2 == s.1.len() {
                    ch.segs.pop_front();
                }
            }
        }
        trace(21, got as u64);
        return got as isize;
    }
}

fn chan_write(fd: i32, c: usize, buf: &[u8], site: Site, nonblock: bool) -> isize {
    point();
    if buf.is_empty() {
        return 0;
    }
    let n = match transfer(site, "", buf.len()) {
        Ok(n) => n,
        Err(e) => {
            if e != libc::EINTR && site == Site::SockWrite {
                w().net.chans[c].closed_w = true;
            }
            return neg(e);
        },
    };
    loop {
        if !chan_writable(w(), c) {
            if nonblock {
                return neg(libc::EAGAIN);
            }
            block(Cond::Writable(fd), None);
            continue;
        }
        let w = w();
        let lat = if w.cfg.latency_max_ns > 0 { w.io_rng.below(w.cfg.latency_max_ns) } else { 0 };
        let now = w.now;
        let capture = w.net.chans[c].capture;
        let ch = &mut w.net.chans[c];
        if ch.closed_r || ch.closed_w || ch.reset {
            return neg(libc::EPIPE);
        }
        let k = n.min(ch.cap - ch.buffered);
        let arrival = ch.last_arrival.max(now + lat);
        ch.last_arrival = arrival;
        ch.segs.push_back((arrival, buf[..k].to_vec(), 0));
        ch.buffered += k;
        if capture == 1 {
            w.out.stdout.extend_from_slice(&buf[..k]);
        } else if capture == 2 {
            w.out.custom.entry("captured".into()).or_default().extend_from_slice(&buf[..k]);
        }
        trace(22, k as u64);
        return k as isize;
    }
}

/// -errno on failure
pub fn read_fd(fd: i32, buf: &mut [u8]) -> isize {
    match get(w(), fd).cloned() {
        None => neg(libc::EBADF),
        Some(Fd::Null) => 0,
        Some(Fd::File { ino, pos, path, .. }) => {
            point();
            let n = match transfer(Site::Read, &path, buf.len()) {
                Ok(n) => n,
                Err(e) => return neg(e),
            };
            let w = w();
            let d = &w.fs.inodes[ino].data;
            let p = (pos as usize).min(d.len());
            let k = n.min(d.len() - p);
            buf[..k].copy_from_slice(&d[p..p + k]);
            if let Some(Some(Fd::File { pos, .. })) = w.fds.get_mut(fd as usize) {
                *pos += k as u64;
            }
            trace(23, k as u64);
            k as isize
        },
        Some(Fd::PipeR(c)) => chan_read(fd, c, buf, Site::PipeRead, false, 0, false),
        Some(Fd::Sock { id, nonblock }) => sock_read(fd, id, buf, nonblock, false),
        Some(_) => neg(libc::EBADF),
    }
}

fn sock_read(fd: i32, id: usize, buf: &mut [u8], nonblock: bool, peek: bool) -> isize {
    let s = &w().net.socks[id];
    let t = s.rcvtimeo;
    match s.state {
        State::Connected { rx, .. } => chan_read(fd, rx, buf, Site::SockRead, nonblock, t, peek),
        _ => neg(libc::ENOTCONN),
    }
}

pub fn recv(fd: i32, buf: &mut [u8], flags: i32) -> isize {
    match get(w(), fd).cloned() {
        Some(Fd::Sock { id, nonblock }) => {
            sock_read(fd, id, buf, nonblock || flags & libc::MSG_DONTWAIT != 0, flags & libc::MSG_PEEK != 0)
        },
        Some(_) => neg(libc::ENOTSOCK),
        None => neg(libc::EBADF),
    }
}

pub fn write_fd(fd: i32, buf: &[u8]) -> isize {
    match get(w(), fd).cloned() {
        None => neg(libc::EBADF),
        Some(Fd::Null) => buf.len() as isize,
        Some(f @ Fd::Stdout) | Some(f @ Fd::Stderr) => {
            point();
            let is_out = matches!(f, Fd::Stdout);
            let n = if is_out {
                match transfer(Site::PipeWrite, "stdout", buf.len()) {
                    Ok(n) => n,
                    Err(e) => return neg(e),
                }
            } else {
                buf.len()
            };
            let w = w();
            let v = if is_out { &mut w.out.stdout } else { &mut w.out.stderr };
            if v.len() < 4 << 20 {
                v.extend_from_slice(&buf[..n]);
            }
            trace(24, n as u64);
            n as isize
        },
        Some(Fd::File { ino, pos, append, path }) => {
            point();
            let n = match transfer(Site::Write, &path, buf.len()) {
                Ok(n) => n,
                Err(e) => return neg(e),
            };
            let w = w();
            let mut n = n;
            if let Some(free) = w.cfg.disk_free {
                if free == 0 && n > 0 {
                    count("write:ENOSPC");
                    return neg(libc::ENOSPC);
                }
                if (n as u64) > free {
                    n = free as usize;
                    count("write:short");
                }
                w.cfg.disk_free = Some(free - n as u64);
            }
            let node = &mut w.fs.inodes[ino];
            node.dirty = true;
            let p = if append { node.data.len() } else { pos as usize };
            if node.data.len() < p + n {
                node.data.resize(p + n, 0);
            }
            node.data[p..p + n].copy_from_slice(&buf[..n]);
            if let Some(Some(Fd::File { pos, .. })) = w.fds.get_mut(fd as usize) {
                *pos = (p + n) as u64;
            }
            trace(25, n as u64);
            n as isize
        },
        Some(Fd::PipeW(c)) => chan_write(fd, c, buf, Site::PipeWrite, false),
        Some(Fd::Sock { id, nonblock }) => match w().net.socks[id].state {
            State::Connected { tx, .. } => chan_write(fd, tx, buf, Site::SockWrite, nonblock),
            _ => neg(libc::ENOTCONN),
        },
        Some(_) => neg(libc::EBADF),
    }
}

fn drop_r(c: usize) {
    let ch = &mut w().net.chans[c];
    ch.refs_r -= 1;
    if ch.refs_r == 0 {
        ch.closed_r = true;
    }
}
fn drop_w(c: usize) {
    let ch = &mut w().net.chans[c];
    ch.refs_w -= 1;
    if ch.refs_w == 0 {
        ch.closed_w = true;
    }
}

pub fn close_fd(fd: i32) -> isize {
    let Some(f) = get(w(), fd).cloned() else { return neg(libc::EBADF) };
    w().fds[fd as usize] = None;
    match f {
        Fd::PipeR(c) => drop_r(c),
        Fd::PipeW(c) => drop_w(c),
        Fd::Sock { id, .. } => {
            let s = &mut w().net.socks[id];
            s.refs -= 1;
            if s.refs == 0 {
                if let State::Connected { rx, tx } = s.state {
                    if w().net.chans[rx].buffered > 0 {
                        w().net.chans[tx].reset = true;
                        count("sock:reset-on-close");
                    }
                    drop_r(rx);
                    drop_w(tx);
                } else if s.state == State::Listening {
                    let q: Vec<usize> = s.backlog.drain(..).collect();
                    for id in q {
                        hang_up(id);
                    }
                }
                w().net.socks[id].state = State::Dead;
            }
        },
        _ => {},
    }
    0
}

fn hang_up(id: usize) {
    if let State::Connected { rx, tx } = w().net.socks[id].state {
        w().net.chans[tx].reset = true;
        w().net.chans[rx].closed_r = true;
    }
    w().net.socks[id].state = State::Dead;
}

pub fn capture(fd: i32) {
    if let Some(Fd::Sock { id, .. }) = get(w(), fd).cloned() {
        if let State::Connected { rx, .. } = w().net.socks[id].state {
            w().net.chans[rx].capture = 2;
        }
    }
}

/// Abort the connection: the peer sees a reset.
pub fn reset_fd(fd: i32) {
    if let Some(Fd::Sock { id, .. }) = get(w(), fd).cloned() {
        if let State::Connected { rx, tx } = w().net.socks[id].state {
            w().net.chans[tx].reset = true;
            w().net.chans[tx].closed_w = true;
            w().net.chans[rx].closed_r = true;
            count("sock:reset");
        }
    }
}

pub fn dup_fd(fd: i32) -> isize {
    let Some(f) = get(w(), fd).cloned() else { return neg(libc::EBADF) };
    match &f {
        Fd::PipeR(c) => w().net.chans[*c].refs_r += 1,
        Fd::PipeW(c) => w().net.chans[*c].refs_w += 1,
        Fd::Sock { id, .. } => w().net.socks[*id].refs += 1,
        _ => {},
    }
    alloc_fd(f) as isize
}

pub fn socket(unix_: bool) -> i32 {
    let w = w();
    w.net.socks.push(Sock { state: State::New, port: 0, peer: 0, backlog: VecDeque::new(), refs: 1, rcvtimeo: 0, unix_ });
    let id = w.net.socks.len() - 1;
    alloc_fd(Fd::Sock { id, nonblock: false })
}

pub fn sock_id(fd: i32) -> Result<usize, i32> {
    match get(w(), fd) {
        Some(Fd::Sock { id, .. }) => Ok(*id),
        Some(_) => Err(libc::ENOTSOCK),
        None => Err(libc::EBADF),
    }
}

fn fresh_port() -> u16 {
    let n = &mut w().net;
    n.next_port += 1;
    40000 + n.next_port
}

pub fn bind(fd: i32, port: u16) -> Result<(), i32> {
    let id = sock_id(fd)?;
    if port != 0 && w().net.socks.iter().any(|s| s.port == port && matches!(s.state, State::Listening | State::Bound)) {
        return Err(libc::EADDRINUSE);
    }
    let p = if port == 0 { fresh_port() } else { port };
    let s = &mut w().net.socks[id];
    s.port = p;
    s.state = State::Bound;
    Ok(())
}

pub fn listen(fd: i32) -> Result<(), i32> {
    let id = sock_id(fd)?;
    if let Some(Act::Errno(e)) = fault(Site::Listen, "") {
        return Err(e);
    }
    w().net.socks[id].state = State::Listening;
    Ok(())
}

pub fn connect(fd: i32, port: u16) -> Result<(), i32> {
    point();
    let id = sock_id(fd)?;
    if let Some(Act::Errno(e)) = fault(Site::Connect, "") {
        return Err(e);
    }
    let Some(l) = w().net.socks.iter().position(|s| s.port == port && s.state == State::Listening) else {
        return Err(libc::ECONNREFUSED);
    };
    let a = new_chan(true);
    let b = new_chan(true);
    let lp = fresh_port();
    let w = w();
    w.net.socks[id].state = State::Connected { rx: a, tx: b };
    w.net.socks[id].port = lp;
    w.net.socks[id].peer = port;
    w.net.socks.push(Sock {
        state: State::Connected { rx: b, tx: a },
        port,
        peer: lp,
        backlog: VecDeque::new(),
        refs: 0,
        rcvtimeo: 0,
        unix_: false,
    });
    let sid = w.net.socks.len() - 1;
    w.net.socks[l].backlog.push_back(sid);
    Ok(())
}

pub fn accept(fd: i32) -> Result<(i32, u16), i32> {
    point();
    let id = sock_id(fd)?;
    let nonblock = matches!(get(w(), fd), Some(Fd::Sock { nonblock: true, .. }));
    if let Some(Act::Errno(e)) = fault(Site::Accept, "") {
        return Err(e);
    }
    loop {
        if let Some(sid) = w().net.socks[id].backlog.pop_front() {
            w().net.socks[sid].refs = 1;
            let peer = w().net.socks[sid].peer;
            return Ok((alloc_fd(Fd::Sock { id: sid, nonblock: false }), peer));
        }
        if nonblock {
            return Err(libc::EAGAIN);
        }
        block(Cond::Acceptable(fd), None);
    }
}

pub fn shutdown(fd: i32, how: i32) -> Result<(), i32> {
    point();
    let id = sock_id(fd)?;
    match w().net.socks[id].state {
        State::Connected { rx, tx } => {
            if how != libc::SHUT_RD {
                w().net.chans[tx].closed_w = true;
            }
            if how != libc::SHUT_WR {
                w().net.chans[rx].shut_r = true;
            }
            Ok(())
        },
        _ => Err(libc::ENOTCONN),
    }
}
