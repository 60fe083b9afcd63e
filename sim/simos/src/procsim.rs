//! Simulated child processes.
use crate::world::*;

pub struct Proc {
    pub pid: i32,
    /// wait status, once dead
    pub status: Option<i32>,
    pub dies_at: Option<(u64, i32)>,
    pub reaped: bool,
    pub env: Vec<String>,
    /// descriptors inherited as standard output and standard error
    pub stdio: [i32; 2],
}

#[derive(Default)]
pub struct Procs {
    pub list: Vec<Proc>,
    /// (file actions object, source, target) of pending dup2 actions
    pub actions: Vec<(usize, i32, i32)>,
    /// Counter to advance whenever a process is started.
    pub counter: Option<usize>,
}

fn settle(w: &mut World) {
    let now = w.now;
    for p in &mut w.proc_.list {
        if let (None, Some((t, st))) = (p.status, p.dies_at) {
            if t <= now {
                p.status = Some(st);
            }
        }
    }
}

pub fn next_event(w: &World) -> Option<u64> {
    w.proc_.list.iter().filter(|p| p.status.is_none()).filter_map(|p| p.dies_at.map(|d| d.0)).filter(|&t| t > w.now).min()
}

pub fn exited(w: &World, pid: i32) -> bool {
    w.proc_.list.iter().any(|p| {
        (pid == -1 || p.pid == pid) && !p.reaped && (p.status.is_some() || p.dies_at.map_or(false, |d| d.0 <= w.now))
    }) || !w.proc_.list.iter().any(|p| (pid == -1 || p.pid == pid) && !p.reaped)
}

pub fn spawn(what: &str, env: Vec<String>, actions: usize) -> Result<i32, i32> {
    if let Some(Act::Errno(e)) = fault(Site::Spawn, what) {
        return Err(e);
    }
    let w = w();
    let n = w.proc_.list.len();
    let spec = w.cfg.children.get(n).cloned().unwrap_or_default();
    let pid = 5000 + n as i32;
    let dies_at =
        if spec.exit_after_ns > 0 { Some((w.now + spec.exit_after_ns, (spec.exit_code & 0xff) << 8)) } else { None };
    let mut stdio = [-1, -1];
    for (a, src, dst) in w.proc_.actions.clone() {
        if a == actions && (1..=2).contains(&dst) {
            stdio[dst as usize - 1] = crate::netsim::dup_fd(src) as i32;
        }
    }
    w.proc_.list.push(Proc { pid, status: None, dies_at, reaped: false, env, stdio });
    w.out.events.push(format!("spawn {pid} {what}"));
    if let Some(c) = w.proc_.counter {
        w.counters[c] += 1;
    }
    Ok(pid)
}

pub fn exit_now(pid: i32, code: i32) {
    let w = w();
    let now = w.now;
    for p in &mut w.proc_.list {
        if p.pid == pid && p.status.is_none() {
            p.status = Some((code & 0xff) << 8);
            p.dies_at = Some((now, (code & 0xff) << 8));
        }
    }
}

pub fn kill(pid: i32, sig: i32) -> Result<(), i32> {
    let w = w();
    settle(w);
    let now = w.now;
    let lat = {
        let i = w.proc_.list.iter().position(|p| p.pid == pid);
        i.and_then(|i| w.cfg.children.get(i)).map_or(0, |c| c.kill_latency_ns)
    };
    let Some(p) = w.proc_.list.iter_mut().find(|p| p.pid == pid) else {
        w.out.events.push(format!("kill {pid} {sig} unknown"));
        return Err(libc::ESRCH);
    };
    if p.reaped {
        w.out.events.push(format!("kill {pid} {sig} reaped"));
        return Err(libc::ESRCH);
    }
    let dead = p.status.is_some();
    if !dead && sig != 0 {
        let t = now + lat;
        if p.dies_at.map_or(true, |d| d.0 > t) {
            p.dies_at = Some((t, sig));
        }
    }
    w.out.events.push(format!("kill {pid} {sig} {}", if dead { "zombie" } else { "alive" }));
    settle(w);
    Ok(())
}

/// Wait for a child to be dead, without collecting it.
pub fn wait_dead(pid: i32, deadline: Option<u64>) -> Result<Option<i32>, i32> {
    if !w().proc_.list.iter().any(|p| p.pid == pid && !p.reaped) {
        return Err(libc::ECHILD);
    }
    block(Cond::ChildExit(pid), deadline);
    let w = w();
    settle(w);
    match w.proc_.list.iter().find(|p| p.pid == pid) {
        Some(p) if p.reaped => Err(libc::ECHILD),
        Some(p) => Ok(p.status),
        None => Err(libc::ECHILD),
    }
}

/// Returns (pid, status); pid 0 means "still running" with nohang.
pub fn wait(pid: i32, nohang: bool) -> Result<(i32, i32), i32> {
    loop {
        let w = w();
        settle(w);
        let mut any = false;
        for p in &mut w.proc_.list {
            if (pid == -1 || p.pid == pid) && !p.reaped {
                any = true;
                if let Some(st) = p.status {
                    p.reaped = true;
                    let r = p.pid;
                    w.out.events.push(format!("reap {r} {st}"));
                    return Ok((r, st));
                }
            }
        }
        if !any {
            return Err(libc::ECHILD);
        }
        if nohang {
            return Ok((0, 0));
        }
        block(Cond::ChildExit(pid), None);
    }
}
