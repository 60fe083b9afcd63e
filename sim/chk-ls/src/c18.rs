//! C18: a debugged process ends exactly once.
use crate::dap::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simdrv::*;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    s: Session,
    cfg: Config,
}
pub struct C18;

impl Check for C18 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let mut s = generate(r, Wish { steps: if thorough { 12 } else { 5 }, faults: false, life: true, odd: false });
        // one process, and its end close to that of the session
        let mut seen = false;
        s.ops.retain(|o| !matches!(o, Op::Ask(Ask::Launch(_), _)) || !std::mem::replace(&mut seen, true));
        if r.chance(1, 2) {
            s.game.life.retain(|l| matches!(l, Life::Sleep(_)) || r.chance(1, 3));
        }
        if r.chance(1, 2) {
            // the end of the process and that of the session coincide
            s.game.life.retain(|l| matches!(l, Life::Out(..)));
            let wide = *r.pick(&[10, 300, 3000, 50_000, 5_000_000]);
            s.game.life.push(Life::Upon(r.below(wide)));
            s.game.life.push(Life::Exit(*r.pick(&[0, 1, 3, 255])));
            if !s.ops.iter().any(|o| matches!(o, Op::Ask(Ask::Disconnect(_), _))) {
                s.ops.push(Op::Ask(Ask::Disconnect(*r.pick(&[None, Some(true), Some(false)])), r.chance(1, 2)));
            }
        }
        let mut cfg = config(r);
        if r.chance(1, 30) {
            cfg.faults.push(Fault { site: Site::Spawn, nth: 0, path: String::new(), times: 1, act: Act::Errno(*r.pick(&[libc::ENOENT, libc::EACCES, libc::EAGAIN, libc::ENOMEM])) });
        }
        Case { s, cfg }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let o = run(ex, &c.cfg, &c.s);
        let h = match history(&o, &c.s) {
            Ok(h) => h,
            Err(v) => return v,
        };
        for e in &o.events {
            let w: Vec<&str> = e.split(' ').collect();
            if w[0] == "kill" && (w[3] == "reaped" || w[3] == "unknown") {
                return Verdict::bad("signal to a collected process", format!("{e}\n{}", h.show()));
            }
            if w[0] == "kill" && w[3] == "zombie" {
                ex.probe("kill_of_a_dying_process");
            }
        }
        // what ended, and when the client wanted the end
        let dead = h.find("exits").next();
        let status = o.events.iter().find_map(|e| e.strip_prefix("reap ")?.split(' ').nth(1)?.parse::<i32>().ok());
        let killed = o.events.iter().any(|e| e.starts_with("kill "));
        let asked = h.find("send").find(|e| matches!(c.s.ops.get(e.arg() as usize - 1), Some(Op::Ask(Ask::Disconnect(_), _))));
        let end = h.log.iter().find(|e| e.is("end") || e.is("hangup") || e.is("timeout"));
        let closed = h.find("closed").next().filter(|c| end.map_or(true, |e| before(&h, c, e)));
        let spawned = h.has("spawned");
        let exited: Vec<_> = h.events("exited").collect();
        if exited.len() > 1 {
            return Verdict::bad("two exits", h.show());
        }
        if let Some((at, e)) = exited.first() {
            if !dead.or(asked.filter(|_| killed)).map_or(false, |d| d.at < *at) {
                return Verdict::bad("exit of a running process", h.show());
            };
            let want = match status.unwrap_or(-1) {
                s if s & 0x7f == 0 => (s >> 8) as i64,
                _ => -1,
            };
            if e["body"]["exitCode"] != want {
                return Verdict::bad("wrong exit code", format!("{status:?} {e}\n{}", h.show()));
            }
            ex.probe(if want == -1 { "killed" } else { "exited" });
        }
        if let (Some(d), Some(e)) = (h.find("dead").next(), end) {
            if spawned && e.is("end") && before(&h, d, e) && exited.is_empty() {
                return Verdict::bad("exit not reported", h.show());
            }
        }
        let over = h.events("terminated").count();
        if end.is_some() && over == 0 {
            let detached = spawned && asked.is_some();
            if dead.is_some() || detached || (h.events("initialized").next().is_some() && closed.is_some()) {
                return Verdict::bad("termination not reported", h.show());
            }
        }
        // a debug server which doesn't answer is given up
        let ready = h.events("initialized").next().map_or(usize::MAX, |(at, _)| *at);
        let unheard = h.find("send").find(|e| {
            e.at < ready
                && c.s.auxtools
                && match c.s.ops.get(e.arg() as usize - 1) {
                    Some(Op::Ask(a, _)) => !matches!(a, Ask::Initialize | Ask::Launch(_) | Ask::Attach | Ask::Unknown | Ask::Source),
                    _ => false,
                }
        });
        let first = [dead, asked, closed, end, unheard].into_iter().flatten().map(|e| e.at).min();
        if let Some((at, _)) = h.events("terminated").next() {
            if first.map_or(true, |f| f >= *at) {
                return Verdict::bad("terminated too early", h.show());
            }
        }
        if let Err(v) = h.one_response_each(&c.s) {
            return v;
        }
        if over > 1 {
            ex.probe("several_terminated");
        }
        if let (Some(a), Some(d)) = (asked, dead) {
            if before(&h, d, a) {
                ex.probe("died_before_disconnect");
            } else {
                ex.probe("died_after_disconnect");
            }
        }
        if spawned && asked.is_some() && dead.is_none() && !killed {
            ex.probe("detached");
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        shrink(&c.s).into_iter().map(|s| Case { s, cfg: c.cfg.clone() }).collect()
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (9000, 300000)
    }
    fn rule(&self) -> String {
        "one case = one debugging session whose process exits, is killed or is left alone at a drawn moment; distinct = distinct traces of cases with an injected variation or a context switch".into()
    }
    fn components(&self) -> Value {
        crate::c17::components()
    }
}

/// Whether one entry precedes another in the log.
fn before(h: &History, a: &Entry, b: &Entry) -> bool {
    let pos = |e: &Entry| h.log.iter().position(|x| std::ptr::eq(x, e)).unwrap_or(0);
    pos(a) < pos(b)
}
