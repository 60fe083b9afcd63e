use crate::{Check, Exec, Verdict};
use simos::{Chunk, Sched};
use std::time::Instant;

/// Greedy minimisation; keeps the violation class.
pub fn minimise<C: Check>(
    check: &C,
    case: C::Case,
    class: &str,
    ex: &mut Exec,
    deadline: Instant,
) -> (C::Case, Option<String>, u64) {
    let mut best = case;
    let mut detail = None;
    let mut steps = 0;
    let try_case = |c: &C::Case, ex: &mut Exec| -> Option<String> {
        match check.run(c, ex) {
            Verdict::Violation { class: k, detail } if k == class => Some(detail),
            _ => None,
        }
    };
    'outer: loop {
        if Instant::now() > deadline {
            break;
        }
        let mut cands = check.shrink(&best);
        cands.extend(generic(check, &best));
        for c in cands {
            if Instant::now() > deadline {
                break 'outer;
            }
            if let Some(d) = try_case(&c, ex) {
                best = c;
                detail = Some(d);
                steps += 1;
                continue 'outer;
            }
        }
        break;
    }
    // the schedule last: make it explicit, then drop decisions
    let n = check.configs(&mut best.clone()).len();
    for k in 0..n {
        if Instant::now() > deadline {
            break;
        }
        if let Some(s) = explicit_schedule(check, &best, k, ex) {
            let mut c = best.clone();
            check.configs(&mut c)[k].sched = Sched::Explicit(s.clone());
            if let Some(d) = try_case(&c, ex) {
                best = c;
                detail = Some(d);
                steps += 1;
                let mut cur = s;
                let mut chunk = cur.len().div_ceil(2).max(1);
                loop {
                    let mut i = 0;
                    let mut changed = false;
                    while i < cur.len() {
                        if Instant::now() > deadline {
                            break;
                        }
                        let mut t = cur.clone();
                        t.drain(i..(i + chunk).min(t.len()));
                        let mut c = best.clone();
                        check.configs(&mut c)[k].sched = Sched::Explicit(t.clone());
                        if let Some(d) = try_case(&c, ex) {
                            best = c;
                            detail = Some(d);
                            cur = t;
                            steps += 1;
                            changed = true;
                        } else {
                            i += chunk;
                        }
                    }
                    if chunk == 1 && !changed || Instant::now() > deadline {
                        break;
                    }
                    chunk = (chunk / 2).max(1);
                }
            }
        }
    }
    (best, detail, steps)
}

/// Record the decisions a random schedule made in the k-th configuration.
fn explicit_schedule<C: Check>(check: &C, case: &C::Case, k: usize, ex: &mut Exec) -> Option<Vec<(u64, u32)>> {
    let mut c = case.clone();
    let want = {
        let cfgs = check.configs(&mut c);
        if matches!(cfgs[k].sched, Sched::Seq | Sched::Explicit(_)) {
            return None;
        }
        cfgs[k].clone()
    };
    ex.capture = Some((want, None));
    let _ = check.run(&c, ex);
    let cap = ex.capture.take()?;
    cap.1
}

fn generic<C: Check>(check: &C, case: &C::Case) -> Vec<C::Case> {
    let mut v = vec![];
    let n = check.configs(&mut case.clone()).len();
    for k in 0..n {
        let mut edit = |f: &dyn Fn(&mut simos::Config)| {
            let mut c = case.clone();
            {
                let mut cfgs = check.configs(&mut c);
                let before = cfgs[k].clone();
                f(cfgs[k]);
                if *cfgs[k] == before {
                    return;
                }
            }
            v.push(c);
        };
        edit(&|c| c.sched = Sched::Seq);
        edit(&|c| {
            c.eintr = 0;
            c.stat_lies = 0;
        });
        edit(&|c| c.file_read = Chunk::Full);
        edit(&|c| c.file_write = Chunk::Full);
        edit(&|c| c.pipe_read = Chunk::Full);
        edit(&|c| c.pipe_write = Chunk::Full);
        edit(&|c| c.sock_read = Chunk::Full);
        edit(&|c| c.sock_write = Chunk::Full);
        edit(&|c| c.disk_free = None);
        edit(&|c| c.shuffle_dirs = false);
        edit(&|c| c.hash_seed = 0);
        edit(&|c| c.latency_max_ns = 0);
        edit(&|c| c.ns_per_step = 1000);
        let nf = check.configs(&mut case.clone())[k].faults.len();
        for i in 0..nf {
            edit(&move |c| {
                c.faults.remove(i);
            });
        }
    }
    v
}
