//! Common judgements about how a run ended.
use crate::{trunc, Verdict};
use simos::{End, Outcome};

/// The source file and message of the first panic, from standard error.
pub fn panic_site(o: &Outcome) -> Option<(String, String)> {
    let e = o.err_str();
    let p = e.find("panicked at ")?;
    let rest = &e[p + 12..];
    let mut lines = rest.lines();
    let loc = lines.next().unwrap_or("").trim_end_matches(':');
    let file = loc.split(':').next().unwrap_or("");
    let file = file.rsplit("/repo/").next().unwrap_or(file);
    let file = file.rsplit("/library/").next().unwrap_or(file);
    Some((file.to_owned(), format!("{loc}: {}", lines.next().unwrap_or(""))))
}

/// `None` if the run ended with an exit status; otherwise what is wrong. A
/// panic of any thread counts as wrong if `panics` is set.
pub fn bad_end(o: &Outcome, panics: bool) -> Option<Verdict> {
    let detail = |s: &str| format!("{s}\n--- stdout\n{}\n--- stderr\n{}", trunc(&o.out_str(), 1500), trunc(&o.err_str(), 1500));
    if let End::Harness(h) = &o.end {
        return Some(Verdict::Harness(format!("{h} {}", trunc(&o.err_str(), 500))));
    }
    if panics {
        if let Some((file, msg)) = panic_site(o) {
            if !matches!(o.end, End::Abort | End::Crash(_)) || !msg.is_empty() {
                return Some(Verdict::bad(format!("panic {file}"), detail(&msg)));
            }
        }
    }
    match &o.end {
        End::Exit(_) => None,
        End::Harness(_) => unreachable!(),
        End::Abort => Some(Verdict::bad("abort", detail("the process aborted"))),
        End::Crash(s) => Some(Verdict::bad(format!("crash signal {s}"), detail("the process crashed"))),
        End::Deadlock(d) => Some(Verdict::bad("deadlock", detail(d))),
        End::StepLimit => Some(Verdict::bad("no progress", detail("the step budget was exhausted"))),
        End::Hang => Some(Verdict::bad("hang", detail("the run did not end"))),
    }
}
