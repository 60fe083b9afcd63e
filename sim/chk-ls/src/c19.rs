//! C19: answers of the debug server are matched to their own requests.
use crate::dap::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simdrv::*;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    s: Session,
    cfg: Config,
}
pub struct C19;

impl Check for C19 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn gen(&self, r: &mut Rng, _i: u64, thorough: bool) -> Case {
        let life = r.chance(1, 5);
        let mut s = generate(r, Wish { steps: if thorough { 40 } else { 14 }, faults: true, life, odd: false });
        let mut seen = false;
        s.ops.retain(|o| !matches!(o, Op::Ask(Ask::Launch(_), _)) || !std::mem::replace(&mut seen, true));
        Case { s, cfg: config(r) }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let s = &c.s;
        let o = run(ex, &c.cfg, s);
        let h = match history(&o, s) {
            Ok(h) => h,
            Err(v) => return v,
        };
        if let Some(e) = h.find("BAD").next() {
            return Verdict::bad("bad query", format!("{}\n{}", e.what, h.show()));
        }
        let answers = match h.one_response_each(s) {
            Ok(a) => a,
            Err(v) => return v,
        };
        let asks = |k: i64| match s.ops.get(k as usize - 1) {
            Some(Op::Ask(a, _)) => a,
            _ => unreachable!(),
        };
        // where the first thing went wrong or came to an end
        let late = |n: i64| match s.game.plan.get(&(n as u32)) {
            None => false,
            Some(Reply::Delay(ns)) => *ns > timeout(s.auxtools) / 4,
            Some(_) => true,
        };
        let ready = h.events("initialized").next().map_or(usize::MAX, |e| e.0);
        let trouble = h
            .log
            .iter()
            .find(|e| match e.what.split(' ').next() {
                Some("query") => late(e.arg()),
                Some("exits" | "dead" | "closed" | "hangup" | "end") => true,
                Some("send") => match asks(e.arg()) {
                    Ask::Disconnect(_) => true,
                    Ask::Initialize | Ask::Launch(_) | Ask::Attach | Ask::Unknown | Ask::Source => false,
                    // waits for an answer to what was never asked
                    _ => e.at < ready,
                },
                _ => false,
            })
            .map_or(usize::MAX, |e| e.at);
        let mut used = std::collections::BTreeSet::new();
        for (k, (at, m)) in &answers {
            let a = asks(*k);
            let sent = h.log.iter().position(|e| e.is("send") && e.arg() == *k).unwrap();
            let ok = m["success"] == true;
            let strict = *at <= trouble && h.log[sent].at >= ready && must_succeed(s, a);
            if ok {
                // what must have been asked and answered for this
                let kind = match (s.auxtools, a) {
                    (true, Ask::Continue | Ask::StepIn | Ask::Next | Ask::StepOut) => Some("Continue"),
                    (true, Ask::Pause) => Some("Pause"),
                    (true, Ask::ConfigurationDone) => Some("Configured"),
                    (true, Ask::Threads) => Some("Stacks"),
                    (false, Ask::ConfigurationDone) => Some("get source"),
                    _ => None,
                };
                if let Some(kind) = kind {
                    let found = h.log[sent..].iter().filter(|e| e.is("query") && e.what.split(' ').skip(3).collect::<Vec<_>>().join(" ").starts_with(kind)).find(|q| {
                        let n = q.arg();
                        !used.contains(&n) && h.find("reply").any(|e| e.arg() == n && e.at < *at)
                    });
                    match found {
                        Some(q) => used.insert(q.arg()),
                        None => return Verdict::bad(format!("{} succeeded by itself", a.command()), format!("request {k}\n{}", h.show())),
                    };
                }
                if let Err(e) = judge_answer(s, &h, *k, a, &m["body"], *at, sent, strict) {
                    return Verdict::bad(format!("wrong answer to {}", a.command()), format!("request {k}: {e}\n{m}\n{}", h.show()));
                }
                ex.probe("good_answer");
            } else {
                let msg = m["message"].as_str().unwrap_or("");
                if msg.contains("time") {
                    ex.probe("timed_out");
                }
                if strict {
                    return Verdict::bad(format!("{} failed", a.command()), format!("request {k}: {msg}\n{}", h.show()));
                }
            }
        }
        // the client knows when it is over
        if ready != usize::MAX && h.log.iter().take_while(|e| !e.is("end")).any(|e| e.is("closed")) && h.has("end") && h.events("terminated").next().is_none() {
            return Verdict::bad("termination not reported", h.show());
        }
        if h.log.iter().any(|e| e.is("reply") && late(e.arg())) {
            ex.probe("late_reply");
        }
        if h.has("connected") {
            ex.probe(if s.auxtools { "auxtools_connected" } else { "extools_connected" });
        }
        for (n, p) in &s.game.plan {
            if h.find("query").any(|e| e.arg() == *n as i64) {
                ex.probe(match p {
                    Reply::Delay(_) => "delayed",
                    Reply::Never => "never",
                    Reply::Close => "closed",
                    Reply::Reset => "reset",
                    Reply::Torn(_) => "torn",
                    Reply::Garbled => "garbled",
                    Reply::Bye => "bye",
                    Reply::Exit(_) => "exit",
                });
            }
        }
        Verdict::Ok
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        shrink(&c.s).into_iter().map(|s| Case { s, cfg: c.cfg.clone() }).collect()
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (9000, 300000)
    }
    fn rule(&self) -> String {
        "one case = one debugging session against a debug server which answers late, never, in part or hangs up; distinct = distinct traces of cases with an injected variation or a context switch".into()
    }
    fn components(&self) -> Value {
        crate::c17::components()
    }
}

/// Requests which succeed as long as the debug server does its part.
fn must_succeed(s: &Session, a: &Ask) -> bool {
    match a {
        Ask::Continue | Ask::StepIn | Ask::Next | Ask::StepOut | Ask::Pause => true,
        Ask::SetExceptionBreakpoints(_) | Ask::ConfigurationDone | Ask::Threads | Ask::ExceptionInfo => true,
        // the language server knows the environment file by another name
        Ask::SetBreakpoints(f, _) => !s.tcp || FILES[f % FILES.len()].0 != "test.dme",
        Ask::SetFunctionBreakpoints(_) => true,
        Ask::Evaluate(_) | Ask::Scopes(_) | Ask::StackTrace(_) => s.auxtools,
        Ask::Variables(n, _) => s.auxtools || *n < 2,
        Ask::Disassemble => !s.auxtools,
        _ => false,
    }
}

/// Is this the answer to this request?
fn judge_answer(s: &Session, h: &History, k: i64, a: &Ask, b: &Value, at: usize, sent: usize, strict: bool) -> Result<(), String> {
    let same = |what: &str, have: &Value, want: Value| if *have == want { Ok(()) } else { Err(format!("{what}: {have} instead of {want}")) };
    let list = |what: &str| b[what].as_array().cloned().ok_or(format!("no {what}"));
    // call stacks which had been sent
    let known = |text: &str| -> Result<u32, String> {
        let n: u32 = text.split("cs").nth(1).and_then(|t| t.split(|c: char| !c.is_ascii_digit()).next()).and_then(|n| n.parse().ok()).ok_or(format!("what is {text}?"))?;
        if h.find("stack").any(|e| e.arg() == n as i64 && e.at < at) {
            Ok(n)
        } else {
            Err(format!("stack {n} had not been sent"))
        }
    };
    match (s.auxtools, a) {
        (_, Ask::SetBreakpoints(f, lines)) => {
            let v = list("breakpoints")?;
            if v.len() != lines.len() {
                return Err("another number of breakpoints".into());
            }
            for (l, v) in lines.iter().zip(v) {
                let p = proc_at(FILES[f % FILES.len()].0, *l);
                let want = p.map_or(false, |p| has_code(p, *l) && !(s.auxtools && failing(p)));
                if !strict && v["message"] == "Debugging hooks not available" {
                    continue;
                }
                same(&format!("line {l} verified"), &v["verified"], json!(want))?;
                if want {
                    same(&format!("line {l}"), &v["line"], json!(l))?;
                }
            }
        },
        (_, Ask::SetFunctionBreakpoints(n)) => {
            let v = list("breakpoints")?;
            if v.len() != *n as usize {
                return Err("another number of breakpoints".into());
            }
            for (i, v) in v.iter().enumerate() {
                if !strict && v["message"] == "Debugging hooks not available" {
                    continue;
                }
                let f = function(s.auxtools, k, i as u32);
                let line = if s.auxtools {
                    (!failing(&f)).then_some(f.split('#').next().unwrap().len() as i64)
                } else {
                    Some(function_line(&f))
                };
                same(&format!("{f} verified"), &v["verified"], json!(line.is_some()))?;
                if let Some(l) = line {
                    same(&f, &v["line"], json!(l))?;
                }
            }
        },
        (true, Ask::Evaluate(frame)) => {
            let f = frame.then_some(k as u32);
            same("result", &b["result"], json!(format!("e{k} in {f:?} {:?}", Some("watch"))))?;
            same("reference", &b["variablesReference"], json!(f.map_or(0, |f| f + 7)))?;
        },
        (true, Ask::Variables(..)) => {
            let n = 1000 + k;
            let want: Vec<Value> = (0..3).map(|i| json!([if i == 0 { format!("v{n}") } else { format!("v{n} #{i}") }, format!("{i} of {n}"), if i > 0 { n + i } else { 0 }])).collect();
            let have: Vec<Value> = list("variables")?.iter().map(|v| json!([v["name"], v["value"], v["variablesReference"]])).collect();
            same("variables", &json!(have), json!(want))?;
        },
        (true, Ask::Scopes(_)) => {
            let f = 1000 + k;
            let mut want = vec![json!(["Locals", f * 10 + 2]), json!(["Arguments", f * 10 + 1])];
            if f % 2 == 0 {
                want.push(json!(["Globals", f * 10 + 3]));
            }
            let have: Vec<Value> = list("scopes")?.iter().map(|v| json!([v["name"], v["variablesReference"]])).collect();
            same("scopes", &json!(have), json!(want))?;
        },
        (true, Ask::StackTrace(_)) => {
            let t = 1000 + k;
            let want: Vec<Value> = (0..2)
                .map(|i| (i, CALLED[(t + i) as usize % CALLED.len()]))
                .map(|(i, p)| json!([p.0, t * 10 + i, t + 20, p.2]))
                .collect();
            // where the project is, and how its environment is called, differs
            let file = |v: &Value| v.as_str().and_then(|v| FILES.iter().find(|f| v.ends_with(f.0))).map(|f| f.0);
            let have: Vec<Value> = list("stackFrames")?.iter().map(|v| json!([v["name"], v["id"], v["line"], file(&v["source"]["path"])])).collect();
            same("frames", &json!(have), json!(want))?;
            same("total", &b["totalFrames"], json!(t * 3 + 1))?;
        },
        (true, Ask::Threads) => {
            let earlier = h.log[..sent].iter().filter(|e| e.is("query") && e.what.ends_with(" Stacks")).count() as i64;
            let mut tag = None;
            for t in list("threads")? {
                let n: i64 = t["name"].as_str().and_then(|n| n.split(' ').nth(1)?.parse().ok()).ok_or(format!("what is {t}?"))?;
                if n <= earlier || tag.map_or(false, |t| t != n) {
                    return Err(format!("list {n}, but {earlier} were given before"));
                }
                tag = Some(n);
            }
        },
        (false, Ask::Threads) => {
            let mut tag = None;
            for t in list("threads")? {
                let name = t["name"].as_str().unwrap_or("");
                if name == "Main" {
                    continue;
                }
                let n = known(name)?;
                if tag.map_or(false, |t| t != n) {
                    return Err("mixed lists".into());
                }
                tag = Some(n);
            }
        },
        (false, Ask::StackTrace(t)) => {
            let mut tag = None;
            for (i, f) in list("stackFrames")?.iter().enumerate() {
                let n = known(f["name"].as_str().unwrap_or(""))?;
                if tag.map_or(false, |t| t != n) {
                    return Err("mixed stacks".into());
                }
                tag = Some(n);
                let p = format!("/proc/cs{n}x{t}x{i}");
                same("frame", &f["name"], json!(p))?;
                same("line", &f["line"], json!(line_at(&format!("{p}#{}", i % 2), stack_offset(n, *t, i as u32))))?;
            }
        },
        (false, Ask::Variables(n @ (0 | 1), _)) => {
            let r = if *n == 0 { 0x0f_000000 + k } else { 0x02_000000 + k };
            let want = match n {
                0 if r % 2 == 0 => json!([["[1]", format!("\"l{r}\"")]]),
                0 => json!([["keys[1]", format!("\"l{r}\"")], ["vals[1]", "5"]]),
                _ => json!([["field", format!("\"f{r}\"")], ["other", format!("[0x{:08x}]", r + 1)]]),
            };
            let have: Vec<Value> = list("variables")?.iter().map(|v| json!([v["name"], v["value"]])).collect();
            same("variables", &json!(have), want)?;
        },
        (false, Ask::Variables(_, _)) => {
            let mut tag = None;
            for v in list("variables")? {
                let text = v["value"].as_str().unwrap_or("");
                if !text.contains("cs") {
                    continue;
                }
                let n = known(text)?;
                if tag.map_or(false, |t| t != n) {
                    return Err("mixed stacks".into());
                }
                tag = Some(n);
            }
        },
        (false, Ask::Evaluate(_)) => {
            let text = b["result"].as_str().unwrap_or("");
            let fits = h.find("stack").filter(|e| e.at < at).any(|e| text == disassembly(&format!("/proc/cs{}x0x0#0", e.arg())));
            if !fits {
                return Err("the disassembly of something else".into());
            }
        },
        (false, Ask::Disassemble) => {
            let p = disassembled(k);
            let want: Vec<Value> = (1..40).filter(|&l| has_code(&p, l)).map(|l| json!(format!("{p}@{}", offset_of(&p, l)))).collect();
            let have: Vec<Value> = list("instructions")?.iter().map(|v| v["address"].clone()).collect();
            same("instructions", &json!(have), json!(want))?;
        },
        _ => {},
    }
    Ok(())
}

/// The line the instruction at an offset belongs to.
fn line_at(p: &str, offset: u32) -> u32 {
    (1..40).filter(|&l| has_code(p, l)).find(|&l| offset_of(p, l) >= offset).unwrap_or(0)
}
fn failing(p: &str) -> bool {
    hash(p) % 7 == 3
}
fn disassembly(p: &str) -> String {
    (1..40).filter(|&l| has_code(p, l)).map(|l| format!("{:#8X}  {}  DBG LINENO Line number: {l}\n", offset_of(p, l), bytes_of(p))).collect()
}
