//! The debug adapter as a whole program; the environment is a debugger front
//! end, a game process and the debug server inside that process.
use crate::lsp::{frame, frames};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simdrv::*;
use std::collections::BTreeMap;

pub const FOREVER: u64 = 1 << 60;
const HOUR: u64 = 3_600_000_000_000;
/// How long the front end waits for a response; longer than any time-out of the adapter.
const PATIENCE: u64 = 600_000_000_000;
pub const ATTACH_PORT: u16 = 2448;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Ask {
    Initialize,
    Launch(bool),
    Attach,
    Disconnect(Option<bool>),
    ConfigurationDone,
    Threads,
    /// file, lines
    SetBreakpoints(usize, Vec<u32>),
    SetFunctionBreakpoints(u32),
    StackTrace(u32),
    Scopes(u32),
    /// 0: list, 1: datum, 2: frame
    Variables(u32, u32),
    Continue,
    StepIn,
    Next,
    StepOut,
    Pause,
    SetExceptionBreakpoints(bool),
    ExceptionInfo,
    Evaluate(bool),
    Source,
    Disassemble,
    Unknown,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// A request; wait for its response before going on?
    Ask(Ask, bool),
    Pause(u64),
    Settle,
    /// Wait for this many `initialized` events, for at most some time.
    Initialized(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Reply {
    Delay(u64),
    Never,
    /// Hang up instead of answering.
    Close,
    Reset,
    /// Hang up amid the answer.
    Torn(u32),
    /// An answer which makes no sense.
    Garbled,
    /// The server says good-bye.
    Bye,
    Exit(i32),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Chat {
    Note,
    Hit(u32),
    Runtime,
    Stack(u32, u32),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Life {
    Sleep(u64),
    Out(u8, String),
    /// Live on until so long after the client has asked to disconnect.
    Upon(u64),
    Exit(i32),
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Game {
    /// Time until the debug server connects (nothing: it never does).
    pub connect: Option<u64>,
    /// Time every answer takes.
    pub delay: u64,
    pub plan: BTreeMap<u32, Reply>,
    pub chat: Vec<(u32, Chat)>,
    /// Pieces in which data is sent, and the time between them.
    pub chunk: u32,
    pub gap: u64,
    pub life: Vec<Life>,
    /// Time between the death of the process and its files being closed.
    pub linger: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Session {
    pub auxtools: bool,
    /// Started by the language server and talked to by TCP.
    pub tcp: bool,
    pub game: Game,
    pub ops: Vec<Op>,
}

impl Ask {
    pub fn command(&self) -> &'static str {
        match self {
            Ask::Initialize => "initialize",
            Ask::Launch(_) => "launch",
            Ask::Attach => "attach",
            Ask::Disconnect(_) => "disconnect",
            Ask::ConfigurationDone => "configurationDone",
            Ask::Threads => "threads",
            Ask::SetBreakpoints(..) => "setBreakpoints",
            Ask::SetFunctionBreakpoints(_) => "setFunctionBreakpoints",
            Ask::StackTrace(_) => "stackTrace",
            Ask::Scopes(_) => "scopes",
            Ask::Variables(..) => "variables",
            Ask::Continue => "continue",
            Ask::StepIn => "stepIn",
            Ask::Next => "next",
            Ask::StepOut => "stepOut",
            Ask::Pause => "pause",
            Ask::SetExceptionBreakpoints(_) => "setExceptionBreakpoints",
            Ask::ExceptionInfo => "exceptionInfo",
            Ask::Evaluate(_) => "evaluate",
            Ask::Source => "source",
            Ask::Disassemble => "disassemble",
            Ask::Unknown => "restartFrame",
        }
    }
    /// Arguments; what can be is made unique by the number of the request.
    pub fn arguments(&self, k: i64, s: &Session) -> Value {
        match self {
            Ask::Initialize => json!({"adapterID": "byond", "clientID": "sim", "linesStartAt1": true, "supportsVariableType": true}),
            Ask::Launch(debug) => json!({"dmb": "/w/proj/test.dmb", "noDebug": !debug, "name": "x", "request": "launch", "type": "byond"}),
            Ask::Attach => json!({"port": ATTACH_PORT}),
            Ask::Disconnect(None) => json!({}),
            Ask::Disconnect(Some(t)) => json!({"terminateDebuggee": t}),
            Ask::SetBreakpoints(f, l) => {
                let f = FILES[f % FILES.len()].0;
                let path = if s.tcp { format!("/w/proj/{f}") } else { f.to_owned() };
                json!({"source": {"path": path}, "breakpoints": l.iter().map(|l| json!({"line": l})).collect::<Vec<_>>()})
            },
            Ask::SetFunctionBreakpoints(n) => {
                json!({"breakpoints": (0..*n).map(|i| json!({"name": function(s.auxtools, k, i)})).collect::<Vec<_>>()})
            },
            Ask::StackTrace(t) => json!({"threadId": if s.auxtools { 1000 + k } else { *t as i64 }, "startFrame": 0, "levels": 20}),
            Ask::Scopes(f) => json!({"frameId": if s.auxtools { 1000 + k } else { *f as i64 }}),
            Ask::Variables(kind, f) => json!({"variablesReference": match (s.auxtools, kind) {
                (true, _) => 1000 + k,
                (false, 0) => 0x0f_000000 + k,
                (false, 1) => 0x02_000000 + k,
                (false, _) => *f as i64 + 1,
            }}),
            Ask::Continue | Ask::StepIn | Ask::Next | Ask::StepOut | Ask::Pause | Ask::ExceptionInfo => json!({"threadId": 0}),
            Ask::SetExceptionBreakpoints(b) => json!({"filters": if *b { vec!["runtimes"] } else { vec![] }}),
            Ask::Evaluate(frame) => {
                let mut v = json!({"expression": if s.auxtools { format!("e{k}") } else { "#dis".into() }, "context": "watch"});
                if *frame {
                    v["frameId"] = json!(if s.auxtools { k } else { 0 });
                }
                v
            },
            Ask::Source => json!({"sourceReference": 1, "source": {"sourceReference": 1}}),
            Ask::Disassemble => json!({"memoryReference": format!("{}@0", disassembled(k)), "instructionCount": 10}),
            Ask::ConfigurationDone | Ask::Threads | Ask::Unknown => Value::Null,
        }
    }
}

pub fn function(auxtools: bool, k: i64, i: u32) -> String {
    if auxtools {
        format!("/proc/f{k}x{i}#{i}")
    } else {
        FUNCTIONS[(k as usize + i as usize) % FUNCTIONS.len()].0.to_owned()
    }
}
/// Procs of the project: (name, line)
const FUNCTIONS: &[(&str, i64)] = &[("/datum/a/proc/p0", 4), ("/datum/a/proc/p1", 7), ("/gp", 1), ("/datum/b/p0#0", 2), ("/datum/a/p0#1", 8)];
/// What request `k` wants disassembled.
pub fn disassembled(k: i64) -> String {
    format!("/proc/d{}#{}", k % 3, k / 3 % 3)
}
pub fn function_line(name: &str) -> i64 {
    FUNCTIONS.iter().find(|f| f.0 == name).map_or(-1, |f| f.1)
}
/// The proc which the code on this line belongs to.
pub fn proc_at(file: &str, line: u32) -> Option<&'static str> {
    let l: &[(u32, &str)] = match file {
        "test.dme" => &[(1, "/gp#0")],
        "code/a.dm" => &[(4, "/datum/a/p0#0"), (7, "/datum/a/p1#0")],
        _ => &[(2, "/datum/b/p0#0"), (4, "/datum/a/b/p1#0"), (8, "/datum/a/p0#1")],
    };
    l.iter().rev().find(|p| p.0 <= line).map(|p| p.1)
}
pub const FILES: &[(&str, &str)] = &[
    ("test.dme", "/proc/gp(x)\n\tvar/y = x\n\treturn y + 1\n#include \"code/a.dm\"\n#include \"code/b.dm\"\n"),
    ("code/a.dm", "/datum/a\n\tvar/v = 1\n\n\tproc/p0(a, b)\n\t\tv = a\n\t\treturn b\n\tproc/p1()\n\t\tfor(var/i in 1 to 10)\n\t\t\tp0(i)\n\t\treturn null\n"),
    ("code/b.dm", "/datum/a/b\n/datum/b/proc/p0()\n\treturn 2\n/datum/a/b/p1()\n\t..()\n\tgp(3)\n\treturn 4\n/datum/a/p0(a, b)\n\treturn ..()\n"),
];
/// The procs on the stacks of the auxtools debuggee: name, override, file.
pub const CALLED: &[(&str, u32, Option<&str>)] = &[
    ("/datum/a/proc/p0", 0, Some("code/a.dm")),
    ("/datum/a/proc/p0", 1, Some("code/b.dm")),
    ("/datum/a/b/p1", 0, Some("code/b.dm")),
    ("/gp", 0, Some("test.dme")),
    ("/nowhere", 0, None),
];

// ---------------------------------------------------------------------------
// What the debug server answers: functions of the query.

/// Procs are named `path#override` here.
pub fn hash(s: &str) -> u32 {
    s.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) % 100
}
/// Whether there is code on this line of this proc.
pub fn has_code(proc: &str, line: u32) -> bool {
    (line + hash(proc)) % 4 != 0
}
/// The bytes of every instruction of a proc.
pub fn bytes_of(proc: &str) -> String {
    "00".repeat(1 + hash(proc) as usize % 4 * 90)
}
pub fn offset_of(proc: &str, line: u32) -> u32 {
    line * 100 + hash(proc)
}

mod aux {
    use serde::{Deserialize, Serialize};
    #[derive(Serialize, Deserialize, Debug)]
    pub enum Request {
        Disconnect,
        Configured,
        StdDef,
        Eval { frame_id: Option<u32>, command: String, context: Option<String> },
        CurrentInstruction { frame_id: u32 },
        BreakpointSet { instruction: InstructionRef, condition: Option<String> },
        BreakpointUnset { instruction: InstructionRef },
        CatchRuntimes { should_catch: bool },
        LineNumber { proc: ProcRef, offset: u32 },
        Offset { proc: ProcRef, line: u32 },
        Stacks,
        StackFrames { stack_id: u32, start_frame: Option<u32>, count: Option<u32> },
        Scopes { frame_id: u32 },
        Variables { vars: i32 },
        Continue { kind: ContinueKind },
        Pause,
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub enum Response {
        Ack,
        StdDef(Option<String>),
        Eval(EvalResponse),
        CurrentInstruction(Option<InstructionRef>),
        BreakpointSet { result: BreakpointSetResult },
        BreakpointUnset { success: bool },
        LineNumber { line: Option<u32> },
        Offset { offset: Option<u32> },
        Stacks { stacks: Vec<Stack> },
        StackFrames { frames: Vec<StackFrame>, total_count: u32 },
        Scopes { arguments: Option<i32>, locals: Option<i32>, globals: Option<i32> },
        Variables { vars: Vec<Variable> },
        Disconnect,
        Notification { message: String },
        BreakpointHit { reason: BreakpointReason },
    }
    #[derive(Serialize, Deserialize, Debug, Clone)]
    pub struct ProcRef {
        pub path: String,
        pub override_id: u32,
    }
    impl ProcRef {
        pub fn name(&self) -> String {
            format!("{}#{}", self.path, self.override_id)
        }
    }
    #[derive(Serialize, Deserialize, Debug, Clone)]
    pub struct InstructionRef {
        pub proc: ProcRef,
        pub offset: u32,
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub enum BreakpointReason {
        Breakpoint,
        Step,
        Pause,
        Runtime(String),
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub enum ContinueKind {
        Continue,
        StepOver { stack_id: u32 },
        StepInto { stack_id: u32 },
        StepOut { stack_id: u32 },
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub struct Stack {
        pub id: u32,
        pub name: String,
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub struct StackFrame {
        pub id: u32,
        pub instruction: InstructionRef,
        pub line: Option<u32>,
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub enum BreakpointSetResult {
        Success { line: Option<u32> },
        Failed,
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub struct Variable {
        pub name: String,
        pub value: String,
        pub variables: Option<i32>,
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub struct EvalResponse {
        pub value: String,
        pub variables: Option<i32>,
    }
}

fn answer_aux(q: &aux::Request, n: u32, stacks: &mut u32) -> Option<aux::Response> {
    use aux::*;
    Some(match q {
        Request::Disconnect | Request::CatchRuntimes { .. } => return None,
        Request::Configured | Request::Continue { .. } | Request::Pause => Response::Ack,
        Request::StdDef => Response::StdDef(Some(format!("/proc/stddef{n}()\n\treturn 1\n"))),
        Request::Eval { frame_id, command, context } => {
            Response::Eval(EvalResponse { value: format!("{command} in {frame_id:?} {context:?}"), variables: frame_id.map(|f| f as i32 + 7) })
        },
        Request::CurrentInstruction { .. } => Response::CurrentInstruction(None),
        Request::BreakpointSet { instruction: i, .. } => {
            let p = i.proc.name();
            if i.offset != 0 && i.offset % 100 != hash(&p) {
                log(&format!("BAD breakpoint {i:?}"));
            }
            Response::BreakpointSet {
                result: if hash(&p) % 7 == 3 {
                    BreakpointSetResult::Failed
                } else {
                    BreakpointSetResult::Success { line: Some(if i.offset == 0 { i.proc.path.len() as u32 } else { i.offset / 100 }) }
                },
            }
        },
        Request::BreakpointUnset { .. } => Response::BreakpointUnset { success: true },
        Request::LineNumber { offset, .. } => Response::LineNumber { line: Some(offset / 100) },
        Request::Offset { proc, line } => Response::Offset { offset: has_code(&proc.name(), *line).then(|| offset_of(&proc.name(), *line)) },
        Request::Stacks => {
            *stacks += 1;
            let mut v = vec![Stack { id: 0, name: format!("main {stacks}") }];
            for i in 1..=*stacks % 3 {
                v.push(Stack { id: i * 3, name: format!("sleeping {stacks}") });
            }
            Response::Stacks { stacks: v }
        },
        Request::StackFrames { stack_id, start_frame, count } => Response::StackFrames {
            frames: (0..2)
                .map(|i| (i, CALLED[(stack_id + i) as usize % CALLED.len()]))
                .map(|(i, p)| StackFrame {
                    id: stack_id * 10 + i,
                    instruction: InstructionRef { proc: ProcRef { path: p.0.into(), override_id: p.1 }, offset: 5 },
                    line: Some(stack_id + start_frame.unwrap_or(0) + count.unwrap_or(0)),
                })
                .collect(),
            total_count: stack_id * 3 + 1,
        },
        Request::Scopes { frame_id } => {
            let f = *frame_id as i32 * 10;
            Response::Scopes { arguments: Some(f + 1), locals: Some(f + 2), globals: (frame_id % 2 == 0).then_some(f + 3) }
        },
        Request::Variables { vars } => Response::Variables {
            vars: (0..3).map(|i| Variable { name: format!("v{vars}"), value: format!("{i} of {vars}"), variables: (i > 0).then_some(vars + i) }).collect(),
        },
    })
}

pub fn stack_offset(n: u32, t: u32, i: u32) -> u32 {
    (n + t * 3 + i) % 5 * 230 + 3
}
fn stack_json(n: u32, threads: u32, depth: u32) -> Value {
    let frame = |t: u32, i: u32| {
        json!({
            "proc": format!("/proc/cs{n}x{t}x{i}"), "override_id": i % 2, "offset": stack_offset(n, t, i),
            "usr": {"literal": {"ref": 0}}, "src": {"literal": {"number": n}}, "dot": {"literal": {"number": n}},
            "locals": [{"literal": {"string": format!("cs{n}")}}], "args": [{"literal": {"typepath": format!("/cs{n}")}, "has_vars": true}],
            "local_names": ["l"], "arg_names": ["a"],
        })
    };
    let stack = |t: u32| (0..depth).map(|i| frame(t, i)).collect::<Vec<_>>();
    json!({"type": "call stack", "content": {"current": stack(0), "suspended": (1..threads.max(1)).map(stack).collect::<Vec<_>>()}})
}

fn ext_proc(c: &Value) -> String {
    format!("{}#{}", c["proc"].as_str().unwrap_or(""), c["override_id"])
}

fn answer_ext(q: &Value, n: u32) -> Option<Value> {
    let c = &q["content"];
    let ty = q["type"].as_str().unwrap_or("");
    let content = match ty {
        "proc disassembly" => {
            let p = &ext_proc(c);
            let mut l: Vec<Value> = vec![];
            for line in 1..40 {
                if has_code(p, line) {
                    l.push(json!({"offset": offset_of(p, line), "bytes": bytes_of(p), "mnemonic": "DBG LINENO", "comment": format!("Line number: {line}"), "possible_jumps": []}));
                }
            }
            json!({"proc": c["proc"], "override_id": c["override_id"], "instructions": l})
        },
        "breakpoint set" => {
            let (p, o) = (ext_proc(c), c["offset"].as_u64().unwrap_or(0) as u32);
            if o != 0 && o % 100 != hash(&p) {
                log(&format!("BAD breakpoint {c}"));
            }
            c.clone()
        },
        "breakpoint unset" | "break on runtimes" => c.clone(),
        "get all fields" => {
            let r = c.as_i64().unwrap_or(0);
            json!({"field": {"literal": {"string": format!("f{r}")}, "has_vars": false}, "other": {"literal": {"ref": r + 1}, "has_vars": true}})
        },
        "get list contents" => {
            let r = c.as_i64().unwrap_or(0);
            if r % 2 == 0 {
                json!({"linear": [{"literal": {"string": format!("l{r}")}}]})
            } else {
                json!({"associative": [[{"literal": {"string": format!("l{r}")}}, {"literal": {"number": 5}}]]})
            }
        },
        "get source" => json!(format!("/proc/stddef{n}()\n\treturn 1\n")),
        _ => return None,
    };
    Some(json!({"type": ty, "content": content}))
}

// ---------------------------------------------------------------------------
// The environment

#[derive(Default)]
struct State {
    inbox: Vec<u8>,
    parsed: usize,
    responses: BTreeMap<i64, u64>,
    lsp_inbox: Vec<u8>,
    lsp_parsed: usize,
    lsp: Vec<Value>,
    inits: u64,
    leaving: bool,
    changed: usize,
    tcp: bool,
    stacks: u32,
    callstacks: u32,
    queries: u32,
    log: String,
    socks: BTreeMap<i32, Vec<i32>>,
}
static mut STATE: Option<State> = None;
#[allow(static_mut_refs)]
fn st() -> &'static mut State {
    unsafe { STATE.get_or_insert_with(State::default) }
}
fn position() -> usize {
    if st().tcp {
        simos::captured_len()
    } else {
        simos::stdout_len()
    }
}
/// Note something, together with how much the adapter had sent by then.
fn log(s: &str) {
    let line = format!("{} {s}\n", position());
    st().log.push_str(&line);
    simos::custom("log", st().log.clone().into_bytes());
}

fn pump(buf: &mut Vec<u8>, parsed: &mut usize, mut f: impl FnMut(Value)) {
    let (done, msgs) = match frames(&buf[*parsed..]) {
        Ok(m) => (buf.len() - *parsed, m),
        Err((at, _, _)) => (at, frames(&buf[*parsed..*parsed + at]).unwrap_or_default()),
    };
    *parsed += done;
    for (_, m) in msgs {
        f(m);
    }
}
fn received(v: Value) {
    let s = st();
    if v["type"] == "response" {
        *s.responses.entry(v["request_seq"].as_i64().unwrap_or(-1)).or_insert(0) += 1;
    } else if v["event"] == "initialized" {
        s.inits += 1;
    }
    simos::bump(s.changed);
}
fn reader(fd: i32) {
    let mut buf = vec![0; 1 << 16];
    loop {
        let n = simos::sys_read(fd, &mut buf);
        if n <= 0 {
            break;
        }
        let s = st();
        s.inbox.extend_from_slice(&buf[..n as usize]);
        pump(&mut s.inbox, &mut s.parsed, received);
    }
}
fn lsp_reader(fd: i32) {
    let mut buf = vec![0; 1 << 16];
    loop {
        let n = simos::sys_read(fd, &mut buf);
        if n <= 0 {
            break;
        }
        let s = st();
        s.lsp_inbox.extend_from_slice(&buf[..n as usize]);
        pump(&mut s.lsp_inbox, &mut s.lsp_parsed, |v| {
            st().lsp.push(v);
            simos::bump(st().changed);
        });
    }
}
fn wait_for(ns: u64, f: impl Fn() -> bool) -> bool {
    let until = simos::now() + ns;
    loop {
        let seen = simos::counter(st().changed);
        if f() {
            return true;
        }
        let now = simos::now();
        if now >= until {
            return false;
        }
        simos::wait_changed(st().changed, seen, until - now);
    }
}

fn send_pieces(g: &Game, fd: i32, b: &[u8]) -> bool {
    for p in b.chunks(if g.chunk == 0 { b.len().max(1) } else { g.chunk as usize }) {
        if !simos::sys_write_all(fd, p) {
            return false;
        }
        if g.gap > 0 {
            simos::sleep_ns(g.gap);
        }
    }
    true
}
fn read_exact(fd: i32, b: &mut [u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        let n = simos::sys_read(fd, &mut b[at..]);
        if n <= 0 {
            return false;
        }
        at += n as usize;
    }
    true
}
fn frame_aux(r: &aux::Response) -> Vec<u8> {
    let b = bincode::serialize(r).unwrap();
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(&b);
    v
}
fn frame_ext(v: &Value) -> Vec<u8> {
    let mut b = serde_json::to_vec(v).unwrap();
    b.push(0);
    b
}

/// Talk to the adapter until the connection ends.
fn debug_server(g: &Game, auxtools: bool, fd: i32, pid: i32) {
    let _ = serve(g, auxtools, fd, pid);
    log("closed");
    simos::sys_close(fd);
}
fn serve(g: &Game, auxtools: bool, fd: i32, pid: i32) -> Option<()> {
    let mut pending: Vec<u8> = vec![];
    loop {
        // the next query
        let (desc, reply, hits) = if auxtools {
            let mut len = [0; 4];
            if !read_exact(fd, &mut len) {
                return None;
            }
            let n = u32::from_le_bytes(len) as usize;
            if n > 1 << 20 {
                log("BAD length of a query");
                return None;
            }
            let mut b = vec![0; n];
            if !read_exact(fd, &mut b) {
                return None;
            }
            let Ok(q) = bincode::deserialize::<aux::Request>(&b) else {
                log("BAD query");
                return None;
            };
            let stop = matches!(q, aux::Request::Continue { .. } | aux::Request::Pause);
            (format!("{q:?}"), answer_aux(&q, st().queries + 1, &mut st().stacks).map(|r| frame_aux(&r)), stop)
        } else {
            loop {
                if let Some(n) = pending.iter().position(|&b| b == 0) {
                    let q: Vec<u8> = pending.drain(..=n).collect();
                    let Ok(q) = serde_json::from_slice::<Value>(&q[..n]) else {
                        log("BAD query");
                        return None;
                    };
                    let stop = q["type"].as_str().map_or(false, |t| t.starts_with("breakpoint step") || t == "breakpoint pause");
                    break (format!("{} {}", q["type"].as_str().unwrap_or(""), q["content"]), answer_ext(&q, st().queries + 1).map(|v| frame_ext(&v)), stop);
                }
                let mut buf = [0; 4096];
                let n = simos::sys_read(fd, &mut buf);
                if n <= 0 {
                    return None;
                }
                pending.extend_from_slice(&buf[..n as usize]);
            }
        };
        let n = st().queries;
        st().queries += 1;
        log(&format!("query {n} {} {desc}", if reply.is_some() { "ask" } else { "tell" }));
        for (_, c) in g.chat.iter().filter(|c| c.0 == n) {
            let b = chat(auxtools, c);
            if !send_pieces(g, fd, &b) {
                return None;
            }
        }
        let mut wait = g.delay;
        match g.plan.get(&n) {
            None => {},
            Some(Reply::Delay(ns)) => wait = *ns,
            Some(Reply::Never) => continue,
            Some(Reply::Close) => return None,
            Some(Reply::Reset) => {
                simos::sys_reset(fd);
                return None;
            },
            Some(Reply::Torn(k)) => {
                if let Some(b) = reply {
                    let k = (*k as usize).min(b.len() - 1);
                    simos::sys_write_all(fd, &b[..k]);
                }
                return None;
            },
            Some(Reply::Garbled) => {
                if let Some(b) = reply {
                    let b = if auxtools { vec![3, 0, 0, 0, 255, 255, 255] } else { frame_ext(&json!({"type": serde_json::from_slice::<Value>(&b[..b.len() - 1]).unwrap()["type"], "content": 0.5})) };
                    log(&format!("reply {n}"));
                    if !send_pieces(g, fd, &b) {
                        return None;
                    }
                }
                continue;
            },
            Some(Reply::Bye) => {
                if auxtools {
                    simos::sys_write_all(fd, &frame_aux(&aux::Response::Disconnect));
                }
                return None;
            },
            Some(Reply::Exit(c)) => {
                log(&format!("exits {c}"));
                if pid != 0 {
                    simos::kill_child(pid, *c);
                }
                return None;
            },
        }
        if let Some(b) = reply {
            if wait > 0 {
                simos::sleep_ns(wait);
            }
            // what is on its way is as good as there
            log(&format!("reply {n}"));
            if !send_pieces(g, fd, &b) {
                return None;
            }
        }
        if hits {
            let b = chat(auxtools, &Chat::Hit(n));
            if !send_pieces(g, fd, &b) {
                return None;
            }
        }
    }
}
fn chat(auxtools: bool, c: &Chat) -> Vec<u8> {
    use aux::{BreakpointReason as B, Response as R};
    match (auxtools, c) {
        (true, Chat::Note) => frame_aux(&R::Notification { message: "hello".into() }),
        (true, Chat::Hit(n)) => frame_aux(&R::BreakpointHit {
            reason: match n % 3 {
                0 => B::Breakpoint,
                1 => B::Step,
                _ => B::Pause,
            },
        }),
        (true, Chat::Runtime | Chat::Stack(..)) => frame_aux(&R::BreakpointHit { reason: B::Runtime("division by zero".into()) }),
        (false, Chat::Note) => frame_ext(&json!({"type": "raw message", "content": "hello"})),
        (false, Chat::Hit(n)) => frame_ext(
            &json!({"type": "breakpoint hit", "content": {"proc": "/proc/x", "override_id": 0, "offset": n, "reason": (["breakpoint opcode", "step", "pause", "else"][*n as usize % 4])}}),
        ),
        (false, Chat::Runtime) => frame_ext(&json!({"type": "runtime", "content": {"proc": "/proc/x", "override_id": 0, "offset": 1, "message": "division by zero"}})),
        (false, Chat::Stack(t, d)) => {
            st().callstacks += 1;
            let n = st().callstacks;
            log(&format!("stack {n}"));
            frame_ext(&stack_json(n, *t, *d))
        },
    }
}

/// A process has been started: bring it to life.
fn game_process(pid: i32, g: Game, auxtools: bool) {
    let [out, err] = simos::child_stdio(pid);
    let port = simos::child_env(pid, if auxtools { "AUXTOOLS_DEBUG_PORT" } else { "EXTOOLS_PORT" }).and_then(|p| p.parse::<u16>().ok());
    log(&format!("spawned {pid}"));
    if let (Some(port), Some(ns)) = (port, g.connect) {
        let g = g.clone();
        simos::spawn_world("debug server", move || {
            simos::sleep_ns(ns);
            let fd = simos::sys_connect(port);
            log(if fd < 0 { "refused" } else { "connected" });
            if fd >= 0 {
                st().socks.entry(pid).or_default().push(fd);
                debug_server(&g, auxtools, fd, pid);
                st().socks.entry(pid).or_default().retain(|&f| f != fd);
            }
        });
    }
    // its life, until it ends or is killed
    let mut dead = false;
    for l in &g.life {
        match l {
            Life::Sleep(ns) => dead = simos::wait_child(pid, Some(*ns)),
            Life::Out(1, t) => drop(simos::sys_write_all(out, t.as_bytes())),
            Life::Out(_, t) => drop(simos::sys_write_all(err, t.as_bytes())),
            Life::Upon(ns) => {
                wait_for(PATIENCE, || st().leaving);
                dead = simos::wait_child(pid, Some(*ns));
            },
            Life::Exit(c) => {
                log(&format!("exits {c}"));
                simos::kill_child(pid, *c);
                dead = true;
            },
        }
        if dead {
            break;
        }
    }
    if !dead {
        simos::wait_child(pid, None);
    }
    log(&format!("dead {pid} {}", simos::child_status(pid).unwrap_or(-1)));
    if g.linger > 0 {
        simos::sleep_ns(g.linger);
    }
    for fd in [out, err] {
        if fd >= 0 {
            simos::sys_close(fd);
        }
    }
    for fd in st().socks.get(&pid).cloned().unwrap_or_default() {
        simos::sys_shutdown(fd);
    }
}

fn front_end(s: &Session, wr: i32) {
    for (i, op) in s.ops.iter().enumerate() {
        match op {
            Op::Ask(a, sync) => {
                let k = i as i64 + 1;
                let mut v = json!({"seq": k, "type": "request", "command": a.command()});
                let args = a.arguments(k, s);
                if !args.is_null() {
                    v["arguments"] = args;
                }
                log(&format!("send {k}"));
                if !simos::sys_write_all(wr, &frame(&v)) {
                    log("hangup");
                    break;
                }
                if matches!(a, Ask::Disconnect(_)) {
                    st().leaving = true;
                    simos::bump(st().changed);
                }
                if *sync && !wait_for(PATIENCE, || st().responses.contains_key(&k)) {
                    log(&format!("timeout {k}"));
                    break;
                }
            },
            Op::Pause(ns) => simos::sleep_ns(*ns),
            Op::Settle => simos::wait_quiet(HOUR),
            Op::Initialized(n) => {
                wait_for(20_000_000_000, || st().inits >= *n);
            },
        }
    }
    simos::wait_quiet(HOUR);
    log("end");
}

fn environment(s: &Session) {
    unsafe { STATE = Some(State::default()) };
    let (wr, rd) = simos::stdio_pipes();
    st().changed = simos::new_counter();
    st().tcp = s.tcp;
    let spawned = simos::new_counter();
    simos::on_spawn(spawned);
    {
        let s = s.clone();
        simos::spawn_world("launcher", move || {
            let mut seen = 0;
            loop {
                simos::wait_changed(spawned, seen as u64, FOREVER);
                for pid in simos::children().into_iter().skip(seen) {
                    seen += 1;
                    let (g, a) = (s.game.clone(), s.auxtools);
                    simos::spawn_world("game", move || game_process(pid, g, a));
                }
            }
        });
    }
    if s.ops.iter().any(|o| matches!(o, Op::Ask(Ask::Attach, _))) && s.game.connect.is_some() {
        let lfd = simos::sys_listen(ATTACH_PORT);
        let s = s.clone();
        simos::spawn_world("standalone debug server", move || loop {
            let fd = simos::sys_accept(lfd);
            if fd < 0 {
                break;
            }
            log("connected");
            debug_server(&s.game, s.auxtools, fd, 0);
        });
    }
    let s = s.clone();
    if !s.tcp {
        simos::spawn_world("reader", move || reader(rd));
        simos::spawn_world("front end", move || {
            front_end(&s, wr);
            simos::sys_close(wr);
        });
        return;
    }
    simos::spawn_world("lsp reader", move || lsp_reader(rd));
    simos::spawn_world("front end", move || {
        let mut ok = true;
        for v in [
            json!({"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": {"capabilities": {}, "rootUri": "file:///w/proj"}}),
            json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}),
            json!({"jsonrpc": "2.0", "id": 2, "method": "experimental/dreammaker/startDebugger", "params": {"dreamseeker_exe": "/opt/byond/dreamseeker", "env": {"A": "b"}}}),
        ] {
            ok &= simos::sys_write_all(wr, &frame(&v));
        }
        ok &= wait_for(PATIENCE, || st().lsp.iter().any(|v| v["id"] == 2));
        let port = st().lsp.iter().find(|v| v["id"] == 2).and_then(|v| v["result"]["port"].as_u64());
        log(&format!("port {port:?} {ok}"));
        if let Some(port) = port {
            let fd = simos::sys_connect(port as u16);
            simos::capture(fd);
            simos::spawn_world("reader", move || reader(fd));
            front_end(&s, fd);
            // no more requests, but what there is to be said is listened to
            simos::sys_shutdown_wr(fd);
            simos::wait_quiet(HOUR);
        }
        for v in [json!({"jsonrpc": "2.0", "id": 3, "method": "shutdown"}), json!({"jsonrpc": "2.0", "method": "exit"})] {
            simos::sys_write_all(wr, &frame(&v));
        }
        simos::sys_close(wr);
    });
}

pub fn run(ex: &mut Exec, cfg: &Config, s: &Session) -> Outcome {
    let args: Vec<String> =
        if s.tcp { vec!["dm-langserver".into()] } else { ["dm-langserver", "--debugger", "--dreamseeker-exe", "/opt/byond/dreamseeker"].map(String::from).to_vec() };
    ex.run(
        cfg,
        &args,
        || {
            for (p, t) in FILES {
                simos::add_file(&format!("/w/proj/{p}"), t.as_bytes());
            }
            let engine = if s.auxtools { "auxtools" } else { "extools" };
            simos::add_file("/w/proj/SpacemanDMM.toml", format!("[debugger]\nengine = \"{engine}\"\n").as_bytes());
            simos::set_cwd("/w/proj");
            environment(s);
        },
        || {
            sim_ls::sim::sim_main();
            0
        },
    )
}

// ---------------------------------------------------------------------------
// The recorded history

#[derive(Debug, Clone)]
pub struct Entry {
    pub at: usize,
    pub what: String,
}
pub struct History {
    /// Messages of the adapter, with the offset at which each ended.
    pub msgs: Vec<(usize, Value)>,
    pub log: Vec<Entry>,
}
impl Entry {
    pub fn is(&self, w: &str) -> bool {
        self.what.split(' ').next() == Some(w)
    }
    pub fn arg(&self) -> i64 {
        self.what.split(' ').nth(1).and_then(|n| n.parse().ok()).unwrap_or(-1)
    }
}

pub fn history(o: &Outcome, s: &Session) -> Result<History, Verdict> {
    if let Some(v) = judge::bad_end(o, true) {
        return Err(v);
    }
    let log: Vec<Entry> = String::from_utf8_lossy(o.get("log").unwrap_or(b""))
        .lines()
        .filter_map(|l| l.split_once(' ').map(|(a, w)| Entry { at: a.parse().unwrap_or(0), what: w.to_owned() }))
        .collect();
    let bytes = if s.tcp { o.get("captured").unwrap_or(b"") } else { &o.stdout[..] };
    let end = log.iter().rev().find(|e| e.is("end")).map_or(0, |e| e.at);
    let msgs = match frames(bytes) {
        Ok(m) => m,
        Err((at, torn, _)) if torn && at >= end => frames(&bytes[..at]).unwrap_or_default(),
        Err(e) => return Err(Verdict::bad("framing", e.2)),
    };
    Ok(History { msgs, log })
}

impl History {
    pub fn find<'a>(&'a self, w: &'a str) -> impl Iterator<Item = &'a Entry> + 'a {
        self.log.iter().filter(move |e| e.is(w))
    }
    pub fn has(&self, w: &str) -> bool {
        self.find(w).next().is_some()
    }
    pub fn events<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a (usize, Value)> + 'a {
        self.msgs.iter().filter(move |m| m.1["type"] == "event" && m.1["event"] == name)
    }
    /// Whether the session was played to its end.
    pub fn complete(&self) -> bool {
        self.has("end")
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        let mut l = self.log.iter().peekable();
        for (at, m) in &self.msgs {
            while let Some(e) = l.peek() {
                if e.at >= *at {
                    break;
                }
                s.push_str(&format!("{} {}\n", e.at, e.what));
                l.next();
            }
            s.push_str(&format!("{at}     {}\n", trunc(&m.to_string(), 400)));
        }
        for e in l {
            s.push_str(&format!("{} {}\n", e.at, e.what));
        }
        s
    }
    /// Each request has exactly one response, and nothing else has one.
    pub fn one_response_each(&self, s: &Session) -> Result<BTreeMap<i64, &(usize, Value)>, Verdict> {
        let sent: BTreeMap<i64, ()> = self.find("send").map(|e| (e.arg(), ())).collect();
        let mut got = BTreeMap::new();
        for m in &self.msgs {
            if m.1["type"] != "response" {
                continue;
            }
            let k = m.1["request_seq"].as_i64().unwrap_or(-1);
            if !sent.contains_key(&k) {
                return Err(Verdict::bad("response to nothing", format!("{}\n{}", m.1, self.show())));
            }
            if got.insert(k, m).is_some() {
                return Err(Verdict::bad("two responses", format!("to {k}\n{}", self.show())));
            }
            let Some(Op::Ask(a, _)) = s.ops.get(k as usize - 1) else { continue };
            if m.1["command"] != a.command() {
                return Err(Verdict::bad("response names another command", format!("{}\n{}", m.1, self.show())));
            }
        }
        for k in sent.keys() {
            if !got.contains_key(k) {
                let c = match s.ops.get(*k as usize - 1) {
                    Some(Op::Ask(a, _)) => a.command(),
                    _ => "?",
                };
                return Err(Verdict::bad(format!("no response to {c}"), format!("{k}\n{}", self.show())));
            }
        }
        Ok(got)
    }
}

// ---------------------------------------------------------------------------
// Sessions

/// What may happen in a session.
#[derive(Clone, Copy)]
pub struct Wish {
    pub steps: usize,
    /// Late and missing answers, connections cut.
    pub faults: bool,
    /// The process writes much and may end at any time.
    pub life: bool,
    /// More than one process, requests in unusual places.
    pub odd: bool,
}
pub fn timeout(auxtools: bool) -> u64 {
    if auxtools {
        5_000_000_000
    } else {
        3_000_000_000
    }
}
fn code(r: &mut Rng) -> i32 {
    *r.pick(&[0, 0, 1, 3, 139, 255])
}
fn output(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "x".repeat(1 + r.idx(20000)),
        1 => "no newline".into(),
        2 => "é日本\n\n\r\n\u{1f600}".into(),
        _ => (0..1 + r.idx(6)).map(|i| format!("line {i} \"quoted\" \\ {}\n", r.below(1000))).collect(),
    }
}
fn chatter(r: &mut Rng) -> Chat {
    match r.below(7) {
        0 => Chat::Note,
        1 => Chat::Hit(r.below(8) as u32),
        2 => Chat::Runtime,
        _ => Chat::Stack(1 + r.below(4) as u32, r.below(4) as u32),
    }
}
/// A moment somewhere in a session.
fn moment(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => 1 + r.below(2000),
        1 => 1 + r.below(200_000),
        2 => 1 + r.below(5_000_000),
        _ => 1 + r.below(20_000_000_000),
    }
}
fn ask(r: &mut Rng) -> Ask {
    match r.below(24) {
        0 | 1 => Ask::Threads,
        2 | 3 => Ask::StackTrace(r.below(4) as u32),
        4 | 5 => Ask::Scopes(r.below(8) as u32),
        6..=8 => Ask::Variables(r.below(3) as u32, r.below(8) as u32),
        9..=11 => Ask::Evaluate(r.chance(3, 4)),
        12 | 13 => Ask::SetBreakpoints(r.idx(FILES.len()), (0..r.idx(4)).map(|_| 1 + r.below(12) as u32).collect()),
        14 => Ask::SetFunctionBreakpoints(r.below(3) as u32),
        15 => Ask::Continue,
        16 => r.pick(&[Ask::StepIn, Ask::Next, Ask::StepOut]).clone(),
        17 => Ask::Pause,
        18 => Ask::SetExceptionBreakpoints(r.chance(1, 2)),
        19 => Ask::ExceptionInfo,
        20 => Ask::Source,
        21 => Ask::Disassemble,
        22 => Ask::ConfigurationDone,
        _ => Ask::Unknown,
    }
}
fn pausing(r: &mut Rng, ops: &mut Vec<Op>) {
    match r.below(8) {
        0 => ops.push(Op::Settle),
        1 | 2 => ops.push(Op::Pause(moment(r))),
        _ => {},
    }
}

pub fn generate(r: &mut Rng, w: Wish) -> Session {
    let auxtools = r.chance(1, 2);
    let tcp = r.chance(1, 3);
    let mut ops = vec![];
    let sync = if r.chance(1, 2) { (1, 1) } else { (r.below(4), 4) };
    let t = timeout(auxtools);
    let attach = r.chance(1, 7);
    let mut g = Game {
        connect: if attach || r.chance(14, 15) { Some(r.below(3) * r.below(2_000_000)) } else { None },
        delay: *r.pick(&[0, 0, 0, 500, 20_000, 30_000_000]),
        chunk: *r.pick(&[0, 0, 0, 1, 7, 100]),
        gap: *r.pick(&[0, 0, 300, 10_000]),
        linger: *r.pick(&[0, 0, 1000, 1_000_000]),
        ..Game::default()
    };
    if g.chunk > 0 && g.chunk < 100 && g.gap > 1000 {
        g.gap = 1000;
    }
    let debug = r.chance(if w.life { 3 } else { 9 }, if w.life { 4 } else { 10 });
    if r.chance(14, 15) {
        ops.push(Op::Ask(Ask::Initialize, r.chance(sync.0, sync.1)));
    }
    if w.odd && r.chance(1, 6) {
        ops.push(Op::Ask(ask(r), r.chance(sync.0, sync.1)));
    }
    if attach {
        ops.push(Op::Ask(Ask::Attach, r.chance(3, 4)));
    } else if r.chance(29, 30) {
        ops.push(Op::Ask(Ask::Launch(debug), r.chance(3, 4)));
    }
    if r.chance(11, 12) && (attach || (debug && g.connect.is_some())) {
        ops.push(Op::Initialized(1));
        if r.chance(3, 4) {
            for _ in 0..r.idx(3) {
                let a = Ask::SetBreakpoints(r.idx(FILES.len()), (0..r.idx(4)).map(|_| 1 + r.below(12) as u32).collect());
                ops.push(Op::Ask(a, r.chance(sync.0, sync.1)));
            }
            ops.push(Op::Ask(Ask::SetExceptionBreakpoints(r.chance(1, 2)), r.chance(sync.0, sync.1)));
            ops.push(Op::Ask(Ask::ConfigurationDone, r.chance(sync.0, sync.1)));
        }
    }
    let mut left = false;
    for _ in 0..r.idx(w.steps + 1) {
        pausing(r, &mut ops);
        let a = if !left && r.chance(1, 20) {
            left = true;
            Ask::Disconnect(*r.pick(&[None, Some(true), Some(false)]))
        } else if w.odd && r.chance(1, 30) {
            r.pick(&[Ask::Launch(true), Ask::Launch(false), Ask::Initialize, Ask::Disconnect(None)]).clone()
        } else {
            ask(r)
        };
        ops.push(Op::Ask(a, r.chance(sync.0, sync.1)));
    }
    if !left && r.chance(3, 5) {
        pausing(r, &mut ops);
        ops.push(Op::Ask(Ask::Disconnect(*r.pick(&[None, Some(true), Some(false)])), r.chance(sync.0, sync.1)));
        if r.chance(1, 3) {
            pausing(r, &mut ops);
            ops.push(Op::Ask(ask(r), true));
        }
    }
    let queries = 2 + ops.len() as u64 * 2;
    for _ in 0..r.idx(4) {
        g.chat.push((r.below(queries) as u32, chatter(r)));
    }
    if r.chance(3, 4) {
        g.chat.push((0, Chat::Stack(1 + r.below(3) as u32, 1 + r.below(3) as u32)));
    }
    if w.faults && r.chance(5, 6) {
        for _ in 0..1 + r.idx(3) {
            let late = r.chance(3, 5);
            let q = match r.below(12) {
                0 if !late => Reply::Close,
                1 if !late => Reply::Reset,
                2 if !late => Reply::Torn(r.below(12) as u32),
                3 if !late => Reply::Bye,
                4 if !late => Reply::Exit(code(r)),
                5 if !late => Reply::Garbled,
                5 => Reply::Never,
                6 => Reply::Delay(2 * t + r.below(1000)),
                7 => Reply::Delay(t - r.below(2000)),
                8 => Reply::Delay(t + r.below(2000)),
                9 => Reply::Delay(t + r.below(300_000)),
                10 => Reply::Delay(t + t / 2),
                _ => Reply::Delay(t + r.below(50_000_000)),
            };
            g.plan.insert(r.below(queries) as u32, q);
        }
    }
    if w.life || r.chance(1, 4) {
        for _ in 0..r.idx(if w.life { 8 } else { 3 }) {
            let l = match r.below(3) {
                0 => Life::Sleep(moment(r)),
                n => Life::Out(n as u8, output(r)),
            };
            g.life.push(l);
        }
    }
    if r.chance(if w.life { 3 } else { 1 }, 5) {
        g.life.push(Life::Sleep(moment(r)));
        g.life.push(Life::Exit(code(r)));
    }
    Session { auxtools, tcp, game: g, ops }
}

pub fn config(r: &mut Rng) -> Config {
    let mut c = Config { max_ticks: 400_000_000, ..Config::default() };
    gen::benign_delivery(r, &mut c);
    gen::coarse(r, &mut c);
    gen::hash_seed(r, &mut c);
    let piece = |r: &mut Rng| match r.below(6) {
        0..=2 => Chunk::Full,
        3 => Chunk::Max(1 + r.below(40) as u32),
        4 => Chunk::Rand(1 + r.below(40) as u32),
        _ => Chunk::Rand(1 + r.below(3000) as u32),
    };
    c.pipe_read = piece(r);
    c.pipe_write = piece(r);
    c.sock_read = piece(r);
    c.sock_write = piece(r);
    c.latency_max_ns = *r.pick(&[0, 0, 2000, 500_000]);
    c.eintr = *r.pick(&[0, 0, 10, 100]);
    c.pipe_cap = *r.pick(&[1 << 16, 1 << 16, 4096, 64]);
    c.sched = gen::schedule(r, 400_000);
    c.children = (0..4).map(|_| Child { kill_latency_ns: *r.pick(&[0, 0, 500, 20_000, 5_000_000]), ..Child::default() }).collect();
    c
}

pub fn shrink(s: &Session) -> Vec<Session> {
    let mut v = vec![];
    for ops in crate::lsp::shrink_list(&s.ops, 0) {
        // the numbers of requests are their positions
        v.push(Session { ops, ..s.clone() });
    }
    for (i, o) in s.ops.iter().enumerate() {
        if let Op::Ask(a, false) = o {
            let mut ops = s.ops.clone();
            ops[i] = Op::Ask(a.clone(), true);
            v.push(Session { ops, ..s.clone() });
        }
    }
    let mut game = |f: &dyn Fn(&mut Game)| {
        let mut n = s.clone();
        f(&mut n.game);
        v.push(n);
    };
    for k in s.game.plan.keys() {
        game(&|g| drop(g.plan.remove(k)));
    }
    for i in 0..s.game.chat.len() {
        game(&|g| drop(g.chat.remove(i)));
    }
    for i in 0..s.game.life.len() {
        game(&|g| drop(g.life.remove(i)));
    }
    if s.game.delay > 0 {
        game(&|g| g.delay = 0);
    }
    if s.game.chunk > 0 {
        game(&|g| g.chunk = 0);
    }
    if s.game.gap > 0 {
        game(&|g| g.gap = 0);
    }
    if s.game.linger > 0 {
        game(&|g| g.linger = 0);
    }
    if s.tcp {
        v.push(Session { tcp: false, ..s.clone() });
    }
    v
}
