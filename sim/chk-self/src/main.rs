//! Self-test of the simulator with toy programs: one correct, and several with
//! a known defect that only a fault or an interleaving shows.
use serde::{Deserialize, Serialize};
use simdrv::*;
use std::io::{Read, Write};
use std::sync::{mpsc, Arc, Condvar, Mutex, RwLock};

#[derive(Serialize, Deserialize, Clone)]
struct Case {
    cfg: Config,
    mode: String,
}

struct SelfCheck(String);

fn good() -> i32 {
    let m = Arc::new(Mutex::new(0u32));
    let (tx, rx) = mpsc::channel();
    let cv = Arc::new((Mutex::new(false), Condvar::new()));
    let rw = Arc::new(RwLock::new(vec![]));
    let mut hs = vec![];
    for i in 0..4 {
        let (m, tx, cv, rw) = (m.clone(), tx.clone(), cv.clone(), rw.clone());
        hs.push(std::thread::spawn(move || {
            for _ in 0..10 {
                *m.lock().unwrap() += 1;
            }
            rw.write().unwrap().push(i);
            tx.send(i).unwrap();
            let mut g = cv.0.lock().unwrap();
            while !*g {
                g = cv.1.wait(g).unwrap();
            }
        }));
    }
    let mut sum = 0;
    for _ in 0..4 {
        sum += rx.recv().unwrap();
    }
    std::thread::sleep(std::time::Duration::from_millis(50));
    *cv.0.lock().unwrap() = true;
    cv.1.notify_all();
    for h in hs {
        h.join().unwrap();
    }
    assert_eq!(sum, 6);
    assert_eq!(*m.lock().unwrap(), 40);
    let r: u64 = { use rayon::prelude::*; (0..200u64).into_par_iter().map(|x| x * x).sum() };
    println!("sum {sum} rayon {r} order {:?}", rw.read().unwrap());
    let mut names: Vec<_> = std::fs::read_dir("/w/d").unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    println!("dir {names:?}");
    names.sort();
    let s = std::fs::read_to_string("/w/d/a.txt").unwrap();
    std::fs::create_dir_all("/w/out/x").unwrap();
    std::fs::write("/w/out/x/copy", &s).unwrap();
    assert!(std::path::Path::new("out/x/copy").exists());
    let mut h = std::collections::HashMap::with_hasher(foldhash::fast::RandomState::default());
    for i in 0..10 {
        h.insert(i, i);
    }
    println!("hash {:?}", h.keys().collect::<Vec<_>>());
    let h: std::collections::HashSet<u32> = (0..10).collect();
    println!("hash {:?}", h.iter().collect::<Vec<_>>());
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let t = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let mut v = vec![];
        s.read_to_end(&mut v).unwrap();
        v
    });
    let mut c = std::net::TcpStream::connect(addr).unwrap();
    c.write_all(&[7; 10000]).unwrap();
    drop(c);
    assert_eq!(t.join().unwrap().len(), 10000);
    let (tx, rx) = mpsc::channel::<u32>();
    let keep = tx.clone();
    assert!(rx.recv_timeout(std::time::Duration::from_secs(5)).is_err());
    drop((tx, keep));
    let mut ch = std::process::Command::new("dreamseeker").arg("x").spawn().unwrap();
    assert!(ch.try_wait().unwrap().is_none());
    assert_eq!(ch.wait().unwrap().code(), Some(3));
    println!("args {:?}", std::env::args().collect::<Vec<_>>());
    0
}

static mut RACY: u32 = 0;
fn racy() -> i32 {
    let hs: Vec<_> = (0..2)
        .map(|_| {
            std::thread::spawn(|| unsafe {
                let v = std::ptr::read_volatile(&raw const RACY);
                std::thread::yield_now();
                std::ptr::write_volatile(&raw mut RACY, v + 1);
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    unsafe { (RACY != 2) as i32 }
}
fn deadlock() -> i32 {
    let a = Arc::new(Mutex::new(()));
    let b = Arc::new(Mutex::new(()));
    let (a2, b2) = (a.clone(), b.clone());
    let t = std::thread::spawn(move || {
        let _x = a2.lock().unwrap();
        let _y = b2.lock().unwrap();
    });
    {
        let _y = b.lock().unwrap();
        let _x = a.lock().unwrap();
    }
    t.join().unwrap();
    0
}
fn swallow() -> i32 {
    let f = std::fs::File::create("/w/o").unwrap();
    let mut b = std::io::BufWriter::new(f);
    let _ = b.write_all(b"hello");
    drop(b);
    0
}

impl Check for SelfCheck {
    type Case = Case;
    fn id(&self) -> &'static str {
        "SELF"
    }
    fn gen(&self, r: &mut Rng, _i: u64, _t: bool) -> Case {
        let mut cfg = Config::default();
        gen::benign_delivery(r, &mut cfg);
        gen::hash_seed(r, &mut cfg);
        cfg.cpus = 1 + r.below(4) as u32;
        cfg.sched = gen::schedule(r, 2000);
        cfg.children = vec![Child { exit_after_ns: 1_000_000, exit_code: 3, kill_latency_ns: 0 }];
        if self.0 == "swallow" && r.chance(1, 3) {
            cfg.disk_free = Some(r.below(10));
        }
        Case { cfg, mode: self.0.clone() }
    }
    fn run(&self, c: &Case, ex: &mut Exec) -> Verdict {
        let o = ex.run(
            &c.cfg,
            &["prog".into(), "-x".into(), "hello world".into()],
            || {
                for n in ["a.txt", "b.txt", "c.txt"] {
                    simos::add_file(&format!("/w/d/{n}"), n.repeat(300).as_bytes());
                }
                simos::set_cwd("/w");
            },
            || match c.mode.as_str() {
                "racy" => racy(),
                "deadlock" => deadlock(),
                "swallow" => swallow(),
                _ => good(),
            },
        );
        match o.end {
            End::Exit(0) => {
                if c.mode == "swallow" && o.files.get("/w/o").map(|v| v.len()) != Some(5) {
                    return Verdict::bad("short-file", "");
                }
                if c.mode == "good" && o.files.get("/w/out/x/copy").map(|v| v.len()) != Some(1500) {
                    return Verdict::bad("copy", format!("{:?}", o.files));
                }
                Verdict::Ok
            },
            ref e => Verdict::bad(format!("{e:?}").split('(').next().unwrap(), format!("{e:?}\n{}\n{}", o.out_str(), o.err_str())),
        }
    }
    fn shrink(&self, _c: &Case) -> Vec<Case> {
        vec![]
    }
    fn configs<'a>(&self, c: &'a mut Case) -> Vec<&'a mut Config> {
        vec![&mut c.cfg]
    }
    fn budget(&self) -> (u64, u64) {
        (400, 4000)
    }
    fn rule(&self) -> String {
        "self-test".into()
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({})
    }
}

fn main() {
    exec::init();
    let m = exec::take_sub().unwrap_or("good".into());
    simdrv::main(SelfCheck(m))
}
