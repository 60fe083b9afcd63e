import os,subprocess,json,sys
R='/tmp/bugs/src'; OUT=os.environ.get('OUT','/verif/seeded'); REPO=os.environ.get('REPO','/repo')
subprocess.run(f'rm -rf {R} && git clone -q {REPO} {R}',shell=True,check=True)
PRE='''#!/bin/bash
# exit 0: the behaviour is right; 1: it is not
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'cd /; rm -rf "$t"' EXIT
'''
LIB='''mkdir -p "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
dmm-tools = { path = "$repo/crates/dmm-tools", features = ["png"] }
dreammaker = { path = "$repo/crates/dreammaker" }
ndarray = "0.17.2"
[workspace]
[profile.dev]
opt-level = 1
E
cd "$t"; cargo build --offline -q --target-dir "$t/target" 2>"$t/err" || { tail -20 "$t/err"; exit 3; }
mkdir "$t/w"; cd "$t/w"
'''
def binary(p,b): return f'''cargo build --offline -q -p {p} --bin {b} 2>"$t/err" || {{ tail -20 "$t/err"; exit 3; }}
bin=$repo/target/debug/{b}
mkdir "$t/w"; cd "$t/w"
'''
SHIM='''gcc -shared -fPIC -O1 -o "$t/shim.so" "$here/shim.c" -ldl || exit 3
'''
def bug(id,prop,edits,needs,breaks,demo,files={}):
    if os.environ.get('ONLY') and id not in os.environ['ONLY'].split(): return
    d=f'{OUT}/{id}'; os.makedirs(d,exist_ok=True)
    subprocess.run(['git','-C',R,'checkout','-q','-f','.'],check=True)
    for f,old,new in edits:
        p=f'{R}/{f}'; s=open(p).read(); assert s.count(old)>=1,(id,f,old); s=s.replace(old,new,1); open(p,'w').write(s)
    diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    open(f'{d}/patch.diff','w').write(diff)
    open(f'{d}/demo.sh','w').write(PRE+demo); os.chmod(f'{d}/demo.sh',0o755)
    for n,c in files.items(): open(f'{d}/{n}','w').write(c)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)

bug('save-over-longer-map','C01',[('crates/dmm-tools/src/dmm.rs','self.to_writer(&mut File::create(path)?)','let mut options = std::fs::OpenOptions::new();\n        self.to_writer(&mut options.write(true).create(true).truncate(false).open(path)?)')],
 'saving over an existing file which is longer than the map being saved','the tail of the old file stays behind the saved map, which then does not load back',
 LIB+'"$t/target/debug/demo" "$t/w"\n',{'demo.rs':'''use dmm_tools::dmm::Map;
fn main() {
    let d = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let f = d.join("m.dmm");
    Map::new(9, 9, 2, "/turf/a".into(), "/area/a".into()).to_file(&f).unwrap();
    let small = Map::new(2, 3, 1, "/turf/b".into(), "/area/b".into());
    small.to_file(&f).unwrap();
    match Map::from_file(&f) {
        Ok(m) if m.dim_xyz() == (2, 3, 1) && m.dictionary == small.dictionary && m.grid == small.grid => (),
        Ok(m) => { eprintln!("loaded {:?}", m.dim_xyz()); std::process::exit(1) }
        Err(e) => { eprintln!("does not load: {e}"); std::process::exit(1) }
    }
}
'''})
bug('key-length-boundary','C01',[('crates/dmm-tools/src/dmm.rs','} else if max_key >= 52 {','} else if max_key > 52 {')],
 'a map with exactly 53 dictionary keys, whose key length is adjusted before saving','the last key is written with one letter and collides with another key',
 LIB+'"$t/target/debug/demo" "$t/w"\n',{'demo.rs':'''use dmm_tools::dmm::{Map, Prefab};
fn main() {
    let d = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    for n in [51usize, 52, 53, 54, 2704, 2705] {
        // load a map with n keys from a hand-written file with three-letter keys
        let mut text = String::new();
        let letter = |i: usize| (if i < 26 { b'a' + i as u8 } else { b'A' + (i - 26) as u8 }) as char;
        let key = |i: usize| format!("{}{}{}", letter(i / 2704), letter(i / 52 % 52), letter(i % 52));
        for i in 0..n {
            text.push_str(&format!("\\"{}\\" = (/turf/t{},/area/a)\\n", key(i), i));
        }
        text.push_str("\\n(1,1,1) = {\\"\\n");
        for i in 0..n { text.push_str(&key(i)); }
        text.push_str("\\n\\"}\\n");
        let a = d.join("a.dmm");
        std::fs::write(&a, text).unwrap();
        let mut m = Map::from_file(&a).unwrap();
        m.adjust_key_length();
        let b = d.join("b.dmm");
        m.to_file(&b).unwrap();
        match Map::from_file(&b) {
            Ok(l) if l.dim_xyz() == m.dim_xyz() && l.dictionary == m.dictionary && l.grid == m.grid => (),
            Ok(_) => { eprintln!("{n} keys: another map"); std::process::exit(1) }
            Err(e) => { eprintln!("{n} keys: {e}"); std::process::exit(1) }
        }
    }
    let _ = Prefab::from_path("/x");
}
'''})
bug('read-error-is-eof','C02',[('crates/dreammaker/src/lexer.rs','    };\n\n    if let Err(error) = read.read_to_end(&mut buffer) {\n','    };\n\n    if let (Err(error), 0) = (read.read_to_end(&mut buffer), buffer.len()) {\n')],
 'a read of the map which fails after some data was already read','the part of the file read so far is taken for the whole map',
 SHIM+LIB+'''{ for i in a b c d e f; do echo "\\"$i\\" = (/turf/t$i,/area/a)"; done
  echo; echo '(1,1,1) = {"'; for y in 1 2 3 4; do echo abccba; done; echo '"}'
  echo; } > m.dmm; cut=$(stat -c %s m.dmm)
{ echo '(1,1,2) = {"'; for y in 1 2 3 4; do echo deffed; done; echo '"}'; } >> m.dmm
"$t/target/debug/demo" m.dmm | grep -qx "ok 2" || { echo "does not load at all"; exit 1; }
out=$(FAIL_AFTER=$cut LD_PRELOAD="$t/shim.so" "$t/target/debug/demo" m.dmm)
echo "$out"
case "$out" in error*) exit 0;; *) exit 1;; esac
''',{'demo.rs':'''fn main() {
    match dmm_tools::dmm::Map::from_file(std::env::args().nth(1).unwrap().as_ref()) {
        Ok(m) => println!("ok {}", m.dim_xyz().2),
        Err(e) => println!("error {e}"),
    }
}
''','shim.c':'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdio.h>
// reads of a .dmm file return at most 40 bytes each and fail from byte FAIL_AFTER on
ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(link, path, sizeof path - 1);
    const char *f = getenv("FAIL_AFTER");
    if (f && k > 4 && !memcmp(path + k - 4, ".dmm", 4)) {
        off_t at = lseek(fd, 0, SEEK_CUR), lim = atoi(f);
        if (at >= lim) { errno = EIO; return -1; }
        if (n > 40) n = 40;
        if ((off_t)n > lim - at) n = lim - at;
    }
    return real(fd, buf, n);
}
'''})
bug('cache-placeholder','C04',[('crates/dmm-tools/src/icon_cache.rs','let existing = self.lock.read().unwrap().get(path).cloned();','// claim the entry, so that other threads need not look again\n        let existing = match self.lock.write().unwrap().entry(path.to_owned()) {\n            hash_map::Entry::Occupied(entry) => Some(entry.get().clone()),\n            hash_map::Entry::Vacant(entry) => {\n                entry.insert(None);\n                None\n            },\n        };')],
 'a second thread looking an icon up while the first is still loading it','the second thread is told that loading the icon failed',
 LIB+'"$t/target/debug/demo" "$t/w"\n',{'demo.rs':'''use dmm_tools::dmi::{Image, Rgba8};
use dmm_tools::IconCache;
use std::sync::Barrier;
fn main() {
    let d = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let mut im = Image::new_rgba(512, 512);
    let mut x = 1u32;
    for p in im.data.iter_mut() {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        *p = Rgba8::new((x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8, 255);
    }
    let f = d.join("i.dmi");
    im.to_file(&f).unwrap();
    for _ in 0..30 {
        let cache = IconCache::default();
        let barrier = Barrier::new(6);
        let bad: usize = std::thread::scope(|s| {
            let hs: Vec<_> = (0..6u64)
                .map(|i| {
                    let (cache, barrier, f) = (&cache, &barrier, &f);
                    s.spawn(move || {
                        barrier.wait();
                        std::thread::sleep(std::time::Duration::from_micros(i * 500));
                        cache.retrieve_shared(f).is_none() as usize
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).sum()
        });
        if bad > 0 {
            eprintln!("{bad} lookups failed");
            std::process::exit(1);
        }
    }
}
'''})
bug('shared-temp-image','C06',[('crates/dmm-tools-cli/src/main.rs','image.to_file(outfile.as_ref()).unwrap();','let partial = format!("{output}/{stem}.part");\n                    image.to_file(partial.as_ref()).unwrap();\n                    if let Err(e) = std::fs::rename(&partial, &outfile) {\n                        eprintln!("Failed to rename {partial}:\\n{e}");\n                    }')],
 'two levels of the same map being stored at the same time by parallel jobs','one of the images is missing or holds the other level, and the exit status is zero',
 binary('dmm-tools-cli','dmm-tools')+'''cat > t.dme <<'E'
/turf/a
	icon = 'i.dmi'
	icon_state = "a"
/area/a
E
python3 - <<'E'
import zlib,struct
def chunk(t,b): return struct.pack('>I',len(b))+t+b+struct.pack('>I',zlib.crc32(t+b))
raw=b''.join(b'\\0'+b'\\x10\\x80\\xf0\\xff'*32 for _ in range(32))
meta=b'# BEGIN DMI\\nversion = 4.0\\n\\twidth = 32\\n\\theight = 32\\nstate = "a"\\n\\tdirs = 1\\n\\tframes = 1\\n# END DMI\\n'
open('i.dmi','wb').write(b'\\x89PNG\\r\\n\\x1a\\n'+chunk(b'IHDR',struct.pack('>IIBBBBB',32,32,8,6,0,0,0))+chunk(b'zTXt',b'Description\\0\\0'+zlib.compress(meta))+chunk(b'IDAT',zlib.compress(raw))+chunk(b'IEND',b''))
with open('m.dmm','w') as f:
    f.write('"a" = (/turf/a,/area/a)\\n')
    for z in range(1,9):
        f.write('\\n(1,1,%d) = {"\\n'%z)
        for y in range(20): f.write('a'*20+'\\n')
        f.write('"}\\n')
E
for round in 1 2 3 4 5 6; do
  "$bin" -e t.dme --jobs 8 minimap -o out$round m.dmm >o 2>&1; rc=$?
  n=$(ls out$round/m-*.png 2>/dev/null | wc -l)
  if [ $rc = 0 ] && [ $n != 8 ]; then echo "exit 0 with $n of 8 images"; exit 1; fi
  if [ $rc = 0 ]; then for z in 2 3 4 5 6 7 8; do cmp -s out$round/m-1.png out$round/m-$z.png || { echo "image $z is damaged"; exit 1; }; done; fi
done
exit 0
''')
bug('image-short-write','C07',[('crates/dmm-tools/src/dmi.rs','self.to_write(std::fs::File::create(path)?)','std::io::Write::write(&mut std::fs::File::create(path)?, &self.to_bytes()?).map(|_| ())')],
 'a write of the image which the operating system only takes in part','the rest of the image is never written, and the truncated image is reported as saved',
 LIB+'''trap '' XFSZ
( ulimit -f 4; "$t/target/debug/demo" "$t/w/i.png" )
''',{'demo.rs':'''use dmm_tools::dmi::{Image, Rgba8};
fn main() {
    let f = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let mut im = Image::new_rgba(64, 64);
    let mut x = 1u32;
    for p in im.data.iter_mut() {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        *p = Rgba8::new((x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8, 255);
    }
    // the file may not grow beyond 4096 bytes, which is less than the image needs
    let saved = im.to_file(&f).is_ok();
    println!("{saved} {}", std::fs::metadata(&f).map_or(0, |m| m.len()));
    std::process::exit(saved as i32);
}
'''})
bug('kwargs-hash-order','C08',[('crates/dreamchecker/src/lib.rs','    called_at: BTreeMap<Ident, CalledAt>,','    called_at: HashMap<Ident, CalledAt>,')],
 'one override missing several keyword arguments used by callers','the errors about them come in a different order on every run',
 binary('dreamchecker','dreamchecker')+'''cat > t.dme <<'E'
/datum/p/proc/f(a1, a2, a3, a4, a5, a6, a7, a8)
	return
/datum/p/q/f(x)
	return
/proc/g(datum/p/p)
	p.f(a1 = 1, a2 = 2, a3 = 3, a4 = 4)
	p.f(a5 = 1, a6 = 2, a7 = 3, a8 = 4)
E
"$bin" -e t.dme > a 2>&1; grep -q a7 a || { cat a; echo "unexpected"; exit 1; }
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do "$bin" -e t.dme > b 2>&1; cmp -s a b || { diff a b | head -5; exit 1; }; done
exit 0
''')
bug('include-fallthrough','C09',[('crates/dreammaker/src/preprocessor.rs','match self.prepare_include_file(candidate) {','match self.prepare_include_file(candidate.clone()) {'),('crates/dreammaker/src/preprocessor.rs','                                    Err(e) => self.context.register_error(e),\n','                                    Err(e) => {\n                                        let other = self.env_file.parent().unwrap().join(&path);\n                                        if other != candidate && other.exists() {\n                                            continue;\n                                        }\n                                        self.context.register_error(e)\n                                    },\n')],
 'an include which cannot be opened while a file of the same name exists relative to the environment','the other file is analysed in its place and the linter exits with status zero',
 SHIM+binary('dreamchecker','dreamchecker')+'''mkdir -p code/x
printf '#include "code/a.dm"\\n' > t.dme
printf '#include "x/b.dm"\\n' > code/a.dm
printf '/datum/one\\n' > code/x/b.dm
mkdir x; printf '/datum/two\\n' > x/b.dm
"$bin" -e t.dme > o 2>&1 || { cat o; exit 1; }
DENY=code/x/b.dm LD_PRELOAD="$t/shim.so" "$bin" -e t.dme > o 2>&1; rc=$?
cat o
[ $rc != 0 ] && grep -q 'x/b.dm' o
''',{'shim.c':'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
static int denied(const char *p) {
    const char *d = getenv("DENY");
    size_t n = strlen(p), k = d ? strlen(d) : 0;
    return d && n >= k && !strcmp(p + n - k, d);
}
int open64(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64");
    if (denied(p)) { errno = EACCES; return -1; }
    return real(p, fl, m);
}
int open(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
    if (denied(p)) { errno = EACCES; return -1; }
    return real(p, fl, m);
}
'''})
bug('doc-page-buffered','C12',[('crates/dmdoc/src/main.rs','fn create(path: &Path) -> io::Result<File> {','fn create(path: &Path) -> io::Result<io::BufWriter<File>> {'),('crates/dmdoc/src/main.rs','    File::create(path)\n}','    File::create(path).map(io::BufWriter::new)\n}')],
 'a disk which fills up, or an I/O error, while a page of less than 8 KiB is written','the error is dropped with the buffer, the page is missing and the exit status is zero',
 SHIM+binary('dmdoc','dmdoc')+'''cat > t.dme <<'E'
/// A documented type
/datum/one
	/// a variable
	var/a = 1
E
"$bin" -e t.dme --output full > o 2>&1 || { cat o; exit 1; }
LD_PRELOAD="$t/shim.so" "$bin" -e t.dme --output part > o 2>&1; rc=$?
if [ $rc = 0 ] && ! cmp -s full/datum/one.html part/datum/one.html; then echo "exit 0 with an incomplete page"; exit 1; fi
exit 0
''',{'shim.c':'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
// the disk is full when one.html is written
ssize_t write(int fd, const void *buf, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(link, path, sizeof path - 1);
    if (k > 9 && !memcmp(path + k - 9, "/one.html", 9)) { errno = ENOSPC; return -1; }
    return real(fd, buf, n);
}
'''})
bug('unmatched-elif-in-include','C10',[('crates/dreammaker/src/preprocessor.rs','''                        let last = self
                            .pop_ifdef()
                            .ok_or_else(|| DMError::new(self.last_input_loc, "unmatched #elif"))?;
                        let enabled = self.evaluate();''','''                        let enabled = self.evaluate();
                        let last = self
                            .pop_ifdef()
                            .unwrap_or_else(|| Ifdef::new(self.last_input_loc, !enabled));
                        if self.ifdef_stack.is_empty() && self.include_stack.stack.len() > 1 {
                            self.ifdef_stack.remove(0);
                        }''')],
 'an #elif whose #if was lost, outermost in an included file','the preprocessor panics',
 binary('dreamchecker','dreamchecker')+'''printf '#include "a.dm"\\n' > t.dme
printf '#if 1\\n/datum/a\\n#elif 0\\n/datum/b\\n#endif\\n' > a.dm
"$bin" -e t.dme > o 2>&1; rc=$?; [ $rc = 0 ] || [ $rc = 1 ] || { tail -3 o; exit 1; }
printf '/datum/a\\n#elif 0\\n/datum/b\\n#endif\\n' > a.dm
"$bin" -e t.dme > o 2>&1; rc=$?; [ $rc = 0 ] || [ $rc = 1 ] || { tail -3 o; exit 1; }
exit 0
''')
bug('doc-types-hash','C11',[('crates/dmdoc/src/main.rs','    let mut type_docs = BTreeMap::new();','    let mut type_docs = std::collections::HashMap::new();')],
 'more than one documented type, and another seed of the hash table','types are listed in another order in the index on every run',
 binary('dmdoc','dmdoc')+'''for i in $(seq 12); do printf '/// Type number %d\\n/datum/t%d\\n\\tvar/a = 1\\n' $i $i; done > t.dme
"$bin" -e t.dme --output a > o 2>&1 || { cat o; exit 1; }
for k in 1 2 3; do "$bin" -e t.dme --output b$k > o 2>&1 || { cat o; exit 1; }; diff -r a b$k > d || { head -c 400 d; exit 1; }; done
exit 0
''')

SHIMC=open('/verif/seeded/read-error-is-eof/shim.c').read()

# ---------------------------------------------------------------- dm-langserver
LS='''mkdir "$t/ls"; cp "$repo/Cargo.lock" "$t/ls/"
cat > "$t/ls/Cargo.toml" <<E
[package]
name = "dm-langserver"
version = "1.11.0"
edition = "2024"
homepage = "https://github.com/SpaceManiac/SpacemanDMM/blob/master/crates/dm-langserver/README.md"
build = "build.rs"
[[bin]]
name = "dm-langserver"
path = "$repo/crates/dm-langserver/src/main.rs"
[dependencies]
url = "2.5.2"
serde = "1.0.213"
serde_json = "1.0.132"
serde_derive = "1.0.213"
bincode = "1.3.3"
jsonrpc-core = "18.0.0"
lsp-types = "0.93.2"
dap-types = { path = "$repo/crates/dap-types" }
dreammaker = { path = "$repo/crates/dreammaker" }
dreamchecker = { path = "$repo/crates/dreamchecker" }
interval-tree = { path = "$repo/crates/interval-tree" }
libc = "0.2.161"
regex = "1.11.1"
lazy_static = "1.5"
foldhash = "0.2.0"
[workspace]
E
cat > "$t/ls/build.rs" <<'E'
fn main() {
    let out = std::path::PathBuf::from(std::env::var_os("OUT_DIR").unwrap());
    std::fs::write(out.join("build-info.txt"), "build date: none\\n").unwrap();
}
E
(cd "$t/ls"; cargo build --offline -q --target-dir "$t/target" 2>"$t/err") || { tail -20 "$t/err"; exit 3; }
mkdir "$t/w"; cd "$t/w"
timeout 120 python3 "$here/demo.py" "$t/target/debug/dm-langserver" "$t"
'''
CLIENT='''import json, os, queue, subprocess, sys, threading, time
BIN, T = sys.argv[1], sys.argv[2]
class Bad(Exception): pass
class Server:
    def __init__(self, *args, env=None):
        e = dict(os.environ); e.update(env or {})
        self.p = subprocess.Popen([BIN, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e, bufsize=0)
        self.q = queue.Queue(); self.bad = None; self.n = 0
        threading.Thread(target=self.read, daemon=True).start()
    def read(self):
        f = self.p.stdout; buf = b''
        def more():
            nonlocal buf
            d = os.read(f.fileno(), 65536)
            buf += d
            return bool(d)
        try:
            while True:
                while b'\\r\\n\\r\\n' not in buf:
                    if not more():
                        if buf: raise Bad('trailing %r' % buf[:80])
                        return
                head, buf = buf.split(b'\\r\\n\\r\\n', 1)
                name, size = head.split(b': ')
                if name != b'Content-Length': raise Bad('header %r' % head[:80])
                size = int(size)
                while len(buf) < size:
                    if not more(): raise Bad('cut off')
                self.q.put(json.loads(buf[:size].decode())); buf = buf[size:]
        except Exception as e:
            self.bad = 'bad framing: %r' % e
        finally:
            self.q.put(None)
    def raw(self, v):
        d = json.dumps(v, ensure_ascii=False).encode()
        self.p.stdin.write(b'Content-Length: %d\\r\\n\\r\\n' % len(d) + d)
    def get(self, timeout):
        try: m = self.q.get(timeout=timeout)
        except queue.Empty: return None
        if m is None and self.bad: raise Bad(self.bad)
        return m
    def until(self, pred, timeout=20):
        out = []; end = time.time() + timeout
        while time.time() < end:
            m = self.get(max(0.01, end - time.time()))
            if m is None: break
            out.append(m)
            if pred(m): return out
        raise Bad('nothing of the kind among ' + json.dumps(out)[:2000])
    # language server
    def notify(self, method, params): self.raw({'jsonrpc': '2.0', 'method': method, 'params': params})
    def ask(self, method, params):
        self.n += 1; n = self.n
        self.raw({'jsonrpc': '2.0', 'id': n, 'method': method, 'params': params})
        return self.until(lambda m: m.get('id') == n and 'method' not in m)[-1]
    def initialize(self, root):
        self.ask('initialize', {'capabilities': {}, 'rootUri': 'file://' + root})
        self.notify('initialized', {})
    # debug adapter
    def request(self, command, arguments=None, timeout=20):
        self.n += 1; n = self.n
        self.raw({'seq': n, 'type': 'request', 'command': command, 'arguments': arguments or {}})
        out = self.until(lambda m: m.get('type') == 'response' and m.get('request_seq') == n, timeout)
        return out
    def close(self):
        self.p.kill(); self.p.wait()
def main(f):
    try: f()
    except Bad as e:
        print('WRONG:', e); sys.exit(1)
    print('right')
'''
def ls(id,prop,edits,needs,breaks,py,pre='',files={}):
    bug(id,prop,edits,needs,breaks,pre+LS,{'demo.py':CLIENT+py,**files})
S='crates/dm-langserver/src/'
ls('batch-after-notification','C14',[(S+'main.rs','.flat_map(|call| self.handle_call(call))','.map_while(|call| self.handle_call(call))')],
 'a batch in which a notification comes before a request','the requests after the notification are never handled nor answered','''
def go():
    s = Server()
    s.initialize(os.getcwd())
    s.raw([{'jsonrpc': '2.0', 'id': 'a', 'method': 'workspace/symbol', 'params': {'query': 'x'}},
           {'jsonrpc': '2.0', 'method': '$/setTrace', 'params': {'value': 'off'}},
           {'jsonrpc': '2.0', 'id': 'b', 'method': 'workspace/symbol', 'params': {'query': 'x'}}])
    s.raw({'jsonrpc': '2.0', 'id': 'end', 'method': 'shutdown'})
    got = []
    for m in s.until(lambda m: isinstance(m, dict) and m.get('id') == 'end'):
        got += [x.get('id') for x in (m if isinstance(m, list) else [m]) if 'method' not in x]
    s.close()
    if sorted(got) != ['a', 'b', 'end']: raise Bad('responses to %r' % got)
main(go)
''')
ls('utf16-surrogates','C15',[(S+'document.rs','''        if let Some(ch) = chars.next() {
            character = character.saturating_sub(ch.len_utf16() as u32);''','''        if chars.next().is_some() {
            character -= 1;''')],
 'an edit on a line after a character outside the basic multilingual plane','the edit lands further right than the editor put it, and the server answers about another text','''
DOC = '/obj/a\\n\\tname = "\\U0001f600"; desc = "\\U0001f601"; var/colour = "#ff0000"\\n'
def colours(edit):
    s = Server(); s.initialize(os.getcwd())
    uri = 'file://' + os.getcwd() + '/a.dm'
    line = DOC.split('\\n')[1]; at = line.index('ff0000')
    u16 = len(line[:at].encode('utf-16-le')) // 2
    new = DOC.replace('ff0000', '00ff00')
    s.notify('textDocument/didOpen', {'textDocument': {'uri': uri, 'languageId': 'dm', 'version': 1, 'text': DOC if edit else new}})
    if edit:
        s.notify('textDocument/didChange', {'textDocument': {'uri': uri, 'version': 2}, 'contentChanges': [
            {'range': {'start': {'line': 1, 'character': u16}, 'end': {'line': 1, 'character': u16 + 6}}, 'text': '00ff00'}]})
    r = s.ask('textDocument/documentColor', {'textDocument': {'uri': uri}})
    s.close()
    return r.get('result', r.get('error'))
def go():
    open('t.dme', 'w').write('#include "a.dm"\\n'); open('a.dm', 'w').write(DOC)
    a, b = colours(True), colours(False)
    if not b: raise Bad('no colours at all')
    if a != b: raise Bad('%r after the edit, %r opened afresh' % (a, b))
main(go)
''')
ls('last-diagnostics-stay','C16',[(S+'main.rs','        let mut new_sent = HashSet::with_capacity(map.len());','        if map.is_empty() {\n            return;\n        }\n        let mut new_sent = HashSet::with_capacity(map.len());')],
 'the last problem of the whole environment is repaired','the diagnostics published for it are never cleared','''
def go():
    open('t.dme', 'w').write('#include "a.dm"\\n'); open('a.dm', 'w').write('#warn to be repaired\\n/obj/a\\n')
    uri = 'file://' + os.getcwd() + '/a.dm'
    s = Server(); s.initialize(os.getcwd())
    pub = lambda m: m.get('method') == 'textDocument/publishDiagnostics' and m['params']['uri'] == uri
    s.until(lambda m: pub(m) and m['params']['diagnostics'])
    last = None
    open('a.dm', 'w').write('/obj/a\\n\\tvar/x = 1\\n')
    s.notify('experimental/dreammaker/reparse', {})
    end = time.time() + 10
    while time.time() < end:
        m = s.get(0.5)
        if m and pub(m): last = m['params']['diagnostics']
        if last == []: break
    s.close()
    if last != []: raise Bad('last published: %r' % last)
main(go)
''')
ls('length-in-characters','C17',[(S+'jrpc_io.rs','json.len(), json)','json.chars().count(), json)')],
 'a message holding a non-ASCII character','the length announced is shorter than the message, and the stream is no longer framed','''
def go():
    open('t.dme', 'w').write('/obj/a\\n')
    s = Server('--debugger', '--dreamseeker-exe', '/bin/true')
    for command in ['threads', 'na\\u00efvet\\u00e9', 'threads', 'threads']:
        s.request(command)
    s.close()
main(go)
''')
ls('killed-exit-unreported','C18',[(S+'debugger/launched.rs','''                if let State::Active = *state {
                    seq2.issue_event(dap_types::TerminatedEvent::default());
                }
                *state = State::Exited;
                seq2.issue_event(dap_types::ExitedEvent {
                    exitCode: code as i64,
                });''','''                if let State::Active = std::mem::replace(&mut *state, State::Exited) {
                    seq2.issue_event(dap_types::TerminatedEvent::default());
                    seq2.issue_event(dap_types::ExitedEvent {
                        exitCode: code as i64,
                    });
                }''')],
 'a launched process which ends after the client detached from it or had it killed','its exit is never reported to the client','''
def go():
    open('t.dme', 'w').write('/obj/a\\n'); open('t.dmb', 'w').write('')
    open('seeker', 'w').write('#!/bin/sh\\ntouch started\\nsleep 1\\nexit 7\\n'); os.chmod('seeker', 0o755)
    for terminate, code in [(False, 7), (True, -1)]:
        if os.path.exists('started'): os.remove('started')
        s = Server('--debugger', '--dreamseeker-exe', os.getcwd() + '/seeker')
        s.request('initialize', {'adapterID': 'byond'})
        out = s.request('launch', {'dmb': os.getcwd() + '/t.dmb', 'noDebug': True})
        while not os.path.exists('started'): time.sleep(0.01)
        out += s.request('disconnect', {'terminateDebuggee': terminate})
        exits = [m for m in out if m.get('event') == 'exited']
        if not exits:
            exits = s.until(lambda m: m.get('event') == 'exited', 6)[-1:]
        s.close()
        if [m['body']['exitCode'] for m in exits] != [code]: raise Bad('terminate=%r: %r' % (terminate, exits))
main(go)
''')
ls('late-reply-kept','C19',[(S+'debugger/auxtools.rs','''            Err(_) => {
                self.disconnect();
                Err(''','''            Err(_) => {
                Err(''')],
 'a debug server which answers a query later than the five seconds it is given, and a query after it','the next query is answered with the late reply to the query before','''
import socket, struct
def serve(l):
    c, _ = l.accept()
    def send(b): c.sendall(struct.pack('<I', len(b)) + b)
    def text(t): return struct.pack('<Q', len(t)) + t.encode()
    def recv(n):
        b = b''
        while len(b) < n:
            d = c.recv(n - len(b))
            if not d: raise EOFError
            b += d
        return b
    def late(b):
        try: send(b)
        except OSError: pass
    try:
        while True:
            b = recv(struct.unpack('<I', recv(4))[0])
            kind = struct.unpack('<I', b[:4])[0]
            if kind == 2: send(struct.pack('<I', 1) + b'\\0')      # no stddef
            elif kind == 3:                                        # evaluate
                slow = b'slow' in b
                r = struct.pack('<I', 2) + text('slow value' if slow else 'quick value') + b'\\0' * 8
                if slow: threading.Timer(7, late, [r]).start()
                else: send(r)
            else: send(struct.pack('<I', 0))
    except (EOFError, OSError): pass
def go():
    open('t.dme', 'w').write('/obj/a\\n')
    open('SpacemanDMM.toml', 'w').write('[debugger]\\nengine = "auxtools"\\n')
    l = socket.socket(); l.bind(('127.0.0.1', 0)); l.listen(1)
    threading.Thread(target=serve, args=(l,), daemon=True).start()
    s = Server('--debugger', '--dreamseeker-exe', '/bin/true')
    s.request('initialize', {'adapterID': 'byond'})
    s.request('attach', {'port': l.getsockname()[1]})
    s.request('configurationDone')
    ask = lambda e: s.request('evaluate', {'expression': e, 'context': 'repl'})[-1]
    first = ask('quick')
    if not first['success'] or first['body']['result'] != 'quick value': raise Bad('not even once: %r' % first)
    if ask('slow')['success']: raise Bad('the slow query was answered')
    time.sleep(3)
    second = ask('quick')
    s.close()
    if second['success'] and second['body']['result'] != 'quick value': raise Bad('%r' % second)
main(go)
''')
ls('interrupted-message','C13',[(S+'jrpc_io.rs','''    input.read_exact(&mut content)?;''','''    let mut filled = 0;
    while filled < size {
        let available = input.fill_buf()?;
        if available.is_empty() {
            return Ok(None);
        }
        let n = available.len().min(size - filled);
        content[filled..filled + n].copy_from_slice(&available[..n]);
        input.consume(n);
        filled += n;
    }''')],
 'a read of standard input which is interrupted in the middle of a message','the server stops at the interruption instead of reading on','''
def go():
    s = Server(env={'LD_PRELOAD': T + '/shim.so'}); s.initialize(os.getcwd())
    for i in range(4):
        d = json.dumps({'jsonrpc': '2.0', 'id': 'q%d' % i, 'method': 'workspace/symbol', 'params': {'query': 'x'}}).encode()
        d = b'Content-Length: %d\\r\\n\\r\\n' % len(d) + d
        s.p.stdin.write(d[:-9]); time.sleep(0.5); s.p.stdin.write(d[-9:])
        s.until(lambda m: m.get('id') == 'q%d' % i)
    s.close()
main(go)
''',pre='gcc -shared -fPIC -O1 -o "$t/shim.so" "$here/shim.c" -ldl || exit 3\n',files={'shim.c':'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
/* every second read of standard input is interrupted by a signal */
ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    static int odd;
    if (!real) real = dlsym(RTLD_NEXT, "read");
    if (fd == 0 && (odd ^= 1)) { errno = EINTR; return -1; }
    return real(fd, b, n);
}
'''})

# --- C03, C05, C20
DMI='''python3 - <<'E'
import zlib,struct
def chunk(t,b): return struct.pack('>I',len(b))+t+b+struct.pack('>I',zlib.crc32(t+b))
def icon(name,size,rgb):
    raw=b''.join(b'\\0'+bytes(rgb+[255])*size for _ in range(size))
    meta=b'# BEGIN DMI\\nversion = 4.0\\n\\twidth = %d\\n\\theight = %d\\nstate = "a"\\n\\tdirs = 1\\n\\tframes = 1\\n# END DMI\\n'%(size,size)
    open(name,'wb').write(b'\\x89PNG\\r\\n\\x1a\\n'+chunk(b'IHDR',struct.pack('>IIBBBBB',size,size,8,6,0,0,0))+chunk(b'zTXt',b'Description\\0\\0'+zlib.compress(meta))+chunk(b'IDAT',zlib.compress(raw))+chunk(b'IEND',b''))
icon('a.dmi',64,[200,40,40]); icon('b.dmi',64,[40,200,40]); icon('c.dmi',64,[40,40,200])
E
'''
bug('icon-one-read','C03',[('crates/dmm-tools/src/dmi.rs','''        Self::from_bytes(&std::fs::read(path)?)
    }

    pub fn from_bytes(data: &[u8]) -> io::Result<IconFile>''','''        // the size is known, so read it all in one go
        let mut file = std::fs::File::open(path)?;
        let mut data = vec![0; file.metadata()?.len() as usize];
        let length = std::io::Read::read(&mut file, &mut data)?;
        Self::from_bytes(&data[..length])
    }

    pub fn from_bytes(data: &[u8]) -> io::Result<IconFile>''')],
 'a read of an icon which the operating system cuts short','the icon fails to load although nothing failed',
 LIB+SHIM+DMI+'''"$t/target/debug/demo" a.dmi || { echo "does not load at all"; exit 3; }
LD_PRELOAD="$t/shim.so" "$t/target/debug/demo" a.dmi
''',{'demo.rs':'''fn main() {
    let f = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    match dmm_tools::dmi::IconFile::from_file(&f) {
        Ok(i) if (i.image.width, i.image.height) == (64, 64) => (),
        Ok(i) => { eprintln!("{}x{}", i.image.width, i.image.height); std::process::exit(1) }
        Err(e) => { eprintln!("{e}"); std::process::exit(1) }
    }
}
''','shim.c':'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
/* reads of a .dmi file return at most 100 bytes each */
ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(link, path, sizeof path);
    if (k > 4 && !memcmp(path + k - 4, ".dmi", 4) && n > 100) n = 100;
    return real(fd, buf, n);
}
'''})
M='crates/dmm-tools/src/minimap.rs'
bug('tiles-in-hash-order','C05',[(M,'    let mut sprites = Vec::new();\n','    let mut tiles: std::collections::HashMap<_, Vec<_>> = Default::default();\n'),
 (M,'''                sprites.extend(underlays.drain(..).map(|o| (loc, o)));
                sprites.extend(overlays.drain(..).map(|o| (loc, o)));
''','''                let tile = tiles.entry(loc).or_default();
                tile.append(&mut underlays);
                tile.append(&mut overlays);
'''),
 (M,'    drop(overlays);\n','    drop(overlays);\n    let mut sprites: Vec<_> = tiles\n        .into_iter()\n        .flat_map(|(loc, tile)| tile.into_iter().map(move |sprite| (loc, sprite)))\n        .collect();\n')],
 'sprites larger than their tile, so that neighbours of the same layer overlap, and two runs to compare','which of the neighbours is drawn on top changes from run to run',
 binary('dmm-tools-cli','dmm-tools')+DMI+'''for n in a b c; do echo "/turf/$n"; echo "	icon = '$n.dmi'"; echo '	icon_state = "a"'; done > t.dme; echo /area/a >> t.dme
{ for n in a b c; do echo "\\"$n\\" = (/turf/$n,/area/a)"; done; echo; echo '(1,1,1) = {"'; for y in 1 2 3; do printf 'abcabc\\nbcabca\\ncabcab\\n'; done; echo '"}'; } > m.dmm
for i in 1 2 3 4 5; do "$bin" -e t.dme minimap -o out$i m.dmm >o 2>&1 || { cat o; exit 3; }; cmp out1/m-1.png out$i/m-1.png || exit 1; done
exit 0
''')
C='crates/dmm-tools-cli/src/main.rs'
DM='''python3 - <<'E'
def w(n,t,grid):
    with open(n,'w') as f:
        f.write('"a" = (/turf/%s,/area/a)\\n"b" = (/turf/common,/area/a)\\n\\n(1,1,1) = {"\\n'%t)
        for r in grid: f.write(r+'\\n')
        f.write('"}\\n')
w('l.dmm','left',['ba'*6]*12); w('r.dmm','right',['ba'*6]*12)
E
'''
bug('diff-report-buffered','C20',[(C,'            use std::cmp::min;\n','            use std::cmp::min;\n            // there may be very many lines\n            let mut report = std::io::BufWriter::new(std::io::stdout());\n'),
 (C,'''                            println!("    different tile: ({}, {}, {})", x + 1, y + 1, z + 1);''','''                            writeln!(
                                report,
                                "    different tile: ({}, {}, {})",
                                x + 1,
                                y + 1,
                                z + 1
                            )
                            .unwrap();''')],
 'a disk which becomes full while the last part of the report is written','the list of different tiles is cut short, and the exit status is zero',
 binary('dmm-tools-cli','dmm-tools')+DM+'''"$bin" diff-maps l.dmm r.dmm > o || exit 3
[ $(grep -c different.tile o) = 72 ] || { echo "wrong report"; exit 1; }
trap '' XFSZ
( ulimit -f 1; exec "$bin" diff-maps l.dmm r.dmm > p 2>q ); rc=$?
[ $rc != 0 ] || cmp o p || { echo "exit 0 with $(wc -c < p) of $(wc -c < o) bytes"; exit 1; }
exit 0
''')
bug('diff-one-dictionary','C20',[(C,'''                            &right_map.dictionary[&right_map.grid[(z, right_dims.1 - y - 1, x)]];
                        if left_tile''','''                            &right_map.dictionary[&right_map.grid[(z, right_dims.1 - y - 1, x)]];
                        // usually most of the map is unchanged
                        if left_map.dictionary.len() == right_map.dictionary.len()
                            && left_map.grid[(z, left_dims.1 - y - 1, x)]
                                == right_map.grid[(z, right_dims.1 - y - 1, x)]
                        {
                            continue;
                        }
                        if left_tile''')],
 'two maps with equally many keys, one of which names different tiles in each','tiles which differ are not listed',
 binary('dmm-tools-cli','dmm-tools')+DM+'''"$bin" diff-maps l.dmm r.dmm > o || exit 3
[ $(grep -c different.tile o) = 72 ] || { echo "$(grep -c different.tile o) tiles listed instead of 72"; exit 1; }
exit 0
''')
