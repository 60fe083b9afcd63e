//! Shared generators of fault and schedule configurations.
use simos::*;

/// A per-run random mixture ("swarm") of read-side delivery variations which
/// must never change a result.
pub fn benign_delivery(r: &mut Rng, c: &mut Config) {
    c.seed = r.next();
    for f in [0, 1] {
        let v = match r.below(6) {
            0 | 1 => Chunk::Full,
            2 => Chunk::Max(1 + r.below(3) as u32),
            3 => Chunk::Max(1 + r.below(600) as u32),
            4 => Chunk::Rand(1 + r.below(16) as u32),
            _ => Chunk::Rand(1 + r.below(5000) as u32),
        };
        if f == 0 {
            c.file_read = v;
        } else {
            c.file_write = v;
        }
    }
    if r.chance(1, 2) {
        c.eintr = *r.pick(&[1u32, 10, 100, 400]);
    }
    c.shuffle_dirs = r.chance(1, 2);
}

pub fn hash_seed(r: &mut Rng, c: &mut Config) {
    c.hash_seed = if r.chance(1, 8) { 0 } else { r.next() };
}

pub fn schedule(r: &mut Rng, ticks: u64) -> Sched {
    match r.below(8) {
        0 => Sched::Seq,
        1..=4 => Sched::Random {
            seed: r.next(),
            den: *r.pick(&[1u32, 2, 4, 16, 64]),
            edges: *r.pick(&[0u64, 0, 3, 12, 100, 1000, 10000, 100000]),
        },
        _ => Sched::Pct { seed: r.next(), depth: 1 + r.below(6) as u32, horizon: 1 + r.below(ticks.max(2)) },
    }
}

pub const READ_ERRNOS: [i32; 2] = [libc::EIO, libc::ENOMEM];
pub const OPEN_ERRNOS: [i32; 5] = [libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOENT, libc::ENOMEM];
pub const WRITE_ERRNOS: [i32; 3] = [libc::ENOSPC, libc::EIO, libc::EDQUOT];

/// Mostly replace very small transfers, which make runs over large files slow.
pub fn coarse(r: &mut Rng, c: &mut Config) {
    if r.chance(1, 40) {
        return;
    }
    for f in [&mut c.file_read, &mut c.file_write] {
        match f {
            Chunk::Max(n) if *n < 300 => *n = 300 + r.below(3000) as u32,
            Chunk::Rand(n) if *n < 500 => *n = 500 + r.below(5000) as u32,
            _ => {},
        }
    }
    if c.eintr > 100 {
        c.eintr = 100;
    }
}
