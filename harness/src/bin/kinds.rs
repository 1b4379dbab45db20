//! Histories of operations on file-backed, native and in-memory devices with
//! the same contents.  The ioctls of a native device are answered here: its
//! size is the file's, its physical block size the case's.
use md_recover::verif::block_device::*;
use serde_json::{json, Value};
use std::fs::{File, OpenOptions};
use std::io::{self, Read, Seek, SeekFrom};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, Ordering};
use vh::util::*;

static BLOCK_SIZE: AtomicU32 = AtomicU32::new(512);

/// Replaces the C library's: the files which stand for block devices are not
/// block devices.
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, req: libc::c_ulong, arg: *mut libc::c_void) -> i32 {
    let mut st: libc::stat = std::mem::zeroed();
    if libc::fstat(fd, &mut st) != 0 {
        return -1;
    }
    let bs = BLOCK_SIZE.load(Ordering::Relaxed);
    match req {
        0x80081272 => *(arg as *mut u64) = st.st_size as u64,
        0x1260 => *(arg as *mut u64) = st.st_size as u64 / 512,
        0x127b => *(arg as *mut u32) = bs,
        // The logical block size, which is no larger
        0x1268 => *(arg as *mut u32) = bs.div_ceil(2),
        _ => {
            *libc::__errno_location() = libc::ENOTTY;
            return -1;
        }
    }
    0
}

#[derive(Clone, Debug)]
enum Op {
    Read(usize, usize),
    Start(usize, u64),
    Cur(usize, i64),
    End(usize, i64),
    Block(usize, u64, usize),
    Count(usize),
    Clone(usize),
    Truncate(u64),
}

fn off(o: i64) -> Value {
    json!({"neg": o < 0, "n": w(o.unsigned_abs())})
}

impl Op {
    fn json(&self) -> Value {
        match self {
            Op::Read(h, n) => json!({"op": "read", "h": h + 1, "n": n}),
            Op::Start(h, p) => json!({"op": "seek", "h": h + 1, "whence": "start", "off": {"neg": false, "n": w(*p)}}),
            Op::Cur(h, o) => json!({"op": "seek", "h": h + 1, "whence": "cur", "off": off(*o)}),
            Op::End(h, o) => json!({"op": "seek", "h": h + 1, "whence": "end", "off": off(*o)}),
            Op::Block(h, b, n) => json!({"op": "block", "h": h + 1, "b": w(*b), "n": n}),
            Op::Count(h) => json!({"op": "count", "h": h + 1}),
            Op::Clone(h) => json!({"op": "clone", "h": h + 1}),
            Op::Truncate(n) => json!({"op": "truncate", "size": w(*n)}),
        }
    }
}

const KINDS: [&str; 3] = ["file", "native", "memory"];

#[derive(Clone)]
struct Dev {
    kind: usize,
    size: u64,
    bs: u32,
    segs: Vec<(u64, Vec<u8>)>,
}

fn history<D: BlockDevice + Read + Seek>(first: D, d: &Dev, path: Option<&PathBuf>, ops: &[Op]) -> Value {
    let mut hs = vec![first];
    let out: Vec<Value> = ops
        .iter()
        .map(|op| {
            guard(|| match op {
                Op::Read(h, n) => {
                    let mut buf = vec![0x5a; *n];
                    match hs[*h].read(&mut buf) {
                        Ok(k) if k <= *n => ok(json!(buf[..k])),
                        Ok(_) => json!({"s": "overrun"}),
                        Err(e) => err(&e),
                    }
                }
                Op::Start(h, p) => io_out(hs[*h].seek(SeekFrom::Start(*p)).map(w)),
                Op::Cur(h, o) => io_out(hs[*h].seek(SeekFrom::Current(*o)).map(w)),
                Op::End(h, o) => io_out(hs[*h].seek(SeekFrom::End(*o)).map(w)),
                Op::Block(h, b, n) => {
                    let mut buf = vec![0x5a; *n];
                    let bs = (d.bs as usize).min(*n);
                    io_out(hs[*h].read_block(BlockNumber(*b), &mut buf).map(|n| {
                        json!({"n": n, "d": buf[..bs], "tail": buf[bs..].iter().all(|x| *x == 0x5a)})
                    }))
                }
                Op::Count(h) => io_out(hs[*h].block_count().and_then(|c| {
                    Ok(json!([w(u64::from(c)), w(u64::from(hs[*h].block_size()?))]))
                })),
                Op::Clone(h) => match hs[*h].try_clone() {
                    Ok(c) => {
                        hs.push(c);
                        ok(json!(0))
                    }
                    Err(e) => err(&e),
                },
                Op::Truncate(n) => {
                    OpenOptions::new().write(true).open(path.unwrap()).unwrap().set_len(*n).unwrap();
                    ok(json!(0))
                }
            })
        })
        .collect();
    ok(json!(out))
}

fn run(d: &Dev, ops: &[Op], path: PathBuf) -> Value {
    if d.kind == 2 {
        let mut mem = vec![0; d.size as usize];
        for (o, b) in &d.segs {
            put(&mut mem, *o as usize, b);
        }
        return history(InMemoryBlockDevice::new(mem, BlockSize(d.bs)), d, None, ops);
    }
    let make = || -> io::Result<()> {
        let f = File::create(&path)?;
        f.set_len(d.size)?;
        for (o, b) in &d.segs {
            f.write_all_at(b, *o)?;
        }
        Ok(())
    };
    make().expect("scratch file");
    let res = if d.kind == 0 {
        match FileBlockDevice::open_path(&path, BlockSize(d.bs)) {
            Ok(dev) => history(dev, d, Some(&path), ops),
            Err(e) => err(&e),
        }
    } else {
        BLOCK_SIZE.store(d.bs, Ordering::Relaxed);
        match NativeBlockDevice::open_path(&path) {
            Ok(dev) => history(dev, d, Some(&path), ops),
            Err(e) => err(&e),
        }
    };
    std::fs::remove_file(&path).unwrap();
    res
}

fn case(ctx: &Ctx, k: &'static str, d: Dev, ops: Vec<Op>) -> Case {
    let input = json!({
        "k": format!("{k} {}", KINDS[d.kind]),
        "dev": {
            "kind": KINDS[d.kind], "size": w(d.size), "bs": d.bs,
            "segs": d.segs.iter().map(|(o, b)| json!({"off": w(*o), "b": b})).collect::<Vec<_>>(),
        },
        "ops": ops.iter().map(Op::json).collect::<Vec<_>>(),
    });
    let path = ctx.work.join("device");
    Case::new(input, move || run(&d, &ops, path))
}

/// A modelled history; a block read spoils the cursors, so it is followed by
/// a look at where the handles can be put.
fn from_scenario(s: &Value) -> (u64, u32, Vec<Op>) {
    let size = s["size"].as_u64().unwrap();
    let (mut h, mut count) = (0, 1);
    let mut ops = vec![];
    for o in s["ops"].as_array().unwrap() {
        let n = || o["n"].as_i64().unwrap();
        match o["op"].as_str().unwrap() {
            "read" => ops.push(Op::Read(h, n() as usize)),
            "by" => h = n() as usize - 1,
            "block" => ops.push(Op::Block(h, o["b"].as_u64().unwrap(), n() as usize)),
            "seek" => ops.push(match o["whence"].as_str().unwrap() {
                "start" => Op::Start(h, n() as u64),
                "cur" => Op::Cur(h, n()),
                _ => Op::End(h, n()),
            }),
            _ => {
                ops.push(Op::Clone(h));
                count += 1;
                h = count - 1;
            }
        }
    }
    ops.push(Op::Cur(h, 0));
    ops.push(Op::Read(h, 3));
    ops.push(Op::End(h, -2));
    ops.push(Op::Read(h, 3));
    ops.push(Op::Count(h));
    (size, s["bs"].as_u64().unwrap() as u32, ops)
}

fn random(ctx: &Ctx, r: &mut Rng) -> Vec<Case> {
    let huge = r.chance(1, 4);
    let bs = if huge {
        *r.pick(&[1u32, 3, 512, 4096, 1 << 16, (1 << 24) - 1])
    } else {
        *r.pick(&[1u32, 2, 3, 5, 8, 16, 31, 64, 512])
    };
    let b = u64::from(bs);
    let (size, segs) = if huge {
        let bits = r.range(20, 41);
        let size = (1u64 << bits) + r.below(1 << bits);
        let mut at: Vec<u64> = (0..4).map(|_| r.below(size)).collect();
        at.push(size - 40);
        at.push(0);
        // Around the boundary of 32 bits and around a block's
        for p in [1u64 << 31, 1 << 32, 1 << 40, r.below(size / b + 1) * b] {
            if p + 20 < size && p >= 20 {
                at.push(p - 20);
            }
        }
        at.sort();
        at.dedup_by(|a, b| *a - *b < 100);
        (size, at.into_iter().map(|a| (a, r.bytes(40.min(size - a) as usize))).collect::<Vec<_>>())
    } else {
        let size = (r.below(8) * b + if r.chance(1, 2) { r.below(b) } else { 0 }).min(900);
        (size, vec![(0, r.bytes(size as usize))])
    };
    let mut handles = 1;
    let mut left = size;
    let kinds: Vec<usize> = if size > 1 << 22 { vec![0, 1] } else { vec![0, 1, 2] };
    let truncates = r.chance(1, 5);
    let mut ops = vec![];
    let mut next = [0u64; 4];
    let steady = r.chance(1, 6);
    if steady {
        ops.push(Op::Clone(0));
        handles = 2;
    }
    for _ in 0..r.range(3, 24) {
        let h = r.below(handles) as usize;
        let any = if huge {
            let s = segs[r.below(segs.len() as u64) as usize].0;
            s.saturating_add(r.below(45)).saturating_sub(r.below(6))
        } else {
            let p = r.below(size + 3);
            match r.below(4) {
                0 => p,
                1 => p / b * b,
                2 => (p / b * b + b).saturating_sub(1),
                _ => size.saturating_sub(r.below(b + 2)),
            }
        };
        let n = match r.below(10) {
            0 => 0,
            1 => bs.min(300) as usize,
            2 => 200,
            _ => r.below(40) as usize,
        };
        ops.push(match if steady && r.chance(3, 4) { 10 } else { r.below(15) } {
            0..=3 => Op::Read(h, n),
            4..=6 => Op::Start(h, if r.chance(1, 12) { *r.pick(&[u64::MAX, 1 << 63, u64::MAX - 1, i64::MAX as u64]) } else { any }),
            7 | 8 => Op::Cur(h, match r.below(8) {
                0 => i64::MIN,
                1 => i64::MAX,
                2 => -(b as i64),
                3 => b as i64,
                4 => 0,
                5 => -1,
                _ => r.below(40) as i64 - 20,
            }),
            9 => Op::End(h, match r.below(7) {
                0 => i64::MIN,
                1 => i64::MAX,
                2 => 0,
                3 => 1,
                _ => -(r.below(60) as i64),
            }),
            10..=12 => {
                let blk = match r.below(14) {
                    6 => wrapping(r, b),
                    // The block after the last one read with the handle
                    7..=9 => next[h],
                    0 => u64::MAX,
                    1 => u64::MAX / b,
                    2 => left / b,
                    3 => (left / b).saturating_sub(1),
                    4 => (1 << 63) / b,
                    5 => ((1 << 32) / b).wrapping_add(r.below(3)).wrapping_sub(1),
                    _ => any / b,
                };
                // A whole large block would be a lot to judge
                let len = if bs > 4096 {
                    *r.pick(&[0usize, 1, 512, bs as usize - 1])
                } else {
                    *r.pick(&[bs as usize, bs as usize, bs as usize, bs as usize + 5, (bs as usize).saturating_sub(1), 0])
                };
                next[h] = blk.wrapping_add(1);
                Op::Block(h, blk, len.min(4200))
            }
            13 => {
                if handles < 4 {
                    handles += 1;
                    Op::Clone(h)
                } else {
                    Op::Count(h)
                }
            }
            _ => {
                if truncates && left > 0 {
                    left = if r.chance(1, 2) { left - left.min(r.below(2 * b + 2)) } else { r.below(left) };
                    Op::Truncate(left)
                } else {
                    Op::Count(h)
                }
            }
        });
    }
    let truncated = ops.iter().any(|o| matches!(o, Op::Truncate(_)));
    kinds
        .into_iter()
        .filter(|k| *k != 2 || !truncated)
        .map(|kind| {
            let d = Dev { kind, size, bs, segs: segs.clone() };
            case(ctx, if huge { "huge" } else { "small" }, d, ops.clone())
        })
        .collect()
}

fn cases(ctx: &Ctx) -> Cases {
    let c = ctx.copy();
    let scen = ctx.scenarios().into_iter().flat_map(move |s| {
        let (size, bs, ops) = from_scenario(&s);
        let segs = vec![(0, (0..size).map(|k| 11 + k as u8).collect::<Vec<u8>>())];
        (0..3)
            .map(|kind| case(&c, "scenario", Dev { kind, size, bs, segs: segs.clone() }, ops.clone()))
            .collect::<Vec<_>>()
    });
    let n = ctx.n(900, 12000) as u64;
    let c = ctx.copy();
    let random = (0..n).flat_map(move |k| random(&c, &mut c.rng("kinds", k)));
    Box::new(scen.chain(random))
}

fn main() {
    vh::main_with(cases)
}
