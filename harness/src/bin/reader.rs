//! Histories of operations on byte readers over one block device.
use md_recover::verif::block_device::{BlockDevice, BlockDeviceReader, BlockNumber};
use md_recover::verif::md::{MdArray, MdDevice};
use serde_json::{json, Value};
use std::io::{Read, Seek, SeekFrom};
use std::path::Path;
use vh::dev::VDev;
use vh::raid::*;
use vh::util::*;

#[derive(Clone, Debug)]
enum Op {
    Read(usize, usize),
    Start(usize, u64),
    Cur(usize, i64),
    End(usize, i64),
    Block(usize, u64, usize),
    Count(usize),
    Clone(usize),
}

fn off(o: i64) -> Value {
    json!({"neg": o < 0, "n": w(o.unsigned_abs())})
}

impl Op {
    fn handle(&self) -> usize {
        let (Op::Read(h, _)
        | Op::Start(h, _)
        | Op::Cur(h, _)
        | Op::End(h, _)
        | Op::Block(h, _, _)
        | Op::Count(h)
        | Op::Clone(h)) = self;
        *h
    }
    fn json(&self) -> Value {
        match self {
            Op::Read(h, n) => json!({"op": "read", "h": h + 1, "n": n}),
            Op::Start(h, p) => json!({"op": "seek", "h": h + 1, "whence": "start", "off": {"neg": false, "n": w(*p)}}),
            Op::Cur(h, o) => json!({"op": "seek", "h": h + 1, "whence": "cur", "off": off(*o)}),
            Op::End(h, o) => json!({"op": "seek", "h": h + 1, "whence": "end", "off": off(*o)}),
            Op::Block(h, b, n) => json!({"op": "block", "h": h + 1, "b": w(*b), "n": n}),
            Op::Count(h) => json!({"op": "count", "h": h + 1}),
            Op::Clone(h) => json!({"op": "clone", "h": h + 1}),
        }
    }
}

struct Dev {
    size: u64,
    bs: u32,
    segs: Vec<(u64, Vec<u8>)>,
    bad: Vec<(u64, u64)>,
    short: usize,
    interrupts: bool,
    /// Read calls which fail, counted from when the operations begin
    fail: Vec<u64>,
    others: Vec<u64>,
    /// The contents are striped over the members of an array
    raid: Option<Raid>,
    /// The contents are in a file, or those of the members are
    file: bool,
}

fn run(d: &Dev, ops: &[Op], path: &Path) -> Value {
    let dev = VDev::new(d.size, d.bs);
    for (o, b) in &d.segs {
        dev.write(*o, b);
    }
    let set = |dev: &VDev| {
        let mut sh = dev.sh.borrow_mut();
        sh.bad = d.bad.clone();
        sh.short = d.short;
        sh.interrupts = d.interrupts;
        sh.fail_others = d.others.iter().map(|k| sh.others + k).collect();
        sh.fail_calls = d.fail.iter().map(|k| sh.calls + k).collect();
    };
    match &d.raid {
        None if d.file => history(BlockDeviceReader::new(dev.file(path)), &[], d, ops),
        None => {
            set(&dev);
            history(BlockDeviceReader::new(dev.clone()), &[dev], d, ops)
        }
        Some(raid) => {
            let devs = raid.members(&dev.contents(0, d.size as usize), &mut Rng(d.size));
            if d.file {
                let members = devs
                    .iter()
                    .enumerate()
                    .map(|(k, dev)| MdDevice::from_block_device(dev.file(path), Some(&format!("d{k}"))).unwrap());
                let array = MdArray::open(members.collect::<Vec<_>>());
                return history(BlockDeviceReader::new(array), &[], d, ops);
            }
            let members = devs.iter().enumerate().map(|(k, dev)| {
                let m = MdDevice::from_block_device(dev.clone(), Some(&format!("d{k}"))).unwrap();
                set(dev);
                m
            });
            let array = MdArray::open(members.collect::<Vec<_>>());
            history(BlockDeviceReader::new(array), &devs, d, ops)
        }
    }
}

fn history<D: BlockDevice>(first: BlockDeviceReader<D>, devs: &[VDev], d: &Dev, ops: &[Op]) -> Value {
    let mut hs = vec![first];
    let out: Vec<Value> = ops
        .iter()
        .map(|op| {
            devs.iter().for_each(|d| d.sh.borrow_mut().failed = 0);
            let mut v = guard(|| match op {
                op if op.handle() >= hs.len() => json!({"s": "none"}),
                Op::Read(h, n) => {
                    let mut buf = vec![0x5a; *n];
                    match hs[*h].read(&mut buf) {
                        Ok(k) if k <= *n => ok(json!(buf[..k])),
                        Ok(_) => json!({"s": "overrun"}),
                        Err(e) => err(&e),
                    }
                }
                Op::Start(h, p) => io_out(hs[*h].seek(SeekFrom::Start(*p)).map(w)),
                Op::Cur(h, o) => io_out(hs[*h].seek(SeekFrom::Current(*o)).map(w)),
                Op::End(h, o) => io_out(hs[*h].seek(SeekFrom::End(*o)).map(w)),
                Op::Block(h, b, n) => {
                    let mut buf = vec![0x5a; *n];
                    let bs = (d.bs as usize).min(*n);
                    io_out(hs[*h].read_block(BlockNumber(*b), &mut buf).map(|n| {
                        json!({"n": n, "d": buf[..bs], "tail": buf[bs..].iter().all(|x| *x == 0x5a)})
                    }))
                }
                Op::Count(h) => io_out(hs[*h].block_count().and_then(|c| {
                    Ok(json!([w(u64::from(c)), w(u64::from(hs[*h].block_size()?))]))
                })),
                Op::Clone(h) => match hs[*h].try_clone() {
                    Ok(c) => {
                        hs.push(c);
                        ok(json!(0))
                    }
                    Err(e) => err(&e),
                },
            });
            v["hit"] = devs.iter().any(|d| d.sh.borrow().failed > 0).into();
            v
        })
        .collect();
    ok(json!(out))
}

fn case(ctx: &Ctx, k: &'static str, d: Dev, ops: Vec<Op>) -> Case {
    let input = json!({
        "k": if d.file { format!("{k} in files") } else { k.into() },
        "dev": {
            "size": w(d.size), "bs": d.bs,
            "segs": d.segs.iter().map(|(o, b)| json!({"off": w(*o), "b": b})).collect::<Vec<_>>(),
            "bad": d.bad.iter().map(|(a, b)| json!([w(*a), w(*b)])).collect::<Vec<_>>(),
        },
        "ops": ops.iter().map(Op::json).collect::<Vec<_>>(),
    });
    let path = ctx.work.join("device");
    Case::new(input, move || run(&d, &ops, &path))
}

fn from_scenario(ctx: &Ctx, s: &Value, file: bool) -> Case {
    let size = s["size"].as_u64().unwrap();
    let d = Dev {
        size,
        bs: s["bs"].as_u64().unwrap() as u32,
        segs: vec![(0, (0..size).map(|k| 11 + k as u8).collect())],
        bad: vec![],
        short: 0,
        interrupts: false,
        fail: vec![],
        others: vec![],
        raid: None,
        file,
    };
    let (mut h, mut count) = (0, 1);
    let mut ops = vec![];
    for o in s["ops"].as_array().unwrap() {
        match o["op"].as_str().unwrap() {
            "read" => ops.push(Op::Read(h, o["n"].as_u64().unwrap() as usize)),
            "seek" => {
                let n = o["n"].as_i64().unwrap();
                ops.push(match o["whence"].as_str().unwrap() {
                    "start" => Op::Start(h, n as u64),
                    "cur" => Op::Cur(h, n),
                    _ => Op::End(h, n),
                })
            }
            "clone" => {
                ops.push(Op::Clone(h));
                count += 1;
                h = count - 1;
            }
            _ => h = (h + 1) % count,
        }
    }
    // Where everything ended up
    for h in 0..count {
        ops.push(Op::Cur(h, 0));
        ops.push(Op::Read(h, 3));
    }
    case(ctx, "scenario", d, ops)
}

fn random(ctx: &Ctx, r: &mut Rng, tables: &Tables) -> Case {
    let raid = r.chance(1, 6).then(|| {
        let sectors = r.range(1, 6);
        Raid::random(r, tables, sectors)
    });
    // Everything after the contents is zeros
    let raid = raid.filter(|d| d.capacity() < 5000);
    let huge = raid.is_none() && r.chance(1, 5);
    let bs = if raid.is_some() {
        512
    } else if huge && r.chance(1, 8) {
        *r.pick(&[1024, 2048, 4096])
    } else {
        any_block_size(r)
    };
    let (size, segs) = if let Some(raid) = &raid {
        let size = raid.capacity() * 512;
        let n = r.below(size.min(2000) + 1) as usize;
        (size, vec![(r.below(size - n as u64 + 1), r.bytes(n))])
    } else {
        contents(r, huge, bs)
    };
    let bad = if r.chance(1, 6) && size > 0 && raid.is_none() {
        let a = if huge { segs[r.below(segs.len() as u64) as usize].0 } else { r.below(size) };
        vec![(a, a.saturating_add(r.range(1, 40)).min(size))]
    } else {
        vec![]
    };
    let fail = if r.chance(1, 4) { (0..r.range(1, 4)).map(|_| r.below(40)).collect() } else { vec![] };
    let others = if r.chance(1, 6) { (0..r.range(1, 4)).map(|_| r.below(60)).collect() } else { vec![] };
    let file = r.chance(1, 4) && size < 1 << 41;
    // A file doesn't fail
    let (bad, fail, others) = if file { (vec![], vec![], vec![]) } else { (bad, fail, others) };
    let d = Dev {
        size,
        bs,
        file,
        bad,
        others,
        short: if r.chance(1, 6) { r.range(1, 9) as usize } else { 0 },
        interrupts: r.chance(1, 8),
        segs,
        fail,
        raid,
    };
    let mut handles = 1;
    let mut ops = vec![];
    let b = u64::from(bs);
    // Whole blocks one after the other, by several handles in turns
    let steady = r.chance(1, 6);
    if steady {
        ops.push(Op::Clone(0));
        ops.push(Op::Start(0, r.below(size + 1)));
        handles = 2;
    }
    for _ in 0..r.range(3, 30) {
        let h = r.below(handles) as usize;
        // A position worth visiting
        let any = if huge {
            let s = d.segs[r.below(d.segs.len() as u64) as usize].0;
            s.saturating_add(r.below(45)).saturating_sub(r.below(6))
        } else {
            let p = r.below(size + 3);
            match r.below(4) {
                0 => p,
                1 => p / b * b,
                2 => (p / b * b + b).saturating_sub(1),
                _ => size.saturating_sub(r.below(b + 2)),
            }
        };
        let n = match r.below(10) {
            0 => 0,
            1 => bs as usize,
            2 => bs as usize + 1,
            3 => (bs as usize).saturating_sub(1),
            4 => *r.pick(&[200, 256, 5000, 65_536, 65_537, 131_072]),
            _ => r.below(40) as usize,
        };
        let kind = if steady && r.chance(7, 8) { 14 } else { r.below(14) };
        ops.push(match kind {
            14 => Op::Read(h, (bs as usize).min(1000)),
            0..=4 => Op::Read(h, n),
            5 | 6 => Op::Start(h, if r.chance(1, 12) { *r.pick(&[u64::MAX, 1 << 63, u64::MAX - 1, i64::MAX as u64]) } else { any }),
            7 | 8 => Op::Cur(h, match r.below(8) {
                0 => i64::MIN,
                1 => i64::MAX,
                2 => -(b as i64),
                3 => b as i64,
                4 => 0,
                5 => -1,
                _ => r.below(2 * b + 20) as i64 - (b as i64) - 10,
            }),
            9 => Op::End(h, match r.below(7) {
                0 => i64::MIN,
                1 => i64::MAX,
                2 => 0,
                3 => 1,
                _ => -(r.below(2 * b + 20) as i64),
            }),
            10 | 11 => {
                let blk = match r.below(9) {
                    7 => wrapping(r, b),
                    0 => u64::MAX,
                    1 => u64::MAX / b,
                    2 => size / b,
                    3 => (size / b).saturating_sub(1),
                    _ => any / b,
                };
                let len = *r.pick(&[bs as usize, bs as usize, bs as usize + 5, (bs as usize).saturating_sub(1), 0]);
                Op::Block(h, blk, len)
            }
            12 => {
                if handles < 4 {
                    handles += 1;
                    Op::Clone(h)
                } else {
                    Op::Read(h, n)
                }
            }
            _ => Op::Count(h),
        });
    }
    case(ctx, if d.raid.is_some() { "array" } else if huge { "huge" } else { "small" }, d, ops)
}

fn contents(r: &mut Rng, huge: bool, bs: u32) -> (u64, Vec<(u64, Vec<u8>)>) {
    if huge {
        let bits = r.range(33, 64);
        let size = if bits == 64 { u64::MAX - r.below(3000) } else { r.below(1 << bits) + (1 << bits) / 2 };
        let mut at: Vec<u64> = (0..3).map(|_| r.below(size)).collect();
        at.push(size - size.min(40));
        at.push(0);
        at.sort();
        at.dedup_by(|a, b| *a - *b < 100);
        (size, at.into_iter().map(|a| (a, (0..40.min(size - a)).map(|_| r.byte()).collect())).collect::<Vec<_>>())
    } else {
        let blocks = r.below(8);
        let size = blocks * u64::from(bs) + if r.chance(1, 2) { r.below(bs.into()) } else { 0 };
        let size = size.min(900);
        (size, vec![(0, (0..size).map(|_| r.byte()).collect())])
    }
}

fn any_block_size(r: &mut Rng) -> u32 {
    *r.pick(&[1u32, 2, 3, 4, 5, 7, 8, 16, 31, 32, 64, 100, 512 ])
}

fn cases(ctx: &Ctx) -> Cases {
    let stride = if ctx.thorough { 1 } else { 2 };
    let scen = ctx.scenarios().into_iter().filter(|s| s["rows"].is_null()).step_by(stride);
    let c = ctx.copy();
    let scen = scen.enumerate().map(move |(k, s)| from_scenario(&c, &s, k % 3 == 0));
    let n = ctx.n(2500, 40000) as u64;
    let c = ctx.copy();
    let tables = Tables::new(ctx);
    let random = (0..n).map(move |k| random(&c, &mut c.rng("reader", k), &tables));
    Box::new(scen.chain(random))
}

fn main() {
    vh::main_with(cases)
}
