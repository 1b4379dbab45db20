//! Images with any contents: well-formed ones with structures overwritten in
//! places that matter, and noise.  Everything is opened and read to the end,
//! and the memory it takes is recorded.
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use vh::ext4::*;
use vh::util::*;
use vh::world::*;

/// Counts what is allocated.
struct Meter;
static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
fn grow(n: usize) {
    let now = NOW.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(now, Relaxed);
    LARGEST.fetch_max(n, Relaxed);
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n);
        NOW.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static METER: Meter = Meter;

/// Every field with every special value, one at a time.
fn sweep() -> Vec<(usize, (usize, usize), u64)> {
    const VALUES: &[u64] = &[0, 1, 2, 3, 7, 8, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, u64::MAX - 1, u64::MAX];
    const DESC: &[(usize, usize)] = &[(8, 4), (40, 4), (18, 2)];
    const INODE: &[(usize, usize)] = &[
        (0, 2), (4, 4), (108, 4), (32, 4), (34, 2), (40, 2), (42, 2), (44, 2), (46, 2), (52, 4), (56, 2), (58, 2), (60, 4),
        (56, 4), (60, 2), (128, 2), (132, 4), (136, 4), (140, 4), (144, 4), (8, 4), (12, 4), (16, 4), (20, 4), (100, 4),
    ];
    const TREE: &[(usize, usize)] =
        &[(0, 2), (2, 2), (4, 2), (6, 2), (12, 4), (16, 2), (16, 4), (18, 2), (20, 4), (20, 2), (24, 4), (28, 2)];
    const DIR: &[(usize, usize)] = &[(0, 4), (4, 2), (6, 1), (7, 1), (4, 1), (5, 1)];
    let mut res = vec![];
    for (k, fields) in [SUPER, DESC, INODE, TREE, DIR].into_iter().enumerate() {
        for f in fields {
            for v in VALUES {
                res.push((k, *f, *v));
            }
        }
    }
    res
}

fn swept(r: &mut Rng, (k, (o, n), v): (usize, (usize, usize), u64)) -> Case {
    let mut f = base(r);
    let mut of: Vec<Place> = vec![];
    for _ in 0..50 {
        of = f.places.iter().filter(|p| kind(p) == k && o + n <= p.len).cloned().collect();
        if !of.is_empty() {
            break;
        }
        f = base(r);
    }
    if !of.is_empty() {
        let p = r.pick(&of).clone();
        let mut b = f.b.img.read(p.at, p.len);
        b[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        reseal(&p.what, &mut b);
        f.b.img.write(p.at, &b);
    }
    let bs = f.b.bs() as usize;
    let max = f.b.geo.inodes;
    let ops = operations(r, &f.inodes, max, bs);
    measured("sweep", f.b.img, ops)
}

fn operations(r: &mut Rng, inodes: &[u32], max: u32, bs: usize) -> Vec<Op> {
    let mut ops = vec![Op::Open];
    let mut hs = 0usize;
    for n in inodes {
        ops.push(Op::Stat(*n));
        ops.push(Op::File(*n));
        hs += 1;
        if r.chance(1, 4) {
            ops.push(Op::File(*n));
            hs += 1;
        }
    }
    for _ in 0..3 {
        let n = match r.below(4) {
            0 => *r.pick(&[0u32, 1, 2, u32::MAX, u32::MAX - 1]),
            1 => max.wrapping_add(r.below(3) as u32).wrapping_sub(1),
            _ => r.range(1, u64::from(max.max(1))) as u32,
        };
        ops.push(Op::Stat(n));
        ops.push(Op::File(n));
        hs += 1;
    }
    // On a file what is only for directories does nothing, and the reverse
    for _ in 0..r.range(6, 16) {
        let h = r.below(hs as u64) as usize;
        ops.push(Op::Next(h));
        ops.push(Op::Read(h, *r.pick(&[bs, bs, bs, bs + 1, 65536, 100])));
    }
    for h in 0..hs {
        ops.push(Op::Drain(h, 3000));
    }
    ops
}

fn measured(k: &'static str, img: Image, ops: Vec<Op>) -> Case {
    let input = json!({"k": k, "img": img.json(), "ops": ops_json(&ops)});
    Case::new(input, move || {
        let mut s = Session::new(img.device(512));
        let mut res = vec![];
        for op in &ops {
            let now = NOW.load(Relaxed);
            PEAK.store(now, Relaxed);
            LARGEST.store(0, Relaxed);
            let mut v = guard(|| s.apply(op));
            let (peak, largest) = (PEAK.load(Relaxed) - now, LARGEST.load(Relaxed));
            let m = v.as_object_mut().unwrap();
            // In KiB, rounded up
            m.insert("peak".into(), json!(peak.div_ceil(1024)));
            m.insert("largest".into(), json!(largest.div_ceil(1024)));
            res.push(v);
        }
        ok(json!(res))
    })
}

fn fuzz(r: &mut Rng) -> Case {
    let mut f = base(r);
    let mutations = *r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 5, 8]);
    for _ in 0..mutations {
        mutate(r, &mut f);
    }
    if r.chance(1, 10) {
        f.b.img.size = r.below(f.b.img.size);
    }
    if r.chance(1, 12) {
        let (a, z) = (r.below(f.b.img.size / 1024 + 1), r.below(4) + 1);
        f.b.img.bad.push((a, a + z));
    }
    let bs = f.b.bs() as usize;
    let max = f.b.geo.inodes;
    let ops = operations(r, &f.inodes, max, bs);
    measured("mutant", f.b.img, ops)
}

/// A device of noise, or a superblock of noise.
fn noise(r: &mut Rng) -> Case {
    let mut img = Image { size: r.below(6000) + 100, ..Default::default() };
    if r.chance(1, 2) {
        img.size = 1024 * r.range(3, 40);
    }
    let n = r.range(1, 4096) as usize;
    img.write(r.below(1500), &r.bytes(n));
    if r.chance(3, 4) {
        let mut b = match r.below(3) {
            0 => r.bytes(1024),
            _ => {
                let mut b = random_geo(r, true, 6).superblock();
                for _ in 0..r.range(1, 30) {
                    let o = r.below(1024) as usize;
                    b[o] = *r.pick(&[0, 0, 1, 255, 128, 127]);
                }
                b
            }
        };
        put16(&mut b, 56, 0xef53);
        if r.chance(1, 2) {
            put32(&mut b, 24, r.below(7) as u32);
            let log = b[24..28].to_vec();
            b[28..32].copy_from_slice(&log);
            let bpg = b[32..36].to_vec();
            b[36..40].copy_from_slice(&bpg);
            put16(&mut b, 60, 1);
            b[372] = 0;
            b[373] = 1;
            b[72..76].fill(0);
            b[96] |= 0x40;
            b[98..100].fill(0);
        }
        seal_superblock(&mut b);
        img.write(1024, &b);
    }
    let max = r.range(1, 50) as u32;
    let ops = operations(r, &[2, 11], max, 1024);
    measured("noise", img, ops)
}

/// An image which the specification's model wrote, its operations, and
/// everything read to the end.
fn from_scenario(s: &serde_json::Value) -> Case {
    let img = Image::from_json(&s["img"]);
    let mut ops: Vec<Op> = s["ops"].as_array().unwrap().iter().map(Op::from_json).collect();
    let handles = ops.iter().filter(|op| matches!(op, Op::File(_))).count();
    ops.extend((0..handles).map(|h| Op::Drain(h, 3000)));
    measured("scenario", img, ops)
}

fn main() {
    vh::main_with(|ctx| {
        let stride = if ctx.thorough { 1 } else { 2 };
        let scen = ctx.scenarios().into_iter().step_by(stride).map(|s| from_scenario(&s));
        let n = ctx.n(3000, 40000) as u64;
        let c = ctx.copy();
        let c2 = ctx.copy();
        let sweeps = sweep().into_iter().enumerate().map(move |(k, s)| swept(&mut c2.rng("sweep", k as u64), s));
        Box::new(scen.chain(sweeps).chain((0..n).map(move |k| {
            let mut r = c.rng("fuzz", k);
            if k % 8 == 7 {
                noise(&mut r)
            } else {
                fuzz(&mut r)
            }
        })))
    })
}
