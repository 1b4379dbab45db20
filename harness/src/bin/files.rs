//! Regular files with all kinds of extent trees, read block by block.
use vh::ext4::*;
use vh::util::*;

struct Plan {
    csum: bool,
    max_log_bs: u32,
}

/// Contiguous extents covering `blocks` file blocks or so.
fn extents(b: &mut Builder, r: &mut Rng, count: usize) -> Vec<Ext> {
    let mut at = 0u64;
    let mut res = vec![];
    for _ in 0..count {
        let n = *r.pick(&[1u64, 1, 1, 2, 2, 3, 5]);
        let start = b.data + r.below(6);
        b.data = start + n;
        let unwritten = r.chance(1, 4);
        res.push(Ext { first: at as u32, raw: (n + if unwritten { 32768 } else { 0 }) as u16, start });
        at += n;
    }
    // Some physical places trade lengths and places
    if r.chance(1, 3) && res.len() > 1 {
        let mut starts: Vec<u64> = res.iter().map(|e| e.start).collect();
        r.shuffle(&mut starts);
        for (e, s) in res.iter_mut().zip(starts) {
            e.start = s;
        }
    }
    res
}

fn file(b: &mut Builder, r: &mut Rng, flaw: u64) -> (u32, usize, bool) {
    let n = b.any_inode(r);
    let gen = r.u64() as u32;
    let seed = b.geo.inode_seed(n, gen);
    let depth = *r.pick(&[0u16, 0, 1, 1, 1, 2, 2, 3, 4, 5]);
    let most = if r.chance(1, 5) { 30 } else { 9 };
    let count = if depth == 0 { r.below(5) as usize } else { r.range(1, most) as usize };
    let mut exts = extents(b, r, count);
    let blocks: u64 = exts.iter().map(Ext::len).sum();
    let bs = b.bs();
    let mut size = (blocks * bs).saturating_sub(if r.chance(2, 3) { r.below(bs) } else { 0 });
    let mut flags = HAS_EXTENTS;
    let any = |r: &mut Rng, m: usize| r.below(m.max(1) as u64) as usize;
    let mut open = true;
    if count > 0 {
        let k = any(r, count);
        match flaw {
            1 => size = r.below(size + 1),
            2 => size += r.below(3 * bs),
            3 => size = r.magnitude(63),
            4 => exts[k].raw = *r.pick(&[0, 32769, 32768, 1, 65535]),
            5 => exts[k].first = exts[k].first.wrapping_add(*r.pick(&[1, 2, u32::MAX, 1 << 31])),
            6 => exts[k].start = *r.pick(&[b.limit, b.limit - 1, (1 << 48) - 1, 1 << 32, (1 << 32) + b.data, 0, 1]),
            7 => {
                let e = exts[k].clone();
                let u = (e.start + r.below(e.len())) * bs / 1024;
                b.img.bad.push((u, u + 1 + r.below(2 * bs / 1024)));
            }
            8 => {
                exts.remove(k);
            }
            _ => {}
        }
    }
    let mut nodes = vec![];
    let mut root = b.tree(r, &exts, depth, seed, &mut nodes);
    let mut mode = 0o100644;
    match flaw {
        9 => {
            // A flaw in a tree block
            if !nodes.is_empty() {
                let node = nodes[any(r, nodes.len())].clone();
                let at = node.block * bs;
                match r.below(9) {
                    0 => b.img.flip(at + r.below(2), 1 << r.below(8)),
                    1 => b.img.write(at + 2, &[0, 0]),
                    2 => b.img.write(at + 6, &[*r.pick(&[0u8, 1, 2, 3, 255]), 0]),
                    3 => b.img.write(at + 4, &[*r.pick(&[0u8, 1, 2, 84, 85, 255]), r.below(2) as u8]),
                    4 => b.img.write(at + 2, &[r.byte(), 0]),
                    5 => {
                        let u = at / 1024;
                        b.img.bad.push((u, u + 1));
                    }
                    6 => b.img.write(at + 12, &[r.below(4) as u8]),
                    7 => b.img.write(at + 4, &[255, 255]),
                    _ => {
                        let o = r.below(bs);
                        b.img.flip(at + o, 1 << r.below(8));
                    }
                }
                if r.chance(2, 3) {
                    b.reseal_tree(node.block, seed);
                }
            }
        }
        10 => {
            // A flaw in the root
            match r.below(7) {
                0 => root[r.below(2) as usize] ^= 1 << r.below(8),
                1 => root[2] = *r.pick(&[0, 5, 1, 255]),
                2 => root[4] = *r.pick(&[0, 3, 5, 255]),
                3 => root[6] = *r.pick(&[0, 1, 4, 5, 6, 7]),
                4 => root[7] = 1,
                5 => put(&mut root, 16, &r.bytes(8)),
                _ => {
                    let o = r.range(12, 59) as usize;
                    root[o] ^= 1 << r.below(8);
                }
            }
        }
        11 => flags = *r.pick(&[0, HAS_EXTENTS | INLINE_DATA, INLINE_DATA, HAS_EXTENTS | 0x40000, HAS_EXTENTS | HASH_INDEXED]),
        12 => mode = *r.pick(&[0o040755, 0o120777, 0o020644, 0o060644, 0o010644, 0o140755, 0, 0o170000, 0o110644, 0o100000]),
        13 => {
            open = false;
        }
        _ => {}
    }
    let spec = InodeSpec { mode, size, flags, gen, data: root };
    b.put_inode(n, &spec);
    (n, (blocks + 3).min(90) as usize, open)
}

fn random(r: &mut Rng, plan: &Plan) -> Case {
    let mut b = Builder::new(random_geo(r, plan.csum, plan.max_log_bs));
    let per = b.bs() / 1024;
    let (a, z) = (b.data * per, b.limit * per);
    b.img.pat.push((a, z));
    let flaw = if r.chance(1, 2) { 0 } else { r.range(1, 13) };
    let (n, reads, exists) = file(&mut b, r, flaw);
    let bs = b.bs() as usize;
    let mut ops = vec![Op::Open];
    ops.push(Op::File(if exists { n } else { *r.pick(&[0, b.geo.inodes + 1, u32::MAX, n]) }));
    for _ in 0..reads {
        let len = match r.below(12) {
            0 => bs + 1,
            1 => bs - 1,
            2 => *r.pick(&[0, 1, bs / 2]),
            3 => bs * 2,
            _ => bs,
        };
        ops.push(Op::Read(0, len));
    }
    // The device may end anywhere after the metadata
    if r.chance(1, 12) {
        b.img.size = b.bs() * r.range(b.next, b.data) + r.below(b.bs());
    }
    case(if flaw == 0 { "plain" } else { "flawed" }, b.img, ops)
}

/// Extents of the greatest lengths, and many of them.
fn long(r: &mut Rng, raws: &[u16], depth: u16, k: usize, log: u32) -> Case {
    let mut geo = random_geo(r, false, log);
    while geo.log_bs != log {
        geo = random_geo(r, false, log);
    }
    let mut b = Builder::new(geo);
    let per = b.bs() / 1024;
    let bs = b.bs() as usize;
    let (a, z) = (b.data * per, b.limit * per);
    b.img.pat.push((a, z));
    let mut exts = vec![];
    let mut at = 0u64;
    for raw in raws {
        let e = Ext { first: at as u32, raw: *raw, start: b.data };
        b.data += e.len();
        at += e.len();
        exts.push(e);
    }
    let n = b.any_inode(r);
    let gen = 7;
    let mut nodes = vec![];
    let root = b.tree(r, &exts, depth, None, &mut nodes);
    let size = at * b.bs() - r.below(1024);
    b.put_inode(n, &InodeSpec { mode: 0o100600, size, flags: HAS_EXTENTS, gen, data: root });
    let k = if k == 0 { at as usize + 2 } else { k };
    let ops = vec![Op::Open, Op::File(n), Op::Skim(0, bs, k), Op::Read(0, bs)];
    case("long", b.img, ops)
}

/// Everything at block numbers over 2^32.
fn far(r: &mut Rng) -> Case {
    let log = r.below(3) as u32;
    let csum = r.chance(1, 3);
    let mut geo = random_geo(r, csum, log);
    geo.log_bs = log;
    geo.first_data = u32::from(log == 0);
    geo.incompat |= F_64BIT;
    geo.desc_size = 64;
    let high = 0x1_0000_0000u64 * r.range(2, 0x7fff);
    let base = high >> (10 + log) << (10 + log);
    let first = base / geo.bs();
    for t in geo.tables.iter_mut() {
        *t += first;
    }
    let mut b = Builder::new(geo);
    let bs = b.bs();
    b.img.high = base;
    b.img.size = base + 4000 * bs;
    // Descriptors were written, with the inode tables far away
    b.next = first + 600;
    b.data = first + 2000;
    b.limit = first + 4000;
    let a = b.img.unit_of(b.data * bs);
    b.img.pat.push((a, a + 2000 * bs / 1024));
    let flaw = if r.chance(2, 3) { 0 } else { r.range(1, 12) };
    let (n, reads, _) = file(&mut b, r, if flaw == 7 || flaw == 9 { 0 } else { flaw });
    let mut ops = vec![Op::Open, Op::File(n)];
    for _ in 0..reads {
        ops.push(Op::Read(0, bs as usize));
    }
    case("far", b.img, ops)
}

fn cases(ctx: &Ctx) -> Cases {
    let scen = ctx.scenarios().into_iter().map(|s| from_scenario(&s));
    let n = ctx.n(900, 20000) as u64;
    let c = ctx.copy();
    let plain = (0..n).map(move |k| {
        let mut r = c.rng("files", k);
        let csum = k % 6 == 0;
        random(&mut r, &Plan { csum, max_log_bs: if csum { 1 } else { 6 } })
    });
    let c = ctx.copy();
    let far = (0..n / 8).map(move |k| far(&mut c.rng("far", k)));
    let c = ctx.copy();
    let mut list: Vec<(Vec<u16>, u16, usize, u32)> = vec![(vec![32768, 2], 0, 0, 0), (vec![3, 65535, 1], 1, 0, 0)];
    // More than 4 GiB
    list.push((vec![1, 65535, 65535, 65535, 2], 1, 0, 6));
    // Many entries in one block
    let short = |n: u16| (0..n).map(|k| 1 + 32768 * u16::from(k % 4 > 0)).collect::<Vec<u16>>();
    list.push((short(1200), 1, 0, 2));
    list.push((short(1300), 2, 0, 2));
    if ctx.thorough {
        list.push((vec![65535, 32768, 65535, 1], 0, 0, 0));
        list.push((vec![32767, 32769, 32766, 65534, 3], 2, 0, 0));
        list.push((short(4800), 1, 0, 4));
        list.push(((0..2000).map(|k| 1 + k % 3).collect(), 2, 0, 0));
    } else {
        list.push(((0..300).map(|k| 1 + k % 3).collect(), 2, 0, 0));
    }
    let long = list.into_iter().enumerate().map(move |(k, (raws, depth, n, log))| long(&mut c.rng("long", k as u64), &raws, depth, n, log));
    Box::new(scen.chain(long).chain(plain).chain(far))
}

fn main() {
    vh::main_with(cases)
}
