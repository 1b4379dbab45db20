//! Directories with all kinds of entries, listed entry by entry.
use vh::ext4::*;
use vh::util::*;

fn name(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1 => 255,
        2 => 254,
        3 => 1,
        4 => r.range(100, 250),
        _ => r.range(1, 20),
    } as usize;
    match r.below(4) {
        0 => (0..n).map(|_| r.byte()).collect(),
        1 => (0..n).map(|_| r.range(1, 255) as u8).collect(),
        _ => (0..n).map(|_| *r.pick(b"abcXYZ.-_ ")).collect(),
    }
}

/// A block of entries; `count` gets the number of entries put into it.
pub fn block(r: &mut Rng, most: u64, len: usize, count: &mut usize) -> Vec<u8> {
    let mut b = vec![];
    let most = r.range(1, most) as usize;
    let mut k = 0;
    while b.len() < len {
        let n = name(r);
        let need = (8 + n.len()).div_ceil(4) * 4;
        let room = len - b.len();
        if need > room {
            break;
        }
        let mut rec = match r.below(8) {
            0 => need + 4 * r.below(10) as usize,
            1 => 8 + n.len(),
            _ => need,
        };
        k += 1;
        let last = k >= most;
        if rec > room || last {
            rec = room;
        }
        let rec = rec.min(65535);
        let ino = match r.below(7) {
            0 | 1 => 0,
            2 => r.u64() as u32,
            3 => 256 << r.below(24),
            _ => r.range(1, 3000) as u32,
        };
        let ty = if r.chance(3, 4) { r.below(8) as u8 } else { r.byte() };
        let mut e = dirent(ino, rec as u16, ty, &n);
        if r.chance(1, 5) {
            // Left over from deleted entries
            for x in e.iter_mut().skip(8 + n.len()).take(60) {
                *x = r.byte();
            }
        }
        b.extend_from_slice(&e);
        *count += 1;
        if last {
            break;
        }
    }
    // Whatever is left cannot be an entry
    b.resize(len, 0);
    b
}

fn random(r: &mut Rng, csum: bool, very_long: bool) -> Case {
    let max = if csum { 1 } else if very_long { 0 } else { *r.pick(&[0, 1, 2, 2, 6]) };
    let mut geo = random_geo(r, csum, max);
    if r.chance(1, 4) {
        geo.inode_size = 128;
    }
    let mut b = Builder::new(geo);
    let bs = b.bs() as usize;
    let n = b.any_inode(r);
    let gen = r.u64() as u32;
    let seed = b.geo.inode_seed(n, gen);
    let long = bs == 1024 && r.chance(1, 25);
    let blocks = if very_long { 300 } else if long { r.range(10, 120) as usize } else { *r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 4, 6]) };
    let flawed = !very_long && r.chance(1, if long { 5 } else { 2 });
    let mut count = 0;
    let mut exts: Vec<Ext> = vec![];
    let mut at = 0u32;
    // Where the entries of the last block begin
    let mut starts: Vec<usize> = vec![];
    for k in 0..blocks {
        let place = b.meta(r);
        let mut d = block(r, if very_long { 1 } else { 9 }, if csum { bs - 12 } else { bs }, &mut count);
        d.resize(bs, 0);
        if flawed && r.chance(1, 2) {
            // A flaw in the entries
            let mut o = 0;
            for _ in 0..r.below(4) {
                let rec = usize::from(u16::from_le_bytes([d[o + 4], d[o + 5]]));
                if rec >= 8 && o + rec + 8 <= bs {
                    o += rec;
                }
            }
            match r.below(8) {
                0 => put16(&mut d, o + 4, *r.pick(&[0, 1, 7, 8, 65535, 32768])),
                1 => {
                    let rec = u16::from_le_bytes([d[o + 4], d[o + 5]]);
                    put16(&mut d, o + 4, rec.wrapping_add(*r.pick(&[1, 4, 12, 65535, 65532])));
                }
                2 => d[o + 6] = r.byte(),
                3 => put16(&mut d, o + 4, (bs - o) as u16),
                4 => put16(&mut d, o + 4, (bs - o).wrapping_add(1) as u16),
                5 => {
                    let n = u16::from(d[o + 6]);
                    put16(&mut d, o + 4, 8 + n)
                }
                6 => {
                    let n = u16::from(d[o + 6]);
                    put16(&mut d, o + 4, 7 + n)
                }
                _ => {
                    let o = r.below(bs as u64) as usize;
                    d[o] ^= 1 << r.below(8);
                }
            }
        }
        starts = vec![0];
        while starts.len() < 20 {
            let o = *starts.last().unwrap();
            let next = o + usize::from(u16::from_le_bytes([d[o + 4], d[o + 5]]));
            if next == o || next + 8 > bs {
                break;
            }
            starts.push(next);
        }
        if let Some(s) = seed {
            seal_dir(&mut d, s);
            if flawed && r.chance(1, 4) {
                let o = match r.below(3) {
                    0 => bs - 12 + r.below(12) as usize,
                    _ => r.below(bs as u64) as usize,
                };
                d[o] ^= 1 << r.below(8);
            }
            if flawed && r.chance(1, 12) {
                let tail = d[bs - 12..].to_vec();
                let o = bs - 12 - 4;
                put(&mut d, o, &tail);
            }
        }
        b.put_block(place, &d);
        if flawed && r.chance(1, 8) {
            let u = place * bs as u64 / 1024;
            b.img.bad.push((u, u + 1));
        }
        let far = flawed && r.chance(1, 20);
        let unwritten = flawed && r.chance(1, 10);
        let raw = if unwritten { 32769 } else { 1 };
        let start = if far { b.limit + 5 } else { place };
        match exts.last_mut() {
            Some(l) if k % 2 == 1 && l.initialized() && !unwritten && l.start + l.len() == start => l.raw += 1,
            _ => exts.push(Ext { first: at, raw, start }),
        }
        at += 1;
    }
    let depth = if exts.len() > 4 { r.range(1, 2) } else { r.below(3) } as u16;
    let depth = if exts.is_empty() { 0 } else { depth };
    let mut nodes = vec![];
    if flawed && r.chance(1, 10) && exts.len() > 1 {
        exts.remove(1);
    }
    let root = b.tree(r, &exts, depth, seed, &mut nodes);
    if flawed && r.chance(1, 10) && !nodes.is_empty() {
        let k = r.below(nodes.len() as u64) as usize;
        let at = nodes[k].block * bs as u64 + r.below(40);
        b.img.flip(at, 1 << r.below(8));
    }
    let mut size = (blocks * bs) as u64;
    if flawed && r.chance(1, 6) {
        size = match r.below(5) {
            3 if blocks > 0 => size - bs as u64 + *r.pick(&starts) as u64,
            4 => size.saturating_sub(4 * r.range(1, bs as u64 / 4)),
            0 => size + bs as u64,
            1 => size.saturating_sub(1 + r.below(bs as u64)),
            _ => r.below(size + 2 * bs as u64),
        };
    }
    let mut flags = HAS_EXTENTS;
    if flawed && r.chance(1, 12) {
        flags ^= *r.pick(&[HASH_INDEXED, HAS_EXTENTS, INLINE_DATA, 0x10]);
    }
    b.put_inode(n, &InodeSpec { mode: 0o040755, size, flags, gen, data: root });
    let mut ops = vec![Op::Open, Op::File(n)];
    for _ in 0..count + blocks + 3 {
        ops.push(Op::Next(0));
    }
    case(if flawed { "flawed" } else { "plain" }, b.img, ops)
}

fn cases(ctx: &Ctx) -> Cases {
    let scen = ctx.scenarios().into_iter().map(|s| from_scenario(&s));
    let n = ctx.n(700, 16000) as u64;
    let c = ctx.copy();
    Box::new(scen.chain((0..n).map(move |k| random(&mut c.rng("dirs", k), k % 4 == 0, k == 5))))
}

fn main() {
    vh::ext4::MEANINGS.store(true, std::sync::atomic::Ordering::Relaxed);
    vh::main_with(cases)
}
