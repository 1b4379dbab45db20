//! Inodes with all kinds of contents in all kinds of tables.
use vh::ext4::*;
use vh::util::*;

fn contents(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut b = match r.below(5) {
        0 => vec![0xff; size],
        1 => vec![0; size],
        _ => r.bytes(size),
    };
    // Times around their wrap points
    for (base, extra) in [(8, 140), (12, 132), (16, 136), (144, 148)] {
        if r.chance(1, 2) && size >= extra + 4 {
            put32(&mut b, base, *r.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX]));
            let nanos = *r.pick(&[0u32, 1, 999_999_999, 1_000_000_000, (1 << 30) - 1, 500_000_000]);
            put32(&mut b, extra, nanos << 2 | r.below(4) as u32);
        }
    }
    if r.chance(1, 3) {
        put16(&mut b, 0, (*r.pick(&[1u16, 2, 4, 6, 8, 10, 12, 0, 3, 15]) << 12) | r.below(4096) as u16);
    }
    if size >= 130 {
        let extra = match r.below(12) {
            0 => 0,
            1 => 28,
            2 => 24,
            3 => r.below(40) as u16,
            4 => (size - 128) as u16,
            5 => (size - 127) as u16,
            6 => 65535,
            7 => r.u64() as u16,
            8 => r.below(3) as u16,
            _ => 32,
        };
        put16(&mut b, 128, extra);
    }
    b
}

fn random(r: &mut Rng) -> Case {
    let mut geo = random_geo(r, false, 6);
    geo.inode_size = *r.pick(&[128u16, 256, 256, 512, 129, 130, 131, 132, 140, 144, 148, 152, 156, 160, 161, 1024, 4096, 65535]);
    // Few of many groups have anything in them
    let many = r.chance(1, 10);
    let mut at = 40;
    let mut used: Vec<usize> = (0..geo.tables.len()).collect();
    if many {
        let groups = *r.pick(&[257usize, 260, 300, 1025, 65_536, 65_540, 70_000]);
        geo.bpg = 8 * r.range(1, 64) as u32;
        geo.blocks = u64::from(geo.bpg) * (groups as u64 - 1) + u64::from(geo.first_data) + 1 + r.below(7);
        geo.tables = vec![0; groups];
        geo.inodes = geo.ipg * groups as u32;
        used = [0, 1, 255, 256, 257, 65_535, 65_536, groups - 1].into_iter().filter(|g| *g < groups).collect();
        used.dedup();
        at += groups as u64 * 128 / geo.bs();
    }
    if r.chance(1, 10) && !many {
        // Tables of more than 4 GiB
        let bits = r.range(33, 36);
        geo.ipg = ((1 << bits) / u64::from(geo.inode_size)) as u32 + r.below(100) as u32;
        geo.tables.truncate(2);
        geo.blocks = u64::from(geo.bpg) * (geo.tables.len() as u64 - 1) + u64::from(geo.first_data) + 1 + r.below(7);
        geo.inodes = geo.ipg * geo.tables.len() as u32;
        used.truncate(2);
    }
    let groups = geo.tables.len() as u64;
    let per = (u64::from(geo.ipg) * u64::from(geo.inode_size)).div_ceil(geo.bs());
    let far = r.chance(1, 6);
    for g in &used {
        geo.tables[*g] = at + r.below(2);
        at += per + 1;
    }
    if r.chance(1, 2) && !many {
        r.shuffle(&mut geo.tables);
    }
    let mut high = 0;
    if far {
        geo.incompat |= F_64BIT;
        geo.desc_size = *r.pick(&[64u16, 128, 44]);
        high = (0x1_0000_0000u64 * r.range(2, 0x7fff)) >> 16 << 16;
        let first = high / geo.bs();
        let g = *r.pick(&used);
        geo.tables[g] += first;
    }
    // Not every group need be full
    match r.below(6) {
        0 => geo.inodes -= r.below(geo.ipg.into()) as u32,
        1 => geo.inodes += r.range(1, 40) as u32,
        2 => geo.inodes = r.magnitude(32) as u32,
        _ => {}
    }
    let mut b = Builder::new(geo.clone());
    b.img.high = high;
    b.img.size = (at + 4) * geo.bs() + high;
    geo.put_descs(&mut b.img);
    let last = geo.ipg * groups as u32;
    let mut ns: Vec<u32> = vec![1, 2, last, geo.ipg, geo.ipg + 1, geo.inodes];
    for _ in 0..4 {
        let g = *r.pick(&used) as u32;
        ns.push(g * geo.ipg + r.range(1, geo.ipg.into()) as u32);
    }
    ns.retain(|n| *n >= 1 && *n <= last);
    ns.sort();
    ns.dedup();
    if geo.inode_size > 1024 {
        ns.truncate(4);
    }
    for n in &ns {
        let c = contents(r, geo.inode_size.into());
        b.img.write(geo.inode_pos(*n), &c[..c.len().min(300)]);
    }
    let mut ops = vec![Op::Open];
    ops.extend(ns.iter().map(|n| Op::Stat(*n)));
    for n in [0, geo.inodes.wrapping_add(1), u32::MAX, last + 1] {
        ops.push(Op::Stat(n));
    }
    for n in ns.iter().take(2) {
        ops.push(Op::File(*n));
    }
    let n = *r.pick(&ns);
    let pos = geo.inode_pos(n);
    match r.below(8) {
        0 => b.img.size = pos + r.below(u64::from(geo.inode_size) + 2),
        1 => {
            let u = b.img.unit_of(pos + r.below(geo.inode_size.into()));
            b.img.bad.push((u, u + 1));
        }
        2 => {
            // A table where nothing can be
            let g = r.below(groups) as usize;
            let mut odd = geo.clone();
            odd.tables[g] = *r.pick(&[u64::MAX, u64::MAX / geo.bs(), 1 << 54, u32::MAX.into(), 1 << 48, at + 5]);
            odd.put_descs(&mut b.img);
        }
        _ => {}
    }
    case(if far { "far" } else { "near" }, b.img, ops)
}

fn cases(ctx: &Ctx) -> Cases {
    let scen = ctx.scenarios().into_iter().map(|s| from_scenario(&s));
    let n = ctx.n(700, 16000) as u64;
    let c = ctx.copy();
    Box::new(scen.chain((0..n).map(move |k| random(&mut c.rng("inode", k)))))
}

fn main() {
    vh::ext4::MEANINGS.store(true, std::sync::atomic::Ordering::Relaxed);
    vh::main_with(cases)
}
