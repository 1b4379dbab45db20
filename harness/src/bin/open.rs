//! Opening filesystems with all kinds of superblocks and group descriptors.
use vh::ext4::*;
use vh::util::*;

/// A superblock with random contents that can be opened.
fn superblock(r: &mut Rng, log_bs: u32, csum: bool) -> Vec<u8> {
    let mut b = match r.below(4) {
        0 => vec![0; 1024],
        1 => vec![0xff; 1024],
        _ => r.bytes(1024),
    };
    // Names of any length
    for (o, n) in [(120, 16), (136, 64), (424, 32), (480, 32), (512, 64)] {
        match r.below(3) {
            0 => put(&mut b, o, &vec![0; n]),
            1 => b[o + r.below(n as u64) as usize] = 0,
            _ => {}
        }
    }
    if r.chance(1, 3) {
        for o in [44, 629, 48, 628, 64, 631, 264, 630, 408, 632, 460, 633, 68] {
            if r.chance(1, 2) {
                b[o] = 0;
                if o < 512 {
                    put32(&mut b, o, if r.chance(1, 2) { 0 } else { r.u64() as u32 });
                }
            }
        }
    }
    put16(&mut b, 56, 0xef53);
    put32(&mut b, 24, log_bs);
    let bigalloc = r.chance(1, 5);
    let ro = r.u64() as u32 & !RO_CSUM & !RO_BIGALLOC;
    put32(&mut b, 100, ro | if csum { RO_CSUM } else { 0 } | if bigalloc { RO_BIGALLOC } else { 0 });
    put32(&mut b, 28, if bigalloc { *r.pick(&[0, log_bs, 20, 52, 6, 31]) } else { log_bs });
    let bpg = r.magnitude(32).max(1) as u32;
    put32(&mut b, 32, bpg);
    put32(&mut b, 36, if bigalloc { r.u64() as u32 } else { bpg });
    put32(&mut b, 40, r.magnitude(32).max(1) as u32);
    put16(&mut b, 60, r.range(1, 3) as u16);
    put32(&mut b, 72, 0);
    put16(&mut b, 88, *r.pick(&[128, 256, 129, 1024, 65535, 256]));
    let known = 0x1f7dfu32;
    let mut inc = (r.u64() as u32 & r.u64() as u32 & known) | F_EXTENTS;
    if r.chance(1, 3) {
        inc = known;
    }
    put32(&mut b, 96, inc);
    put16(&mut b, 254, *r.pick(&[64, 64, 64, 32, 128, 1024, 48, 1]));
    b[372] = r.below(63) as u8;
    b[373] = if csum || r.chance(1, 2) { 1 } else { 0 };
    // The number of blocks follows from the number of groups
    let groups = *r.pick(&[0u64, 1, 1, 2, 3, 9, 40, 70]);
    let first = *r.pick(&[0u32, 1, 1, 0, 2, 7, 900]);
    put32(&mut b, 20, first);
    let blocks = match groups {
        0 => r.below(u64::from(first) + 2),
        g => u64::from(bpg) * (g - 1) + r.range(1, bpg.into()) + u64::from(first) * r.below(2),
    };
    put32(&mut b, 4, blocks as u32);
    put32(&mut b, 336, (blocks >> 32) as u32);
    b
}

fn le(b: &[u8], o: usize, n: usize) -> u64 {
    (0..n).rev().fold(0, |v, k| v << 8 | u64::from(b[o + k]))
}

fn random(r: &mut Rng, k: u64) -> Case {
    let csum = k % 4 == 0;
    let log_bs = r.below(7) as u32;
    let mut b = superblock(r, log_bs, csum);
    let flaw = if r.chance(1, 2) { 0 } else { r.range(1, 18) };
    match flaw {
        1 => b[56 + r.below(2) as usize] ^= 1 << r.below(8),
        2 => {
            let log = *r.pick(&[7, 7, 8, 9, 22, 53, 54, 63, 64, 255, u32::MAX, 256]);
            put32(&mut b, 24, log);
            if r.chance(2, 3) {
                put32(&mut b, 28, log);
            }
        }
        3 => put32(&mut b, 28, r.magnitude(32) as u32),
        4 => put32(&mut b, 36, r.magnitude(32) as u32),
        5 => put16(&mut b, 60, *r.pick(&[0, 4, 5, 255, 256, 257, 65535])),
        6 => b[372] = *r.pick(&[63, 64, 62, 31, 32, 255]),
        7 => b[373] = *r.pick(&[0, 1, 2, 255]),
        8 => put32(&mut b, 32, *r.pick(&[0, 0, 1])),
        9 => put32(&mut b, 40, *r.pick(&[0, 0, 1])),
        10 => put16(&mut b, 254, *r.pick(&[0, 0, 1, 63, 65])),
        11 => put16(&mut b, 88, *r.pick(&[0, 1, 127, 126, 64, 128, 255])),
        12 => put32(&mut b, 72, *r.pick(&[1, 2, 3, 4, 5, 256, u32::MAX])),
        13 => b[96] &= !0x40,
        14 => {
            let bit = r.below(32);
            let f = le(&b, 96, 4) as u32 ^ (1 << bit);
            put32(&mut b, 96, f);
        }
        15 => {
            let bit = r.below(32);
            let f = le(&b, 100, 4) as u32 ^ (1 << bit);
            put32(&mut b, 100, f);
        }
        16 => put32(&mut b, 336, r.magnitude(32) as u32),
        17 => put32(&mut b, 28, *r.pick(&[52, 53, 54, 64])),
        _ => {}
    }
    let sealed = r.chance(9, 10);
    if sealed {
        seal_superblock(&mut b);
    }
    if flaw == 18 {
        let o = r.below(1024) as usize;
        b[o] ^= 1 << r.below(8);
    }
    let mut img = Image::default();
    img.write(1024, &b);
    // Descriptors, as far as they are looked at
    let bs = 1024u64 << le(&b, 24, 4).min(10);
    let first = le(&b, 20, 4);
    let at = (first + 1) * bs;
    let size = if le(&b, 96, 4) as u32 & F_64BIT != 0 { le(&b, 254, 2) } else { 32 };
    let bpg = le(&b, 32, 4).max(1);
    let groups = (le(&b, 4, 4) | le(&b, 336, 4) << 32).div_ceil(bpg);
    let bytes = groups.saturating_mul(size);
    for k in 0..bytes.min(4096).div_ceil(64) {
        // A few groups get contents
        if k < 6 || r.chance(1, 6) {
            let d = r.bytes(64);
            img.write(at + k * 64, &d[..r.range(1, 64) as usize]);
        }
    }
    let end = at.saturating_add(bytes);
    // Large devices of nothing would only take long
    img.size = if bytes > 1 << 16 { at.max(2048) + r.below(1 << 20) } else {
        match r.below(8) {
            0 => end,
            1 => end.saturating_sub(1 + r.below(size.max(1))),
            2 => end.saturating_sub(r.below(bytes + 1)),
            3 => *r.pick(&[0, 1024, 1025, 2047, 2048, 4096]),
            4 => at,
            _ => end + r.below(1 << 20),
        }
    };
    if r.chance(1, 12) {
        let u = *r.pick(&[0, 1, at / 1024, (end.max(1) - 1) / 1024, end / 1024, at / 1024 - 1]);
        img.bad.push((u, u + 1));
    }
    let k = match (flaw, sealed) {
        (0, true) => "plain",
        (0, false) => "unsealed",
        _ => "flawed",
    };
    case(k, img, vec![Op::Open])
}

fn cases(ctx: &Ctx) -> Cases {
    let scen = ctx.scenarios().into_iter().map(|s| from_scenario(&s));
    let n = ctx.n(2000, 40000) as u64;
    let c = ctx.copy();
    Box::new(scen.chain((0..n).map(move |k| random(&mut c.rng("open", k), k))))
}

fn main() {
    vh::ext4::MEANINGS.store(true, std::sync::atomic::Ordering::Relaxed);
    vh::main_with(cases)
}
