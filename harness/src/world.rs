//! Random small filesystems with a few files and directories, and changes to
//! their structures in places that matter.
use crate::ext4::*;
use crate::util::*;

#[derive(Clone)]
pub enum What {
    Super,
    Desc,
    Inode,
    Tree(Option<u32>),
    Dir(Option<u32>),
}
#[derive(Clone)]
pub struct Place {
    pub at: u64,
    pub len: usize,
    pub what: What,
}

pub struct Base {
    pub b: Builder,
    pub places: Vec<Place>,
    pub inodes: Vec<u32>,
}

pub fn base(r: &mut Rng) -> Base {
    let csum = r.chance(1, 3);
    let max = if r.chance(1, 12) { 6 } else if r.chance(1, 4) { 2 } else { 0 };
    let mut geo = random_geo(r, csum, max);
    if geo.ipg == 1 {
        geo.ipg = 8;
        geo.inodes = 8 * geo.tables.len() as u32;
    }
    let mut b = Builder::new(geo);
    let bs = b.bs();
    b.data = b.next + 60;
    b.limit = b.data + 60;
    b.img.size = b.limit * bs;
    let mut places = vec![Place { at: 1024, len: 1024, what: What::Super }];
    let ds = b.geo.desc(0).len();
    for g in 0..b.geo.tables.len() {
        places.push(Place { at: b.geo.desc_table() + (g * ds) as u64, len: ds, what: What::Desc });
    }
    let (a, z) = (b.data * bs / 1024, b.limit * bs / 1024);
    b.img.pat.push((a, z));
    let mut inodes = vec![];
    let n = r.range(1, 3);
    for _ in 0..n {
        let ino = b.any_inode(r);
        if inodes.contains(&ino) {
            continue;
        }
        inodes.push(ino);
        let gen = r.u64() as u32;
        let seed = b.geo.inode_seed(ino, gen);
        let dir = r.chance(1, 2);
        let mut exts = vec![];
        let mut at = 0u32;
        for _ in 0..r.range(1, 5) {
            if dir {
                let place = b.meta(r);
                let mut d = vec![];
                let room = bs as usize - if csum { 12 } else { 0 };
                for _ in 0..r.range(0, 5) {
                    let n = r.range(1, 24) as usize;
                    let rec = (8 + n).div_ceil(4) * 4;
                    d.extend_from_slice(&dirent(r.below(40) as u32, rec as u16, r.below(8) as u8, &r.bytes(n)));
                }
                let rest = (room - d.len()).min(65535) as u16;
                d.extend_from_slice(&dirent(3, rest, 1, b"last"));
                d.resize(bs as usize, 0);
                if let Some(s) = seed {
                    seal_dir(&mut d, s);
                }
                b.put_block(place, &d);
                places.push(Place { at: place * bs, len: bs as usize, what: What::Dir(seed) });
                exts.push(Ext { first: at, raw: 1, start: place });
                at += 1;
            } else {
                let n = r.range(1, 6) as u16;
                let raw = if r.chance(1, 4) { 32768 + n } else { n };
                exts.push(Ext { first: at, raw, start: b.data + r.below(50) });
                at += u32::from(n);
            }
        }
        let mut nodes = vec![];
        let depth = *r.pick(&[0u16, 1, 1, 2, 3]);
        if depth == 0 {
            exts.truncate(4);
            at = exts.last().map_or(0, |e| e.first + e.len() as u32);
        }
        let root = b.tree(r, &exts, depth, seed, &mut nodes);
        for n in nodes {
            places.push(Place { at: n.block * bs, len: bs as usize, what: What::Tree(seed) });
        }
        let size = u64::from(at) * bs - if dir { 0 } else { r.below(bs) };
        let mode = if dir { 0o040755 } else { 0o100644 };
        let mut i = InodeSpec { mode, size, flags: HAS_EXTENTS, gen, data: root }.bytes(b.geo.inode_size);
        for o in [8, 12, 16, 20, 132, 136, 140, 144, 148] {
            if o + 4 <= i.len() && r.chance(1, 2) {
                let x = *r.pick(&[0, 1, u32::MAX, 0x8000_0000, 0x7fff_ffff, 0xee6b_2800, 5]);
                put32(&mut i, o, x);
            }
        }
        let pos = b.geo.inode_pos(ino);
        b.img.write(pos, &i);
        places.push(Place { at: pos, len: usize::from(b.geo.inode_size), what: What::Inode });
    }
    Base { b, places, inodes }
}

pub const SUPER: &[(usize, usize)] = &[
    (0, 4), (4, 4), (8, 4), (20, 4), (24, 4), (28, 4), (32, 4), (36, 4), (40, 4), (44, 4), (48, 4), (56, 2), (58, 2),
    (60, 2), (62, 2), (64, 4), (68, 4), (72, 4), (76, 4), (84, 4), (88, 2), (92, 4), (96, 4), (100, 4), (206, 2),
    (236, 4), (252, 1), (253, 1), (254, 2), (256, 4), (264, 4), (336, 4), (340, 4), (348, 2), (352, 4), (372, 1), (373, 1),
    (408, 4), (460, 4), (596, 4), (628, 4), (632, 2), (636, 2),
];

pub fn field(r: &mut Rng, p: &Place) -> (usize, usize) {
    let any = |r: &mut Rng, len: usize| {
        let n = *r.pick(&[1usize, 2, 4]);
        let at = r.below(len as u64 - 4) as usize;
        (at / n * n, n)
    };
    match p.what {
        What::Super if r.chance(5, 6) => *r.pick(SUPER),
        What::Desc => {
            let f = *r.pick(&[(8usize, 4usize), (8, 4), (40, 4), (18, 2)]);
            if f.0 + f.1 <= p.len { f } else { (8, 4) }
        }
        What::Inode if r.chance(5, 6) => match r.below(4) {
            0 => *r.pick(&[(0usize, 2usize), (4, 4), (108, 4), (32, 4), (34, 2)]),
            1 => *r.pick(&[(40usize, 2usize), (42, 2), (44, 2), (46, 2)]),
            2 => *r.pick(&[(52usize, 4usize), (56, 2), (58, 2), (60, 4), (56, 4), (60, 2)]),
            _ => any(r, p.len),
        },
        What::Tree(_) => match r.below(6) {
            0 => (0, 2),
            1 => (2, 2),
            2 => (4, 2),
            3 => (6, 2),
            _ => {
                let e = r.below(4) as usize;
                let f = *r.pick(&[(0usize, 4usize), (4, 4), (4, 2), (6, 2), (8, 4), (8, 2)]);
                (12 + 12 * e + f.0, f.1)
            }
        },
        _ => any(r, p.len.min(200)),
    }
}

pub fn kind(p: &Place) -> usize {
    match p.what {
        What::Super => 0,
        What::Desc => 1,
        What::Inode => 2,
        What::Tree(_) => 3,
        What::Dir(_) => 4,
    }
}

pub fn reseal(what: &What, b: &mut [u8]) {
    match what {
        What::Super => seal_superblock(b),
        What::Tree(Some(s)) => seal_tree(b, *s),
        What::Dir(Some(s)) => seal_dir(b, *s),
        _ => {}
    }
}

pub fn value(r: &mut Rng, old: u64, blocks: &[u64], bs: u64) -> u64 {
    match r.below(16) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - 1,
        4 => 0x8000_8000_8000_8000,
        5 => 0x7fff_7fff_7fff_7fff,
        6 => old.wrapping_add(1),
        7 => old.wrapping_sub(1),
        8 => old ^ (1 << r.below(32)),
        9 => old.wrapping_mul(2),
        10 | 11 => *r.pick(blocks),
        12 => bs.wrapping_add(r.below(9)).wrapping_sub(4),
        13 => 1 << r.below(32),
        14 => r.below(64),
        _ => r.u64(),
    }
}

pub fn mutate(r: &mut Rng, f: &mut Base) {
    let bs = f.b.bs();
    let blocks: Vec<u64> = f.places.iter().map(|p| p.at / bs).chain([f.b.limit, f.b.limit - 1, f.b.data]).collect();
    let kinds: Vec<usize> = {
        // Every kind of structure as often as the others
        let mut kinds = vec![];
        for k in 0..5 {
            let of: Vec<usize> = f
                .places
                .iter()
                .enumerate()
                .filter(|(_, p)| k == kind(p))
                .map(|(n, _)| n)
                .collect();
            if !of.is_empty() {
                kinds.push(*r.pick(&of));
            }
        }
        kinds
    };
    let p = f.places[*r.pick(&kinds)].clone();
    let mut b = f.b.img.read(p.at, p.len);
    match r.below(13) {
        12 => {
            // A position at the edge of what 64 bits hold
            let edge = *r.pick(&[1u128 << 64, 1 << 63, 1 << 44]) / u128::from(bs);
            let at = (edge - 4 + u128::from(r.below(6))) as u64;
            let (lo, hi) = (at as u32, (at >> 32) as u32);
            match p.what {
                What::Desc if p.len >= 44 => {
                    put32(&mut b, 8, lo);
                    put32(&mut b, 40, hi);
                }
                What::Inode | What::Tree(_) => {
                    let e = if matches!(p.what, What::Inode) { 52 } else { 12 + 12 * r.below(3) as usize };
                    if r.chance(1, 2) {
                        put32(&mut b, e + 4, lo);
                        put16(&mut b, e + 8, hi as u16);
                    } else {
                        put32(&mut b, e + 8, lo);
                        put16(&mut b, e + 6, hi as u16);
                    }
                }
                _ => {}
            }
        }
        0 => {
            // Another structure in its place
            let q = r.pick(&f.places).clone();
            let c = f.b.img.read(q.at, q.len.min(p.len));
            b[..c.len()].copy_from_slice(&c);
        }
        1 => {
            let o = r.below(p.len as u64) as usize;
            let n = r.range(1, 40) as usize;
            for x in b.iter_mut().skip(o).take(n) {
                *x = r.byte();
            }
        }
        _ => {
            for _ in 0..*r.pick(&[1usize, 1, 2, 3]) {
                let (o, n) = field(r, &p);
                if o + n > b.len() {
                    continue;
                }
                let mut old = [0u8; 8];
                old[..n].copy_from_slice(&b[o..o + n]);
                let v = value(r, u64::from_le_bytes(old), &blocks, bs);
                b[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    if r.chance(7, 8) {
        if matches!(p.what, What::Super) && r.chance(7, 8) {
            put16(&mut b, 56, 0xef53);
        }
        reseal(&p.what, &mut b);
    }
    f.b.img.write(p.at, &b);
}

