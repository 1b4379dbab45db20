//! Damage to metadata with checksums, and metadata without any.
use vh::ext4::*;
use vh::util::*;

/// A small filesystem with one file in two levels of tree blocks and one
/// directory; the block numbers of what can be damaged are returned.
struct Fixture {
    b: Builder,
    tree: Vec<Node>,
    dir: Vec<u64>,
    file_inode: u32,
    dir_inode: u32,
}

fn fixture(r: &mut Rng, csum: bool, log_bs: u32) -> Fixture {
    let mut geo = random_geo(r, csum, log_bs);
    if geo.ipg == 1 {
        geo.ipg = 4;
        geo.inodes = 4 * geo.tables.len() as u32;
    }
    if r.chance(1, 8) {
        geo.seed = *r.pick(&[0, u32::MAX]);
    }
    if r.chance(1, 8) {
        geo.uuid = [0; 16];
    }
    let mut b = Builder::new(geo);
    let bs = b.bs();
    let (a, z) = (b.data * bs / 1024, b.limit * bs / 1024);
    b.img.pat.push((a, z));
    let file_inode = b.any_inode(r);
    let mut dir_inode = b.any_inode(r);
    if dir_inode == file_inode {
        dir_inode = if file_inode == 1 { 2 } else { file_inode - 1 };
    }
    let (g1, g2) = (*r.pick(&[0, 1, u32::MAX, 77777]), r.u64() as u32);
    let mut exts = vec![];
    let count = r.range(2, 5) as u32;
    for k in 0..count {
        exts.push(Ext { first: k, raw: 1, start: b.data + 3 * u64::from(k) });
    }
    let seed = b.geo.inode_seed(file_inode, g1);
    let mut tree = vec![];
    let depth = r.range(1, 2) as u16;
    let root = b.tree(r, &exts, depth, seed, &mut tree);
    b.put_inode(
        file_inode,
        &InodeSpec { mode: 0o100644, size: u64::from(count) * bs, flags: HAS_EXTENTS, gen: g1, data: root },
    );
    let seed = b.geo.inode_seed(dir_inode, g2);
    let mut dir = vec![];
    let mut exts = vec![];
    for k in 0..r.range(1, 2) as u32 {
        let place = b.meta(r);
        let mut d = vec![];
        let entries = r.range(1, 4);
        for e in 1..entries {
            d.extend_from_slice(&dirent(r.range(1, 99) as u32, 20, 1, format!("f{k}-{e}").as_bytes()));
        }
        let room = bs as usize - if csum { 12 } else { 0 } - d.len();
        d.extend_from_slice(&dirent(*r.pick(&[0, 5, 5, 9]), room as u16, 2, b"last"));
        d.resize(bs as usize, 0);
        if let Some(s) = seed {
            seal_dir(&mut d, s);
        }
        b.put_block(place, &d);
        dir.push(place);
        exts.push(Ext { first: k, raw: 1, start: place });
    }
    let mut none = vec![];
    let root = b.tree(r, &exts, 0, seed, &mut none);
    let size = exts.len() as u64 * bs;
    b.put_inode(dir_inode, &InodeSpec { mode: 0o040700, size, flags: HAS_EXTENTS, gen: g2, data: root });
    Fixture { b, tree, dir, file_inode, dir_inode }
}

fn ops(f: &Fixture, file: bool, dir: bool) -> Vec<Op> {
    let bs = f.b.bs() as usize;
    let mut ops = vec![Op::Open];
    if file {
        ops.push(Op::File(f.file_inode));
        ops.extend((0..6).map(|_| Op::Read(0, bs)));
    }
    if dir {
        let h = usize::from(file);
        ops.push(Op::File(f.dir_inode));
        ops.extend((0..9).map(|_| Op::Next(h)));
    }
    ops
}

fn damaged(r: &mut Rng, k: u64, n: u64) -> Case {
    let what = k % 4;
    let log = if r.chance(1, 30) { 2 } else { 0 };
    let mut f = fixture(r, true, log);
    let bs = f.b.bs();
    // Bytes take turns, so that every one is damaged when there are enough cases
    let turn = (k / 4) * 1024 / (n / 4).max(1) + r.below((1024 * 4 / n.max(1)).max(1));
    let mask = match r.below(4) {
        0 => 1 + r.below(255) as u8,
        _ => 1 << r.below(8),
    };
    match what {
        0 => {
            f.b.img.flip(1024 + turn % 1024, mask);
            case("superblock", f.b.img.clone(), vec![Op::Open])
        }
        1 => {
            let node = r.pick(&f.tree).clone();
            f.b.img.flip(node.block * bs + turn % bs, mask);
            case("tree", f.b.img.clone(), ops(&f, true, false))
        }
        2 => {
            let block = *r.pick(&f.dir);
            f.b.img.flip(block * bs + turn % bs, mask);
            case("dir", f.b.img.clone(), ops(&f, false, true))
        }
        _ => {
            // Larger damage, structures in each other's place, stale identity
            let at = [vec![1024], f.tree.iter().map(|n| n.block * bs).collect(), f.dir.iter().map(|n| n * bs).collect()].concat();
            let a = *r.pick(&at);
            match r.below(12) {
                7..=9 => {
                    // A checksum of a special value
                    let at = a + if a == 1024 {
                        1020
                    } else if f.dir.iter().any(|n| n * bs == a) {
                        bs - 4
                    } else {
                        let max = f.b.img.read(a + 4, 2);
                        12 + 12 * u64::from(u16::from_le_bytes([max[0], max[1]]))
                    };
                    special(r, &mut f.b.img, at, 4)
                }
                10 | 11 => {
                    let n = *r.pick(&[2, 4]);
                    let at = a + r.below(1024 / n) * n;
                    special(r, &mut f.b.img, at, n)
                }
                0 => {
                    let c = *r.pick(&at);
                    let x = f.b.img.read(c, 1024);
                    f.b.img.write(a, &x);
                }
                1 => f.b.img.write(a, &vec![0; 1024]),
                2 => {
                    let x = r.bytes(1024);
                    f.b.img.write(a, &x);
                }
                3 => {
                    // Bytes trade places
                    let (p, q) = (a + r.below(1024), a + r.below(1024));
                    let (x, y) = (f.b.img.read(p, 1), f.b.img.read(q, 1));
                    f.b.img.write(p, &y);
                    f.b.img.write(q, &x);
                }
                4 => {
                    // Another generation
                    let g = r.u64() as u32;
                    let p = f.b.geo.inode_pos(f.file_inode) + 100;
                    f.b.img.write(p, &g.to_le_bytes());
                    let p = f.b.geo.inode_pos(f.dir_inode) + 100;
                    f.b.img.write(p, &g.to_le_bytes());
                }
                5 => {
                    // Another identity or seed, with a right checksum
                    let mut b = f.b.img.read(1024, 1024);
                    let o = *r.pick(&[104, 119, 624, 627, 97]);
                    b[o] ^= if o == 97 { 0x20 } else { mask };
                    seal_superblock(&mut b);
                    f.b.img.write(1024, &b);
                }
                _ => {
                    for _ in 0..3 {
                        f.b.img.flip(a + r.below(1024), mask);
                    }
                }
            }
            case("other", f.b.img.clone(), ops(&f, true, true))
        }
    }
}

/// Changes a field to a value which a careless comparison may take for right.
fn special(r: &mut Rng, img: &mut Image, at: u64, n: u64) {
    let mut v = img.read(at, n as usize);
    match r.below(7) {
        0 | 1 => v.fill(0),
        2 => v.fill(0xff),
        3 => v.iter_mut().for_each(|b| *b = !*b),
        4 => v.reverse(),
        5 => v.rotate_left(n as usize / 2),
        _ => {
            let half = n as usize / 2;
            if r.chance(1, 2) {
                v[..half].fill(0)
            } else {
                v[half..].fill(0)
            }
        }
    }
    img.write(at, &v);
}

/// Without the feature, or undamaged.
fn sound(r: &mut Rng, k: u64) -> Case {
    let csum = k % 2 == 0;
    let log = if csum { *r.pick(&[0, 0, 0, 1, 2]) } else { 4 };
    let mut f = fixture(r, csum, log);
    if !csum {
        // Neither the checksum nor its type mean anything
        let mut b = f.b.img.read(1024, 1024);
        b[373] = r.below(2) as u8;
        put(&mut b, 1020, &r.bytes(4));
        f.b.img.write(1024, &b);
    }
    case(if csum { "sound" } else { "without" }, f.b.img.clone(), ops(&f, true, true))
}

fn cases(ctx: &Ctx) -> Cases {
    let scen = ctx.scenarios().into_iter().map(|s| from_scenario(&s));
    let n = ctx.n(4096, 32768) as u64;
    let c = ctx.copy();
    let damaged = (0..n).map(move |k| damaged(&mut c.rng("damage", k), k, n));
    let c = ctx.copy();
    Box::new(scen.chain(damaged).chain((0..n / 8).map(move |k| sound(&mut c.rng("sound", k), k))))
}

fn main() {
    vh::main_with(cases)
}
