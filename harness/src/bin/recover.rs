//! Filesystems on arrays: an image striped over members, assembled, opened and
//! read, with and without faults of one member.
use md_recover::verif::block_device::{BlockDevice, BlockDeviceReader, BlockSize, FileBlockDevice};
use md_recover::verif::md::{MdArray, MdDevice};
use serde_json::{json, Value};
use std::io::{Read, Seek};
use std::os::unix::fs::FileExt;
use vh::dev::VDev;
use vh::ext4::*;
use vh::raid::*;
use vh::util::*;
use vh::world::*;

fn fault(r: &mut Rng, raid: &Raid, member: usize) -> Fault {
    let mut x = Fault { member, ..Fault::default() };
    let off = raid.sbs[member].data_offset * 512;
    let at = |r: &mut Rng| off + r.below(raid.spd * 512);
    match r.below(9) {
        0 | 1 | 2 => {
            for _ in 0..r.range(1, 40) {
                x.flip.push((at(r), 1 << r.below(8)));
            }
        }
        3 => {
            let n = r.range(1, 30);
            let p = at(r);
            for k in 0..n {
                x.flip.push((p + k * 512, r.byte() | 1));
            }
        }
        4 | 5 => {
            for _ in 0..r.range(1, 4) {
                let u = at(r) / 1024;
                x.bad.push((u, u + r.range(1, 8)));
            }
        }
        6 => x.cut = Some(at(r)),
        7 => {
            for _ in 0..r.range(1, 4) {
                x.others.push(r.below(60));
            }
        }
        _ => {
            for _ in 0..r.range(1, 4) {
                x.fail.push(r.below(60));
            }
        }
    }
    x
}

fn operations(r: &mut Rng, f: &Base, raid: &Raid, faulty: bool) -> Vec<Op> {
    let bs = f.b.bs() as usize;
    let member = r.below(raid.n as u64) as usize;
    let mut ops = vec![];
    if faulty && r.chance(1, 2) {
        ops.push(Op::Fault(fault(r, raid, member)));
    }
    ops.push(Op::Open);
    let mut hs = 0usize;
    for n in f.inodes.iter().chain(f.inodes.first()) {
        if faulty && r.chance(1, 4) {
            ops.push(Op::Fault(fault(r, raid, member)));
        }
        ops.push(Op::Stat(*n));
        ops.push(Op::File(*n));
        hs += 1;
    }
    for k in 0..r.range(15, 40) {
        if faulty && k % 8 == 4 {
            ops.push(Op::Fault(fault(r, raid, member)));
        } else if faulty && k % 8 == 7 {
            ops.push(Op::Fault(Fault { member, ..Fault::default() }));
        }
        let h = r.below(hs as u64) as usize;
        ops.push(Op::Next(h));
        ops.push(Op::Read(h, bs));
    }
    ops
}

fn session<D: BlockDevice + Read + Seek>(members: Vec<MdDevice<D>>, ops: &[Op], fault: impl FnMut(&Fault)) -> Value {
    run_faulty(BlockDeviceReader::new(MdArray::open(members)), ops, fault)
}

/// A file in the last blocks of the array.
fn last_blocks(r: &mut Rng, f: &mut Base, capacity: u64) {
    let ino = f.b.any_inode(r);
    if f.inodes.contains(&ino) {
        return;
    }
    let bs = f.b.bs();
    let end = capacity / bs;
    let n = r.range(1, 4);
    f.b.img.pat.push(((end - 8) * bs / 1024, end * bs / 1024));
    let root = f.b.tree(r, &[Ext { first: 0, raw: n as u16, start: end - n }], 0, None, &mut vec![]);
    let i = InodeSpec { mode: 0o100600, size: n * bs - r.below(bs), flags: HAS_EXTENTS, gen: 7, data: root };
    let pos = f.b.geo.inode_pos(ino);
    f.b.img.write(pos, &i.bytes(f.b.geo.inode_size));
    f.inodes.push(ino);
}

fn random(ctx: &Ctx, tables: &Tables, r: &mut Rng) -> Case {
    let mut f = base(r);
    while f.b.geo.log_bs > 2 {
        f = base(r);
    }
    let raid = Raid::random(r, tables, f.b.img.size / 512);
    last_blocks(r, &mut f, raid.capacity() * 512);
    if r.chance(1, 8) {
        mutate(r, &mut f);
    }
    let faulty = r.chance(1, 2);
    let files = !faulty && r.chance(1, 6);
    let mut ops = operations(r, &f, &raid, faulty);
    let mut order: Vec<usize> = (0..raid.n).collect();
    r.shuffle(&mut order);
    let mut k = if faulty { "faulty" } else if files { "files" } else { "healthy" };
    if faulty && r.chance(1, 10) {
        // One is not there at all
        order.pop();
        k = "missing";
        ops.retain(|op| !matches!(op, Op::Fault(_)));
    }
    let mut img = f.b.img;
    img.size = raid.capacity() * 512;
    let mut input = json!({"k": k, "img": img.json(), "ops": ops_json(&ops)});
    input["raid"] = raid.json();
    let mut noise = Rng(r.u64());
    let dir = ctx.work.clone();
    Case::new(input, move || {
        let devs = raid.members(&img.device(512).contents(0, img.size as usize), &mut noise);
        if files {
            let mut paths = vec![];
            let members = order
                .iter()
                .map(|m| {
                    let path = dir.join(format!("member{m}"));
                    let f = std::fs::File::create(&path).unwrap();
                    f.set_len(raid.sizes[*m]).unwrap();
                    for (p, b) in &devs[*m].sh.borrow().pages {
                        // The last page may be longer than the device
                        let n = b.len().min((raid.sizes[*m] - p * 512) as usize);
                        f.write_all_at(&b[..n], p * 512).unwrap();
                    }
                    let d = FileBlockDevice::open_path(&path, BlockSize(raid.block_sizes[*m])).unwrap();
                    paths.push(path.clone());
                    MdDevice::from_block_device(d, Some(&path)).unwrap()
                })
                .collect();
            let res = session(members, &ops, |_| {});
            paths.iter().for_each(|p| std::fs::remove_file(p).unwrap());
            return res;
        }
        let open = |m: &usize| -> MdDevice<VDev> {
            MdDevice::from_block_device(devs[*m].clone(), Some(&format!("d{m}"))).unwrap()
        };
        session(order.iter().map(open).collect(), &ops, |f| f.apply(&devs[f.member], raid.sizes[f.member]))
    })
}

/// The members in the conditions that the specification's model gives.
fn from_scenario(tables: &Tables, layout: u32, r: &mut Rng, s: &Value) -> Case {
    let conds: Vec<String> = s["cond"].as_array().unwrap().iter().map(|c| c.as_str().unwrap().to_string()).collect();
    let extra = s["extra"].as_str().unwrap().to_string();
    let mut f = base(r);
    while f.b.geo.log_bs > 2 {
        f = base(r);
    }
    let n = conds.len();
    let mut raid = Raid::of(r, tables, f.b.img.size / 512, (layout, n));
    last_blocks(r, &mut f, raid.capacity() * 512);
    let numbers = raid.numbers.clone();
    for m in 0..n {
        raid.sbs[m].roles = (0..=n)
            .map(|i| {
                if i == n || conds[m] == "lone" && i != m && conds[i] != "removed" {
                    0xffff
                } else if conds[i] == "removed" || conds[m] == "liar" && i == (m + 1) % n {
                    0xfffe
                } else {
                    numbers[i] as u32
                }
            })
            .collect();
    }
    let mut ops = operations(r, &f, &raid, false);
    for (member, c) in conds.iter().enumerate() {
        let mut x = Fault { member, ..Fault::default() };
        let off = raid.sbs[member].data_offset * 512;
        let at = |r: &mut Rng| off + r.below(raid.spd * 512);
        match c.as_str() {
            "stale" => x.flip.extend((0..40).map(|_| (at(r), r.byte() | 1))),
            "flip" => x.flip.push((at(r), 1 << r.below(8))),
            "hole" => x.bad.push({
                let u = at(r) / 1024;
                (u, u + 1)
            }),
            _ => continue,
        }
        ops.insert(0, Op::Fault(x));
    }
    let mut img = f.b.img;
    img.size = raid.capacity() * 512;
    let k = if s["good"] == true { "healthy" } else { "faulty" };
    let mut input = json!({"k": k, "img": img.json(), "ops": ops_json(&ops)});
    input["raid"] = raid.json();
    input["scenario"] = s.clone();
    let mut noise = Rng(r.u64());
    let mut order = Rng(r.u64());
    Case::new(input, move || {
        let devs = raid.members(&img.device(512).contents(0, img.size as usize), &mut noise);
        let place = |m: usize| {
            let size = raid.sizes[m] / u64::from(raid.block_sizes[m]) * u64::from(raid.block_sizes[m]);
            raid.sbs[m].place(size)
        };
        let another = |sb: &vh::md::Sb| {
            let d = VDev::new(raid.sizes[0].max(1 << 20), 512);
            let size = raid.sizes[0].max(1 << 20);
            d.write(sb.data_offset * 512, &vec![0x5a; (raid.spd * 512) as usize]);
            d.write(sb.place(size), &sb.bytes());
            d
        };
        let mut given = vec![];
        for m in 0..n {
            match conds[m].as_str() {
                "absent" => continue,
                "twin" => {
                    given.push(devs[(m + 1) % n].clone());
                    continue;
                }
                "blank" => devs[m].write(place(m), &[0; 4096]),
                _ => {}
            }
            given.push(devs[m].clone());
        }
        match extra.as_str() {
            "spare" => given.push(another(&vh::md::Sb { index: n as u32, ..raid.sbs[0].clone() })),
            "blank" => given.push(VDev::new(1 << 20, 512)),
            "twin" => given.push(devs[0].clone()),
            "foreign" => given.push(another(&vh::md::Sb { uuid: [9; 16], roles: numbers.iter().map(|x| *x as u32).collect(), ..raid.sbs[1].clone() })),
            _ => {}
        }
        order.shuffle(&mut given);
        let open = |(m, d): (usize, VDev)| -> MdDevice<VDev> { MdDevice::from_block_device(d, Some(&format!("d{m}"))).unwrap() };
        session(given.into_iter().enumerate().map(open).collect(), &ops, |f| f.apply(&devs[f.member], raid.sizes[f.member]))
    })
}

fn cases(ctx: &Ctx) -> Cases {
    let tables = Tables::new(ctx);
    let n = ctx.n(700, 10000) as u64;
    let c = ctx.copy();
    let layouts = [0u32, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20];
    let (c2, tables2) = (ctx.copy(), tables.clone());
    let scen: Vec<Value> = ctx.scenarios().into_iter().filter(|s| !s["cond"].is_null()).collect();
    let scen = scen.into_iter().enumerate().map(move |(k, s)| {
        from_scenario(&tables2, layouts[k % layouts.len()], &mut c2.rng("recovery", k as u64), &s)
    });
    Box::new(scen.chain((0..n).map(move |k| random(&c, &tables, &mut c.rng("recover", k)))))
}

fn main() {
    vh::main_with(cases)
}
