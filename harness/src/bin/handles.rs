//! Interleaved operations on many files and directories of one filesystem,
//! opened from clones of it, on every kind of device.
use md_recover::verif::block_device::{BlockDeviceReader, BlockSize, FileBlockDevice, InMemoryBlockDevice};
use md_recover::verif::md::{MdArray, MdDevice};
use serde_json::json;
use std::os::unix::fs::FileExt;
use vh::dev::VDev;
use vh::ext4::*;
use vh::raid::*;
use vh::util::*;
use vh::world::*;

fn operations(r: &mut Rng, f: &Base, n: usize) -> Vec<Op> {
    let bs = f.b.bs() as usize;
    let mut ops = vec![Op::Open];
    let (mut fss, mut hs) = (1usize, 0usize);
    let any = |r: &mut Rng| if r.chance(7, 8) { *r.pick(&f.inodes) } else { r.below(u64::from(f.b.geo.inodes) + 2) as u32 };
    for _ in 0..n {
        let k = if hs < 2 { 3 } else { r.below(24) };
        match k {
            0 if fss < 5 => {
                ops.push(Op::Clone(r.below(fss as u64) as usize));
                fss += 1;
            }
            1 if fss < 5 => {
                ops.push(Op::Again);
                fss += 1;
            }
            2 => {
                let n = any(r);
                ops.push(Op::StatOn(r.below(fss as u64) as usize, n));
            }
            3 | 4 if hs < 9 => {
                let n = any(r);
                ops.push(Op::FileOn(r.below(fss as u64) as usize, n));
                hs += 1;
            }
            _ => {
                let h = r.below(hs as u64) as usize;
                // Only one of them has an effect
                ops.push(Op::Next(h));
                ops.push(Op::Read(h, *r.pick(&[bs, bs, bs, bs + 7, 2 * bs, bs - 1])));
            }
        }
    }
    ops
}

fn random(ctx: &Ctx, tables: &Tables, r: &mut Rng) -> Case {
    let mut f = base(r);
    while f.b.geo.log_bs > 2 {
        f = base(r);
    }
    if r.chance(1, 4) {
        mutate(r, &mut f);
    }
    let n = r.range(20, 50) as usize;
    let ops = operations(r, &f, n);
    let kind = r.below(8);
    on_device(ctx, tables, r, f.b.img, ops, kind)
}

/// The operations on one kind of device.
fn on_device(ctx: &Ctx, tables: &Tables, r: &mut Rng, mut img: Image, ops: Vec<Op>, kind: u64) -> Case {
    let k = ["virtual", "shared position", "file", "memory", "reader", "array", "reader of a file", "array of files"][kind as usize];
    let raid = (kind == 5 || kind == 7).then(|| Raid::random(r, tables, img.size / 512));
    if let Some(raid) = &raid {
        img.size = raid.capacity() * 512;
    }
    let mut input = json!({"k": k, "img": img.json(), "ops": ops_json(&ops)});
    if let Some(raid) = &raid {
        input["raid"] = raid.json();
    }
    let path = ctx.work.join("device");
    let size = img.size as usize;
    let mut noise = Rng(r.u64());
    Case::new(input, move || match kind {
        0 => run_ops(img.device(512), &ops),
        1 => run_ops(SharedPos::new(img.device(512)), &ops),
        2 => {
            let f = std::fs::File::create(&path).unwrap();
            f.set_len(img.size).unwrap();
            f.write_all_at(&img.device(512).contents(0, size), 0).unwrap();
            let dev = FileBlockDevice::open_path(&path, BlockSize(512)).unwrap();
            let res = run_ops(dev, &ops);
            std::fs::remove_file(&path).unwrap();
            res
        }
        3 => run_ops(InMemoryBlockDevice::new(img.device(512).contents(0, size), BlockSize(512)), &ops),
        4 => run_ops(BlockDeviceReader::new(img.device(512)), &ops),
        6 => {
            let dev = VDev::from_bytes(&img.device(512).contents(0, size), *noise.pick(&[512, 1024, 2048, 256]));
            run_ops(BlockDeviceReader::new(dev.file(&path)), &ops)
        }
        7 => {
            let devs = raid.unwrap().members(&img.device(512).contents(0, size), &mut noise);
            let members = devs
                .into_iter()
                .enumerate()
                .map(|(k, d)| MdDevice::from_block_device(d.file(&path), Some(&format!("d{k}"))).unwrap());
            run_ops(BlockDeviceReader::new(MdArray::open(members.collect::<Vec<_>>())), &ops)
        }
        _ => {
            let devs = raid.unwrap().members(&img.device(512).contents(0, size), &mut noise);
            let members =
                devs.into_iter().enumerate().map(|(k, d)| MdDevice::from_block_device(d, Some(&format!("d{k}"))).unwrap());
            run_ops(BlockDeviceReader::new(MdArray::open(members.collect::<Vec<_>>())), &ops)
        }
    })
}

fn cases(ctx: &Ctx) -> Cases {
    let tables = Tables::new(ctx);
    let scen: Vec<_> = ctx.scenarios().into_iter().filter(|s| s["rows"].is_null()).collect();
    let n = ctx.n(900, 12000) as u64;
    let c = ctx.copy();
    // Every history on one kind of device after the other
    let given: Vec<_> = scen
        .into_iter()
        .enumerate()
        .map(|(k, s)| {
            let img = Image::from_json(&s["img"]);
            let ops = s["ops"].as_array().unwrap().iter().map(Op::from_json).collect();
            on_device(ctx, &tables, &mut c.rng("handles-scenario", k as u64), img, ops, k as u64 % 8)
        })
        .collect();
    let random = (0..n).map(move |k| random(&c, &tables, &mut c.rng("handles", k)));
    Box::new(given.into_iter().chain(random))
}

fn main() {
    vh::main_with(cases)
}
