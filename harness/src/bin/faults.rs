//! Operations on a filesystem while reads of its device fail, end early, are
//! short or interrupted, for a while or for good.
use md_recover::verif::block_device::BlockDeviceReader;
use serde_json::json;
use vh::ext4::*;
use vh::util::*;
use vh::world::*;

fn fault(r: &mut Rng, f: &Base) -> Fault {
    let mut x = Fault::default();
    let unit = |r: &mut Rng| match r.below(8) {
        0 => r.below(f.b.img.size / 1024),
        1 => f.b.data * f.b.bs() / 1024 + r.below(60 * f.b.bs() / 1024),
        _ => {
            let p = r.pick(&f.places);
            (p.at + r.below(p.len as u64)) / 1024
        }
    };
    if r.chance(1, 3) {
        return x;
    }
    match r.below(7) {
        6 => {
            for _ in 0..r.range(1, 2) {
                x.others.push(r.below(8));
            }
        }
        0 | 1 => {
            for _ in 0..r.range(1, 3) {
                let u = unit(r);
                x.bad.push((u, u + r.range(1, 3)));
            }
        }
        2 => {
            let at = unit(r) * 1024 + r.below(1024);
            x.cut = Some(at);
        }
        3 | 4 => {
            for _ in 0..r.range(1, 3) {
                x.fail.push(r.below(12));
            }
        }
        _ => x.fail.push(0),
    }
    if r.chance(1, 5) {
        x.short = r.range(1, 1500) as usize;
    }
    x.interrupts = r.chance(1, 5);
    x
}

fn random(r: &mut Rng) -> Case {
    let mut f = base(r);
    while f.b.geo.log_bs > 2 {
        f = base(r);
    }
    if r.chance(1, 6) {
        mutate(r, &mut f);
    }
    let bs = f.b.bs() as usize;
    let mut ops = vec![];
    if r.chance(1, 4) {
        ops.push(Op::Fault(fault(r, &f)));
        ops.push(Op::Open);
        ops.push(Op::Stat(f.inodes[0]));
        ops.push(Op::Fault(Fault::default()));
        ops.push(Op::Again);
    } else {
        ops.push(Op::Open);
    }
    let mut hs = 0;
    for _ in 0..r.range(20, 45) {
        match r.below(20) {
            0..=2 => ops.push(Op::Fault(fault(r, &f))),
            3 => ops.push(Op::Fault(Fault::default())),
            4 => {
                let n = *r.pick(&f.inodes);
                ops.push(Op::Stat(n));
            }
            5 if r.chance(1, 4) => ops.push(Op::Again),
            5 if r.chance(1, 4) => ops.push(Op::Clone(0)),
            6 | 7 if hs < 6 => {
                let n = *r.pick(&f.inodes);
                ops.push(Op::File(n));
                hs += 1;
            }
            _ if hs == 0 => {
                ops.push(Op::File(f.inodes[0]));
                hs += 1;
            }
            _ => {
                let h = r.below(hs as u64) as usize;
                for _ in 0..r.range(1, 3) {
                    ops.push(Op::Next(h));
                    ops.push(Op::Read(h, bs));
                }
            }
        }
    }
    // Everything that is left, without faults
    ops.push(Op::Fault(Fault::default()));
    for h in 0..hs {
        for _ in 0..r.range(2, 10) {
            ops.push(Op::Next(h));
            ops.push(Op::Read(h, bs));
        }
    }
    let kind = r.below(3);
    on_device(f.b.img, ops, kind)
}

fn on_device(img: Image, ops: Vec<Op>, kind: u64) -> Case {
    let k = ["virtual", "shared position", "reader"][kind as usize];
    let input = json!({"k": k, "img": img.json(), "ops": ops_json(&ops)});
    Case::new(input, move || {
        let dev = img.device(512);
        let d = dev.clone();
        let fault = |f: &Fault| f.apply(&d, img.size);
        match kind {
            0 => run_faulty(dev, &ops, fault),
            1 => run_faulty(SharedPos::new(dev), &ops, fault),
            _ => run_faulty(BlockDeviceReader::new(dev), &ops, fault),
        }
    })
}

fn cases(ctx: &Ctx) -> Cases {
    let scen = ctx.scenarios().into_iter().filter(|s| s["rows"].is_null()).enumerate().map(|(k, s)| {
        let ops: Vec<Op> = s["ops"].as_array().unwrap().iter().map(Op::from_json).collect();
        on_device(Image::from_json(&s["img"]), ops, k as u64 % 3)
    });
    let n = ctx.n(1500, 20000) as u64;
    let c = ctx.copy();
    let random = (0..n).map(move |k| random(&mut c.rng("faults", k)));
    Box::new(scen.chain(random))
}

fn main() {
    vh::main_with(cases)
}
