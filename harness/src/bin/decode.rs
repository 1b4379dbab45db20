//! What the code reads from md superblocks with arbitrary contents.
use md_recover::verif::md::superblock::SuperblockVersion1;
use md_recover::verif::md::MdDevice;
use serde_json::{json, Value};
use vh::dev::VDev;
use vh::md::{found, Sb, MAGIC};
use vh::util::*;

/// What only version 1 superblocks say.
fn add_places(v: &mut Value, sb: Option<SuperblockVersion1<Vec<u8>>>) {
    let num = |n: Option<u64>| json!(n.map(w).into_iter().collect::<Vec<_>>());
    let get = |f: fn(&SuperblockVersion1<Vec<u8>>) -> Option<u64>| num(sb.as_ref().and_then(f));
    v["bitmap"] = get(|s| s.bitmap_offset().map(u64::from));
    v["recovery"] = get(|s| s.recovery_offset());
    v["journal"] = get(|s| s.journal_tail());
    let ppl = sb.as_ref().and_then(|s| s.ppl_info());
    let ppl = ppl.map(|p| json!([w((p.offset().read() as u16).into()), w(p.size().read().into())]));
    v["ppl"] = json!(ppl.into_iter().collect::<Vec<_>>());
}

/// Opens a device which holds only the given superblock.
fn case(ver: &'static str, bytes: Vec<u8>) -> Case {
    let end = bytes.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1);
    let input = json!({"k": ver, "b": &bytes[..end]});
    Case::new(input, move || {
        let size = if ver == "v0" { 131072 } else { 16384 };
        let dev = VDev::new(size, 512);
        let at = match ver {
            "v0" => 65536,
            "v1.2" => 4096,
            "v1.1" => 0,
            _ => 8192,
        };
        dev.write(at, &bytes);
        io_out(MdDevice::from_block_device(dev, Some("d")).map(|d| {
            let mut f = found(&d);
            if f["k"] == "sb" {
                add_places(&mut f["sb"], if ver == "v0" { None } else { SuperblockVersion1::read(&bytes[..], 2).ok() });
            }
            f
        }))
    })
}

fn interesting(r: &mut Rng, bits: u32) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => r.below(12),
        2 => 80 + r.below(20),
        _ => r.magnitude(bits),
    }
}

fn role(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => *r.pick(&[0xffffu32, 0xfffe, 0xfffd]),
        1 => *r.pick(&[0xfffcu32, 0xff00, 0xff80]),
        2 => *r.pick(&[0xfeffu32, 0xfefe, 0x100, 0xff]),
        _ => r.below(30) as u32,
    }
}

fn random_sb(r: &mut Rng, major: u32) -> Sb {
    let mut uuid = [0u8; 16];
    uuid.copy_from_slice(&r.bytes(16));
    let mut name = [0u8; 32];
    let n = r.range(0, 32) as usize;
    name[..n].copy_from_slice(&r.bytes(n));
    let max = if major == 0 { 27 } else { 40 };
    let n = if major == 1 && r.chance(1, 60) { 1920 } else { r.range(0, max) };
    let mut roles: Vec<u32> = (0..n).map(|_| role(r)).collect();
    if major == 0 && r.chance(2, 3) {
        // Mostly acceptable ones.
        roles.iter_mut().filter(|r| (0xff00..0xfffd).contains(*r)).for_each(|r| *r = 0xffff);
    }
    if major == 0 && r.chance(1, 12) && !roles.is_empty() {
        let i = r.below(roles.len() as u64) as usize;
        roles[i] = r.magnitude(32) as u32;
    }
    Sb {
        major,
        minor: if major == 0 { *r.pick(&[0, 89, 90, 90, 90, 91, 91, 92]) } else { 0 },
        big_endian: r.chance(1, 2),
        uuid,
        name,
        level: interesting(r, 32) as u32,
        layout: interesting(r, 32) as u32,
        size: interesting(r, if major == 0 { 32 } else { 64 }),
        chunk: interesting(r, 32) as u32,
        raid_disks: interesting(r, 32) as u32,
        features: if r.chance(1, 2) { r.magnitude(13) as u32 } else { r.u64() as u32 },
        reshape: (
            interesting(r, 32) as u32,
            interesting(r, 64),
            interesting(r, 32) as u32,
            interesting(r, 32) as u32,
            interesting(r, 32) as u32,
            interesting(r, 32) as u32,
        ),
        data_offset: interesting(r, 64),
        index: interesting(r, 32) as u32,
        events: r.magnitude(64),
        roles,
    }
}

/// What a writer of the specification laid out.
fn from_scenario(s: &Value) -> Case {
    let ver = ["v0", "v1.0", "v1.1", "v1.2"].into_iter().find(|v| s["ver"] == *v).unwrap();
    let mut b = vec![s["fill"].as_u64().unwrap() as u8; 4096];
    for p in s["put"].as_array().unwrap() {
        let bytes: Vec<u8> = p[1].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
        put(&mut b, p[0].as_u64().unwrap() as usize, &bytes);
    }
    case(ver, b)
}

fn cases(ctx: &Ctx) -> Cases {
    let scen = ctx.scenarios().into_iter().map(|s| from_scenario(&s));
    let n = ctx.n(1500, 20000) as u64;
    let c = ctx.copy();
    let random = (0..n).map(move |k| {
        let mut r = c.rng("decode", k);
        let ver = *r.pick(&["v0", "v0", "v1.2", "v1.1", "v1.0"]);
        let major = u32::from(ver != "v0");
        let sb = random_sb(&mut r, major);
        let mut b = sb.bytes();
        let put_word = |b: &mut [u8], o, v: u32| {
            if sb.big_endian && major == 0 { put(b, o, &v.to_be_bytes()) } else { put32(b, o, v) }
        };
        // Fill what the superblock does not define with noise, so that only
        // the defined fields can be what was read.
        if r.chance(1, 3) {
            let ranges: &[(usize, usize)] = if major == 0 {
                &[(12, 20), (24, 28), (44, 52), (64, 156), (164, 176), (200, 256), (264, 512)]
            } else {
                &[(12, 16), (64, 72), (96, 100), (136, 160), (164, 200), (208, 220), (224, 256)]
            };
            for &(s, e) in ranges {
                let noise = r.bytes(e - s);
                put(&mut b, s, &noise);
            }
        }
        if major == 0 && r.chance(1, 3) {
            // Descriptors past the recorded members may hold anything.
            for i in sb.roles.len()..27 {
                let noise = r.bytes(20);
                put(&mut b, 512 + 128 * i, &noise);
            }
        }
        match r.below(12) {
            // Member counts beyond the table.
            0 => put_word(&mut b, if major == 0 { 36 } else { 220 }, {
                let m = r.magnitude(32) as u32;
                if r.chance(1, 2) { r.range(0, 30) as u32 } else { m }
            }),
            1 => {
                let at = r.below(4) as usize;
                b[at] ^= 1 << r.below(8);
            }
            2 => put_word(&mut b, 4, *r.pick(&[0, 1, 2, 256, 0x1000000])),
            _ => {}
        }
        case(ver, b)
    });
    // Every single-bit change of the magic and major version, in every version.
    let mut fixed = vec![];
    for ver in ["v0", "v1.2", "v1.1", "v1.0"] {
        for big in [false, true] {
            let sb = Sb { major: u32::from(ver != "v0"), minor: 90, big_endian: big, ..Sb::default() };
            if ver != "v0" && big {
                continue;
            }
            for bit in 0..64 {
                let mut b = sb.bytes();
                b[bit / 8] ^= 1 << (bit % 8);
                fixed.push((ver, b));
            }
        }
    }
    // Every position-table value around the limits, in every place.
    for big in [false, true] {
        for value in [0xfeff, 0xff00, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0xfff0ffffu32] {
            for at in [0usize, 1, 3, 4, 26] {
                for nr in [0u32, 1, 2, 4, 5, 26, 27, 28, u32::MAX] {
                    let sb = Sb { major: 0, minor: 90, big_endian: big, ..Sb::default() };
                    let mut b = sb.bytes();
                    let e = |v: u32| if big { v.to_be_bytes() } else { v.to_le_bytes() };
                    put(&mut b, 36, &e(nr));
                    put(&mut b, 512 + 128 * at + 12, &e(value));
                    fixed.push(("v0", b));
                }
            }
        }
    }
    assert_eq!(MAGIC, 0xa92b4efc);
    Box::new(scen.chain(random).chain(fixed.into_iter().map(|(v, b)| case(v, b))))
}

fn main() {
    vh::main_with(cases)
}
