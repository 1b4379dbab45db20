//! Which superblock is found on devices of all sizes.
use md_recover::verif::md::MdDevice;
use serde_json::{json, Value};
use vh::dev::VDev;
use vh::md::{found, Sb};
use vh::util::*;

#[derive(Clone)]
struct Blob {
    off: u64,
    sb: Sb,
    /// "", "magic", "major" or "role": what is wrong with it
    flaw: &'static str,
    tag: u64,
}

#[derive(Clone)]
struct Scene {
    bs: u32,
    size: u64, // as the device really is; the block count rounds it down
    blobs: Vec<Blob>,
    bad: Vec<(u64, u64)>,
    short: usize,
    interrupts: bool,
    /// Calls of the device which fail: reads, and others
    fails: (Vec<u64>, Vec<u64>),
}

impl Blob {
    fn bytes(&self) -> Vec<u8> {
        let mut sb = self.sb.clone();
        sb.events = self.tag;
        if self.flaw == "role" {
            sb.roles = vec![0, 0xff00, 1];
        }
        let mut b = sb.bytes();
        match self.flaw {
            "magic" => b[2] ^= 0x10,
            "major" => {
                let at = if sb.major == 0 && sb.big_endian { 7 } else { 4 };
                b[at] ^= 2
            }
            _ => {}
        }
        b
    }
    fn json(&self) -> Value {
        json!({"off": w(self.off), "major": self.sb.major, "minor": self.sb.minor, "ok": self.flaw.is_empty(), "tag": w(self.tag)})
    }
}

fn case(s: Scene) -> Case {
    let input = json!({
        "k": "discover", "bs": s.bs, "size": w(s.size), "blobs": s.blobs.iter().map(Blob::json).collect::<Vec<_>>(),
        "bad": s.bad.iter().map(|(a, e)| json!([w(*a), w(*e)])).collect::<Vec<_>>(),
        "fails": s.fails,
    });
    Case::new(input, move || {
        let dev = VDev::new(s.size, s.bs);
        for b in &s.blobs {
            dev.write(b.off, &b.bytes());
        }
        {
            let mut sh = dev.sh.borrow_mut();
            sh.bad = s.bad.clone();
            sh.short = s.short;
            sh.interrupts = s.interrupts;
            sh.fail_calls = s.fails.0.clone();
            sh.fail_others = s.fails.1.clone();
        }
        let sh = dev.sh.clone();
        let mut out = io_out(MdDevice::from_block_device(dev, Some("d")).map(|d| {
            let f = found(&d);
            match f["k"].as_str() {
                Some("sb") => json!({"k": "sb", "major": f["sb"]["major"], "minor": f["sb"]["minor"], "tag": f["sb"]["events"]}),
                _ => json!({"k": f["k"], "major": 0, "minor": [], "tag": []}),
            }
        }));
        out["failed"] = json!(sh.borrow().failed);
        out
    })
}

fn places(size: u64) -> Vec<(u32, u32, u64)> {
    let mut v = vec![(1, 2, 4096), (1, 1, 0)];
    if size >= 8192 {
        v.push((1, 0, (((size >> 9) - 16) & !7) << 9));
    }
    if size >= 65536 {
        v.push((0, 90, (size & !65535) - 65536));
    }
    v
}

fn add(s: &mut Scene, b: Blob) {
    if b.off.checked_add(4096).is_some_and(|e| e <= s.size)
        && s.blobs.iter().all(|x| b.off + 4096 <= x.off || x.off + 4096 <= b.off)
    {
        s.blobs.push(b);
    }
}

fn scene(r: &mut Rng) -> Scene {
    let bs = *r.pick(&[512u32, 512, 512, 1024, 2048, 4096]);
    let size = match r.below(8) {
        0 => r.below(12288 * 2),
        1 => 12288 - 2 + r.below(5),
        2 => 65536 * r.range(1, 4) + r.below(5) - 2,
        3 => 65536 * r.range(1, 4) + 512 * r.below(130),
        4 => 4096 * r.range(2, 60) + 512 * r.below(9),
        5 => (1u64 << r.range(20, 62)) + r.below(300_000),
        6 => (1u64 << r.range(20, 62)) - r.below(300_000),
        _ => 512 * r.below(400),
    };
    let usable = size / u64::from(bs) * u64::from(bs);
    let mut s = Scene { bs, size, blobs: vec![], bad: vec![], short: 0, interrupts: false, fails: Default::default() };
    let all = places(usable);
    for i in 0..r.range(0, 5) {
        let &(major, minor, mut off) = r.pick(&all);
        let mut kind = (major, minor);
        match r.below(12) {
            // A superblock somewhere it does not belong
            0 => off = off.wrapping_add(*r.pick(&[512u64, 4096, 65536, 1024])),
            1 => off = off.saturating_sub(*r.pick(&[512u64, 4096, 65536, 1024])),
            // of the wrong version for the place
            2 => kind = if major == 0 { (1, 0) } else { (0, 90) },
            // or where it would be on a device of another size
            3 => {
                let other = places(size ^ (1 << r.below(20)));
                off = r.pick(&other).2
            }
            4 => off = r.pick(&places(size)).2,
            _ => {}
        }
        let flaw = if r.chance(1, 5) { *r.pick(&["magic", "major", "magic", "role"]) } else { "" };
        let flaw = if kind.0 == 1 && flaw == "role" { "magic" } else { flaw };
        let sb = Sb { major: kind.0, minor: kind.1, big_endian: r.chance(1, 2), ..Sb::default() };
        add(&mut s, Blob { off, sb, flaw, tag: 100 + i });
    }
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            let at = r.pick(&all).2;
            let from = (at + r.below(6000)).saturating_sub(1500);
            s.bad.push((from, from + r.range(1, 3000)));
        }
    }
    if r.chance(1, 5) {
        s.short = *r.pick(&[1usize, 7, 511, 512, 1000, 4095]);
    }
    s.interrupts = r.chance(1, 8);
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            if r.chance(1, 2) {
                s.fails.0.push(r.below(6) * if s.short > 0 { r.range(1, 8) } else { 1 });
            } else {
                s.fails.1.push(r.below(8));
            }
        }
    }
    s
}

fn from_scenario(k: usize, v: &Value) -> Scene {
    let size = unw(&v["size"]);
    let mut s = Scene { bs: 512, size, blobs: vec![], bad: vec![], short: [0, 0, 511, 1000][k % 4], interrupts: k % 5 == 0, fails: Default::default() };
    for (i, b) in v["blobs"].as_array().unwrap().iter().enumerate() {
        let flaw = if b["flaw"] == "" { "" } else { ["major", "magic"][k % 2] };
        let (major, minor) = (b["major"].as_u64().unwrap() as u32, b["minor"].as_u64().unwrap() as u32);
        let sb = Sb { major, minor, big_endian: k & 2 != 0, ..Sb::default() };
        s.blobs.push(Blob { off: unw(&b["off"]), sb, flaw, tag: 100 + i as u64 });
    }
    s.bad = v["bad"].as_array().unwrap().iter().map(|r| (unw(&r[0]), unw(&r[1]))).collect();
    s
}

fn cases(ctx: &Ctx) -> Cases {
    let mut fixed: Vec<Scene> = ctx.scenarios().iter().enumerate().map(|(k, v)| from_scenario(k, v)).collect();
    // Each version alone, on every size at 512-byte steps.
    for (major, minor) in [(1, 2), (1, 1), (1, 0), (0, 90)] {
        let mut sizes: Vec<u64> = (0..if ctx.thorough { 700u64 } else { 300 }).map(|k| k * 512).collect();
        sizes.extend([12287, 12288, 12289, 65535, 65536, 65537, 131071, 131072, 131073]);
        for size in sizes {
            let mut s = Scene { bs: 512, size, blobs: vec![], bad: vec![], short: 0, interrupts: false, fails: Default::default() };
            for &(j, n, off) in &places(size / 512 * 512) {
                if (j, n) == (major, minor) {
                    let sb = Sb { major, minor, big_endian: size & 512 != 0, ..Sb::default() };
                    add(&mut s, Blob { off, sb, flaw: "", tag: 7 });
                }
            }
            fixed.push(s);
        }
    }
    // All subsets of the four, with each one intact, flawed or unreadable.
    for size in [131072u64, 1 << 20, (1 << 20) + 70_000] {
        for code in 0..256u32 {
            let mut s = Scene { bs: 512, size, blobs: vec![], bad: vec![], short: 0, interrupts: false, fails: Default::default() };
            for (i, &(major, minor, off)) in places(size).iter().enumerate() {
                let state = code >> (2 * i) & 3;
                if state == 0 {
                    continue;
                }
                let sb = Sb { major, minor, big_endian: code & 1 != 0, ..Sb::default() };
                add(&mut s, Blob { off, sb, flaw: if state == 2 { "magic" } else { "" }, tag: 20 + i as u64 });
                if state == 3 {
                    s.bad.push((off + 4095, off + 4096));
                }
            }
            fixed.push(s);
        }
    }
    // Every call failing in turn, alone and with the next one.
    for code in 0..16u32 {
        for size in [8192u64, 40960, 131072] {
            for call in 0..24u64 {
                let mut s = Scene { bs: 512, size, blobs: vec![], bad: vec![], short: 0, interrupts: false, fails: Default::default() };
                if size > 12288 {
                    for (i, &(major, minor, off)) in places(size).iter().enumerate() {
                        if code >> i & 1 == 1 {
                            let sb = Sb { major, minor, big_endian: code & 1 != 0, ..Sb::default() };
                            add(&mut s, Blob { off, sb, flaw: "", tag: 40 + i as u64 });
                        }
                    }
                }
                let which = if call < 12 { &mut s.fails.0 } else { &mut s.fails.1 };
                which.push(call % 12);
                if code & 2 != 0 {
                    which.push(call % 12 + 1);
                }
                fixed.push(s);
            }
        }
    }
    let c = ctx.copy();
    let n = ctx.n(3000, 40000) as u64;
    Box::new(fixed.into_iter().map(case).chain((0..n).map(move |k| case(scene(&mut c.rng("discover", k))))))
}

fn main() {
    vh::main_with(cases)
}
