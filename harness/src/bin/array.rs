//! Reads sectors of assembled arrays.
use md_recover::verif::block_device::{BlockDevice, BlockNumber};
use md_recover::verif::md::{MdArray, MdDevice};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vh::dev::VDev;
use vh::md::Sb;
use vh::util::*;

struct Member {
    sb: Option<Sb>,
    size: u64,
    bs: u32,
    /// Sectors that are not zero, as one byte per lane.
    data: BTreeMap<u64, Vec<u8>>,
    bad: Vec<u64>,
    short: usize,
    interrupts: bool,
    /// The size after the device has been opened.
    cut: Option<u64>,
    /// Calls which fail, counted from when the array has been opened
    fail: Vec<u64>,
    others: Vec<u64>,
}

impl Member {
    fn new(sb: Sb, size: u64, bs: u32) -> Self {
        Member { sb: Some(sb), size, bs, data: BTreeMap::new(), bad: vec![], short: 0, interrupts: false, cut: None, fail: vec![], others: vec![] }
    }
    fn json(&self) -> Value {
        let mut v = match &self.sb {
            None => json!({"k": "missing"}),
            Some(sb) => json!({"k": "sb", "sb": sb.to_json()}),
        };
        v["size"] = w(self.cut.unwrap_or(self.size));
        v["bs"] = json!(self.bs);
        v["data"] = self.data.iter().map(|(s, d)| json!([w(*s), d])).collect::<Vec<_>>().into();
        v["bad"] = self.bad.iter().map(|s| w(*s)).collect::<Vec<_>>().into();
        v
    }
    fn open(&self, cuts: &[usize], name: &str) -> (MdDevice<VDev>, VDev) {
        let dev = VDev::new(self.size, self.bs);
        for (s, lanes) in &self.data {
            dev.write(s * 512, &expand(lanes, cuts));
        }
        if let Some(sb) = &self.sb {
            dev.write(sb.place(self.size / u64::from(self.bs) * u64::from(self.bs)), &sb.bytes());
        }
        let d = MdDevice::from_block_device(dev.clone(), Some(name)).unwrap();
        let mut sh = dev.sh.borrow_mut();
        sh.bad = self.bad.iter().map(|s| (s * 512, s * 512 + 512)).collect();
        sh.short = self.short;
        sh.interrupts = self.interrupts;
        if let Some(c) = self.cut {
            sh.size = c;
        }
        sh.fail_calls = self.fail.iter().map(|k| sh.calls + k).collect();
        sh.fail_others = self.others.iter().map(|k| sh.others + k).collect();
        drop(sh);
        (d, dev)
    }
}

fn expand(lanes: &[u8], cuts: &[usize]) -> Vec<u8> {
    let mut b = vec![0; 512];
    for (k, l) in lanes.iter().enumerate() {
        b[cuts[k]..cuts[k + 1]].fill(*l);
    }
    b
}

fn compress(b: &[u8], cuts: &[usize]) -> Value {
    let lanes: Vec<u8> = cuts[..cuts.len() - 1].iter().map(|c| b[*c]).collect();
    if expand(&lanes, cuts) == b {
        json!(lanes)
    } else {
        json!(b)
    }
}

fn run(members: &[Member], cuts: &[usize], reads: &[(u64, usize)]) -> Value {
    let (members, devs): (Vec<_>, Vec<_>) =
        members.iter().enumerate().map(|(k, m)| m.open(cuts, &format!("d{k}"))).unzip();
    let mut array = MdArray::open(members);
    let hit = || devs.iter().any(|d| d.sh.borrow().failed > 0);
    let mut count = guard(|| io_out(array.block_count().map(|c| w(u64::from(c)))));
    count["hit"] = hit().into();
    let reads: Vec<Value> = reads
        .iter()
        .map(|(x, len)| {
            let mut buf = vec![0xa5u8; *len];
            devs.iter().for_each(|d| d.sh.borrow_mut().failed = 0);
            let mut v = guard(|| {
                io_out(array.read_block(BlockNumber(*x), &mut buf).map(|n| {
                    json!({"n": n, "d": compress(&buf[..512], cuts), "tail": buf[512..].iter().all(|b| *b == 0xa5)})
                }))
            });
            v["hit"] = hit().into();
            v
        })
        .collect();
    ok(json!({"count": count, "reads": reads}))
}

fn case(k: &'static str, members: Vec<Member>, cuts: Vec<usize>, reads: Vec<(u64, usize)>) -> Case {
    let input = json!({
        "k": k, "cuts": cuts, "members": members.iter().map(Member::json).collect::<Vec<_>>(),
        "reads": reads.iter().map(|(x, l)| json!([w(*x), l])).collect::<Vec<_>>(),
    });
    Case::new(input, move || run(&members, &cuts, &reads))
}

/// Reads of an array which is being reshaped, on one side of the position each.
fn from_reshape(s: &Value) -> Vec<Case> {
    let u = |k: &str| s[k].as_u64().unwrap();
    let (n, spd, position) = (u("n"), u("spd"), u("position"));
    let members = |minor: u32| -> Vec<Member> {
        (0..n)
            .map(|k| {
                let sb = Sb {
                    major: 1,
                    minor,
                    features: 4,
                    level: 6,
                    layout: u("layout") as u32,
                    size: spd,
                    chunk: u("chunk") as u32,
                    raid_disks: n as u32,
                    data_offset: 32 + k,
                    index: k as u32,
                    roles: (0..n as u32).collect(),
                    reshape: (6, position, u("delta") as u32, u("nlayout") as u32, u("nchunk") as u32, 0),
                    ..Sb::default()
                };
                let mut m = Member::new(sb, 32768, 512);
                for (p, c) in s["cells"][k as usize].as_array().unwrap().iter().enumerate() {
                    m.data.insert(32 + k + p as u64, vec![0, c.as_u64().unwrap() as u8]);
                }
                m
            })
            .collect()
    };
    let total = 2 * spd;
    let cuts = || vec![0, 511, 512];
    let mut all = vec![case("reshape-before", members(2), cuts(), (0..position).map(|x| (x, 512)).collect())];
    all.extend((position..total).map(|x| case("reshape-past", members(1), cuts(), vec![(x, 512)])));
    all
}

fn from_scenario(s: &Value) -> Case {
    let cells = s["cells"].as_array().unwrap();
    let removed: Vec<usize> = s["removed"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let n = cells.len();
    let spd = s["spd"].as_u64().unwrap();
    let mut members = vec![];
    for k in 0..n {
        if removed.contains(&k) {
            continue;
        }
        let sb = Sb {
            layout: s["layout"].as_u64().unwrap() as u32,
            size: spd,
            chunk: 1,
            raid_disks: n as u32,
            data_offset: 32 + s["offs"][k].as_u64().unwrap(),
            index: k as u32,
            roles: (0..n as u32).collect(),
            ..Sb::default()
        };
        let mut m = Member::new(sb, 32768, 512);
        for (p, c) in cells[k].as_array().unwrap().iter().enumerate() {
            let c = c.as_u64().unwrap() as u8;
            // The value in all lanes but the first, which is always 0
            m.data.insert(32 + p as u64, vec![0, c]);
        }
        members.push(m);
    }
    let reads = (0..spd * (n as u64 - 2) + 1).map(|x| (x, 512)).collect();
    case("scenario", members, vec![0, 511, 512], reads)
}

// The generator's own idea of the layouts, used only to make most stripes
// consistent; what is right is decided by the specification.
fn place(layout: u32, n: u64, s: u64, dd: u64) -> (u64, u64, u64) {
    let asym = |p: u64| if p == n - 1 { (p, 0, dd + 1) } else { (p, p + 1, if dd >= p { dd + 2 } else { dd }) };
    let l = n - 1 - s % n;
    let r = s % n;
    match layout {
        0 => asym(l),
        1 | 8 => asym(r),
        9 => asym(n - 1 - (s + 1) % n),
        2 => (l, (l + 1) % n, (l + 2 + dd) % n),
        3 => (r, (r + 1) % n, (r + 2 + dd) % n),
        4 => (0, 1, dd + 2),
        5 => (n - 2, n - 1, dd),
        10 => (l, (l + n - 1) % n, (l + 1 + dd) % n),
        16..=19 => {
            let p = if layout % 2 == 0 { n - 2 - s % (n - 1) } else { s % (n - 1) };
            (p, n - 1, if layout < 18 { if dd >= p { dd + 1 } else { dd } } else { (p + 1 + dd) % (n - 1) })
        }
        _ => (0, n - 1, dd + 1),
    }
}

const LAYOUTS: [u32; 14] = [0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20];

fn random(r: &mut Rng, most: bool) -> Case {
    let wide = r.chance(1, 4);
    let n = if most { 260 } else if r.chance(1, 15) { *r.pick(&[9, 12, 16, 17, 24, 33, 40]) } else if r.chance(1, 500) { *r.pick(&[65, 129]) } else { *r.pick(&[4u64, 4, 5, 5, 6, 7, 8, 3]) };
    let data = n - 2;
    let layout = *r.pick(&LAYOUTS);
    let level = if !most && r.chance(1, 25) { *r.pick(&[5u32, 4, 0]) } else { 6 };
    let layout = if !most && level == 6 && r.chance(1, 40) { *r.pick(&[6, 7, 11, 21, 0x10002]) } else { layout };
    let chunk = *r.pick(&[1u64, 2, 3, 4, 8, 16, 7, 128]);
    // Some arrays must be representable in version 0, which counts in KiB.
    let v0 = r.chance(1, 4) && chunk != 128 && n < 28;
    let bits = r.range(20, 40);
    let mut spd = if wide { r.below(1 << bits) + 1 } else { chunk * r.range(1, 12) + if r.chance(1, 3) { r.below(chunk) } else { 0 } };
    if v0 {
        spd = (spd + 1) & !1;
        if spd >> 1 > u32::MAX as u64 {
            spd &= 0xffff_fffe;
        }
        if spd == 0 {
            spd = 2;
        }
    }
    let (mut cuts, lanes) = {
        let mut c = vec![0usize, 512];
        for p in [1, 511, 256, r.below(510) as usize + 1, r.below(510) as usize + 1] {
            if r.chance(1, 2) {
                c.push(p);
            }
        }
        c.sort();
        c.dedup();
        let l = c.len() - 1;
        (c, l)
    };
    if r.chance(1, 10) {
        cuts = vec![0, 512];
    }
    let lanes = lanes.min(cuts.len() - 1);
    // Which member holds which number
    let mut numbers: Vec<u32> = (0..n as u32).collect();
    if r.chance(1, 3) {
        r.shuffle(&mut numbers);
    }
    let mut members: Vec<Member> = (0..n)
        .map(|k| {
            let zero = v0 && r.chance(2, 3);
            let minor = if zero { 90 } else { r.below(3) as u32 };
            let off = if zero { 0 } else if wide && r.chance(1, 4) { r.magnitude(53) + 24 } else { 24 + r.below(200) };
            let bs = if most { 512 } else { *r.pick(&[512u32, 512, 512, 1024, 2048, 4096, 128, 256, 384, 520]) };
            let mut size = (off + spd) * 512;
            if zero || minor == 0 {
                size = size + 200_000 + r.below(4096);
            } else {
                size += *r.pick(&[0u64, 0, 512, 4096, 10_000]);
                size = size.max(16384);
                if size % u64::from(bs) != 0 && r.chance(3, 4) {
                    size += u64::from(bs) - size % u64::from(bs);
                }
            }
            let sb = Sb {
                major: if zero { 0 } else { 1 },
                minor,
                big_endian: r.chance(1, 2),
                level,
                layout,
                size: if zero { spd / 2 } else { spd },
                chunk: (if zero { chunk * 512 } else { chunk }) as u32,
                raid_disks: n as u32,
                data_offset: off,
                index: k as u32,
                roles: numbers.clone(),
                events: 5 + r.below(2),
                ..Sb::default()
            };
            let mut m = Member::new(sb, size, bs);
            if r.chance(1, 8) {
                m.short = r.range(1, 600) as usize;
            }
            m.interrupts = r.chance(1, 8);
            if r.chance(1, if most { 8 * n } else { n.max(8) }) {
                m.fail = (0..r.range(1, 3)).map(|_| r.below(16)).collect();
            }
            if r.chance(1, if most { 8 * n } else { n.max(12) }) {
                m.others = (0..r.range(1, 3)).map(|_| r.below(40)).collect();
            }
            m
        })
        .collect();
    let cap = spd * data;
    let mut reads = vec![];
    let period = chunk * data * n * (n - 1);
    for k in 0..r.range(4, 10) {
        let x = match r.below(12) {
            0 => cap - 1,
            1 => cap,
            2 => cap + r.below(3 * chunk * n),
            3 => *r.pick(&[u64::MAX, u64::MAX / 512, 1 << 55, (1 << 55) - 1, u64::MAX - 1, 1 << 63]),
            4 => cap.saturating_sub(r.below(2 * chunk * n) + 1),
            5 | 6 => r.below(cap),
            _ => r.below(cap.min(2 * period)),
        };
        // Data of the last members
        let x = if most && k % 2 == 0 { r.below(cap / chunk / data) * chunk * data + chunk * (data - 1 - r.below(4)) } else { x };
        let len = if most { 512 } else { *r.pick(&[512usize, 512, 512, 512, 513, 1024, 4096, 511, 0, 100]) };
        reads.push((x, len));
    }
    // Make the stripes to be read consistent.
    let off = |m: &Member| m.sb.as_ref().map(|s| if s.major == 0 { 0 } else { s.data_offset }).unwrap();
    let by_number: Vec<usize> = (0..n as u32).map(|k| numbers.iter().position(|x| *x == k).unwrap()).collect();
    let mut touched = vec![];
    for (x, _) in &reads {
        if *x >= cap {
            continue;
        }
        let (c, o) = (x / chunk, x % chunk);
        let s = c / data;
        let t = s * chunk + o;
        if touched.iter().any(|(t2, _)| *t2 == t) {
            continue;
        }
        touched.push((t, s));
        let (p, q, _) = place(layout, n, s, c % data);
        let mut xor = vec![0u8; lanes];
        for num in 0..n {
            if num == p || num == q {
                continue;
            }
            let v: Vec<u8> = (0..lanes).map(|_| r.byte()).collect();
            xor.iter_mut().zip(&v).for_each(|(a, b)| *a ^= b);
            let m = &mut members[by_number[num as usize]];
            let at = off(m) + t;
            m.data.insert(at, v);
        }
        for (num, v) in [(p, xor), (q, (0..lanes).map(|_| r.byte()).collect())] {
            if let Some(k) = by_number.get(num as usize) {
                let m = &mut members[*k];
                let at = off(m) + t;
                m.data.insert(at, v);
            }
        }
        // The sectors just around, on some members
        if r.chance(1, 3) {
            let m = &mut members[r.below(n) as usize];
            let at = off(m) + t + 1;
            if t + 1 < spd {
                m.data.entry(at).or_insert_with(|| (0..lanes).map(|_| r.byte()).collect());
            }
        }
    }
    // Faults
    for _ in 0..if most { 2 } else { *r.pick(&[0, 0, 0, 1, 1, 2]) } {
        if touched.is_empty() {
            break;
        }
        let (t, s) = *r.pick(&touched);
        let k = if most && r.chance(1, 2) { n - 1 - r.below(4) } else { r.below(n) } as usize;
        match r.below(if most { 4 } else { 9 }) {
            0 | 1 | 2 => {
                // One lane of one member differs, on data, P or Q.
                let (p, q, d) = place(layout, n, s, 0);
                let any = if most { n - 1 - r.below(4) } else { r.below(n) };
                let num = *r.pick(&[p, q, d, any]);
                if let Some(k) = by_number.get(num as usize) {
                    let m = &mut members[*k];
                    let at = off(m) + t;
                    if let Some(v) = m.data.get_mut(&at) {
                        let l = r.below(lanes as u64) as usize;
                        v[l] ^= 1 << r.below(8);
                    }
                }
            }
            3 => {
                let m = &mut members[k];
                let at = off(m) + t;
                m.bad.push(at);
            }
            4 => {
                let m = &mut members[k];
                let at = off(m) + t + 1;
                m.bad.push(at);
            }
            5 => {
                let m = &mut members[k];
                let at = (off(m) + t) * 512;
                m.cut = Some(at + *r.pick(&[0u64, 511, 512, 513, 1024, 4096]));
            }
            6 => {
                if members.len() > 1 {
                    let k = k % members.len();
                    members.remove(k);
                }
                break;
            }
            7 => {
                let from = &members[k % members.len()];
                let mut m = Member::new(from.sb.clone().unwrap(), from.size, from.bs);
                m.data = from.data.clone();
                members.push(m);
                break;
            }
            _ => {
                let k = k % members.len();
                if let Some(sb) = members[k].sb.as_mut() {
                    match r.below(5) {
                        0 => sb.size += 2,
                        1 => sb.chunk = *r.pick(&[0, sb.chunk * 2]),
                        2 => sb.raid_disks += 1,
                        3 => sb.layout ^= 1,
                        _ => {
                            let l = sb.roles.len();
                            sb.roles.swap(0, l - 1);
                        }
                    }
                }
                break;
            }
        }
    }
    if r.chance(1, 30) {
        // The same flawed geometry everywhere
        let f = r.below(4);
        for m in &mut members {
            let sb = m.sb.as_mut().unwrap();
            match f {
                0 => sb.chunk = 0,
                1 => sb.raid_disks = *[0, 1, 2, u32::MAX].get((r.0 % 4) as usize).unwrap(),
                2 => sb.size = if sb.major == 0 { u32::MAX.into() } else { u64::MAX },
                _ => sb.raid_disks = 1 << 31,
            }
        }
    }
    if r.chance(1, 40) {
        let m = Member { sb: None, ..Member::new(Sb::default(), 100_000, 512) };
        members.push(m);
    }
    if r.chance(1, 2) {
        r.shuffle(&mut members);
    }
    case(if wide { "wide" } else { "small" }, members, cuts, reads)
}

fn cases(ctx: &Ctx) -> Cases {
    let scen = ctx.scenarios();
    let stride = if ctx.thorough { 1 } else { 3 };
    let (reshape, scen): (Vec<_>, Vec<_>) = scen.into_iter().partition(|s| s.get("nlayout").is_some());
    let reshape = reshape.into_iter().flat_map(|s| from_reshape(&s));
    let scen = scen.into_iter().step_by(stride).map(|s| from_scenario(&s)).chain(reshape);
    let n = ctx.n(1500, 30000) as u64;
    let c = ctx.copy();
    let random = (0..n).map(move |k| random(&mut c.rng("array", k), k % 500 == 7));
    Box::new(scen.chain(random))
}

fn main() {
    vh::main_with(cases)
}
