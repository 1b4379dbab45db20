//! Sets of members of arrays: what is on each, agreeing or not.
use crate::dev::VDev;
use crate::md::Sb;
use crate::util::*;
use md_recover::verif::md::MdDevice;
use serde_json::{json, Value};

#[derive(Clone)]
pub enum Member {
    Small,
    Missing,
    Has(Box<Sb>),
}

impl Member {
    pub fn json(&self) -> Value {
        match self {
            Member::Small => json!({"k": "small"}),
            Member::Missing => json!({"k": "missing"}),
            Member::Has(sb) => json!({"k": "sb", "sb": sb.to_json()}),
        }
    }
    pub fn open(&self, name: Option<&str>) -> MdDevice<VDev> {
        let dev = match self {
            Member::Small => VDev::new(8192, 512),
            Member::Missing => VDev::new(131072, 512),
            Member::Has(sb) => {
                let d = VDev::new(131072, 512);
                d.write(sb.place(131072), &sb.bytes());
                d
            }
        };
        MdDevice::from_block_device(dev, name).unwrap()
    }
}

fn role(r: &mut Rng, n: u64) -> u32 {
    match r.below(10) {
        0 => 0xffff,
        1 => 0xfffe,
        2 => *r.pick(&[0xffffu32, 0xff00, 0xfffc, 0xfffd, 0xfeff, 0xffff]),
        _ => r.below(n) as u32,
    }
}

/// Members of one array with the odd discrepancy, mostly about positions.
pub fn positions(r: &mut Rng) -> Vec<Member> {
    let n = r.range(1, 7);
    let base: Vec<u32> = (0..n + r.below(3)).map(|k| if k < n { k as u32 } else { 0xffff }).collect();
    let mut members: Vec<Member> = (0..n)
        .map(|k| {
            let mut roles = base.clone();
            // Entries a table may lack or not know
            for _ in 0..r.below(3) {
                let at = r.below(roles.len() as u64) as usize;
                roles[at] = *r.pick(&[0xffff, 0xfffe, 0xff00, 0xfffe]);
            }
            if r.chance(1, 4) {
                roles.truncate(r.below(n + 1) as usize);
            }
            if r.chance(1, 10) {
                let at = r.below(roles.len() as u64 + 1) as usize;
                if at < roles.len() {
                    roles[at] = role(r, n);
                }
            }
            let mut index = k as u32;
            if r.chance(1, 12) {
                index = r.below(n + 3) as u32;
            }
            let v0 = r.chance(1, 6);
            if v0 {
                roles.iter_mut().filter(|x| (0xff00..0xfffd).contains(*x)).for_each(|x| *x = 0xffff);
            }
            Member::Has(Box::new(Sb {
                major: if v0 { 0 } else { 1 },
                minor: if v0 { 90 } else { r.below(3) as u32 },
                big_endian: r.chance(1, 2),
                index,
                roles,
                raid_disks: n as u32,
                ..Sb::default()
            }))
        })
        .collect();
    if r.chance(1, 10) {
        // Exchanged positions
        let perm: Vec<u32> = {
            let mut p: Vec<u32> = (0..n as u32).collect();
            r.shuffle(&mut p);
            p
        };
        for m in &mut members {
            if let Member::Has(sb) = m {
                for x in &mut sb.roles {
                    if let Some(y) = perm.get(*x as usize) {
                        *x = *y;
                    }
                }
            }
        }
    }
    if r.chance(1, 12) {
        members.push(if r.chance(1, 2) { Member::Small } else { Member::Missing });
    }
    if r.chance(1, 8) && members.len() > 1 {
        let k = r.below(members.len() as u64) as usize;
        members.remove(k);
    }
    if r.chance(1, 8) {
        let k = r.below(members.len() as u64) as usize;
        let m = members[k].clone();
        members.push(m);
    }
    members
}

/// Many members, or tables of many positions.
pub fn many(r: &mut Rng) -> Vec<Member> {
    let n = *r.pick(&[9u64, 12, 17, 28, 33, 40, 64]);
    let v0 = n < 28 && r.chance(1, 4);
    let len = if v0 { n + r.below(28 - n) } else { *r.pick(&[n, n + 3, 129, 256, 257, 385, 1000, 1920]).max(&n) };
    // Which indices the members have
    let mut at: Vec<u32> = if r.chance(1, 2) {
        (0..n as u32).collect()
    } else {
        let mut v: Vec<u32> = (0..n).map(|_| r.below(len) as u32).collect();
        v.push(len as u32 - 1);
        v
    };
    if r.chance(1, 6) {
        at.push(len as u32);
    }
    let far = if v0 { 0 } else { *r.pick(&[0u32, 0, 200, 1000, 0xfdff]) };
    let mut base = vec![if v0 { 0xffff } else { *r.pick(&[0xffffu32, 0xfffe]) }; len as usize];
    for (k, i) in at.iter().enumerate() {
        if let Some(x) = base.get_mut(*i as usize) {
            *x = (far + k as u32).min(0xfeff);
        }
    }
    let mut members: Vec<Member> = at
        .iter()
        .map(|i| {
            let mut roles = base.clone();
            for _ in 0..if r.chance(1, 3) { 3 } else { 0 } {
                let k = r.below(len) as usize;
                roles[k] = if v0 { 0xffff } else { *r.pick(&[0xffff, 0xfffe, 0xffff]) };
            }
            if r.chance(1, 40) {
                let k = r.below(len) as usize;
                roles[k] ^= 1;
            }
            Member::Has(Box::new(Sb {
                major: if v0 { 0 } else { 1 },
                minor: if v0 { 90 } else { r.below(3) as u32 },
                big_endian: r.chance(1, 2),
                index: *i,
                roles,
                raid_disks: n as u32,
                ..Sb::default()
            }))
        })
        .collect();
    r.shuffle(&mut members);
    members
}

/// Members that may disagree on anything.
pub fn attributes(r: &mut Rng) -> Vec<Member> {
    let n = r.range(0, 7);
    let diff = r.below(4); // how much they disagree
    (0..n)
        .map(|k| {
            if r.chance(1, 9) {
                return if r.chance(1, 2) { Member::Small } else { Member::Missing };
            }
            let v0 = r.chance(1, 4);
            let mut sb = Sb {
                major: if v0 { 0 } else { 1 },
                minor: if v0 { *r.pick(&[89, 90, 90, 91]) } else { r.below(3) as u32 },
                big_endian: r.chance(1, 2),
                index: k as u32,
                ..Sb::default()
            };
            if v0 {
                // The same in its own units
                sb.size /= 2;
                sb.chunk *= 512;
            }
            for _ in 0..diff {
                let big = r.chance(1, 3);
                match r.below(13) {
                    0 => sb.uuid[r.below(16) as usize] ^= 1 << r.below(8),
                    1 => {
                        let at = r.below(32) as usize;
                        sb.name[at] = r.byte()
                    }
                    2 => sb.level = *r.pick(&[5, 6, 6, 4, 0x10006, 0xffff_ffff]),
                    3 => sb.layout = *r.pick(&[0, 1, 2, 3, 16, 18, 77, 0x10002]),
                    4 if r.chance(1, 8) => sb.size = 0,
                    5 if r.chance(1, 8) => sb.chunk = 0,
                    6 if r.chance(1, 8) => sb.raid_disks = 0,
                    9 if r.chance(1, 6) => sb.events = *r.pick(&[0, 0, u64::MAX]),
                    4 => sb.size = if big { sb.size ^ (1 << r.below(if v0 { 32 } else { 64 })) } else { sb.size + 1 },
                    5 => sb.chunk = if big { sb.chunk ^ (1 << r.below(32)) } else { sb.chunk * 2 },
                    6 => sb.raid_disks = if big { sb.raid_disks ^ (1 << r.below(32)) } else { 5 },
                    7 => {
                        sb.features |= 4;
                        if v0 {
                            sb.minor = 91
                        }
                    }
                    8 => match r.below(6) {
                        0 => sb.reshape.0 ^= 1 << r.below(32),
                        1 => sb.reshape.1 ^= 1 << r.below(64),
                        2 => sb.reshape.2 ^= 1 << r.below(32),
                        3 => sb.reshape.3 ^= 1 << r.below(32),
                        4 => sb.reshape.4 ^= 1 << r.below(32),
                        _ => sb.reshape.5 ^= 1 << r.below(32),
                    },
                    9 => sb.events = if big { sb.events ^ (1 << r.below(64)) } else { sb.events + 1 },
                    10 => sb.index = r.below(n + 1) as u32,
                    11 => {
                        let at = r.below(4) as usize;
                        sb.roles[at] = *r.pick(&[0, 1, 2, 3, 0xffff, 0xfffe, 0xfffd])
                    }
                    _ => sb.data_offset += 8,
                }
            }
            Member::Has(Box::new(sb))
        })
        .collect()
}

/// A member as a scenario of the specification describes it.
pub fn from_scenario(m: &Value) -> Member {
    match m["k"].as_str().unwrap() {
        "small" => Member::Small,
        "missing" => Member::Missing,
        _ if m["sb"].is_object() => Member::Has(Box::new(Sb::from_json(&m["sb"]))),
        _ => Member::Has(Box::new(Sb {
            index: m["index"].as_u64().unwrap() as u32,
            roles: m["roles"].as_array().unwrap().iter().map(|r| r.as_u64().unwrap() as u32).collect(),
            ..Sb::default()
        })),
    }
}
