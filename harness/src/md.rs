//! md superblocks for tests, and projections of what the code reports.
use crate::dev::VDev;
use crate::util::*;
use md_recover::verif::md::superblock::{ArrayUuid, ReshapeStatus, Superblock};
use md_recover::verif::md::{MdAlgorithm, MdDevice, MdDeviceSuperblock};
use serde_json::{json, Value};

pub const MAGIC: u32 = 0xa92b4efc;

/// The fields of a superblock, in its version's own units.
#[derive(Clone, Debug)]
pub struct Sb {
    /// 0: version 0, 1: version 1
    pub major: u32,
    /// Version 0 only: the recorded minor version and the byte order.
    pub minor: u32,
    pub big_endian: bool,
    pub uuid: [u8; 16],
    pub name: [u8; 32],
    pub level: u32,
    pub layout: u32,
    pub size: u64,
    pub chunk: u32,
    pub raid_disks: u32,
    pub features: u32,
    pub reshape: (u32, u64, u32, u32, u32, u32), // level, position, delta, layout, chunk, offset
    pub data_offset: u64,
    pub index: u32,
    pub events: u64,
    pub roles: Vec<u32>,
}

impl Default for Sb {
    fn default() -> Self {
        Self {
            major: 1,
            minor: 2,
            big_endian: false,
            uuid: [7; 16],
            name: *b"host:array\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0",
            level: 6,
            layout: 2,
            size: 16,
            chunk: 1,
            raid_disks: 4,
            features: 0,
            reshape: (0, 0, 0, 0, 0, 0),
            data_offset: 32,
            index: 0,
            events: 1,
            roles: vec![0, 1, 2, 3],
        }
    }
}

impl Sb {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0u8; 4096];
        if self.major == 0 {
            let p = |b: &mut [u8], o: usize, v: u32| {
                put(b, o, &if self.big_endian { v.to_be_bytes() } else { v.to_le_bytes() })
            };
            let q = |b: &mut [u8], o: usize, v: u64| {
                put(b, o, &if self.big_endian { v.to_be_bytes() } else { v.to_le_bytes() })
            };
            p(&mut b, 0, MAGIC);
            p(&mut b, 8, self.minor);
            p(&mut b, 16, 1024);
            let word = |i: usize| u32::from_le_bytes(self.uuid[i * 4..i * 4 + 4].try_into().unwrap());
            p(&mut b, 20, word(0));
            p(&mut b, 52, word(1));
            p(&mut b, 56, word(2));
            p(&mut b, 60, word(3));
            p(&mut b, 28, self.level);
            p(&mut b, 32, self.size as u32);
            p(&mut b, 36, self.roles.len() as u32);
            p(&mut b, 40, self.raid_disks);
            q(&mut b, 156, self.events);
            q(&mut b, 176, self.reshape.1);
            p(&mut b, 184, self.reshape.0);
            p(&mut b, 188, self.reshape.2);
            p(&mut b, 192, self.reshape.3);
            p(&mut b, 196, self.reshape.4);
            p(&mut b, 256, self.layout);
            p(&mut b, 260, self.chunk);
            for (i, role) in self.roles.iter().enumerate() {
                p(&mut b, 512 + i * 128, i as u32);
                p(&mut b, 512 + i * 128 + 12, *role);
            }
            p(&mut b, 3968, self.index);
        } else {
            put32(&mut b, 0, MAGIC);
            put32(&mut b, 4, 1);
            put32(&mut b, 8, self.features);
            put(&mut b, 16, &self.uuid);
            put(&mut b, 32, &self.name);
            put32(&mut b, 72, self.level);
            put32(&mut b, 76, self.layout);
            put64(&mut b, 80, self.size);
            put32(&mut b, 88, self.chunk);
            put32(&mut b, 92, self.raid_disks);
            put32(&mut b, 100, self.reshape.0);
            put64(&mut b, 104, self.reshape.1);
            put32(&mut b, 112, self.reshape.2);
            put32(&mut b, 116, self.reshape.3);
            put32(&mut b, 120, self.reshape.4);
            put32(&mut b, 124, self.reshape.5);
            put64(&mut b, 128, self.data_offset);
            put32(&mut b, 160, self.index);
            put64(&mut b, 200, self.events);
            put32(&mut b, 220, self.roles.len() as u32);
            for (i, role) in self.roles.iter().enumerate() {
                put16(&mut b, 256 + 2 * i, *role as u16);
            }
        }
        b
    }

    /// Where this version stores its superblock on a device of this size.
    /// `minor` selects among the version 1 places.
    pub fn place(&self, size: u64) -> u64 {
        match (self.major, self.minor) {
            (0, _) => (size & !65535) - 65536,
            (_, 2) => 4096,
            (_, 1) => 0,
            _ => (((size >> 9) - 16) & !7) << 9,
        }
    }

    /// As a scenario of the specification describes it.
    pub fn from_json(v: &Value) -> Self {
        let n = |v: &Value| unw(v);
        let n32 = |v: &Value| unw(v) as u32;
        let bytes = |v: &Value| v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect::<Vec<u8>>();
        let r = &v["reshape"];
        Self {
            major: v["major"].as_u64().unwrap() as u32,
            minor: n32(&v["minor"]),
            big_endian: v["big"].as_bool().unwrap(),
            uuid: bytes(&v["uuid"]).try_into().unwrap(),
            name: bytes(&v["name"]).try_into().unwrap(),
            level: n32(&v["level"]),
            layout: n32(&v["layout"]),
            size: n(&v["size"]),
            chunk: n32(&v["chunk"]),
            raid_disks: n32(&v["disks"]),
            features: if v["reshaping"].as_bool().unwrap() { 4 } else { 0 },
            reshape: (n32(&r[0]), n(&r[1]), n32(&r[2]), n32(&r[3]), n32(&r[4]), n32(&r[5])),
            data_offset: n(&v["offset"]),
            index: n32(&v["index"]),
            events: n(&v["events"]),
            roles: v["roles"].as_array().unwrap().iter().map(n32).collect(),
        }
    }

    pub fn to_json(&self) -> Value {
        json!({
            "major": self.major, "minor": w(self.minor.into()), "uuid": self.uuid,
            "name": self.name, "level": w(self.level.into()), "layout": w(self.layout.into()),
            "size": w(self.size), "chunk": w(self.chunk.into()), "disks": w(self.raid_disks.into()),
            "reshaping": self.major == 0 && self.minor > 90 || self.major == 1 && self.features & 4 != 0,
            "reshape": [w(self.reshape.0.into()), w(self.reshape.1), w(self.reshape.2.into()),
                        w(self.reshape.3.into()), w(self.reshape.4.into()), w(self.reshape.5.into())],
            "offset": w(self.data_offset), "index": w(self.index.into()), "events": w(self.events),
            "roles": self.roles.iter().map(|r| w(u64::from(*r))).collect::<Vec<_>>(),
        })
    }
}

/// [level, layout] as recorded on disk.
pub fn algorithm(a: &MdAlgorithm) -> Value {
    if let MdAlgorithm::Unsupported { level, layout } = a {
        return json!([w((*level).into()), w((*layout).into())]);
    }
    for level in [5u32, 6] {
        for layout in 0..64u32 {
            if *a == MdAlgorithm::from_level_and_layout(level, layout) {
                return json!([w(level.into()), w(layout.into())]);
            }
        }
    }
    json!("?")
}

pub fn uuid(u: &ArrayUuid) -> Value {
    match u {
        ArrayUuid::Short(b) => json!(b),
        ArrayUuid::Long(b) => json!(b),
    }
}

/// Uniform shape for "no reshape" and "reshaping".
pub fn reshape(r: &Option<ReshapeStatus>) -> Value {
    match r {
        None => json!([]),
        Some(r) => json!([
            algorithm(&r.new_algorithm),
            w(r.reshape_position.0),
            w(u32::from(r.delta_devices).into()),
            w(r.new_chunk_size.0.into()),
            w(r.new_offset.into())
        ]),
    }
}

pub fn superblock(s: &dyn Superblock) -> Value {
    use std::os::unix::ffi::OsStrExt;
    json!({
        "major": s.major_version(),
        "minor": w(s.minor_version().into()),
        "uuid": uuid(&s.array_uuid()),
        "name": s.array_name().map(|n| n.as_bytes().to_vec()).unwrap_or_default(),
        "named": s.array_name().is_some(),
        "algorithm": algorithm(&s.algorithm()),
        "size": w(s.sectors_per_device().0),
        "chunk": w(s.chunk_size().0.into()),
        "disks": w(u32::from(s.raid_device_count()).into()),
        "reshape": reshape(&s.reshape_status()),
        "offset": w(s.data_offset().0),
        "index": w(s.device_role_index() as u64),
        "events": w(s.event_count().0),
        "roles": s.device_roles().iter().map(|r| json!({
            "n": r.device_number().map(|n| w(u32::from(n).into())).unwrap_or(json!([])),
            "k": if r.device_number().is_some() { "number" }
                 else if r.is_spare() { "spare" } else if r.is_faulty() { "faulty" }
                 else if r.is_journal() { "journal" } else if r.is_invalid() { "invalid" } else { "other" },
        })).collect::<Vec<_>>(),
    })
}

/// What opening the device found.
pub fn found(d: &MdDevice<VDev>) -> Value {
    match d.superblock.as_ref() {
        MdDeviceSuperblock::TooSmall => json!({"k": "small"}),
        MdDeviceSuperblock::Missing => json!({"k": "missing"}),
        MdDeviceSuperblock::Superblock(s) => json!({"k": "sb", "sb": superblock(s.as_ref())}),
    }
}
