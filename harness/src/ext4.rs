//! Images with ext4 structures, and histories of operations on them.
use crate::dev::{pattern, unit_of, VDev};
use crate::util::*;
use md_recover::verif::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
use md_recover::verif::ext4::{Ext4Directory, Ext4File, Ext4Fs, Ext4RegularFile};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{SystemTime, UNIX_EPOCH};

// ------------------------------------------------------------------ images

/// Contents of a device, by units of 1 KiB (see Ext4Image.tla).
#[derive(Clone, Default)]
pub struct Image {
    pub size: u64,
    pub high: u64,
    pub units: BTreeMap<u64, Vec<u8>>,
    pub pat: Vec<(u64, u64)>,
    pub bad: Vec<(u64, u64)>,
}

impl Image {
    pub fn unit_of(&self, pos: u64) -> u64 {
        unit_of(self.high, pos)
    }
    pub fn write(&mut self, pos: u64, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let at = pos + i as u64;
            let o = (at % 1024) as usize;
            let n = (1024 - o).min(b.len() - i);
            let u = self.unit_of(at);
            self.units.entry(u).or_insert_with(|| vec![0; 1024])[o..o + n].copy_from_slice(&b[i..i + n]);
            i += n;
        }
    }
    pub fn read(&self, pos: u64, n: usize) -> Vec<u8> {
        (0..n as u64)
            .map(|k| {
                let at = pos + k;
                let u = self.unit_of(at);
                self.units.get(&u).map_or(0, |x| x[(at % 1024) as usize])
            })
            .collect()
    }
    pub fn flip(&mut self, pos: u64, mask: u8) {
        let b = self.read(pos, 1)[0] ^ mask;
        self.write(pos, &[b]);
    }
    pub fn device(&self, block_size: u32) -> VDev {
        let d = VDev::new(self.size, block_size);
        for (u, b) in &self.units {
            let pos = if *u >= crate::dev::HIGH { (*u - crate::dev::HIGH) * 1024 + self.high } else { *u * 1024 };
            d.write(pos, b);
        }
        let mut sh = d.sh.borrow_mut();
        sh.pat = self.pat.clone();
        sh.high = self.high;
        sh.bad = self
            .bad
            .iter()
            .map(|(a, b)| {
                let at = |u: u64| if u >= crate::dev::HIGH { (u - crate::dev::HIGH) * 1024 + self.high } else { u * 1024 };
                (at(*a), at(*b - 1) + 1024)
            })
            .collect();
        drop(sh);
        d
    }
    pub fn from_json(v: &Value) -> Image {
        let ranges = |v: &Value| {
            v.as_array()
                .unwrap()
                .iter()
                .map(|r| (r[0].as_u64().unwrap(), r[1].as_u64().unwrap()))
                .collect()
        };
        let mut img = Image {
            size: unw(&v["size"]),
            pat: ranges(&v["pat"]),
            bad: ranges(&v["bad"]),
            ..Default::default()
        };
        if v["high"].as_array().unwrap().len() <= 8 {
            img.high = unw(&v["high"]);
        }
        if let Some(u) = v["u"].as_object() {
            for (n, segs) in u {
                let b = img.units.entry(n.parse().unwrap()).or_insert_with(|| vec![0; 1024]);
                for s in segs.as_array().unwrap() {
                    let at = s["o"].as_u64().unwrap() as usize;
                    for (k, x) in s["b"].as_array().unwrap().iter().enumerate() {
                        b[at + k] = x.as_u64().unwrap() as u8;
                    }
                }
            }
        }
        img
    }
    pub fn json(&self) -> Value {
        let mut u = serde_json::Map::new();
        for (n, b) in &self.units {
            let segs = segments(b);
            if !segs.is_empty() {
                u.insert(n.to_string(), json!(segs));
            }
        }
        let high = if self.high > 0 { w(self.high) } else { json!([0, 0, 0, 0, 0, 0, 0, 0, 1]) };
        json!({"size": w(self.size), "high": high, "u": u, "pat": self.pat, "bad": self.bad})
    }
}

/// The parts of a unit which are not zeros.
fn segments(b: &[u8]) -> Vec<Value> {
    let mut res = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0 {
            i += 1;
            continue;
        }
        let start = i;
        let mut end = i + 1;
        let mut k = i + 1;
        while k < b.len() && k < end + 12 {
            if b[k] != 0 {
                end = k + 1;
            }
            k += 1;
        }
        res.push(json!({"o": start, "b": b[start..end]}));
        i = end;
    }
    res
}

// --------------------------------------------------------------- structures

pub fn crc32c(seed: u32, b: &[u8]) -> u32 {
    let mut c = seed;
    for x in b {
        c ^= u32::from(*x);
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
        }
    }
    c
}

pub const F_FILETYPE: u32 = 2;
pub const F_EXTENTS: u32 = 0x40;
pub const F_64BIT: u32 = 0x80;
pub const F_FLEX: u32 = 0x200;
pub const F_CSUM_SEED: u32 = 0x2000;
pub const RO_CSUM: u32 = 0x400;
pub const RO_BIGALLOC: u32 = 0x200;

#[derive(Clone)]
pub struct Geo {
    pub log_bs: u32,
    pub inode_size: u16,
    pub ipg: u32,
    pub bpg: u32,
    pub blocks: u64,
    pub inodes: u32,
    pub first_data: u32,
    pub desc_size: u16,
    pub incompat: u32,
    pub ro_compat: u32,
    pub uuid: [u8; 16],
    pub seed: u32,
    /// First block of each group's inode table.
    pub tables: Vec<u64>,
}

impl Geo {
    pub fn bs(&self) -> u64 {
        1024 << self.log_bs
    }
    pub fn is64(&self) -> bool {
        self.incompat & F_64BIT != 0
    }
    pub fn csum(&self) -> bool {
        self.ro_compat & RO_CSUM != 0
    }
    pub fn desc_table(&self) -> u64 {
        (u64::from(self.first_data) + 1) * self.bs()
    }
    pub fn fs_seed(&self) -> u32 {
        if self.incompat & F_CSUM_SEED != 0 {
            self.seed
        } else {
            crc32c(!0, &self.uuid)
        }
    }
    pub fn inode_seed(&self, n: u32, gen: u32) -> Option<u32> {
        self.csum()
            .then(|| crc32c(crc32c(self.fs_seed(), &n.to_le_bytes()), &gen.to_le_bytes()))
    }
    pub fn inode_pos(&self, n: u32) -> u64 {
        let g = ((n - 1) / self.ipg) as usize;
        self.tables[g] * self.bs() + u64::from((n - 1) % self.ipg) * u64::from(self.inode_size)
    }
    /// The superblock, without its checksum.
    pub fn superblock(&self) -> Vec<u8> {
        let mut b = vec![0u8; 1024];
        put32(&mut b, 0, self.inodes);
        put32(&mut b, 4, self.blocks as u32);
        put32(&mut b, 336, (self.blocks >> 32) as u32);
        put32(&mut b, 20, self.first_data);
        put32(&mut b, 24, self.log_bs);
        put32(&mut b, 28, self.log_bs);
        put32(&mut b, 32, self.bpg);
        put32(&mut b, 36, self.bpg);
        put32(&mut b, 40, self.ipg);
        put16(&mut b, 54, 0xffff);
        put16(&mut b, 56, 0xef53);
        put16(&mut b, 58, 1);
        put16(&mut b, 60, 1);
        put32(&mut b, 76, 1);
        put32(&mut b, 84, 11);
        put16(&mut b, 88, self.inode_size);
        put32(&mut b, 92, 0x38);
        put32(&mut b, 96, self.incompat);
        put32(&mut b, 100, self.ro_compat);
        put(&mut b, 104, &self.uuid);
        put16(&mut b, 254, self.desc_size);
        if self.csum() {
            b[373] = 1;
        }
        put32(&mut b, 624, self.seed);
        b
    }
    pub fn desc(&self, g: usize) -> Vec<u8> {
        let mut d = vec![0u8; usize::from(if self.is64() { self.desc_size } else { 32 })];
        put32(&mut d, 8, self.tables[g] as u32);
        if d.len() >= 44 {
            put32(&mut d, 40, (self.tables[g] >> 32) as u32);
        }
        d
    }
    pub fn put_superblock(&self, img: &mut Image, mut b: Vec<u8>) {
        seal_superblock(&mut b);
        img.write(1024, &b);
    }
    pub fn put_descs(&self, img: &mut Image) {
        let mut at = self.desc_table();
        for g in 0..self.tables.len() {
            let d = self.desc(g);
            img.write(at, &d);
            at += d.len() as u64;
        }
    }
}

pub fn seal_superblock(b: &mut [u8]) {
    let c = crc32c(!0, &b[..1020]);
    put32(b, 1020, c);
}

/// An inode with its 60 bytes of block data.
#[derive(Clone)]
pub struct InodeSpec {
    pub mode: u16,
    pub size: u64,
    pub flags: u32,
    pub gen: u32,
    pub data: Vec<u8>,
}

pub const HAS_EXTENTS: u32 = 0x80000;
pub const HASH_INDEXED: u32 = 0x1000;
pub const INLINE_DATA: u32 = 0x1000_0000;

impl InodeSpec {
    pub fn bytes(&self, size: u16) -> Vec<u8> {
        let mut b = vec![0u8; usize::from(size)];
        put16(&mut b, 0, self.mode);
        put32(&mut b, 4, self.size as u32);
        put32(&mut b, 108, (self.size >> 32) as u32);
        put16(&mut b, 26, 1);
        put32(&mut b, 32, self.flags);
        put32(&mut b, 100, self.gen);
        put(&mut b, 40, &self.data);
        if size >= 160 {
            put16(&mut b, 128, 32);
        }
        b
    }
}

pub fn header(entries: u16, max: u16, depth: u16, gen: u32) -> Vec<u8> {
    let mut b = vec![0u8; 12];
    put16(&mut b, 0, 0xf30a);
    put16(&mut b, 2, entries);
    put16(&mut b, 4, max);
    put16(&mut b, 6, depth);
    put32(&mut b, 8, gen);
    b
}
pub fn extent(first: u32, raw_len: u16, start: u64) -> Vec<u8> {
    let mut b = vec![0u8; 12];
    put32(&mut b, 0, first);
    put16(&mut b, 4, raw_len);
    put16(&mut b, 6, (start >> 32) as u16);
    put32(&mut b, 8, start as u32);
    b
}
pub fn index(first: u32, leaf: u64) -> Vec<u8> {
    let mut b = vec![0u8; 12];
    put32(&mut b, 0, first);
    put32(&mut b, 4, leaf as u32);
    put16(&mut b, 8, (leaf >> 32) as u16);
    b
}
/// Seals a tree block: its checksum lies after the room for entries.
pub fn seal_tree(b: &mut [u8], seed: u32) {
    let max = usize::from(u16::from_le_bytes([b[4], b[5]]));
    let end = 12 + 12 * max;
    if end + 4 <= b.len() {
        let c = crc32c(seed, &b[..end]);
        put32(b, end, c);
    }
}
pub fn dirent(ino: u32, rec: u16, ty: u8, name: &[u8]) -> Vec<u8> {
    let mut b = vec![0u8; usize::from(rec).max(8 + name.len())];
    put32(&mut b, 0, ino);
    put16(&mut b, 4, rec);
    b[6] = name.len() as u8;
    b[7] = ty;
    put(&mut b, 8, name);
    b
}
pub fn seal_dir(b: &mut [u8], seed: u32) {
    let o = b.len() - 12;
    let mut t = dirent(0, 12, 0xde, &[]);
    let c = crc32c(seed, &b[..o]);
    put32(&mut t, 8, c);
    put(b, o, &t);
}

// --------------------------------------------------------------- operations

#[derive(Clone, Debug)]
pub enum Op {
    Open,
    Stat(u32),
    File(u32),
    Read(usize, usize),
    Next(usize),
    /// Many reads, with a summary as outcome.
    Skim(usize, usize, usize),
    /// Clones a filesystem.
    Clone(usize),
    /// Opens the filesystem on the device again.
    Again,
    /// Like Stat and File, on the given clone.
    StatOn(usize, u32),
    FileOn(usize, u32),
    /// Reads or lists to the end, past errors, for at most so many steps.
    Drain(usize, usize),
    /// Changes which reads of the device fail from now on.
    Fault(Fault),
}

#[derive(Clone, Debug, Default)]
pub struct Fault {
    /// Ranges of units which cannot be read
    pub bad: Vec<(u64, u64)>,
    /// The device ends here
    pub cut: Option<u64>,
    /// The read calls which fail, counted from now
    pub fail: Vec<u64>,
    /// The other calls which fail: seeks, clones, questions for the size
    pub others: Vec<u64>,
    /// Return fewer bytes than asked for
    pub short: usize,
    pub interrupts: bool,
    /// On which member of an array, and bytes that change there for good
    pub member: usize,
    pub flip: Vec<(u64, u8)>,
}

impl Fault {
    pub fn from_json(o: &Value) -> Fault {
        let pair = |r: &Value| (r[0].as_u64().unwrap(), r[1].as_u64().unwrap());
        Fault {
            bad: o["bad"].as_array().unwrap().iter().map(pair).collect(),
            cut: o["cut"].as_array().unwrap().first().map(unw),
            fail: o["fail"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
            others: o["others"].as_array().map_or(vec![], |v| v.iter().map(|x| x.as_u64().unwrap()).collect()),
            short: o["short"].as_u64().unwrap_or(0) as usize,
            interrupts: o["interrupts"].as_bool().unwrap_or(false),
            ..Fault::default()
        }
    }
    pub fn json(&self) -> Value {
        let cut: Vec<Value> = self.cut.iter().map(|c| w(*c)).collect();
        json!({"op": "fault", "bad": self.bad, "cut": cut, "fail": self.fail, "others": self.others, "short": self.short,
               "interrupts": self.interrupts, "member": self.member,
               "flip": self.flip.iter().map(|f| json!([w(f.0), f.1])).collect::<Vec<_>>()})
    }
    /// Whether nothing fails any more
    pub fn none(&self) -> bool {
        self.bad.is_empty() && self.cut.is_none() && self.fail.is_empty() && self.others.is_empty()
    }
    pub fn apply(&self, dev: &VDev, size: u64) {
        let mut sh = dev.sh.borrow_mut();
        sh.bad = self.bad.iter().map(|(a, b)| (a * 1024, b * 1024)).collect();
        sh.size = self.cut.unwrap_or(size);
        sh.fail_calls = self.fail.iter().map(|k| sh.calls + k).collect();
        sh.fail_others = self.others.iter().map(|k| sh.others + k).collect();
        sh.short = self.short;
        sh.interrupts = self.interrupts;
        drop(sh);
        for (pos, mask) in &self.flip {
            let b = dev.contents(*pos, 1)[0];
            dev.write(*pos, &[b ^ mask]);
        }
    }
}

/// A device that records where reads of another fail or find its end.
pub struct Probe<D> {
    dev: D,
    hits: Rc<RefCell<Vec<u64>>>,
}
impl<D: Read + Seek> Probe<D> {
    fn hit(&mut self) {
        let pos = self.dev.stream_position().unwrap_or(u64::MAX);
        let mut hits = self.hits.borrow_mut();
        if hits.last() != Some(&pos) {
            hits.push(pos);
        }
    }
}
impl<D> Probe<D> {
    /// A failed call which reads nothing, unless it was asked for the
    /// impossible.
    fn other<T>(&self, res: io::Result<T>) -> io::Result<T> {
        if res.as_ref().is_err_and(|e| e.raw_os_error() == Some(5)) {
            self.hits.borrow_mut().push(u64::MAX);
        }
        res
    }
}
impl<D: BlockDevice + Read + Seek> BlockDevice for Probe<D> {
    fn block_size(&self) -> io::Result<BlockSize> {
        self.other(self.dev.block_size())
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        self.other(self.dev.block_count())
    }
    fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        let res = self.dev.read_block(n, buf);
        if res.is_err() {
            let bs = self.dev.block_size().map_or(0, |b| u64::from(u32::from(b)));
            self.hits.borrow_mut().push(u64::from(n).saturating_mul(bs));
        }
        res
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(Self { dev: self.other(self.dev.try_clone())?, hits: self.hits.clone() })
    }
}
impl<D: Read + Seek> Read for Probe<D> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let res = self.dev.read(buf);
        match &res {
            Err(e) if e.kind() != io::ErrorKind::Interrupted => self.hit(),
            Ok(0) if !buf.is_empty() => self.hit(),
            _ => {}
        }
        res
    }
}
impl<D: Seek> Seek for Probe<D> {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let res = self.dev.seek(pos);
        self.other(res)
    }
}

/// Runs operations while reads of the device fail; each outcome tells where
/// reads failed.
pub fn run_faulty<D: BlockDevice + Read + Seek>(dev: D, ops: &[Op], mut fault: impl FnMut(&Fault)) -> Value {
    let hits = Rc::new(RefCell::new(vec![]));
    let mut s = Session::new(Probe { dev, hits: hits.clone() });
    let mut res = vec![];
    for op in ops {
        hits.borrow_mut().clear();
        let mut v = match op {
            Op::Fault(f) => {
                fault(f);
                ok(json!([]))
            }
            _ => guard(|| s.apply(op)),
        };
        v["hits"] = hits.borrow().iter().map(|h| w(*h)).collect::<Vec<_>>().into();
        res.push(v);
    }
    ok(json!(res))
}


impl Op {
    pub fn from_json(o: &Value) -> Op {
        let n = || match &o["n"] {
            Value::Array(_) => unw(&o["n"]),
            v => v.as_u64().unwrap(),
        };
        let h = || o["h"].as_u64().unwrap() as usize - 1;
        match o["op"].as_str().unwrap() {
            "open" => Op::Open,
            "stat" => match o["f"].as_u64() {
                None => Op::Stat(n() as u32),
                Some(f) => Op::StatOn(f as usize - 1, n() as u32),
            },
            "file" => match o["f"].as_u64() {
                None => Op::File(n() as u32),
                Some(f) => Op::FileOn(f as usize - 1, n() as u32),
            },
            "read" => Op::Read(h(), n() as usize),
            "next" => Op::Next(h()),
            "skim" => Op::Skim(h(), n() as usize, o["k"].as_u64().unwrap() as usize),
            "clone" => Op::Clone(o["f"].as_u64().unwrap() as usize - 1),
            "again" => Op::Again,
            "drain" => Op::Drain(h(), n() as usize),
            "fault" => Op::Fault(Fault::from_json(o)),
            _ => panic!(),
        }
    }
    pub fn json(&self) -> Value {
        match self {
            Op::Open => json!({"op": "open"}),
            Op::Stat(n) => json!({"op": "stat", "n": w((*n).into())}),
            Op::File(n) => json!({"op": "file", "n": w((*n).into())}),
            Op::Clone(f) => json!({"op": "clone", "f": f + 1}),
            Op::Again => json!({"op": "again"}),
            Op::StatOn(f, n) => json!({"op": "stat", "f": f + 1, "n": w((*n).into())}),
            Op::FileOn(f, n) => json!({"op": "file", "f": f + 1, "n": w((*n).into())}),
            Op::Read(h, n) => json!({"op": "read", "h": h + 1, "n": n}),
            Op::Next(h) => json!({"op": "next", "h": h + 1}),
            Op::Skim(h, n, k) => json!({"op": "skim", "h": h + 1, "n": n, "k": k}),
            Op::Drain(h, n) => json!({"op": "drain", "h": h + 1, "n": n}),
            Op::Fault(f) => f.json(),
        }
    }
}
pub fn ops_json(ops: &[Op]) -> Value {
    json!(ops.iter().map(Op::json).collect::<Vec<_>>())
}

enum Handle<D: BlockDevice + Read + Seek> {
    File(Ext4RegularFile<D>),
    Dir(Ext4Directory<D>),
    None,
}

fn secs(t: SystemTime) -> Value {
    w(t.duration_since(UNIX_EPOCH).unwrap().as_secs())
}
/// No time is [], which is also the Wide 0: the epoch itself is told apart.
fn time_opt(t: Option<SystemTime>) -> Value {
    match t {
        Some(UNIX_EPOCH) => json!([0]),
        t => t.map_or(json!([]), secs),
    }
}

/// Whether outcomes say what flags and numbers are called (see Meanings.tla).
pub static MEANINGS: AtomicBool = AtomicBool::new(false);

fn flags<F: bitflags::Flags>(t: &str, f: F) -> Value
where
    F::Bits: Into<u64>,
{
    let (set, unset): (Vec<_>, Vec<_>) = F::FLAGS.iter().partition(|x| f.bits() & x.value().bits() == x.value().bits());
    let names = |l: Vec<&bitflags::Flag<F>>| l.into_iter().map(|x| x.name()).collect::<Vec<_>>();
    json!({"k": "flags", "t": t, "v": w(f.bits().into()), "set": names(set), "unset": names(unset)})
}
fn number(t: &str, v: u64, text: &dyn Debug) -> Value {
    let text = format!("{text:?}");
    let end = text.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(text.len());
    json!({"k": "number", "t": t, "v": w(v), "text": text[..end]})
}
fn with_meanings(mut o: Value, means: impl FnOnce() -> Value) -> Value {
    if MEANINGS.load(Ordering::Relaxed) {
        o["means"] = means();
    }
    o
}
fn open_meanings<D: BlockDevice + Read + Seek>(fs: &Ext4Fs<D>) -> Value {
    let s = fs.verif_superblock();
    let mut all = vec![
        flags("state", s.state()),
        flags("flags", s.flags()),
        flags("mount", s.default_mount_options()),
        flags("compat", s.compatible_features()),
        flags("incompat", s.incompatible_features()),
        flags("ro_compat", s.read_only_compatible_features()),
        number("errors", u16::from(s.error_policy()).into(), &s.error_policy()),
        number("os", u32::from(s.creator_os()).into(), &s.creator_os()),
        number("hash", u8::from(s.default_hash_version()).into(), &s.default_hash_version()),
    ];
    all.extend(s.encryption_algorithms().into_iter().map(|a| number("encryption", u8::from(a).into(), &a)));
    all.extend(fs.verif_group_descriptors().iter().take(4).map(|d| flags("group", d.flags())));
    json!(all)
}

/// `b` as chunks (see Ext4Image.tla).
pub fn chunks(b: &[u8]) -> Vec<Value> {
    let mut res: Vec<(char, u64, usize, Vec<u8>)> = vec![];
    for part in b.chunks(1024) {
        let unit = match part {
            [a, b, c, d, 0, 0, 0, 0, ..] => Some(u64::from(u32::from_le_bytes([*a, *b, *c, *d])))
                .filter(|u| part.iter().enumerate().all(|(k, x)| *x == pattern(*u, k))),
            _ => None,
        };
        let zero = part.iter().all(|x| *x == 0);
        match (unit, res.last_mut()) {
            (Some(u), Some(l)) if l.0 == 'p' && !zero && l.1 + (l.2 as u64) / 1024 == u => l.2 += part.len(),
            (_, Some(l)) if zero && l.0 == 'z' => l.2 += part.len(),
            (Some(u), _) if !zero => res.push(('p', u, part.len(), vec![])),
            _ if zero => res.push(('z', 0, part.len(), vec![])),
            _ => res.push(('r', 0, part.len(), part.to_vec())),
        }
    }
    res.into_iter()
        .map(|(k, n, m, b)| match k {
            'p' => json!({"k": "p", "n": n, "m": m}),
            'z' => json!({"k": "z", "m": m}),
            _ => json!({"k": "r", "b": b, "m": m}),
        })
        .collect()
}

pub fn superblock_json<D: BlockDevice + Read + Seek>(fs: &Ext4Fs<D>) -> Value {
    let s = fs.verif_superblock();
    macro_rules! n {
        ($e:expr) => {
            w(u64::from($e))
        };
    }
    let n32 = |v: u32| w(v.into());
    let n16 = |v: u16| w(v.into());
    let n8 = |v: u8| w(v.into());
    fn name<S: AsRef<[u8]>>(s: Option<S>) -> Value {
        // No name is []; an empty one, which there should not be, is [0]
        s.map_or(json!([]), |s| if s.as_ref().is_empty() { json!([0]) } else { json!(s.as_ref()) })
    }
    let mut m = serde_json::Map::new();
    let mut p = |k: &str, v: Value| {
        m.insert(k.into(), v);
    };
    p("inodes", n!(u32::from(s.inodes_count())));
    p("blocks", n!(s.blocks_count()));
    p("reserved", n!(s.reserved_blocks_count()));
    p("free", n!(s.free_blocks_count()));
    p("free_inodes", n!(u32::from(s.free_inodes_count())));
    p("first_data", n!(s.first_data_block()));
    p("block_size", w(s.block_size_bytes()));
    p("cluster_size", w(s.cluster_size_blocks()));
    p("bpg", n32(s.blocks_per_group()));
    p("cpg", n32(s.clusters_per_group()));
    p("ipg", n!(u32::from(s.inodes_per_group())));
    p("mount_time", time_opt(s.mount_time()));
    p("write_time", secs(s.write_time()));
    p("mounts", n16(s.mount_count()));
    p("max_mounts", n16(s.max_mount_count()));
    p("magic", n16(s.magic()));
    p("state", n16(s.state().bits()));
    p("errors", n!(u16::from(s.error_policy())));
    p("minor", n16(s.minor_revision_level()));
    p("last_check", secs(s.last_check_time()));
    p("interval", s.check_interval().map_or(json!([]), |d| w(d.as_secs())));
    p("os", n!(u32::from(s.creator_os())));
    p("revision", n32(s.revision_level()));
    p("res_uid", n16(s.default_reserved_user_id()));
    p("res_gid", n16(s.default_reserved_group_id()));
    p("first_inode", n32(s.first_inode()));
    p("inode_size", n16(s.inode_size()));
    p("group_nr", n16(s.block_group_number()));
    p("compat", n32(s.compatible_features().bits()));
    p("incompat", n32(s.incompatible_features().bits()));
    p("ro_compat", n32(s.read_only_compatible_features().bits()));
    p("uuid", json!(s.uuid().as_bytes()));
    p("volume", name(s.volume_name().as_ref().map(|n| -> &[u8] { n.into() })));
    p("mounted", name(s.last_mounted_path().as_ref().map(|n| -> &[u8] { n.into() })));
    p("algo", n32(s.algorithm_usage_bitmap()));
    p("prealloc", n8(s.preallocate_blocks()));
    p("prealloc_dir", n8(s.preallocate_directory_blocks()));
    p("reserved_gdt", n16(s.reserved_gdt_blocks()));
    p("journal_uuid", json!(s.journal_uuid().as_bytes()));
    p("journal_inode", n32(s.journal_inode_number()));
    p("journal_dev", n32(s.journal_device_number()));
    p("orphan", n32(s.last_orphan()));
    p("hash_seed", json!(s.hash_seed().as_slice()));
    p("hash_version", n!(u8::from(s.default_hash_version())));
    p("journal_backup", n8(s.journal_backup_type()));
    p("desc_size", n16(s.group_descriptor_size()));
    p("mount_flags", n32(s.default_mount_options().bits()));
    p("first_meta", n32(s.first_meta_block_group()));
    p("created", time_opt(s.creation_time()));
    p("journal_blocks", json!(s.journal_blocks().as_slice()));
    p("min_extra", n16(s.minimum_extra_inode_size()));
    p("want_extra", n16(s.wanted_extra_inode_size()));
    p("flags", n32(s.flags().bits()));
    p("stride", n16(s.raid_stride()));
    p("mmp_interval", n16(s.multi_mount_prevention_interval()));
    p("mmp_block", w(s.multi_mount_prevention_block()));
    p("stripe", n32(s.raid_stripe_width()));
    p("per_flex", w(s.groups_per_flex()));
    p("kbytes", w(s.kbytes_written()));
    p("snap_inode", n32(s.snapshot_inode_number()));
    p("snap_id", n32(s.snapshot_id()));
    p("snap_reserved", w(s.snapshot_reserved_blocks_count()));
    p("snap_list", n32(s.snapshot_list_inode_number()));
    p("error_count", n32(s.error_count()));
    p(
        "first_error",
        json!([
            time_opt(s.first_error_time()),
            n32(s.first_error_inode()),
            w(s.first_error_block()),
            name(s.first_error_function_name().as_ref().map(|n| -> &[u8] { n.into() })),
            n32(s.first_error_line())
        ]),
    );
    p(
        "last_error",
        json!([
            time_opt(s.last_error_time()),
            n32(s.last_error_inode()),
            w(s.last_error_block()),
            name(s.last_error_function_name().as_ref().map(|n| -> &[u8] { n.into() })),
            n32(s.last_error_line())
        ]),
    );
    let options = s.mount_options();
    p("options", json!(<&[u8]>::from(&options)));
    p("usr_quota", n32(s.user_quota_inode_number()));
    p("grp_quota", n32(s.group_quota_inode_number()));
    p("overhead", n32(s.overhead_blocks()));
    p("backups", json!(s.superblock_backup_block_groups().map(|x| w(x.into()))));
    p(
        "encryption",
        json!(s.encryption_algorithms().into_iter().map(|a| a.into()).collect::<Vec<u8>>()),
    );
    p("salt", json!(s.encryption_password_salt().as_slice()));
    p("lost_found", n32(s.lost_and_found_inode_number()));
    p("prj_quota", n32(s.project_quota_inode_number()));
    p("seed", n32(s.checksum_seed()));
    p("encoding", n16(s.filename_character_encoding()));
    p("encoding_flags", n16(s.filename_character_encoding_flags()));
    p("orphan_file", n32(s.orphan_file_inode_number()));
    Value::Object(m)
}

pub fn descs_json<D: BlockDevice + Read + Seek>(fs: &Ext4Fs<D>, most: usize) -> Value {
    let all = fs.verif_group_descriptors();
    json!(all
        .iter()
        .enumerate()
        .filter(|(g, _)| *g < most || *g + 8 >= all.len())
        .map(|(g, d)| {
            let u = |v: u32| w(v.into());
            json!({
                "g": g, "block_bitmap": w(d.block_bitmap_block().into()),
                "inode_bitmap": w(d.inode_bitmap_block().into()),
                "inode_table": w(d.inode_table_block().into()),
                "free_blocks": u(d.free_block_count().into()),
                "free_inodes": u(d.free_inode_count()),
                "dirs": u(d.used_directories_count()),
                "flags": w(d.flags().bits().into()),
                "exclude": w(d.exclude_bitmap_block().into()),
                "block_csum": u(d.block_bitmap_checksum()),
                "inode_csum": u(d.inode_bitmap_checksum()),
                "unused": u(d.unused_inode_count()),
                "csum": w(d.checksum().into()),
            })
        })
        .collect::<Vec<_>>())
}

pub fn inode_json<D: BlockDevice + Read + Seek>(fs: &mut Ext4Fs<D>, n: u32) -> Value {
    let mut means = json!([]);
    let o = io_out(fs.verif_read_inode(n).map(|i| {
        means = json!([
            number("type", u8::from(i.file_type()).into(), &i.file_type()),
            flags("perm", i.permissions()),
            flags("inode", i.flags()),
        ]);
        macro_rules! time {
            ($t:expr) => {{
                let t = $t;
                json!([w((t.timestamp() + (1i64 << 31)) as u64), t.timestamp_subsec_nanos()])
            }};
        }
        json!({
            "type": u8::from(i.file_type()), "perm": i.permissions().bits(),
            "uid": w(i.owner_user_id().into()), "gid": w(i.group_id().into()),
            "size": w(i.file_size_bytes()), "links": i.links_count(),
            "blocks": w(i.block_count().into()), "flags": w(i.flags().bits().into()),
            "gen": w(i.generation().into()), "acl": w(i.file_acl()),
            "dtime": time!(i.delete_time()), "atime": time!(i.access_time()),
            "ctime": time!(i.change_time()), "mtime": time!(i.modified_time()),
            "crtime": time!(i.creation_time()), "ver": w(i.version()),
            "csum": w(i.checksum().into()), "project": w(i.project_id().into()),
        })
    }));
    with_meanings(o, || means)
}

/// A running filesystem and everything opened from it.
pub struct Session<D: BlockDevice + Read + Seek> {
    dev: Option<D>,
    spare: Option<D>,
    /// The filesystem and its clones
    fss: Vec<Ext4Fs<D>>,
    hs: Vec<Handle<D>>,
}

impl<D: BlockDevice + Read + Seek> Session<D> {
    pub fn new(dev: D) -> Self {
        Self { spare: dev.try_clone().ok(), dev: Some(dev), fss: vec![], hs: vec![] }
    }
    fn open(&mut self, dev: D) -> Value {
        match Ext4Fs::open(dev) {
            Ok(fs) => {
                let v = json!({
                    "sb": superblock_json(&fs),
                    "groups": fs.verif_group_descriptors().len(),
                    "descs": descs_json(&fs, 40),
                });
                let o = with_meanings(ok(v), || open_meanings(&fs));
                self.fss.push(fs);
                o
            }
            Err(e) => err(&e),
        }
    }
    pub fn apply(&mut self, op: &Op) -> Value {
        let none = || json!({"s": "none"});
        let bs = self.fss.first().map_or(0, |fs| fs.block_size());
        match op {
            Op::Open => {
                let dev = self.dev.take().unwrap();
                self.open(dev)
            }
            Op::Again => match self.spare.as_ref().map(|d| d.try_clone()) {
                Some(Ok(dev)) => self.open(dev),
                Some(Err(e)) => err(&e),
                None => none(),
            },
            Op::Fault(_) => none(),
            Op::Clone(f) => match self.fss.get(*f).map(|fs| fs.try_clone()) {
                None => none(),
                Some(Err(e)) => err(&e),
                Some(Ok(fs)) => {
                    self.fss.push(fs);
                    ok(json!([]))
                }
            },
            Op::Stat(n) => self.apply(&Op::StatOn(0, *n)),
            Op::File(n) => self.apply(&Op::FileOn(0, *n)),
            Op::StatOn(f, n) => match self.fss.get_mut(*f) {
                None => none(),
                Some(fs) => inode_json(fs, *n),
            },
            Op::FileOn(f, n) => {
                // A handle is kept even if this panics
                self.hs.push(Handle::None);
                match self.fss.get_mut(*f) {
                    None => none(),
                    Some(fs) => {
                        let (h, v) = match fs.open_file((*n).into()) {
                            Err(e) => (Handle::None, err(&e)),
                            Ok(Ext4File::RegularFile(f)) => {
                                let size = f.file_size_bytes();
                                (Handle::File(f), ok(json!({"t": "file", "size": w(size)})))
                            }
                            Ok(Ext4File::Directory(d)) => (Handle::Dir(d), ok(json!({"t": "dir"}))),
                            Ok(Ext4File::Unsupported(t)) => {
                                (Handle::None, ok(json!({"t": "other", "n": u8::from(t)})))
                            }
                        };
                        *self.hs.last_mut().unwrap() = h;
                        v
                    }
                }
            }
            Op::Read(h, len) => match &mut self.hs[*h] {
                Handle::File(f) => {
                    let mut buf = vec![0x5au8; *len];
                    match f.read_next_block(&mut buf) {
                        Err(e) => err(&e),
                        Ok(n) if n > *len => json!({"s": "overrun"}),
                        Ok(n) => ok(json!({
                            "n": n,
                            "tail": buf.iter().skip(bs).all(|x| *x == 0x5a),
                            "c": chunks(&buf[..n]),
                        })),
                    }
                }
                _ => none(),
            },
            Op::Skim(h, len, k) => match &mut self.hs[*h] {
                Handle::File(f) => {
                    let mut buf = vec![0x5au8; *len];
                    let mut runs: Vec<(Value, u64, u64)> = vec![];
                    for _ in 0..*k {
                        let (o, unit) = match f.read_next_block(&mut buf) {
                            Err(e) => (err(&e), 0),
                            Ok(n) if n > *len => (json!({"s": "overrun"}), 0),
                            Ok(n) => {
                                let mut c = chunks(&buf[..n]);
                                let mut unit = 0;
                                if c.len() == 1 && c[0]["k"] == "p" {
                                    unit = c[0]["n"].as_u64().unwrap();
                                    c[0]["n"] = json!(0);
                                }
                                let tail = buf.iter().skip(bs).all(|x| *x == 0x5a);
                                (ok(json!({"n": n, "tail": tail, "c": c})), unit)
                            }
                        };
                        let per = bs as u64 / 1024;
                        match runs.last_mut() {
                            Some(l) if l.0 == o && (unit == 0 || l.1 + l.2 * per == unit) => l.2 += 1,
                            _ => runs.push((o, unit, 1)),
                        }
                    }
                    ok(json!(runs.into_iter().map(|(o, u, n)| json!({"o": o, "u": u, "n": n})).collect::<Vec<_>>()))
                }
                _ => none(),
            },
            Op::Drain(h, most) => {
                let (mut items, mut bytes, mut errs, mut row) = (0u64, 0u64, 0u64, 0u64);
                let mut end = "cap";
                let mut buf = vec![0u8; bs];
                for _ in 0..*most {
                    let step = match &mut self.hs[*h] {
                        Handle::File(f) => f.read_next_block(&mut buf).map(|n| n as u64),
                        Handle::Dir(d) => d.read_next_entry().map(|e| u64::from(e.is_some())),
                        Handle::None => return none(),
                    };
                    match step {
                        Ok(0) => {
                            end = "end";
                            break;
                        }
                        Ok(n) => {
                            items += 1;
                            bytes += n;
                            row = 0;
                        }
                        Err(_) => {
                            errs += 1;
                            row += 1;
                            // Nobody would go on after so many in a row
                            if row == 100 {
                                end = "errors";
                                break;
                            }
                        }
                    }
                }
                ok(json!({"items": items, "bytes": w(bytes), "errs": errs, "end": end}))
            }
            Op::Next(h) => match &mut self.hs[*h] {
                Handle::Dir(d) => match d.read_next_entry() {
                    Err(e) => err(&e),
                    Ok(None) => ok(json!([])),
                    Ok(Some(e)) => {
                        let name = e.name();
                        let o = ok(json!([{
                            "ino": w(u32::from(e.inode()).into()),
                            "type": u8::from(e.file_type()),
                            "name": <&[u8]>::from(&name),
                        }]));
                        with_meanings(o, || json!([number("entry", u8::from(e.file_type()).into(), &e.file_type())]))
                    }
                },
                _ => none(),
            },
        }
    }
}

pub fn run_ops<D: BlockDevice + Read + Seek>(dev: D, ops: &[Op]) -> Value {
    let mut s = Session::new(dev);
    ok(json!(ops.iter().map(|op| guard(|| s.apply(op))).collect::<Vec<_>>()))
}

pub fn case(k: &'static str, img: Image, ops: Vec<Op>) -> Case {
    let input = json!({"k": k, "img": img.json(), "ops": ops_json(&ops)});
    Case::new(input, move || run_ops(img.device(512), &ops))
}

/// A device whose clones share one position, as clones of a file do.
pub struct SharedPos {
    dev: std::rc::Rc<std::cell::RefCell<VDev>>,
}
impl SharedPos {
    pub fn new(dev: VDev) -> Self {
        Self { dev: std::rc::Rc::new(std::cell::RefCell::new(dev)) }
    }
}
impl BlockDevice for SharedPos {
    fn block_size(&self) -> io::Result<BlockSize> {
        self.dev.borrow().block_size()
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        self.dev.borrow().block_count()
    }
    fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        self.dev.borrow_mut().read_block(n, buf)
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(Self { dev: self.dev.clone() })
    }
}
impl Read for SharedPos {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.dev.borrow_mut().read(buf)
    }
}
impl Seek for SharedPos {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.dev.borrow_mut().seek(pos)
    }
}

/// A case which the specification's model wrote.
pub fn from_scenario(s: &Value) -> Case {
    let img = Image::from_json(&s["img"]);
    let ops = s["ops"].as_array().unwrap().iter().map(Op::from_json).collect();
    case("scenario", img, ops)
}

// --------------------------------------------------------------- generation

pub struct GeoOpts {
    pub csum: bool,
    pub max_log_bs: u32,
}

/// Random geometry whose inode tables lie in blocks [100, 400) or far away.
pub fn random_geo(r: &mut Rng, csum: bool, max_log_bs: u32) -> Geo {
    let log_bs = (*r.pick(&[0u32, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6])).min(max_log_bs);
    let is64 = r.chance(1, 2);
    let groups = *r.pick(&[1usize, 1, 2, 3, 5, 8]);
    let ipg = *r.pick(&[8u32, 16, 7, 32, 1, 64]);
    let bpg = 8 * r.range(1, 2048) as u32;
    let first_data = if log_bs == 0 { 1 } else { 0 };
    let blocks = u64::from(bpg) * (groups as u64 - 1) + r.range(1, u64::from(bpg) - u64::from(first_data)) + u64::from(first_data);
    let inode_size = *r.pick(&[128u16, 256, 256, 256, 512, 160, 144, 1024]);
    let mut incompat = F_FILETYPE | F_EXTENTS | F_FLEX;
    if is64 {
        incompat |= F_64BIT;
    }
    if r.chance(1, 3) {
        incompat |= F_CSUM_SEED;
    }
    let mut ro = 0x3 | if r.chance(1, 2) { 0x70 } else { 0 };
    if csum {
        ro |= RO_CSUM;
    }
    let per = (u64::from(ipg) * u64::from(inode_size)).div_ceil(1024 << log_bs);
    let mut tables: Vec<u64> = vec![];
    let mut at = 40;
    for _ in 0..groups {
        at += r.below(3);
        tables.push(at);
        at += per;
    }
    if r.chance(1, 2) {
        r.shuffle(&mut tables);
    }
    let mut uuid = [0u8; 16];
    uuid.copy_from_slice(&r.bytes(16));
    Geo {
        log_bs,
        inode_size,
        ipg,
        bpg,
        blocks,
        inodes: ipg * groups as u32,
        first_data,
        desc_size: if is64 { *r.pick(&[64u16, 64, 64, 128]) } else { *r.pick(&[0u16, 32, 64, 5]) },
        incompat,
        ro_compat: ro,
        uuid,
        seed: r.u64() as u32,
        tables,
    }
}

/// An image being filled: metadata and directory blocks go to `next`, data to
/// patterned blocks.
pub struct Builder {
    pub img: Image,
    pub geo: Geo,
    pub next: u64,
    pub data: u64,
    pub limit: u64,
}

impl Builder {
    /// Metadata blocks are taken from the first free one, data blocks from
    /// `data_at` on; there are `limit` blocks.
    pub fn new(geo: Geo) -> Self {
        let bs = geo.bs();
        let per = (u64::from(geo.ipg) * u64::from(geo.inode_size)).div_ceil(bs);
        let next = geo.tables.iter().filter(|t| **t < 1 << 28).map(|t| t + per).max().unwrap_or(100).max(100);
        let mut img = Image::default();
        let limit = next + 2000 + 300_000;
        img.size = limit * bs;
        geo.put_superblock(&mut img, geo.superblock());
        geo.put_descs(&mut img);
        Self { data: next + 2000, next, img, geo, limit }
    }
    pub fn bs(&self) -> u64 {
        self.geo.bs()
    }
    pub fn meta(&mut self, r: &mut Rng) -> u64 {
        self.next += 1 + r.below(3);
        self.next - 1
    }
    pub fn put_block(&mut self, block: u64, b: &[u8]) {
        let at = block * self.bs();
        self.img.write(at, b);
    }
    /// A run of patterned blocks.
    pub fn patterned(&mut self, block: u64, n: u64) {
        let per = self.bs() / 1024;
        let a = self.img.unit_of(block * self.bs());
        self.img.pat.push((a, a + n * per));
    }
    pub fn put_inode(&mut self, n: u32, spec: &InodeSpec) {
        let b = spec.bytes(self.geo.inode_size);
        let at = self.geo.inode_pos(n);
        self.img.write(at, &b);
    }
    /// An inode number that exists and is not 1 to 10 unless there is no other.
    pub fn any_inode(&self, r: &mut Rng) -> u32 {
        r.range(1, self.geo.inodes.into()) as u32
    }
}

/// An extent as it is written.
#[derive(Clone, Debug)]
pub struct Ext {
    pub first: u32,
    pub raw: u16,
    pub start: u64,
}
impl Ext {
    pub fn len(&self) -> u64 {
        u64::from(if self.raw <= 32768 { self.raw } else { self.raw - 32768 })
    }
    pub fn initialized(&self) -> bool {
        self.raw <= 32768
    }
}

/// A tree block: where it is, and its depth.
#[derive(Clone, Debug)]
pub struct Node {
    pub block: u64,
    pub depth: u16,
}

impl Builder {
    /// Writes a tree of the given depth and returns its root; `nodes` get the
    /// blocks it occupies.
    pub fn tree(
        &mut self,
        r: &mut Rng,
        exts: &[Ext],
        depth: u16,
        seed: Option<u32>,
        nodes: &mut Vec<Node>,
    ) -> Vec<u8> {
        let bs = self.bs() as usize;
        let room = (bs - 12 - 4) / 12;
        let mut entries: Vec<(u32, Vec<u8>)> =
            exts.iter().map(|e| (e.first, extent(e.first, e.raw, e.start))).collect();
        for d in 0..depth {
            let most = if r.chance(1, 3) { 12 } else { 4 };
            let mut fan = r.range(1, most) as usize;
            if d + 1 == depth {
                fan = fan.max(entries.len().div_ceil(4));
            }
            let fan = fan.min(room).max(1);
            let mut up = vec![];
            for part in entries.chunks(fan) {
                let block = self.meta(r);
                let max = if r.chance(1, 3) { r.range(part.len() as u64, room as u64) as usize } else { room };
                let mut b = header(part.len() as u16, max as u16, d, r.u64() as u32);
                for (_, e) in part {
                    b.extend_from_slice(e);
                }
                b.resize(bs, 0);
                if r.chance(1, 4) {
                    // Left over from earlier entries
                    let at = 12 + 12 * part.len();
                    if part.len() < max {
                        put(&mut b, at, &extent(r.u64() as u32, 3, 50));
                    }
                }
                if let Some(s) = seed {
                    seal_tree(&mut b, s);
                }
                self.put_block(block, &b);
                nodes.push(Node { block, depth: d });
                up.push((part[0].0, index(part[0].0, block)));
            }
            entries = up;
        }
        let n = entries.len().min(4);
        let mut root = header(n as u16, 4, depth, r.u64() as u32);
        for (_, e) in &entries[..n] {
            root.extend_from_slice(e);
        }
        root.resize(60, 0);
        root
    }
    pub fn reseal_tree(&mut self, block: u64, seed: Option<u32>) {
        if let Some(s) = seed {
            let bs = self.bs() as usize;
            let mut b = self.img.read(block * bs as u64, bs);
            seal_tree(&mut b, s);
            self.put_block(block, &b);
        }
    }
}
