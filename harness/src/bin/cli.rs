//! Runs the executable on devices good and bad, behind a library that answers
//! the block device ioctls for files and records what could change something.
use md_recover::verif::block_device::{
    BlockDevice, BlockDeviceReader, BlockNumber, BlockSize, FileBlockDevice, NativeBlockDevice,
};
use md_recover::verif::md::{MdAlgorithm, MdArray, MdDevice};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io::{Read, Seek};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{FileExt, MetadataExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vh::ext4::{run_ops, Op};
use vh::md::Sb;
use vh::members::*;
use vh::util::*;
use vh::world::base;

// ------------------------------------------------------------------ devices

#[derive(Clone)]
enum Kind {
    /// Nothing can be opened there: how, and the error this gives.
    Absent(&'static str, i32),
    /// A file of this size which is not a block device.
    NotDevice,
    Directory,
    /// The size cannot be found out.
    NoSize(i32),
    Device { member: Member, unreadable: bool, block_size: u32 },
    /// A device with this content.
    Image(Vec<u8>),
}

#[derive(Clone)]
struct Dev {
    name: Vec<u8>,
    kind: Kind,
    /// Through a symbolic link
    link: bool,
}

impl Dev {
    fn json(&self) -> Value {
        let failed = |n: i32| json!({"open": n, "m": {"k": "none"}});
        match &self.kind {
            Kind::Absent(_, n) => failed(*n),
            Kind::NotDevice | Kind::Directory => failed(libc::ENOTTY),
            Kind::NoSize(n) => failed(*n),
            Kind::Device { member: Member::Has(_), unreadable: true, .. } | Kind::Image(_) => {
                json!({"open": 0, "m": {"k": "missing"}})
            }
            Kind::Device { member, .. } => json!({"open": 0, "m": member.json()}),
        }
    }
    /// Makes it; returns the line for the library.
    fn make(&self, dir: &Path, k: usize) -> String {
        let path = dir.join(OsStr::from_bytes(&self.name));
        let hex: String = self.name.iter().map(|b| format!("{b:02x}")).collect();
        let file = if self.link {
            let target = dir.join(format!("target-{k}"));
            std::os::unix::fs::symlink(&target, &path).unwrap();
            target
        } else {
            path.clone()
        };
        let (mut bs, mut open, mut ioctl, mut bad) = (512, 0, 0, 0u64);
        let sized = |n: u64| {
            let f = std::fs::File::create(&file).unwrap();
            f.set_len(n).unwrap();
            f
        };
        match &self.kind {
            Kind::Absent("dangling", _) => std::os::unix::fs::symlink("nowhere", &path).unwrap(),
            Kind::Absent("loop", _) => std::os::unix::fs::symlink(path.file_name().unwrap(), &path).unwrap(),
            Kind::Absent("refused", n) => {
                sized(65536);
                open = *n;
            }
            Kind::Absent(..) => bs = 0,
            Kind::NotDevice => {
                sized(131072);
                bs = 0;
            }
            Kind::Directory => {
                std::fs::create_dir(&file).unwrap();
                bs = 0;
            }
            Kind::NoSize(n) => {
                sized(131072);
                ioctl = *n;
            }
            Kind::Device { member, unreadable, block_size } => {
                bs = *block_size;
                match member {
                    Member::Small => drop(sized(8192)),
                    Member::Missing => sized(131072).write_all_at(&[0xa5; 70000], 100).unwrap(),
                    Member::Has(sb) => sized(131072).write_all_at(&sb.bytes(), sb.place(131072)).unwrap(),
                }
                if *unreadable {
                    bad = 131072;
                }
            }
            Kind::Image(b) => sized(b.len() as u64).write_all_at(b, 0).unwrap(),
        }
        format!("{hex} {bs} {open} {ioctl} 0 {bad}\n")
    }
}

fn device(member: Member) -> Kind {
    Kind::Device { member, unreadable: false, block_size: 512 }
}

fn failing(r: &mut Rng) -> Kind {
    match r.below(10) {
        0..=2 => Kind::Absent("missing", libc::ENOENT),
        3 => Kind::Absent("dangling", libc::ENOENT),
        4 => Kind::Absent("loop", libc::ELOOP),
        5 => Kind::Absent("refused", *r.pick(&[libc::EACCES, libc::EBUSY, libc::ENXIO, libc::EIO, libc::ENOMEDIUM])),
        6 | 7 => Kind::NotDevice,
        8 => Kind::Directory,
        _ => Kind::NoSize(*r.pick(&[libc::EIO, libc::ENXIO, libc::ENOTTY])),
    }
}

/// A name unlike the others, plain or odd.
fn name(r: &mut Rng, k: usize) -> Vec<u8> {
    let mut n = match r.below(24) {
        0 => b"with space".to_vec(),
        1 => b"it's".to_vec(),
        2 => b"new\nline".to_vec(),
        3 => b"tab\tbell\x07".to_vec(),
        4 => b"\xff\xfe bytes".to_vec(),
        5 => "h\u{e9}\u{4e16}\u{1f600}".into(),
        6 => "\u{202e}right\u{200f}".into(),
        7 => b"a: No such file or directory (os error 2)".to_vec(),
        8 => b"colon:".to_vec(),
        9 => b"$HOME\"'\\`x`".to_vec(),
        10 => b"~tilde".to_vec(),
        11 => b"#x!".to_vec(),
        12 => b"{a,b}*?[c]".to_vec(),
        13 => b"\x80\\x41".to_vec(),
        14 => b"\\n".to_vec(),
        15 => b"Some(\"x\")".to_vec(),
        16 => vec![b'l'; 200],
        17 => (0..r.range(1, 20)).map(|_| r.range(1, 255) as u8).filter(|b| *b != b'/').collect(),
        _ => b"sd".to_vec(),
    };
    n.extend_from_slice(format!("{k}").as_bytes());
    if n[0] == b'-' || n.len() > 250 || r.chance(1, 8) {
        n.splice(0..0, *b"./");
    }
    n
}

// ------------------------------------------------------------------- output

/// A value as Rust's Debug writes it.
#[derive(Debug, Clone, PartialEq)]
enum T {
    Atom(String),
    Str(Vec<u8>),
    List(Vec<T>),
    Tuple(String, Vec<T>),
    Struct(String, Vec<(String, T)>),
    Map(Vec<(T, T)>),
    Set(Vec<T>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.s.get(self.i).is_some_and(|c| c.is_ascii_whitespace()) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        let hit = self.s.get(self.i) == Some(&c);
        self.i += usize::from(hit);
        hit
    }
    fn seq(&mut self, end: u8) -> Option<Vec<T>> {
        let mut v = vec![];
        while !self.eat(end) {
            v.push(self.value()?);
            if !self.eat(b',') && self.s.get(self.i) != Some(&end) {
                return None;
            }
        }
        Some(v)
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        let mut v = vec![];
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return Some(v),
                b'\\' => {
                    let e = *self.s.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'n' => v.push(b'\n'),
                        b'r' => v.push(b'\r'),
                        b't' => v.push(b'\t'),
                        b'0' => v.push(0),
                        b'x' => {
                            let h = std::str::from_utf8(self.s.get(self.i..self.i + 2)?).ok()?;
                            v.push(u8::from_str_radix(h, 16).ok()?);
                            self.i += 2;
                        }
                        b'u' => {
                            let end = self.i + self.s[self.i..].iter().position(|c| *c == b'}')?;
                            let h = std::str::from_utf8(&self.s[self.i + 1..end]).ok()?;
                            let ch = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                            v.extend_from_slice(ch.to_string().as_bytes());
                            self.i = end + 1;
                        }
                        c => v.push(c),
                    }
                }
                c => v.push(c),
            }
        }
    }
    fn value(&mut self) -> Option<T> {
        if self.eat(b'[') {
            return self.seq(b']').map(T::List);
        }
        if self.eat(b'"') {
            return self.string().map(T::Str);
        }
        if self.eat(b'{') {
            let (mut m, mut s) = (vec![], vec![]);
            while !self.eat(b'}') {
                let k = self.value()?;
                if self.eat(b':') {
                    m.push((k, self.value()?));
                } else {
                    s.push(k);
                }
                if !self.eat(b',') && self.s.get(self.i) != Some(&b'}') {
                    return None;
                }
            }
            return Some(if s.is_empty() { T::Map(m) } else { T::Set(s) });
        }
        self.ws();
        let from = self.i;
        while self.s.get(self.i).is_some_and(|c| c.is_ascii_alphanumeric() || b"_-".contains(c)) {
            self.i += 1;
        }
        let word = String::from_utf8(self.s[from..self.i].to_vec()).ok()?;
        if word.is_empty() {
            return None;
        }
        if self.eat(b'(') {
            return Some(T::Tuple(word, self.seq(b')')?));
        }
        if self.eat(b'{') {
            let mut f = vec![];
            while !self.eat(b'}') {
                self.ws();
                let from = self.i;
                while self.s.get(self.i).is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                    self.i += 1;
                }
                let field = String::from_utf8(self.s[from..self.i].to_vec()).ok()?;
                if !self.eat(b':') {
                    return None;
                }
                f.push((field, self.value()?));
                if !self.eat(b',') && self.s.get(self.i) != Some(&b'}') {
                    return None;
                }
            }
            return Some(T::Struct(word, f));
        }
        Some(T::Atom(word))
    }
    fn whole(s: &[u8]) -> Option<T> {
        let mut p = P { s, i: 0 };
        let t = p.value()?;
        p.ws();
        (p.i == s.len()).then_some(t)
    }
}

impl T {
    fn field(&self, name: &str) -> Option<&T> {
        match self {
            T::Struct(_, f) => f.iter().find(|(n, _)| n == name).map(|(_, v)| v),
            _ => None,
        }
    }
    fn some(&self) -> Option<&T> {
        match self {
            T::Tuple(n, v) if n == "Some" && v.len() == 1 => Some(&v[0]),
            _ => None,
        }
    }
    fn none(&self) -> bool {
        *self == T::Atom("None".into())
    }
    /// A number, also within a type of its own
    fn num(&self) -> Option<u64> {
        match self {
            T::Atom(s) => s.parse().ok(),
            T::Tuple(_, v) if v.len() == 1 => v[0].num(),
            _ => None,
        }
    }
    fn wide(&self) -> Option<Value> {
        self.num().map(w)
    }
}

fn algorithm(t: &T) -> Option<Value> {
    if let T::Struct(n, _) = t {
        if n == "Unsupported" {
            return Some(json!([t.field("level")?.wide()?, t.field("layout")?.wide()?]));
        }
    }
    thread_local! {
        static KNOWN: Vec<(T, [u32; 2])> = [5u32, 6].iter().flat_map(|level| (0..64u32).map(|layout| [*level, layout]))
            .map(|x| (P::whole(format!("{:?}", MdAlgorithm::from_level_and_layout(x[0], x[1])).as_bytes()).unwrap(), x))
            .collect();
    }
    KNOWN.with(|k| k.iter().find(|(n, _)| n == t).map(|(_, x)| json!([w(x[0].into()), w(x[1].into())])))
}

fn value(entry: &str, t: &T) -> Option<Value> {
    match (entry, t) {
        ("uuid", T::Tuple(_, v)) => match v.as_slice() {
            [T::List(b)] => b.iter().map(T::num).collect::<Option<Vec<_>>>().map(|v| json!(v)),
            _ => None,
        },
        ("name", T::Str(b)) => Some(json!(b)),
        ("algorithm", t) => algorithm(t),
        ("reshape", t) if t.none() => Some(json!([])),
        ("reshape", t) => {
            let s = t.some()?;
            Some(json!([
                algorithm(s.field("new_algorithm")?)?,
                s.field("reshape_position")?.wide()?,
                s.field("delta_devices")?.wide()?,
                s.field("new_chunk_size")?.wide()?,
                s.field("new_offset")?.wide()?,
            ]))
        }
        ("roles", T::List(v)) => v.iter().map(T::wide).collect::<Option<Vec<_>>>().map(|v| json!(v)),
        (_, t) => t.wide(),
    }
}

const ENTRIES: &[(&str, &str)] = &[
    ("small", "device_too_small_problem"),
    ("missing", "missing_superblock_problem"),
    ("uuid", "array_uuid_problem"),
    ("name", "array_name_problem"),
    ("algorithm", "algorithm_problem"),
    ("size", "size_problem"),
    ("chunk", "chunk_size_problem"),
    ("disks", "device_count_problem"),
    ("reshape", "reshape_problem"),
    ("events", "event_count_problem"),
    ("index", "device_role_index_problem"),
    ("roles", "device_roles_problem"),
];

/// Which of the named devices (from 1; 0 for none of them).
fn which(devs: &[Dev], name: &[u8]) -> usize {
    devs.iter().position(|d| d.name == name).map_or(0, |k| k + 1)
}

fn ids(devs: &[Dev], v: &[T]) -> Option<Vec<usize>> {
    let mut v = v
        .iter()
        .map(|i| match i.field("user_reference")?.some()? {
            T::Str(s) => Some(which(devs, s)),
            _ => None,
        })
        .collect::<Option<Vec<_>>>()?;
    v.sort();
    Some(v)
}

fn diagnosis(devs: &[Dev], t: &T) -> Option<Value> {
    let mut res = serde_json::Map::new();
    for (entry, field) in ENTRIES {
        let f = t.field(field)?;
        let groups = if f.none() {
            vec![]
        } else {
            match f.some()? {
                T::Set(s) => vec![json!({"v": [], "ids": ids(devs, s)?})],
                T::Map(m) => m
                    .iter()
                    .map(|(k, v)| match v {
                        T::List(v) => Some(json!({"v": value(entry, k)?, "ids": ids(devs, v)?})),
                        _ => None,
                    })
                    .collect::<Option<Vec<_>>>()?,
                _ => return None,
            }
        };
        res.insert(entry.to_string(), json!(groups));
    }
    Some(res.into())
}

/// Takes a word quoted for a shell, up to ": ".
fn word(s: &[u8]) -> Option<(Vec<u8>, &[u8])> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            b':' if s.get(i + 1) == Some(&b' ') => return Some((v, &s[i + 2..])),
            b'\'' => {
                let n = s[i + 1..].iter().position(|c| *c == b'\'')?;
                v.extend_from_slice(&s[i + 1..i + 1 + n]);
                i += n + 2;
                continue;
            }
            b'"' => {
                i += 1;
                while *s.get(i)? != b'"' {
                    if s[i] == b'\\' {
                        i += 1;
                    }
                    v.push(*s.get(i)?);
                    i += 1;
                }
            }
            b'$' if s.get(i + 1) == Some(&b'\'') => {
                i += 2;
                while *s.get(i)? != b'\'' {
                    if s[i] == b'\\' {
                        i += 1;
                        match *s.get(i)? {
                            b'n' => v.push(b'\n'),
                            b't' => v.push(b'\t'),
                            b'r' => v.push(b'\r'),
                            b'x' => {
                                let h = std::str::from_utf8(s.get(i + 1..i + 3)?).ok()?;
                                v.push(u8::from_str_radix(h, 16).ok()?);
                                i += 2;
                            }
                            c => v.push(c),
                        }
                    } else {
                        v.push(s[i]);
                    }
                    i += 1;
                }
            }
            b'\\' => {
                i += 1;
                v.push(*s.get(i)?);
            }
            c => v.push(c),
        }
        i += 1;
    }
    None
}

/// The number of the operating system's error at the end of a line; 0: none.
fn errno(s: &[u8]) -> i32 {
    let s = String::from_utf8_lossy(s);
    s.strip_suffix(')').and_then(|s| s.rsplit_once("(os error ")).and_then(|(_, n)| n.parse().ok()).unwrap_or(0)
}

/// What standard output says.
fn output(devs: &[Dev], out: &[u8]) -> Value {
    let (mut lines, mut diag, mut other) = (vec![], vec![], 0);
    if let Some(d) = P::whole(out).and_then(|t| diagnosis(devs, &t)) {
        diag.push(d);
    } else {
        for l in out.split(|c| *c == b'\n') {
            match word(l) {
                _ if l.is_empty() => {}
                Some((name, e)) => lines.push(json!({"d": which(devs, &name), "e": errno(e)})),
                None => other += 1,
            }
        }
    }
    json!({"lines": lines, "diag": diag, "other": other})
}

// ------------------------------------------------------------------ running

/// Everything about the files in a directory.
fn snapshot(dir: &Path, at: &Path, res: &mut BTreeMap<Vec<u8>, String>) {
    for e in std::fs::read_dir(at).unwrap() {
        let path = e.unwrap().path();
        let m = std::fs::symlink_metadata(&path).unwrap();
        let what = if m.is_file() {
            let b = std::fs::read(&path).unwrap();
            let mut h = 0xcbf29ce484222325u64;
            for c in b.chunks(8) {
                let mut x = [0; 8];
                x[..c.len()].copy_from_slice(c);
                h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x100000001b3).rotate_left(29);
            }
            format!("{h:x}")
        } else if m.is_symlink() {
            format!("{:?}", std::fs::read_link(&path).unwrap())
        } else {
            snapshot(dir, &path, res);
            String::new()
        };
        let t = (m.mtime(), m.mtime_nsec(), m.ctime(), m.ctime_nsec());
        let all = format!("{what} {} {:o} {} {} {} {t:?}", m.len(), m.mode(), m.uid(), m.gid(), m.nlink());
        res.insert(path.strip_prefix(dir).unwrap().as_os_str().as_bytes().to_vec(), all);
    }
}

struct Run {
    exe: PathBuf,
    shim: PathBuf,
    args: Vec<OsString>,
    devs: Vec<Dev>,
    /// Other files around
    files: Vec<String>,
    child: bool,
}

impl Run {
    fn run(self, work: &Path) -> Value {
        let dir = work.join("box");
        if dir.exists() {
            std::fs::remove_dir_all(&dir).unwrap();
        }
        std::fs::create_dir_all(&dir).unwrap();
        let (cfg, log) = (work.join("cfg"), work.join("log"));
        let _ = std::fs::remove_file(&log);
        std::fs::write(dir.join("file"), b"not a directory").unwrap();
        for f in &self.files {
            std::fs::write(dir.join(f), f).unwrap();
        }
        std::fs::write(&cfg, self.devs.iter().enumerate().map(|(k, d)| d.make(&dir, k)).collect::<String>()).unwrap();
        let mut before = BTreeMap::new();
        snapshot(&dir, &dir, &mut before);
        let (out_path, err_path) = (work.join("stdout"), work.join("stderr"));
        let mut cmd = Command::new(&self.exe);
        cmd.args(&self.args)
            .current_dir(&dir)
            .env_clear()
            .env("HOME", &dir)
            .env("TMPDIR", &dir)
            .env("PATH", "/usr/bin:/bin")
            .env("LD_PRELOAD", &self.shim)
            .env("VH_SHIM_CFG", &cfg)
            .env("VH_SHIM_LOG", &log)
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&out_path).unwrap())
            .stderr(std::fs::File::create(&err_path).unwrap());
        if self.child {
            cmd.env("VH_CHILD", "1");
        }
        let mut child = cmd.spawn().unwrap();
        let t0 = Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break s;
            }
            if t0.elapsed() > Duration::from_secs(10) {
                child.kill().unwrap();
            }
            std::thread::sleep(Duration::from_micros(300));
        };
        let mut after = BTreeMap::new();
        snapshot(&dir, &dir, &mut after);
        let changed: Vec<String> = before
            .keys()
            .chain(after.keys())
            .filter(|k| before.get(*k) != after.get(*k))
            .map(|k| String::from_utf8_lossy(k).into_owned())
            .collect();
        let log = std::fs::read_to_string(&log).unwrap();
        assert!(log.starts_with("start\n"), "the library was not there");
        let (mut calls, mut ioctls, mut opened) = (vec![], vec![], 0);
        for l in log.lines().skip(1) {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                // Output to the file which stands for standard output
                "write" | "writev" => {}
                "start" => {}
                "open-read" => opened += 1,
                "ioctl" => ioctls.push(f[1].to_string()),
                c => calls.push(c.to_string()),
            }
        }
        calls.sort();
        calls.dedup();
        ioctls.sort();
        ioctls.dedup();
        let mut v = output(&self.devs, &std::fs::read(&out_path).unwrap());
        v["exit"] = json!(status.code().unwrap_or(-status.signal().unwrap_or(999)));
        v["changed"] = json!(changed);
        v["calls"] = json!(calls);
        v["ioctls"] = json!(ioctls);
        v["opened"] = json!(opened);
        std::fs::remove_dir_all(&dir).unwrap();
        ok(v)
    }
}

/// The library's own use of devices, in a process of its own.
fn child(paths: &[OsString]) {
    fn read_all<D: BlockDevice + Read + Seek>(dev: D) {
        let mut ops = vec![Op::Open, Op::Clone(0)];
        for n in 1..25 {
            ops.extend([Op::Stat(n), Op::File(n), Op::Drain(n as usize - 1, 60)]);
        }
        run_ops(dev, &ops);
    }
    fn use_array<D: BlockDevice + Read + Seek>(devs: Vec<MdDevice<D>>) {
        let mut a = MdArray::open(devs);
        a.diagnose();
        let mut b = vec![0; 512];
        for k in [0u64, 1, 7] {
            let _ = a.read_block(BlockNumber(k), &mut b);
        }
        read_all(BlockDeviceReader::new(a));
    }
    std::panic::set_hook(Box::new(|_| {}));
    for p in paths {
        if let Ok(d) = FileBlockDevice::open_path(p, BlockSize(512)) {
            read_all(BlockDeviceReader::new(d));
        }
        if let Ok(d) = NativeBlockDevice::open_path(p) {
            read_all(BlockDeviceReader::new(d));
        }
    }
    let files = paths.iter().filter_map(|p| FileBlockDevice::open_path(p, BlockSize(512)).ok());
    use_array(files.filter_map(|d| MdDevice::from_block_device(d, Some("x")).ok()).collect());
    use_array(paths.iter().filter_map(|p| MdDevice::open_path(p).ok()).collect());
}

// -------------------------------------------------------------------- cases

struct Maker {
    exe: PathBuf,
    shim: PathBuf,
    work: PathBuf,
}

impl Maker {
    /// `list`: the devices named, by number from 0.
    fn case(&self, k: &'static str, devs: Vec<Dev>, list: Vec<usize>, pre: Vec<OsString>, post: Vec<OsString>, files: Vec<String>) -> Case {
        let input = json!({
            "k": k,
            "devs": devs.iter().map(Dev::json).collect::<Vec<_>>(),
            "names": devs.iter().map(|d| String::from_utf8_lossy(&d.name).into_owned()).collect::<Vec<_>>(),
            "list": list.iter().map(|d| d + 1).collect::<Vec<_>>(),
            "pre": pre.iter().map(|a| a.to_string_lossy().into_owned()).collect::<Vec<_>>(),
            "post": post.iter().map(|a| a.to_string_lossy().into_owned()).collect::<Vec<_>>(),
        });
        let mut args = pre;
        args.extend(list.iter().map(|d| OsString::from_vec(devs[*d].name.clone())));
        args.extend(post);
        let child = k == "library";
        let exe = if child { std::env::current_exe().unwrap() } else { self.exe.clone() };
        let run = Run { exe, shim: self.shim.clone(), args, devs, files, child };
        let work = self.work.clone();
        Case::new(input, move || run.run(&work))
    }

    fn random(&self, r: &mut Rng) -> Case {
        let n = match r.below(12) {
            0 => 0,
            1 => 1,
            2 => r.range(10, 40) as usize,
            _ => r.range(2, 7) as usize,
        };
        let failures = r.chance(1, 2);
        let mut members = if r.chance(1, 2) { positions(r) } else { attributes(r) };
        if members.is_empty() || r.chance(1, 4) {
            let sb = Sb::default();
            members = (0..4).map(|k| Member::Has(Box::new(Sb { index: k, ..sb.clone() }))).collect();
        }
        let mut devs: Vec<Dev> = (0..n)
            .map(|k| {
                let kind = if failures && r.chance(1, 3) {
                    failing(r)
                } else {
                    Kind::Device {
                        member: if k < members.len() { members[k].clone() } else { r.pick(&members).clone() },
                        unreadable: r.chance(1, 20),
                        block_size: *r.pick(&[512u32, 512, 1024, 4096]),
                    }
                };
                let link = r.chance(1, 8) && !matches!(kind, Kind::Absent(..));
                Dev { name: name(r, k), kind, link }
            })
            .collect();
        if failures && r.chance(1, 6) {
            devs.push(Dev { name: b"/dev/null".to_vec(), kind: Kind::Absent("null", libc::ENOTTY), link: false });
        }
        if failures && r.chance(1, 6) {
            devs.push(Dev { name: b"file/below".to_vec(), kind: Kind::Absent("below", libc::ENOTDIR), link: false });
        }
        if failures && r.chance(1, 8) {
            devs.push(Dev { name: vec![b'y'; 300], kind: Kind::Absent("long", libc::ENAMETOOLONG), link: false });
        }
        let mut list: Vec<usize> = (0..devs.len()).collect();
        r.shuffle(&mut list);
        if !list.is_empty() && r.chance(1, 3) {
            // Named more than once
            for _ in 0..r.range(1, 3) {
                let d = *r.pick(&list);
                list.insert(r.below(list.len() as u64 + 1) as usize, d);
            }
        }
        let (mut pre, mut post, mut files) = (vec![], vec![], vec![]);
        for _ in 0..if r.chance(1, 3) { r.range(1, 3) } else { 0 } {
            let f = *r.pick(&["out", "out2", "new-out"]);
            let to = if r.chance(1, 2) { &mut pre } else { &mut post };
            match r.below(3) {
                0 => to.extend(["-o".into(), f.into()]),
                1 => to.push(OsString::from(format!("--output={f}"))),
                _ => to.extend(["--output".into(), f.into()]),
            }
        }
        if r.chance(1, 2) {
            files = vec!["out".into(), "out2".into()];
        }
        if post.is_empty() && r.chance(1, 6) {
            pre.push("--".into());
        }
        self.case("run", devs, list, pre, post, files)
    }

    /// As the specification's model chose them.
    fn scenario(&self, s: &Value) -> Case {
        let (mut devs, mut list): (Vec<Dev>, Vec<usize>) = (vec![], vec![]);
        let sb = |index| Member::Has(Box::new(Sb { index, ..Sb::default() }));
        for (k, x) in s["list"].as_array().unwrap().iter().enumerate() {
            let kind = match x.as_str().unwrap() {
                "again" => {
                    list.push(*list.last().unwrap());
                    continue;
                }
                "absent" => Kind::Absent("missing", libc::ENOENT),
                "refused" => Kind::Absent("refused", libc::EACCES),
                "file" => Kind::NotDevice,
                "sizeless" => Kind::NoSize(libc::EIO),
                "small" => device(Member::Small),
                "blank" => device(Member::Missing),
                "unreadable" => Kind::Device { member: sb(k as u32), unreadable: true, block_size: 512 },
                "member" => device(sb(k as u32)),
                "stranger" => device(Member::Has(Box::new(Sb { uuid: [9; 16], ..Sb::default() }))),
                x => panic!("{x}"),
            };
            list.push(devs.len());
            devs.push(Dev { name: format!("d{k}").into_bytes(), kind, link: false });
        }
        self.case("scenario", devs, list, vec![], vec![], vec![])
    }

    /// Devices used as the library's types can be.
    fn library(&self, r: &mut Rng) -> Case {
        let mut f = base(r);
        if r.chance(1, 3) {
            vh::world::mutate(r, &mut f);
        }
        let size = f.b.img.size as usize;
        let image = f.b.img.device(512).contents(0, size);
        let mut devs = vec![Dev { name: b"image".to_vec(), kind: Kind::Image(image), link: false }];
        for (k, m) in positions(r).into_iter().enumerate() {
            devs.push(Dev { name: format!("m{k}").into_bytes(), kind: device(m), link: false });
        }
        devs.push(Dev { name: b"f".to_vec(), kind: failing(r), link: false });
        let list = (0..devs.len()).collect();
        self.case("library", devs, list, vec![], vec![], vec![])
    }
}

fn cases(ctx: &Ctx) -> Cases {
    let m = Maker {
        exe: ctx.cli.clone().expect("--cli"),
        shim: ctx.shim.clone().expect("--shim"),
        work: ctx.work.clone(),
    };
    let mut v: Vec<Case> = ctx.scenarios().iter().map(|s| m.scenario(s)).collect();
    // Command lines about the command itself
    let dev = || vec![Dev { name: b"d".to_vec(), kind: device(Member::Missing), link: false }];
    for (k, pre, post) in [
        ("help", vec!["--help"], vec![]),
        ("help", vec!["-h"], vec![]),
        ("version", vec!["--version"], vec![]),
        ("version", vec!["-V"], vec![]),
        ("usage", vec!["--write"], vec![]),
        ("usage", vec!["-x"], vec![]),
        ("usage", vec![], vec!["-o"]),
        ("usage", vec![""], vec![]),
    ] {
        let os = |v: Vec<&str>| v.into_iter().map(OsString::from).collect::<Vec<_>>();
        v.push(m.case(k, dev(), vec![0], os(pre), os(post), vec!["out".into()]));
    }
    let many: Vec<Dev> = (0..400)
        .map(|k| Dev {
            name: format!("m{k}").into_bytes(),
            kind: device(Member::Has(Box::new(Sb { index: k, ..Sb::default() }))),
            link: false,
        })
        .collect();
    v.push(m.case("run", many, (0..400).collect(), vec![], vec![], vec![]));
    let none: Vec<Dev> = (0..2000)
        .map(|k| Dev { name: format!("n{k}").into_bytes(), kind: Kind::Absent("missing", libc::ENOENT), link: false })
        .collect();
    v.push(m.case("run", none, (0..2000).collect(), vec![], vec![], vec![]));
    let n = ctx.n(700, 8000) as u64;
    let c = ctx.copy();
    Box::new(v.into_iter().chain((0..n).map(move |k| {
        let mut r = c.rng("cli", k);
        if k % 10 == 9 { m.library(&mut r) } else { m.random(&mut r) }
    })))
}

fn main() {
    if std::env::var_os("VH_CHILD").is_some() {
        child(&std::env::args_os().skip(1).collect::<Vec<_>>());
        return;
    }
    vh::main_with(cases)
}
