//! A block device for tests: sparse, of any size, which can fail reads, return
//! short reads and record what was read.  Clones share the contents but not
//! the position, like independent handles on one device.
use md_recover::verif::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize, FileBlockDevice};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;

pub const PAGE: u64 = 512;

/// The number of the unit of 1 KiB at position `Shared::high`.
pub const HIGH: u64 = 1 << 30;

/// The contents of a patterned unit: its number, then bytes which differ
/// between neighbouring units.
pub fn pattern(unit: u64, k: usize) -> u8 {
    match k {
        0..4 => (unit >> (8 * k)) as u8,
        4..8 => 0,
        _ => ((unit % 251) + 7 * k as u64) as u8,
    }
}

pub fn unit_of(high: u64, pos: u64) -> u64 {
    if high > 0 && pos >= high {
        HIGH + (pos - high) / 1024
    } else if pos >= 1 << 38 {
        HIGH / 2
    } else {
        pos / 1024
    }
}

#[derive(Default)]
pub struct Shared {
    pub size: u64,
    pub block_size: u32,
    pub pages: BTreeMap<u64, Vec<u8>>,
    /// Byte ranges which cannot be read.
    pub bad: Vec<(u64, u64)>,
    /// Units of 1 KiB with computed contents (see `pattern`), and the position
    /// from which on units are numbered from `HIGH`, if not 0.
    pub pat: Vec<(u64, u64)>,
    pub high: u64,
    /// Fail the n-th read call (counting from 0), whatever it reads.
    pub fail_calls: Vec<u64>,
    /// At most this many bytes per read call, if not 0.
    pub short: usize,
    /// Fail every other read call with ErrorKind::Interrupted.
    pub interrupts: bool,
    pub calls: u64,
    /// Fail the n-th call which is not a read: seeks, clones, questions for
    /// the size.
    pub fail_others: Vec<u64>,
    pub others: u64,
    /// Where reads failed or found the end of the device.
    pub hits: Vec<u64>,
    /// How many calls failed because of fail_calls or fail_others
    pub failed: u64,
    flip: bool,
}

#[derive(Clone)]
pub struct VDev {
    pub sh: Rc<RefCell<Shared>>,
    pos: u64,
}

impl VDev {
    pub fn new(size: u64, block_size: u32) -> Self {
        Self {
            sh: Rc::new(RefCell::new(Shared {
                size,
                block_size,
                ..Default::default()
            })),
            pos: 0,
        }
    }
    pub fn from_bytes(b: &[u8], block_size: u32) -> Self {
        let d = Self::new(b.len() as u64, block_size);
        d.write(0, b);
        d
    }
    pub fn write(&self, off: u64, b: &[u8]) {
        let mut sh = self.sh.borrow_mut();
        let mut i = 0usize;
        while i < b.len() {
            let at = off + i as u64;
            let (p, o) = (at / PAGE, (at % PAGE) as usize);
            let n = (PAGE as usize - o).min(b.len() - i);
            let page = sh.pages.entry(p).or_insert_with(|| vec![0; PAGE as usize]);
            page[o..o + n].copy_from_slice(&b[i..i + n]);
            i += n;
        }
    }
    fn fetch(&self, off: u64, b: &mut [u8]) {
        let sh = self.sh.borrow();
        let mut i = 0usize;
        while i < b.len() {
            let at = off + i as u64;
            let (p, o) = (at / PAGE, (at % PAGE) as usize);
            let n = (PAGE as usize - o).min(b.len() - i);
            let unit = unit_of(sh.high, at);
            if sh.pat.iter().any(|r| r.0 <= unit && unit < r.1) {
                for (k, x) in b[i..i + n].iter_mut().enumerate() {
                    *x = pattern(unit, (at % 1024) as usize + k);
                }
            } else {
                match sh.pages.get(&p) {
                    Some(page) => b[i..i + n].copy_from_slice(&page[o..o + n]),
                    None => b[i..i + n].fill(0),
                }
            }
            i += n;
        }
    }
    /// A file with the same contents, which is gone when it is closed.
    /// Patterned contents don't count.
    pub fn file(&self, path: &std::path::Path) -> FileBlockDevice {
        use std::os::unix::fs::FileExt;
        let sh = self.sh.borrow();
        let f = std::fs::File::create(path).unwrap();
        f.set_len(sh.size).unwrap();
        for (p, b) in &sh.pages {
            let n = sh.size.saturating_sub(p * PAGE).min(PAGE) as usize;
            f.write_all_at(&b[..n], p * PAGE).unwrap();
        }
        let dev = FileBlockDevice::open_path(path, BlockSize(sh.block_size)).unwrap();
        std::fs::remove_file(path).unwrap();
        dev
    }
    /// What it holds, whether it can be read or not.
    pub fn contents(&self, off: u64, n: usize) -> Vec<u8> {
        let mut b = vec![0; n];
        self.fetch(off, &mut b);
        b
    }
    fn other(&self) -> io::Result<()> {
        let mut sh = self.sh.borrow_mut();
        let call = sh.others;
        sh.others += 1;
        if sh.fail_others.contains(&call) {
            sh.hits.push(u64::MAX);
            sh.failed += 1;
            return Err(io::Error::from_raw_os_error(5));
        }
        Ok(())
    }
    fn raw_read(&self, pos: u64, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let mut sh = self.sh.borrow_mut();
            let call = sh.calls;
            sh.calls += 1;
            if sh.interrupts {
                sh.flip = !sh.flip;
                if sh.flip {
                    return Err(io::ErrorKind::Interrupted.into());
                }
            }
            if sh.fail_calls.contains(&call) {
                sh.hits.push(pos);
                sh.failed += 1;
                return Err(io::Error::from_raw_os_error(5));
            }
            let mut n = (buf.len() as u64).min(sh.size.saturating_sub(pos));
            if sh.short > 0 {
                n = n.min(sh.short as u64);
            }
            for k in 0..sh.bad.len() {
                let (s, e) = sh.bad[k];
                if pos < e && pos + n > s {
                    if pos >= s {
                        sh.hits.push(pos);
                        return Err(io::Error::from_raw_os_error(5));
                    }
                    n = s - pos;
                }
            }
            if n == 0 && !buf.is_empty() {
                sh.hits.push(pos);
            }
            n as usize
        };
        self.fetch(pos, &mut buf[..n]);
        Ok(n)
    }
}

impl BlockDevice for VDev {
    fn block_size(&self) -> io::Result<BlockSize> {
        self.other()?;
        Ok(BlockSize(self.sh.borrow().block_size))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        self.other()?;
        let sh = self.sh.borrow();
        Ok(BlockCount(sh.size / u64::from(sh.block_size)))
    }
    fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        let bs = self.sh.borrow().block_size as usize;
        if buf.len() < bs {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        let mut off = u64::from(n)
            .checked_mul(bs as u64)
            .ok_or(io::ErrorKind::InvalidInput)?;
        let mut done = 0;
        while done < bs {
            match self.raw_read(off, &mut buf[done..bs]) {
                Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()),
                Ok(k) => {
                    done += k;
                    off += k as u64;
                }
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(bs)
    }
    fn try_clone(&self) -> io::Result<Self> {
        self.other()?;
        Ok(self.clone())
    }
}

impl Read for VDev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.raw_read(self.pos, buf)?;
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for VDev {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.other()?;
        let new = match pos {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(o) => self.sh.borrow().size.checked_add_signed(o),
            SeekFrom::Current(o) => self.pos.checked_add_signed(o),
        }
        // Linux refuses offsets which do not fit in a signed 64-bit integer.
        .filter(|p| *p <= i64::MAX as u64)
        .ok_or(io::ErrorKind::InvalidInput)?;
        self.pos = new;
        Ok(new)
    }
}
