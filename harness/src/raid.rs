//! Arrays with given contents, striped over their members by the tables which
//! the specification's model writes.
use crate::dev::VDev;
use crate::md::Sb;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::rc::Rc;

/// For each layout and number of devices the rows [P, Q, data...] of a whole
/// rotation.
#[derive(Clone)]
pub struct Tables(Rc<HashMap<(u32, usize), Vec<Vec<usize>>>>);

impl Tables {
    pub fn new(ctx: &Ctx) -> Self {
        let mut m = HashMap::new();
        for s in ctx.scenarios() {
            if s["rows"].is_null() {
                continue;
            }
            let rows = s["rows"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect())
                .collect();
            m.insert((s["layout"].as_u64().unwrap() as u32, s["n"].as_u64().unwrap() as usize), rows);
        }
        assert!(!m.is_empty());
        Tables(Rc::new(m))
    }
    pub fn pick(&self, r: &mut Rng) -> (u32, usize) {
        let mut keys: Vec<_> = self.0.keys().copied().collect();
        keys.sort();
        *r.pick(&keys)
    }
}

#[derive(Clone)]
pub struct Raid {
    pub layout: u32,
    pub n: usize,
    pub chunk: u64,
    /// Sectors per device
    pub spd: u64,
    /// Which member (by its place in the list) has which number
    pub numbers: Vec<usize>,
    pub sbs: Vec<Sb>,
    pub block_sizes: Vec<u32>,
    pub sizes: Vec<u64>,
    tables: Tables,
}

impl Raid {
    /// An array that holds at least so many sectors.
    pub fn random(r: &mut Rng, tables: &Tables, sectors: u64) -> Raid {
        let pick = tables.pick(r);
        Self::of(r, tables, sectors, pick)
    }
    pub fn of(r: &mut Rng, tables: &Tables, sectors: u64, (layout, n): (u32, usize)) -> Raid {
        let chunk = *r.pick(&[1u64, 2, 3, 4, 7, 8, 8, 16, 32, 128]);
        let data = n as u64 - 2;
        let mut spd = sectors.div_ceil(data).div_ceil(chunk) * chunk + chunk * r.below(3);
        let v0 = r.chance(1, 5);
        if v0 && spd % 2 == 1 {
            spd += chunk;
        }
        let v0 = v0 && spd % 2 == 0;
        let mut numbers: Vec<usize> = (0..n).collect();
        if r.chance(1, 2) {
            r.shuffle(&mut numbers);
        }
        let (mut sbs, mut block_sizes, mut sizes) = (vec![], vec![], vec![]);
        for k in 0..n {
            let minor = if v0 { 90 } else { r.below(3) as u32 };
            let off = if v0 { 0 } else { 24 + r.below(100) };
            let bs = *r.pick(&[512u32, 512, 512, 1024, 4096]);
            let mut size = (off + spd) * 512;
            if v0 || minor == 0 {
                size += 200_000 + r.below(4096);
            } else {
                size += *r.pick(&[0u64, 512, 5000]);
            }
            size = size.div_ceil(u64::from(bs)) * u64::from(bs);
            size = size.max(16384);
            sbs.push(Sb {
                major: if v0 { 0 } else { 1 },
                minor,
                big_endian: r.chance(1, 2),
                layout,
                size: if v0 { spd / 2 } else { spd },
                chunk: (if v0 { chunk * 512 } else { chunk }) as u32,
                raid_disks: n as u32,
                data_offset: off,
                index: k as u32,
                roles: numbers.iter().map(|x| *x as u32).collect(),
                ..Sb::default()
            });
            block_sizes.push(bs);
            sizes.push(size);
        }
        Raid { layout, n, chunk, spd, numbers, sbs, block_sizes, sizes, tables: tables.clone() }
    }
    pub fn json(&self) -> Value {
        json!({
            "layout": self.layout, "n": self.n, "chunk": self.chunk, "spd": self.spd, "numbers": self.numbers,
            "offsets": self.sbs.iter().map(|s| s.data_offset).collect::<Vec<_>>(),
            "minors": self.sbs.iter().map(|s| s.minor).collect::<Vec<_>>(),
            "blocks": self.block_sizes,
        })
    }
    pub fn capacity(&self) -> u64 {
        self.spd * (self.n as u64 - 2)
    }
    fn rows(&self) -> &Vec<Vec<usize>> {
        &self.tables.0[&(self.layout, self.n)]
    }
    fn offset(&self, k: usize) -> u64 {
        if self.sbs[k].major == 0 { 0 } else { self.sbs[k].data_offset }
    }
    /// The members with these contents, in order.
    pub fn members(&self, bytes: &[u8], noise: &mut Rng) -> Vec<VDev> {
        let devs: Vec<VDev> = (0..self.n).map(|k| VDev::new(self.sizes[k], self.block_sizes[k])).collect();
        let mut by_number = vec![0; self.n];
        for (k, x) in self.numbers.iter().enumerate() {
            by_number[*x] = k;
        }
        let data = self.n as u64 - 2;
        for t in 0..self.spd {
            let (s, o) = (t / self.chunk, t % self.chunk);
            let row = &self.rows()[(s % self.rows().len() as u64) as usize];
            let mut xor = [0u8; 512];
            let mut any = false;
            for d in 0..data {
                let x = ((s * data + d) * self.chunk + o) as usize * 512;
                if x >= bytes.len() {
                    continue;
                }
                let b = &bytes[x..bytes.len().min(x + 512)];
                if b.iter().all(|b| *b == 0) {
                    continue;
                }
                any = true;
                xor.iter_mut().zip(b).for_each(|(a, b)| *a ^= b);
                let k = by_number[row[2 + d as usize]];
                devs[k].write((self.offset(k) + t) * 512, b);
            }
            let (p, q) = (by_number[row[0]], by_number[row[1]]);
            if any {
                devs[p].write((self.offset(p) + t) * 512, &xor);
            }
            // What Q holds has no influence
            devs[q].write((self.offset(q) + t) * 512, &[noise.byte(); 512]);
        }
        for k in 0..self.n {
            let size = self.sizes[k] / u64::from(self.block_sizes[k]) * u64::from(self.block_sizes[k]);
            devs[k].write(self.sbs[k].place(size), &self.sbs[k].bytes());
        }
        devs
    }
}
