//! Where the code places array sectors, for every layout code and for device
//! counts, chunk sizes and sector numbers of every magnitude.
use vh::util::*;
use md_recover::verif::md::MdAlgorithm;
use serde_json::{json, Value};

/// [sector, parity..., data], or [] if refused.
fn locate(level: u32, layout: u32, n: u32, chunk: u32, sector: u64) -> Vec<u64> {
    match MdAlgorithm::from_level_and_layout(level, layout) {
        MdAlgorithm::Raid5(a) => a
            .compute_sector(sector.into(), chunk.into(), n.into())
            .map(|(s, p, d)| vec![s.into(), p.into(), d.into()]),
        MdAlgorithm::Raid6(a) => a
            .compute_sector(sector.into(), chunk.into(), n.into())
            .map(|(s, p, q, d)| vec![s.into(), p.into(), q.into(), d.into()]),
        MdAlgorithm::Unsupported { .. } => None,
    }
    .unwrap_or_default()
}

const SUPPORTED: [(u32, &[u32]); 2] = [
    (5, &[0, 1, 2, 3, 4, 5]),
    (6, &[0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20]),
];

fn cases(ctx: &Ctx) -> Cases {
    let thorough = ctx.thorough;
    let max_n = if thorough { 20 } else { 9 };
    let sweeps = SUPPORTED.into_iter().flat_map(move |(level, layouts)| {
        layouts.iter().flat_map(move |&layout| {
            (0..=max_n).flat_map(move |n: u32| {
                let chunks: &[u32] = if n <= 5 || thorough { &[0, 1, 2, 3, 8] } else { &[1, 3] };
                chunks.iter().map(move |&chunk| {
                    let data = u64::from(n.saturating_sub(if level == 5 { 1 } else { 2 }));
                    // A little more than a full rotation period.
                    let count = (u64::from(n) * u64::from(n.max(1) - 1) + 2) * data.max(1) * u64::from(chunk.max(1));
                    let count = count.min(if thorough { 4000 } else { 700 });
                    let input = json!({"k": "sweep", "level": level, "layout": layout, "n": n, "chunk": chunk, "count": count});
                    Case::new(input, move || {
                        ok((0..count)
                            .map(|s| json!(locate(level, layout, n, chunk, s)))
                            .collect::<Vec<Value>>()
                            .into())
                    })
                })
            })
        })
    });
    let rnd = ctx.n(3000, 40000) as u64;
    let seed = ctx.copy();
    let wide = (0..rnd).map(move |k| {
        let mut r = seed.rng("layout", k);
        let level = *r.pick(&[5u32, 6, 6]);
        let layout = *r.pick(SUPPORTED[(level - 5) as usize].1);
        let n = match r.below(8) {
            0 => r.magnitude(32) as u32,
            1 => u32::MAX - r.below(3) as u32,
            2 => r.below(4) as u32,
            _ => r.range(3, 40) as u32,
        };
        let chunk = match r.below(8) {
            0 => r.magnitude(32) as u32,
            1 => u32::MAX - r.below(3) as u32,
            2 => r.range(1, 3000) as u32,
            _ => 1u32 << r.range(0, 14),
        };
        let sector = match r.below(4) {
            0 => u64::MAX - r.below(1000),
            // Around the places where narrower integers wrap.
            1 => {
                let base = match r.below(3) {
                    0 => 1u64 << 32,
                    1 => (1u64 << 32).wrapping_mul(u64::from(chunk)),
                    _ => (1u64 << 32).wrapping_mul(u64::from(chunk)).wrapping_mul(u64::from(n)),
                };
                base.wrapping_add(r.below(5000)).wrapping_sub(2500)
            }
            _ => r.magnitude(64),
        };
        let input = json!({"k": "wide", "level": level, "layout": layout, "n": w(n.into()), "chunk": w(chunk.into()), "sector": w(sector)});
        Case::new(input, move || {
            ok(locate(level, layout, n, chunk, sector).into_iter().map(w).collect::<Vec<_>>().into())
        })
    });
    let codes: Vec<(u32, u32)> = (0..=12u32)
        .chain([100, 255, 256, 0xffff_fffc, 0xffff_ffff])
        .flat_map(|level| (0..=40u32).chain([255, 256, 0x10002, u32::MAX]).map(move |l| (level, l)))
        .collect();
    let sup = codes.into_iter().map(|(level, layout)| {
        let input = json!({"k": "code", "level": w(level.into()), "layout": w(layout.into())});
        Case::new(input, move || {
            let a = MdAlgorithm::from_level_and_layout(level, layout);
            let kind = match &a {
                MdAlgorithm::Raid5(_) => 5,
                MdAlgorithm::Raid6(_) => 6,
                MdAlgorithm::Unsupported { .. } => 0,
            };
            let parity = a.parity_device_count().map_or(0, u32::from);
            ok(json!([kind, parity]))
        })
    });
    Box::new(sweeps.chain(wide).chain(sup))
}

fn main() {
    vh::main_with(cases)
}
