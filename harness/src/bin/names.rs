//! How names compare, hash and show, in each form they can be held in.
use md_recover::verif::ext4::Ext4String;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use vh::util::*;

fn hash(x: &impl Hash) -> String {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    format!("{:x}", h.finish())
}

fn sign(o: Ordering) -> i32 {
    o as i32
}

/// As the filesystem gives it, or from text.
fn name(k: &str, b: &'static [u8]) -> Ext4String<&'static [u8]> {
    if k == "text" {
        Ext4String::from(std::str::from_utf8(b).unwrap())
    } else {
        Ext4String::from_null_terminated_bytes(b)
    }
}

/// One answer if all agree.
fn same(v: &[i32]) -> i32 {
    if v.iter().all(|x| *x == v[0]) { v[0] } else { 99 }
}

fn run(k: &str, names: &[&'static [u8]]) -> Value {
    let held: Vec<_> = names.iter().map(|n| name(k, n)).collect();
    let owned: Vec<_> = held.iter().map(|n| n.to_owned()).collect();
    let each: Vec<Value> = held
        .iter()
        .zip(&owned)
        .map(|(n, o)| {
            let again = n.clone();
            let text = n.to_string();
            let bytes: &[u8] = n.into();
            let obytes: &[u8] = o.into();
            let utf8 = String::try_from(n).ok();
            // Whatever is asked of one form can be asked of the other
            let forms = obytes == bytes
                && o.len() == n.len()
                && o.is_empty() == n.is_empty()
                && o.to_string() == text
                && o.to_str_lossy() == text
                && n.to_str_lossy() == text
                && String::try_from(o).ok() == utf8
                && hash(o) == hash(n)
                && hash(&again) == hash(n)
                && again == *n
                && again.cmp(n) == Ordering::Equal
                && o.to_owned() == *o;
            json!({
                "bytes": bytes, "len": n.len(), "empty": n.is_empty(), "text": text.as_bytes(),
                "utf8": utf8.map(|s| vec![s.into_bytes()]).unwrap_or_default(),
                "hash": hash(n), "forms": forms,
            })
        })
        .collect();
    let cmp: Vec<Vec<i32>> = held
        .iter()
        .zip(&owned)
        .map(|(a, oa)| {
            held.iter()
                .zip(&owned)
                .map(|(b, ob)| {
                    let c = same(&[
                        sign(a.cmp(b)),
                        sign(oa.cmp(ob)),
                        a.partial_cmp(b).map_or(98, sign),
                        oa.partial_cmp(ob).map_or(98, sign),
                        if a < b { -1 } else if a > b { 1 } else { 0 },
                        if a <= b { if a >= b { 0 } else { -1 } } else { 1 },
                    ]);
                    // Equality has to say the same
                    let eq = (a == b) && (oa == ob) && !(a != b);
                    let ne = (a != b) && (oa != ob) && !(a == b);
                    if eq == (c == 0) && ne == (c != 0) { c } else { 97 }
                })
                .collect()
        })
        .collect();
    let hashed: HashSet<_> = owned.iter().cloned().collect();
    let ordered: BTreeSet<_> = owned.iter().cloned().collect();
    let found = owned.iter().all(|o| hashed.contains(o) && ordered.contains(o));
    json!({"each": each, "cmp": cmp, "hashed": hashed.len(), "ordered": ordered.len(), "found": found})
}

fn case(k: &'static str, names: Vec<Vec<u8>>) -> Case {
    let input = json!({"k": k, "names": names});
    Case::new(input, move || {
        let held: Vec<&'static [u8]> = names.iter().map(|n| &*n.clone().leak()).collect();
        ok(run(k, &held))
    })
}

fn piece(r: &mut Rng) -> Vec<u8> {
    let c = |n: u64| char::from_u32(n as u32).unwrap_or('x').to_string().into_bytes();
    match r.below(12) {
        0 => vec![r.byte()],
        1 => vec![r.range(128, 255) as u8],
        2 => c(r.below(128)),
        3 => c(r.range(128, 0x7ff)),
        4 => c(r.range(0x800, 0xffff)),
        5 => c(r.range(0x10000, 0x10ffff)),
        6 => {
            let mut v = c(r.range(0x800, 0x10ffff));
            v.pop();
            v
        }
        7 => {
            let mut v = c(r.range(0x80, 0x10ffff));
            let k = r.below(v.len() as u64) as usize;
            v[k] ^= 1 << r.below(8);
            v
        }
        8 => r.pick(&[&b"\xed\xa0\x80"[..], b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xe0\x80\xaf", b"\xf8\x88\x80\x80\x80", b"\xef\xbf\xbd"]).to_vec(),
        9 => vec![0],
        _ => b"abc".to_vec(),
    }
}

fn random(r: &mut Rng, text: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..r.range(1, 9) {
        let mut n = if v.is_empty() || r.chance(1, 3) {
            let mut n = vec![];
            for _ in 0..r.below(6) {
                n.extend(piece(r));
            }
            n
        } else {
            // Much like another
            r.pick(&v).clone()
        };
        match r.below(8) {
            0 => n.extend(piece(r)),
            1 => {
                n.pop();
            }
            2 if !n.is_empty() => {
                let k = r.below(n.len() as u64) as usize;
                n[k] = r.byte();
            }
            3 => n.extend_from_slice(&[b'z'; 255]),
            4 => n.make_ascii_uppercase(),
            5 => n = String::from_utf8_lossy(&n).into_owned().into_bytes(),
            _ => {}
        }
        n.truncate(255);
        if text {
            n = String::from_utf8_lossy(&n).into_owned().into_bytes();
        }
        v.push(n);
    }
    v
}

fn cases(ctx: &Ctx) -> Cases {
    let mut v = vec![];
    for s in ctx.scenarios() {
        let names: Vec<Vec<u8>> = serde_json::from_value(s["names"].clone()).unwrap();
        // All against all, or only neighbours, in parts
        let all = s["pairs"].as_bool().unwrap();
        let parts: Vec<&[Vec<u8>]> = names.chunks(20).collect();
        for (a, p) in parts.iter().enumerate() {
            for q in &parts[a..if all { parts.len() } else { a + 1 }] {
                v.push(case("terminated", p.iter().chain(*q).cloned().collect()));
            }
        }
        let valid: Vec<Vec<u8>> = names.iter().filter(|n| std::str::from_utf8(n).is_ok()).take(80).cloned().collect();
        v.push(case("text", valid));
    }
    let n = ctx.n(2000, 30000) as u64;
    let c = ctx.copy();
    Box::new(v.into_iter().chain((0..n).map(move |k| {
        let mut r = c.rng("names", k);
        let kind = if k % 4 == 3 { "text" } else { "terminated" };
        case(kind, random(&mut r, kind == "text"))
    })))
}

fn main() {
    vh::main_with(cases)
}
