//! Which member the code puts where, and what its diagnosis says, for sets of
//! members in several orders.
use md_recover::verif::md::{MdArray, MdDeviceId};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use vh::md::{algorithm, reshape, uuid};
use vh::members::*;
use vh::util::*;

/// How devices are named: each by its own name, all by the same, or not at all.
fn name(naming: usize, k: usize) -> Option<String> {
    match naming % 3 {
        0 => Some(format!("d{k}")),
        1 => Some("d".to_string()),
        _ => None,
    }
}

/// The devices given, to be recognised by their identity whatever they are called.
struct Given(Vec<(u64, Rc<MdDeviceId>)>);

impl Given {
    fn id(&self, i: &Rc<MdDeviceId>) -> u64 {
        let of = |f: &dyn Fn(&Rc<MdDeviceId>) -> bool| self.0.iter().find(|(_, g)| f(g)).map(|(k, _)| *k);
        of(&|g| Rc::ptr_eq(g, i))
            .or_else(|| of(&|g| format!("{g:?}") == format!("{i:?}")))
            .or_else(|| i.to_string().strip_prefix('d').and_then(|s| s.parse().ok()))
            .unwrap_or(9999)
    }

    fn ids<'a>(&self, it: impl IntoIterator<Item = &'a Rc<MdDeviceId>>) -> Vec<u64> {
        let mut v: Vec<u64> = it.into_iter().map(|i| self.id(i)).collect();
        v.sort();
        v
    }

    fn set(&self, s: &Option<HashSet<Rc<MdDeviceId>>>) -> Value {
        match s {
            None => json!([]),
            Some(s) => json!([{"v": [], "ids": self.ids(s)}]),
        }
    }

    fn groups<K>(&self, m: &Option<HashMap<K, Vec<Rc<MdDeviceId>>>>, f: impl Fn(&K) -> Value) -> Value {
        let mut v: Vec<Value> = m
            .iter()
            .flatten()
            .map(|(k, i)| json!({"v": f(k), "ids": self.ids(i)}))
            .collect();
        v.sort_by_key(|x| x.to_string());
        if m.as_ref().is_some_and(|m| m.is_empty()) {
            // A problem that concerns nobody is not the same as none
            v.push(json!({"v": [], "ids": []}));
        }
        v.into()
    }
}

fn run(members: &[Member], orders: &[Vec<usize>], naming: usize) -> Value {
    use std::os::unix::ffi::OsStrExt;
    orders
        .iter()
        .enumerate()
        .map(|(j, order)| {
            let devices: Vec<_> = order
                .iter()
                .map(|k| Rc::new(members[*k].open(name(naming + j, *k).as_deref())))
                .collect();
            let g = Given(order.iter().zip(&devices).map(|(k, d)| (*k as u64, d.id.clone())).collect());
            let array = MdArray::open(devices);
            let (active, inactive) = array.verif_assembly();
            let mut active: Vec<(Value, u64)> = active.iter().map(|(n, d)| (w((*n).into()), g.id(&d.id))).collect();
            active.sort_by_key(|x| x.1);
            let d = array.diagnose();
            json!({
                "order": order,
                "active": active,
                "inactive": g.ids(inactive.iter().map(|d| &d.id)),
                "diag": {
                    "small": g.set(&d.device_too_small_problem),
                    "missing": g.set(&d.missing_superblock_problem),
                    "uuid": g.groups(&d.array_uuid_problem, uuid),
                    "name": g.groups(&d.array_name_problem, |n| json!(n.as_bytes())),
                    "algorithm": g.groups(&d.algorithm_problem, algorithm),
                    "size": g.groups(&d.size_problem, |s| w(s.0)),
                    "chunk": g.groups(&d.chunk_size_problem, |s| w(s.0.into())),
                    "disks": g.groups(&d.device_count_problem, |n| w(u32::from(*n).into())),
                    "reshape": g.groups(&d.reshape_problem, reshape),
                    "events": g.groups(&d.event_count_problem, |e| w(e.0)),
                    "index": g.groups(&d.device_role_index_problem, |i| w(*i as u64)),
                    "roles": g.groups(&d.device_roles_problem, |r| {
                        r.iter().map(|r| json!({
                            "n": r.device_number().map(|n| w(u32::from(n).into())).unwrap_or(json!([])),
                            "k": if r.device_number().is_some() { "number" }
                                 else if r.is_spare() { "spare" } else if r.is_faulty() { "faulty" }
                                 else if r.is_journal() { "journal" } else if r.is_invalid() { "invalid" } else { "other" },
                        })).collect::<Vec<_>>().into()
                    }),
                }
            })
        })
        .collect::<Vec<_>>()
        .into()
}

fn case(k: &'static str, members: Vec<Member>, orders: Vec<Vec<usize>>, naming: usize) -> Case {
    let input = json!({"k": k, "naming": naming, "members": members.iter().map(Member::json).collect::<Vec<_>>()});
    Case::new(input, move || ok(run(&members, &orders, naming)))
}

fn orders(r: &mut Rng, n: usize, count: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut v = vec![id.clone(), id.iter().rev().copied().collect()];
    while v.len() < count {
        let mut p = id.clone();
        r.shuffle(&mut p);
        v.push(p);
    }
    v.dedup();
    v
}

fn cases(ctx: &Ctx) -> Cases {
    let scen = ctx.scenarios().into_iter().enumerate().map(|(k, s)| {
        let m: Vec<Member> = s["members"].as_array().unwrap().iter().map(from_scenario).collect();
        let n = m.len();
        case("scenario", m, vec![(0..n).collect(), (0..n).rev().collect()], k)
    });
    let n = ctx.n(1500, 20000) as u64;
    let c = ctx.copy();
    let random = (0..n).map(move |k| {
        let mut r = c.rng("assemble", k);
        let (kind, m) = if k % 50 == 1 {
            ("many", many(&mut r))
        } else if k % 2 == 0 {
            ("positions", positions(&mut r))
        } else {
            ("attributes", attributes(&mut r))
        };
        let o = orders(&mut r, m.len(), 4);
        case(kind, m, o, k as usize)
    });
    Box::new(scen.chain(random))
}

fn main() {
    vh::main_with(cases)
}
