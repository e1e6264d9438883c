#![allow(dead_code, unused_imports, unused_macros)]
include!("mods.rs");
#[path = "common.rs"]
mod common;
use common::*;
use utils::CacheMap;
use vharness::gen::Rng;
use std::collections::BTreeMap;

/// Histories of insertions (new and repeated keys) and lookups.
fn main() {
    let mut c = Ctx::new();
    let mut r = Rng::new(c.seed ^ 22);
    let mut n = 0;
    while c.left() && n < 20_000 {
        n += 1;
        let cap = *r.pick(&[1usize, 1, 2, 3, 4, 7, 16, 1024]);
        let keys = 1 + r.below(2 * cap.min(20) + 2);
        let steps = 4 * keys + r.below(40) + if cap == 1024 && n % 50 == 0 { 3000 } else { 0 };
        let fresh_only = r.chance(1, 2); // as the commands use it: insert only after a miss
        let wide = steps > 2000;
        let mut hist: Vec<String> = vec![];
        let mut last: BTreeMap<i64, u64> = BTreeMap::new();
        let mut live: Vec<i64> = vec![]; // insertion order of live keys, meaningful with fresh_only
        let res = quiet(|| {
            let mut m: CacheMap<i64, u64> = CacheMap::with_capacity(cap);
            for s in 0..steps {
                let k = if wide { r.below(1500) as i64 } else { r.below(keys) as i64 };
                let got = m.get(&k).cloned();
                if let Some(g) = got {
                    if last.get(&k) != Some(&g) {
                        return Some(format!("get({}) = {}, most recently stored {:?}", k, g, last.get(&k)));
                    }
                }
                if fresh_only && got.is_some() != live.contains(&k) {
                    return Some(format!("get({}) = {:?}, but the key {} evicted", k, got, if got.is_some() { "was" } else { "was not" }));
                }
                if (!fresh_only && r.chance(1, 2)) || (fresh_only && got.is_none()) {
                    let v = s as u64 * 7 + 1;
                    if hist.len() < 60 {
                        hist.push(format!("insert({},{})", k, v));
                    }
                    m.insert(k, v);
                    last.insert(k, v);
                    if fresh_only {
                        if live.len() >= cap {
                            live.remove(0);
                        }
                        live.push(k);
                    }
                    if m.get(&k) != Some(&v) {
                        return Some(format!("get({}) = {:?} right after insert of {}", k, m.get(&k), v));
                    }
                }
                let present = (0..if wide { 0 } else { keys as i64 }).filter(|k| m.get(k).is_some()).count();
                if present > cap {
                    return Some(format!("{} entries held, capacity {}", present, cap));
                }
            }
            None
        });
        c.count(Some(hash(&hist)), || format!("capacity {} {}", cap, hist.join(" ")));
        match res {
            Ok(None) => {}
            Ok(Some(m)) => c.fail(format!("capacity {}: {} after {}", cap, m, hist.join(" "))),
            Err(e) => c.fail(format!("capacity {}: panic {} after {}", cap, e, hist.join(" "))),
        }
    }
    c.finish()
}
