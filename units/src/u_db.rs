#![allow(dead_code, unused_imports, unused_macros)]
include!("mods.rs");
#[path = "common.rs"]
mod common;
use common::*;
use map_database::*;
use std::collections::BTreeMap;
use vharness::gen::Rng;
use vharness::run::Scratch;

fn rows(db: &mut MapDatabase) -> Vec<(i64, Vec<u8>)> {
    let mut v: Vec<_> = db.iter_rows().collect();
    v.sort();
    v
}

/// Sequences of operations against a map model, ending in a second connection's view.
fn main() {
    let mut c = Ctx::new();
    let mut r = Rng::new(c.seed ^ 21);
    let sc = Scratch::new("db");
    let mut n = 0;
    while c.left() && n < 4_000 {
        n += 1;
        let p = sc.0.join("m.sqlite");
        let mut model: BTreeMap<i64, Vec<u8>> = BTreeMap::new();
        let key = |r: &mut Rng| match r.below(4) {
            0 => *r.pick(&[0i64, 1, -1, 4096, -4096, 16777216, -34359738368, 34368122879]),
            1 => r.below(6) as i64,
            2 => r.range(-2048, 2047) as i64 * 4096,
            _ => (r.next() % (1 << 36)) as i64 - (1 << 35),
        };
        let blob = |r: &mut Rng| {
            let n = *r.pick(&[0usize, 1, 2, 5, 40, 5000]);
            r.bytes(n)
        };
        for _ in 0..r.below(8) {
            let k = key(&mut r);
            let b = blob(&mut r);
            model.insert(k, b);
        }
        vharness::run::write_db(&p, &model);
        let _ = std::fs::remove_file(sc.0.join("m.sqlite-journal"));
        let mut committed = model.clone();
        let mut hist = vec![format!("initial keys {:?}", model.keys().collect::<Vec<_>>())];
        let mut known: Vec<i64> = model.keys().cloned().collect();
        let res = quiet(|| -> Option<String> {
            let conn = sqlite::open(&p).unwrap();
            let _ = conn.execute("PRAGMA synchronous=OFF");
            let mut db = match MapDatabase::new(&conn) {
                Ok(d) => d,
                Err(e) => return Some(format!("MapDatabase::new fails on a valid map: {}", e)),
            };
            if !db.is_in_transaction() {
                return Some("no transaction is open after MapDatabase::new".into());
            }
            for _ in 0..r.below(14) {
                let k = if !known.is_empty() && r.chance(3, 4) { *r.pick(&known) } else { key(&mut r) };
                match r.below(9) {
                    0..=2 => {
                        let b = blob(&mut r);
                        hist.push(format!("set {} ({} bytes)", k, b.len()));
                        if let Err(e) = db.set_block(k, &b) {
                            return Some(format!("set_block fails: {}", e));
                        }
                        model.insert(k, b);
                        known.push(k);
                    }
                    3 | 4 => {
                        hist.push(format!("get {}", k));
                        match (db.get_block(k), model.get(&k)) {
                            (Ok(g), Some(w)) if &g == w => {}
                            (Err(DBError::MissingData), None) => {}
                            (g, w) => return Some(format!("get_block({}) = {:?}, stored {:?}", k, g.map(|v| v.len()), w.map(|v| v.len()))),
                        }
                    }
                    5 => {
                        hist.push(format!("delete {}", k));
                        if let Err(e) = db.delete_block(k) {
                            return Some(format!("delete_block fails: {}", e));
                        }
                        model.remove(&k);
                    }
                    6 => {
                        hist.push("list".into());
                        let got = rows(&mut db);
                        let want: Vec<_> = model.clone().into_iter().collect();
                        if got != want {
                            return Some(format!("listing yields keys {:?}, stored {:?}", got.iter().map(|x| x.0).collect::<Vec<_>>(), model.keys().collect::<Vec<_>>()));
                        }
                    }
                    7 => {
                        hist.push("commit".into());
                        if let Err(e) = db.commit_if_needed() {
                            return Some(format!("commit fails: {}", e));
                        }
                        if db.is_in_transaction() {
                            return Some("still in a transaction after commit".into());
                        }
                        committed = model.clone();
                    }
                    _ => {
                        hist.push("vacuum".into());
                        if let Err(e) = db.vacuum() {
                            return Some(format!("vacuum fails: {}", e));
                        }
                        committed = model.clone();
                    }
                }
            }
            if r.chance(1, 2) {
                hist.push("commit".into());
                if let Err(e) = db.commit_if_needed() {
                    return Some(format!("final commit fails: {}", e));
                }
                committed = model.clone();
            } else {
                hist.push("close without commit".into());
            }
            None
        });
        c.count(Some(hash(&hist)), || hist.join("; "));
        let f = match res {
            Ok(None) => match vharness::run::read_db(&p) {
                Ok(g) if g == committed => None,
                Ok(g) => Some(format!("a later reader sees keys {:?} (contents may differ), committed were {:?}", g.keys().collect::<Vec<_>>(), committed.keys().collect::<Vec<_>>())),
                Err(e) => Some(e),
            },
            Ok(f) => f,
            Err(e) => Some(format!("panic: {}", e)),
        };
        if let Some(m) = f {
            c.fail(format!("{} -- after: {}", m, hist.join("; ")));
        }
    }
    let _ = std::fs::remove_dir_all(&sc.0);
    c.finish()
}
