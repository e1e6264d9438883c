//! Reporting shared by the unit-level engines.
//! usage: u_xxx PROP REPLAYDIR SEED SECONDS
use std::collections::BTreeSet;
use std::time::Instant;
pub struct Ctx {
    pub prop: String,
    pub rep: std::path::PathBuf,
    pub seed: u64,
    pub secs: f64,
    pub start: Instant,
    pub evals: u64,
    pub distinct: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub fail: Option<String>,
}
impl Ctx {
    pub fn new() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        std::panic::set_hook(Box::new(|_| {}));
        Ctx { prop: a[1].clone(), rep: a[2].clone().into(), seed: a[3].parse().unwrap(), secs: a[4].parse().unwrap(), start: Instant::now(), evals: 0, distinct: BTreeSet::new(), samples: vec![], fail: None }
    }
    pub fn left(&self) -> bool {
        self.fail.is_none() && self.start.elapsed().as_secs_f64() < self.secs
    }
    /// Count one evaluation; `h` identifies a non-trivial case.
    pub fn count(&mut self, h: Option<u64>, sample: impl FnOnce() -> String) {
        self.evals += 1;
        if let Some(h) = h {
            if self.distinct.len() < 2_000_000 {
                self.distinct.insert(h);
            }
            if self.samples.len() < 3 {
                self.samples.push(sample());
            }
        }
    }
    pub fn fail(&mut self, m: String) {
        if self.fail.is_none() {
            self.fail = Some(m);
        }
    }
    pub fn finish(self) -> ! {
        let mut line = format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":{:?},\"wall\":{:.2}", self.evals, self.distinct.len(), self.samples, self.start.elapsed().as_secs_f64());
        let bad = self.fail.is_some();
        if let Some(m) = self.fail {
            let d = self.rep.join(&self.prop);
            let _ = std::fs::create_dir_all(&d);
            let f = d.join("replay.txt");
            let _ = std::fs::write(&f, format!("property: {}\nfailing input on the real code (unit level): {}\nreplay: {}\n", self.prop, m, std::env::args().collect::<Vec<_>>().join(" ")));
            line += &format!(",\"violation\":{:?},\"replay\":{:?}", m, f.to_str().unwrap());
        }
        println!("{}}}", line);
        std::process::exit(bad as i32)
    }
}
pub fn hash<T: std::hash::Hash>(t: T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}
