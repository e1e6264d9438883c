//! e2e PROP BIN REPLAYDIR SEED SECONDS CMD[,CMD..]   (env CASES: stop after)
//! Prints a JSON summary as the last line; exit 0 clean, 1 violation.
use std::path::Path;
use std::sync::atomic::*;
use std::sync::Mutex;
use std::time::*;
use vharness::gen::*;
use vharness::run::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, bin, rep) = (&a[1], Path::new(&a[2]), Path::new(&a[3]));
    let seed: u64 = a[4].parse().unwrap();
    let secs: f64 = a[5].parse().unwrap();
    let cmds: Vec<&str> = a[6].split(',').collect();
    let max: u64 = std::env::var("CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(u64::MAX);
    let counts = a.get(7).map_or(true, |v| v != "nocounts");
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let (runs, nontriv) = (AtomicU64::new(0), AtomicU64::new(0));
    let fail: Mutex<Option<(u64, Case, String)>> = Mutex::new(None);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let nw = std::thread::available_parallelism().map_or(4, |n| n.get());
    std::thread::scope(|s| {
        for w in 0..nw {
            let (next, runs, nontriv, fail, samples, cmds) = (&next, &runs, &nontriv, &fail, &samples, &cmds);
            s.spawn(move || {
                let sc = Scratch::new(&format!("w{}", w));
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= max || start.elapsed().as_secs_f64() > secs || fail.lock().unwrap().is_some() {
                        break;
                    }
                    let mut r = Rng::new(seed.wrapping_mul(1_000_003) + i);
                    let cmd = cmds[(i % cmds.len() as u64) as usize];
                    let mut c = gen_case_of(&mut r, cmd, true, i == 3);
                    if prop == "C09" && r.chance(1, 20) {
                        c.args.param2 = Some(r.pick(&["256", "257", "300", "511", "-1", "1000", "65535", "65536", "65541", "4294967301", "12x", "1.5", "0x10"]).to_string());
                    }
                    let (m, t) = check_case(bin, &sc.0, &c, counts);
                    runs.fetch_add(1, Ordering::SeqCst);
                    if t > 0 {
                        nontriv.fetch_add(1, Ordering::SeqCst);
                        let mut s = samples.lock().unwrap();
                        if s.len() < 3 {
                            s.push(format!("{} on {} blocks, {} touched", c.args.to_argv("INPUT").join(" "), c.main.len(), t));
                        }
                    }
                    if let Some(m) = m {
                        let (c, m2) = shrink(bin, &sc.0, c, counts);
                        let mut f = fail.lock().unwrap();
                        if f.is_none() {
                            *f = Some((i, c, if m2.is_empty() { m } else { m2 }));
                        }
                    }
                }
            });
        }
    });
    let f = fail.into_inner().unwrap();
    let mut line = format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":{:?},\"wall\":{:.2}", runs.into_inner(), nontriv.into_inner(), samples.into_inner().unwrap(), start.elapsed().as_secs_f64());
    let bad = f.is_some();
    if let Some((i, c, m)) = f {
        let p = save_replay(rep, prop, &c, &m, &format!("generated case: seed {} index {}\n", seed, i));
        line += &format!(",\"violation\":{:?},\"replay\":{:?}", m, p.to_str().unwrap());
    }
    println!("{}}}", line);
    std::process::exit(bad as i32);
}
