#![allow(dead_code, unused_imports, unused_macros)]
include!("mods.rs");
mod cmd_line {
    include!("@REPO@/src/cmd_line.rs");
    pub fn show(done: usize, total: usize, real: Instant, eta: Instant, progress: bool) {
        print_editing_status(done, total, real, eta, progress)
    }
}
#[path = "common.rs"]
mod common;
use common::*;
use std::time::{Duration, Instant};
use vharness::gen::Rng;

fn pick_num(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(1200) as u64,
        1 => *r.pick(&[0u64, 1, 999, 1000, 1001, 9_994, 9_995, 9_999, 10_000, 99_949, 99_950, 99_999, 100_000, 999_499, 999_500, 999_999, 1_000_000, 16_777_215, 16_777_217, 999_999_999, 1_000_000_000, 999_999_999_999, 1_000_000_000_000, u64::MAX, u64::MAX - 1, u32::MAX as u64, 1 << 32]),
        2 => 10u64.pow(r.below(20) as u32).wrapping_add(r.below(7) as u64).wrapping_sub(3),
        _ => {
            let b = r.below(64) as u32;
            ((1u64 << b) - 1) & r.next() | 1u64 << b
        }
    }
}
/// A number below 1000 is shown as it is; a larger one by three digits or more and its magnitude.
fn wrong_num(n: u64, t: &str) -> Option<String> {
    let bad = |m: &str| Some(format!("{} is shown as {:?}: {}", n, t, m));
    if n < 1000 {
        return if t == n.to_string() { None } else { bad("not the number") };
    }
    let (num, unit): (&str, u128) = match t.chars().last() {
        Some('k') => (&t[..t.len() - 1], 1_000),
        Some('M') => (&t[..t.len() - 1], 1_000_000),
        Some('B') => (&t[..t.len() - 1], 1_000_000_000),
        Some('T') => (&t[..t.len() - 1], 1_000_000_000_000),
        _ => return if t == n.to_string() { None } else { bad("no magnitude") },
    };
    let dec = num.find('.').map_or(0, |i| num.len() - i - 1) as u32;
    let digits: String = num.chars().filter(|c| *c != '.').collect();
    let k: u128 = match digits.parse() {
        Ok(k) if dec < 20 => k,
        _ => return bad("not a number"),
    };
    if k < 100 {
        return bad("fewer than three digits");
    }
    let (a, b) = (k * unit * 10_000, n as u128 * 10u128.pow(dec) * 10_000);
    let d = if a > b { a - b } else { b - a };
    if d / 10_000 * 10_000 > b / 10_000 * 51 { bad("more than 0.51 percent off") } else { None }
}
fn clock(s: u64) -> String {
    if s < 3600 { format!("{:02}:{:02}", s / 60, s % 60) } else { format!("{}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60) }
}
fn secs(t: &str) -> Option<u64> {
    let mut v = 0u64;
    for p in t.split(':') {
        v = v.checked_mul(60)?.checked_add(p.parse().ok()?)?;
    }
    Some(v)
}
#[derive(Debug, Clone)]
struct P { done: usize, total: usize, real: u64, eta: u64, show: bool }
fn pick_p(r: &mut Rng) -> P {
    let total = match r.below(5) { 0 => 0, 1 => r.below(12) as usize, 2 => 1, _ => pick_num(r) as usize };
    let done = match r.below(5) { 0 => 0, 1 => total, 2 => total.saturating_sub(1), 3 => total / (1 + r.below(30) as usize), _ => if total == 0 { 0 } else { (r.next() % total as u64) as usize } };
    let eta = match r.below(3) { 0 => 0, 1 => r.below(200) as u64, _ => r.below(20_000) as u64 };
    P { done, total, eta, real: eta + r.below(100) as u64, show: r.chance(7, 8) }
}
const CASES: usize = 400;
fn child(seed: u64) {
    let mut r = Rng::new(seed);
    for i in 0..CASES {
        let p = pick_p(&mut r);
        let now = Instant::now();
        let back = |s: u64| now.checked_sub(Duration::from_secs(s)).unwrap_or(now);
        println!("\n#{}", i);
        if let Err(e) = quiet(|| cmd_line::show(p.done, p.total, back(p.real), back(p.eta), p.show)) {
            println!("PANIC {}", e);
        }
    }
    println!("\n#end");
}
fn wrong_progress(p: &P, t: &str) -> Option<String> {
    let bad = |m: String| Some(format!("{:?} is shown as {:?}: {}", p, t.trim(), m));
    if t.contains("PANIC") {
        return bad("panicked".into());
    }
    let near = |shown: &str, s: u64| {
        // the clock may be younger than the time asked for
        secs(shown).map_or(false, |v| v <= s + 5 && (v + 1 >= s || v == 0))
    };
    let word = |end: &str| -> Option<String> {
        let i = t.find(end)?;
        t[..i].trim_end().split_whitespace().last().map(|x| x.to_string())
    };
    match word("elapsed") {
        Some(e) if near(&e, p.real) => {}
        e => return bad(format!("elapsed time {:?}", e)),
    }
    if !p.show {
        return None;
    }
    let part = if p.total == 0 { 0. } else { p.done as f64 / p.total as f64 };
    let pc: f64 = match word("%").and_then(|w| w.trim_start_matches('[').rsplit(|c| c == ']').next().map(|x| x.to_string())).and_then(|w| w.parse().ok()) {
        Some(x) => x,
        None => return bad("no percentage".into()),
    };
    if !(pc >= 0. && pc <= 100.) || (pc - part * 100.).abs() > 0.11 {
        return bad(format!("{} percent", pc));
    }
    if let (Some(a), Some(b)) = (t.find('['), t.find(']')) {
        let bars = t[a..b].chars().filter(|c| *c == '=').count() as f64;
        if b - a - 1 != 25 || (bars - part * 25.).abs() > 1.01 {
            return bad(format!("a bar of {} of {}", bars, b - a - 1));
        }
    }
    None
}

fn main() {
    if let Ok(s) = std::env::var("U_CHILD") {
        std::panic::set_hook(Box::new(|_| {}));
        return child(s.parse().unwrap());
    }
    let mut c = Ctx::new();
    let mut r = Rng::new(c.seed ^ 24);
    let mut n = 0u64;
    while c.left() && n < 400_000 {
        n += 1;
        let x = pick_num(&mut r);
        match quiet(|| utils::fmt_big_num(x)) {
            Ok(t) => {
                if let Some(m) = wrong_num(x, &t) {
                    c.fail(m);
                }
                c.count(Some(x), || format!("{} as {}", x, t));
            }
            Err(e) => c.fail(format!("showing {}: panic {}", x, e)),
        }
        let s = match r.below(3) { 0 => *r.pick(&[0u64, 59, 60, 3599, 3600, 3601, 86_399, 86_400, 360_000]), 1 => r.below(8000) as u64, _ => pick_num(&mut r) };
        let d = Duration::new(s, *r.pick(&[0u32, 1, 499_999_999, 500_000_000, 999_999_999]));
        match quiet(|| utils::fmt_duration(d)) {
            Ok(t) => {
                if t != clock(s) {
                    c.fail(format!("{:?} is shown as {:?}, not {}", d, t, clock(s)));
                }
            }
            Err(e) => c.fail(format!("showing {:?}: panic {}", d, e)),
        }
        if n % 2000 == 1 {
            let seed = c.seed.wrapping_mul(7919) + n;
            let o = std::process::Command::new(std::env::current_exe().unwrap()).env("U_CHILD", seed.to_string()).output().unwrap();
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            let mut q = Rng::new(seed);
            let mut parts = out.split("\n#");
            parts.next();
            for i in 0..CASES {
                let p = pick_p(&mut q);
                let t = parts.next().unwrap_or("PANIC (process ended)");
                let t = t.strip_prefix(&format!("{}\n", i)).unwrap_or(t);
                if let Some(m) = wrong_progress(&p, t) {
                    c.fail(m);
                }
                c.count(Some(hash((p.done, p.total, p.eta))), || format!("{:?}", p));
            }
        }
    }
    c.finish()
}
