//! Runs the real command-line program on a scratch copy of the map(s) and
//! compares the outcome with the expectation.
use crate::codec::*;
use crate::gen::*;
use crate::oracle::*;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    pub text: String,
    pub err: String,
    pub timeout: bool,
}

pub fn write_db(p: &Path, w: &World) {
    let _ = std::fs::remove_file(p);
    let c = sqlite::open(p).unwrap();
    c.execute("PRAGMA synchronous=OFF; BEGIN; CREATE TABLE blocks (pos INT NOT NULL PRIMARY KEY, data BLOB)").unwrap();
    let mut s = c.prepare("INSERT INTO blocks VALUES (?,?)").unwrap();
    for (k, v) in w {
        s.bind(1, *k).unwrap();
        s.bind(2, v.as_slice()).unwrap();
        s.next().unwrap();
        s.reset().unwrap();
    }
    drop(s);
    c.execute("COMMIT").unwrap();
}
pub fn read_db(p: &Path) -> Result<World, String> {
    let c = sqlite::open(p).map_err(|e| e.to_string())?;
    let mut s = c.prepare("SELECT pos, data FROM blocks").map_err(|e| e.to_string())?;
    let mut w = World::new();
    loop {
        match s.next().map_err(|e| e.to_string())? {
            sqlite::State::Row => {
                let k: i64 = s.read(0).map_err(|e| e.to_string())?;
                let v: Vec<u8> = s.read(1).map_err(|e| e.to_string())?;
                if w.insert(k, v).is_some() {
                    return Err(format!("key {} twice", k));
                }
            }
            sqlite::State::Done => break,
        }
    }
    Ok(w)
}

pub fn exec(bin: &Path, argv: &[String], stdin: &str, secs: u64, envs: &[(String, String)]) -> Out {
    let mut ch = Command::new(bin)
        .args(argv)
        .envs(envs.iter().cloned())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn");
    let _ = ch.stdin.take().unwrap().write_all(stdin.as_bytes());
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let t2 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let st = Instant::now();
    let mut timeout = false;
    let mut nap = 1;
    loop {
        match ch.try_wait() {
            Ok(Some(_)) => break,
            _ => {
                if st.elapsed() > Duration::from_secs(secs) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    timeout = true;
                    break;
                }
                std::thread::sleep(Duration::from_millis(nap));
                nap = (nap + 1).min(5);
            }
        }
    }
    Out {
        text: String::from_utf8_lossy(&t1.join().unwrap()).into_owned(),
        err: String::from_utf8_lossy(&t2.join().unwrap()).into_owned(),
        timeout,
    }
}

/// Reads "12.3k" style numbers. Returns (value, half unit of last place).
fn parse_num(s: &str) -> Option<(f64, f64)> {
    let (body, unit) = match s.chars().last()? {
        'k' => (&s[..s.len() - 1], 1e3),
        'M' => (&s[..s.len() - 1], 1e6),
        'B' => (&s[..s.len() - 1], 1e9),
        'T' => (&s[..s.len() - 1], 1e12),
        _ => (s, 1.0),
    };
    let v: f64 = body.parse().ok()?;
    let places = body.find('.').map_or(0, |i| body.len() - i - 1) as i32;
    Some((v * unit, if unit == 1.0 { 0.0 } else { 0.51 * unit * 10f64.powi(-places) + v * unit * 1e-6 }))
}
fn nums_in(line: &str) -> Vec<(f64, f64)> {
    line.split_whitespace().filter_map(|w| {
        let w = w.trim_matches(|c: char| !c.is_ascii_alphanumeric());
        if w.chars().next().map_or(false, |c| c.is_ascii_digit()) { parse_num(w) } else { None }
    }).collect()
}
pub fn check_counts(e: &Expect, out: &str) -> Option<String> {
    let lines: Vec<&str> = out.split(|c| c == '\n' || c == '\r').filter(|l| l.starts_with("info:")).collect();
    let f: u64 = lines.iter().filter(|l| l.contains("Skipped") || l.contains("invalid")).filter_map(|l| nums_in(l).first().map(|x| x.0 as u64)).sum();
    if let Some(want) = e.failed {
        if want < 1000 && f != want {
            return Some(format!("reported {} skipped invalid mapblocks, expected {}", f, want));
        }
    }
    if let Some((kw, nums)) = &e.counts {
        let l = match lines.iter().find(|l| l.contains(kw) && !nums_in(l).is_empty()) {
            Some(l) => l,
            None => return Some(format!("no count reported (expected {:?})", nums)),
        };
        let got = nums_in(l);
        // "param2" never parses as a number because of its first letter.
        for (i, n) in nums.iter().enumerate() {
            match got.get(i) {
                Some((v, tol)) if (v - *n as f64).abs() <= *tol => {}
                g => return Some(format!("reported count {:?} in {:?}, expected {}", g.map(|g| g.0), l, n)),
            }
        }
    }
    None
}

pub fn compare(e: &Expect, got: &World) -> Option<String> {
    for (k, x) in &e.world {
        let bp = unkey(*k);
        let g = match got.get(k) {
            Some(g) => g,
            None => return Some(format!("block {:?} is missing", bp)),
        };
        match x {
            Exp::Bytes(b) => {
                if b != g {
                    // allow a semantically equal re-encoding of a decodable block
                    match (decode(b), decode(g)) {
                        (Ok(x), Ok(y)) => {
                            if let Some(d) = diff(&x, &y) {
                                return Some(format!("block {:?} should be unchanged: {}", bp, d));
                            }
                        }
                        _ => return Some(format!("bytes of block {:?} should be unchanged", bp)),
                    }
                }
            }
            Exp::Block(w) => match decode(g) {
                Err(m) => return Some(format!("block {:?} no longer decodes: {}", bp, m)),
                Ok(mut g) => {
                    let mut w = w.clone();
                    if e.loose_inv {
                        for b in [&mut *w, &mut g] {
                            for m in b.meta.values_mut() {
                                let mut v = vec![];
                                for l in m.inv.split(|c| *c == b'\n').filter(|l| !l.is_empty()) {
                                    v.extend_from_slice(l);
                                    v.push(b'\n');
                                }
                                m.inv = v;
                            }
                        }
                    }
                    if let Some(d) = diff(&w, &g) {
                        return Some(format!("block {:?}: {}", bp, d));
                    }
                }
            },
        }
    }
    for k in got.keys() {
        if !e.world.contains_key(k) {
            return Some(format!("unexpected block {:?}", unkey(*k)));
        }
    }
    None
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::*;
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("vharness-{}-{}-{}", std::process::id(), tag, N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn run_case(bin: &Path, dir: &Path, c: &Case) -> Result<(Expect, Out, World, bool), String> {
    let m = dir.join("map.sqlite");
    let i = dir.join("input.sqlite");
    write_db(&m, &c.main);
    let mut before = vec![];
    if c.args.cmd == "overlay" {
        write_db(&i, &c.input);
        before = std::fs::read(&i).unwrap();
    }
    // the map is named by its file or by its world directory
    let named = if c.main.len() % 4 == 1 { dir } else { m.as_path() };
    let mut argv = vec!["-y".to_string(), named.to_str().unwrap().to_string()];
    argv.extend(c.args.to_argv(i.to_str().unwrap()));
    let out = exec(bin, &argv, "", 60, &[]);
    if out.timeout {
        return Err("the program did not finish within 60 s".into());
    }
    let got = read_db(&m)?;
    let same_input = c.args.cmd != "overlay" || (std::fs::read(&i).unwrap() == before && !i.with_extension("sqlite-journal").exists());
    Ok((expect(c), out, got, same_input))
}

/// None: as expected.  Some: what is wrong.
pub fn check_case(bin: &Path, dir: &Path, c: &Case, counts: bool) -> (Option<String>, usize) {
    let (e, out, got, same) = match run_case(bin, dir, c) {
        Ok(x) => x,
        Err(m) => return (Some(m), 0),
    };
    let t = e.touched;
    if out.err.contains("panicked") || out.err.contains("overflow") {
        return (Some(format!("the program panicked: {}", out.err.trim())), t);
    }
    // a value that cannot be written must be refused, with the map as it was
    if c.args.param2.as_ref().map_or(false, |v| v.parse::<u8>().is_err()) {
        if out.text.contains("Done.") || !(out.text.to_lowercase() + &out.err.to_lowercase()).contains("error") {
            return (Some(format!("param2 value {:?} was accepted: {:.300}", c.args.param2, out.text.trim())), t);
        }
        return (compare(&e, &got), t);
    }
    if !out.text.contains("Done.") {
        return (Some(format!("the program did not complete: {:.300} {:.300}", out.text.trim(), out.err.trim())), t);
    }
    if !same {
        return (Some("the input map was modified".into()), t);
    }
    if let Some(d) = compare(&e, &got) {
        return (Some(d), t);
    }
    if counts {
        if let Some(d) = check_counts(&e, &out.text) {
            return (Some(d), t);
        }
    }
    (None, t)
}

/// Drops blocks one by one while the failure stays.
pub fn shrink(bin: &Path, dir: &Path, mut c: Case, counts: bool) -> (Case, String) {
    let mut msg = check_case(bin, dir, &c, counts).0.unwrap_or_default();
    let until = Instant::now() + Duration::from_secs(15);
    for which in 0..2 {
        let keys: Vec<i64> = if which == 0 { &c.main } else { &c.input }.keys().cloned().collect();
        for k in keys {
            if Instant::now() > until {
                return (c, msg);
            }
            let mut d = c.clone();
            if which == 0 { &mut d.main } else { &mut d.input }.remove(&k);
            if let Some(m) = check_case(bin, dir, &d, counts).0 {
                c = d;
                msg = m;
            }
        }
    }
    (c, msg)
}

/// Writes a replay directory: the maps, the command and what went wrong.
pub fn save_replay(dir: &Path, prop: &str, c: &Case, msg: &str, extra: &str) -> PathBuf {
    let d = dir.join(prop);
    let _ = std::fs::create_dir_all(&d);
    write_db(&d.join("map.sqlite"), &c.main);
    let mut argv = vec!["mapeditr".to_string(), "-y".into(), "map.sqlite".into()];
    if c.args.cmd == "overlay" {
        write_db(&d.join("input.sqlite"), &c.input);
    }
    argv.extend(c.args.to_argv("input.sqlite"));
    let mut t = format!("property: {}\nfailure: {}\n{}", prop, msg, extra);
    t += &format!("replay: in a scratch copy of this directory, run\n  {}\n", argv.join(" "));
    t += &format!("arguments: {:?}\nblocks in map.sqlite: {:?}\nblocks in input.sqlite: {:?}\n", c.args,
        c.main.keys().map(|k| unkey(*k)).collect::<Vec<_>>(), c.input.keys().map(|k| unkey(*k)).collect::<Vec<_>>());
    let f = d.join("replay.txt");
    std::fs::write(&f, t).unwrap();
    f
}
