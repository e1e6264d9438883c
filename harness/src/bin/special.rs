//! special MODE PROP BIN REPLAYDIR SEED SECONDS [SHIM]
//! MODE: args (C20), crash (C19), big (C10/C22: more blocks than the cache holds), noop (vacuum, C21), open (C23: which directories and files are taken for maps)
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::*;
use vharness::codec::*;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::run::*;

struct Acc {
    evals: u64,
    distinct: BTreeSet<String>,
    samples: Vec<String>,
    fail: Option<(String, Case, String)>,
}
struct Cx<'a> {
    prop: &'a str,
    bin: &'a Path,
    seed: u64,
    secs: f64,
    start: Instant,
    shim: String,
    acc: Mutex<Acc>,
}
impl<'a> Cx<'a> {
    fn left(&self) -> bool {
        self.start.elapsed().as_secs_f64() < self.secs && self.acc.lock().unwrap().fail.is_none()
    }
    fn count(&self, id: String) {
        let mut a = self.acc.lock().unwrap();
        a.evals += 1;
        if a.samples.len() < 3 && !a.distinct.contains(&id) {
            a.samples.push(id.clone());
        }
        a.distinct.insert(id);
    }
    fn fail(&self, m: String, c: &Case, extra: String) {
        let mut a = self.acc.lock().unwrap();
        if a.fail.is_none() {
            a.fail = Some((m, c.clone(), extra));
        }
    }
}

fn simple(r: &mut Rng, bp: V3, name: &str, rnd: bool) -> Vec<u8> {
    let mut b = gen_block(r, bp, &Opts { dup_names: false, max_blocks: 1, undecodable: false, big: false, many: false });
    b.version = 29;
    b.flags = 0;
    b.nimap = vec![(0u16, name.as_bytes().to_vec())].into_iter().collect();
    b.nodes = vec![0; 4096];
    b.meta.clear();
    b.objects.clear();
    b.timers.clear();
    b.param1 = if rnd { r.bytes(4096) } else { vec![r.next() as u8; 4096] };
    b.param2 = if rnd { r.bytes(4096) } else { vec![r.next() as u8; 4096] };
    b.encode()
}

// ---- C20 -----------------------------------------------------------------
const GOOD: [&str; 6] = ["air", "ignore", "a:b", "default:stone", "mod_2:Item_X9", "0:0"];
const BAD: [&str; 9] = ["stone", "Air", "Default:stone", "a b:c", "a:b:c", "a:b-c", "d\u{e9}f:x", "a:b c", "default.x:y"];
fn name_ok(n: &str) -> bool {
    GOOD.contains(&n)
}
fn arg_case(r: &mut Rng) -> (Args, bool, String) {
    let cmds = ["clone", "deleteblocks", "deletemeta", "deleteobjects", "deletetimers", "fill", "replacenodes", "replaceininv", "overlay", "setmetavar", "setparam2", "vacuum"];
    let cmd = *r.pick(&cmds);
    let mut a = Args { cmd: cmd.into(), ..Default::default() };
    let mut why = vec![];
    let bad_rate = *r.pick(&[0usize, 1, 4]);
    let nm = |r: &mut Rng| if r.chance(bad_rate, 16) { r.pick(&BAD).to_string() } else { r.pick(&GOOD).to_string() };
    let coord = |r: &mut Rng| match r.below(10) {
        0 => 31000,
        1 => -31000,
        2 if bad_rate > 0 && r.chance(bad_rate, 10) => *r.pick(&[31001, -31001, 40000, i32::MAX, i32::MIN, 65536]),
        _ => r.range(-40, 40),
    };
    let has = |c: &[&str]| c.contains(&cmd);
    let req_area = has(&["clone", "deleteblocks", "fill"]);
    if req_area || (cmd != "vacuum" && r.chance(1, 2)) {
        a.area = Some(([coord(r), coord(r), coord(r)], [coord(r), coord(r), coord(r)]));
    }
    if has(&["deleteblocks", "deletemeta", "deleteobjects", "deletetimers", "fill", "replacenodes", "replaceininv", "overlay", "setmetavar", "setparam2"]) && r.chance(1, 3) {
        a.invert = true;
    }
    if cmd == "clone" || (cmd == "overlay" && r.chance(1, 2)) {
        let oc = |r: &mut Rng| match r.below(8) {
            0 => 62000,
            1 => -62000,
            2 if bad_rate > 0 => *r.pick(&[62001, -62001, 62001, -62001, 62001, -62001, 100000, i32::MAX, i32::MIN + 40]),
            3 => *r.pick(&[31000, -31000, 31030, -31041]),
            4 => 0,
            _ => r.range(-40, 40),
        };
        let z = r.chance(1, 4);
        a.offset = Some(if z { [0; 3] } else { [oc(r), oc(r), oc(r)] });
    }
    match cmd {
        "deletemeta" | "deletetimers" | "setparam2" => {
            if r.chance(1, 2) {
                a.node = Some(nm(r))
            }
            if cmd == "setparam2" {
                a.param2 = Some(if r.chance(bad_rate, 16) { r.pick(&["256", "-1", "x", "1.5", "300"]).to_string() } else { (r.next() as u8).to_string() });
            }
        }
        "deleteobjects" => {
            if r.chance(1, 3) {
                a.object = Some(nm(r))
            }
            if r.chance(1, 3) {
                let n = r.below(3);
                a.items = Some((0..n).map(|_| nm(r)).collect())
            }
        }
        "fill" => a.new_node = Some(nm(r)),
        "replacenodes" => {
            a.node = Some(nm(r));
            a.new_node = Some(nm(r));
        }
        "replaceininv" => {
            a.item = Some(nm(r));
            if r.chance(1, 2) {
                a.new_item = Some(nm(r))
            }
            a.delete = r.chance(1, 3);
            a.delete_meta = r.chance(1, 3);
        }
        "setmetavar" => {
            a.key = Some(r.pick(&KEYS).to_string());
            if r.chance(1, 2) {
                a.value = Some(if r.chance(1, 5) { String::new() } else { r.pick(&VALUES).to_string() })
            }
            a.delete = r.chance(1, 3);
        }
        _ => {}
    }
    if has(&["replaceininv", "setmetavar"]) && r.chance(1, 3) {
        for _ in 0..1 + r.below(2) {
            let n = nm(r);
            a.nodes.push(n)
        }
    }
    // the rules
    let lim = |p: &V3, l: i64| p.iter().all(|c| (*c as i64).abs() <= l);
    if let Some((p, q)) = &a.area {
        if !lim(p, 31000) || !lim(q, 31000) {
            why.push("area corner outside the map");
        }
    } else if a.invert {
        why.push("invert without area");
    }
    if let Some(o) = &a.offset {
        if !lim(o, 62000) {
            why.push("offset too large");
        }
    }
    let names = [&a.node, &a.new_node, &a.object, &a.item, &a.new_item];
    if names.iter().any(|n| n.as_ref().map_or(false, |n| !name_ok(n))) || a.nodes.iter().chain(a.items.iter().flatten()).any(|n| !name_ok(n)) {
        why.push("ill-formed name");
    }
    if has(&["clone", "overlay"]) {
        let (lo, hi) = a.sorted().unwrap_or(([-31000; 3], [31000; 3]));
        let o = a.offset.unwrap_or([0; 3]);
        if (0..3).any(|i| lo[i] as i64 + o[i] as i64 > 31000 || (hi[i] as i64 + o[i] as i64) < -31000) {
            why.push("destination outside the map");
        }
        if cmd == "overlay" && a.invert && o != [0; 3] {
            why.push("inverted offset");
        }
    }
    match cmd {
        "replacenodes" if a.node == a.new_node => why.push("equal names"),
        "setparam2" => {
            if a.area.is_none() && a.node.is_none() {
                why.push("neither area nor node");
            }
            if a.param2.as_ref().unwrap().parse::<u8>().is_err() {
                why.push("param2 out of range");
            }
        }
        "deleteobjects" if a.object.is_some() && a.items.is_some() => why.push("both --obj and --items"),
        "replaceininv" => {
            if a.new_item.is_none() && !a.delete && !a.delete_meta {
                why.push("nothing to do");
            }
            if a.new_item.is_some() && a.delete {
                why.push("new item and --delete");
            }
            if a.new_item == a.item && !a.delete_meta {
                why.push("equal items");
            }
        }
        "setmetavar" => {
            if a.value.is_none() && !a.delete {
                why.push("no value");
            }
            if a.value.is_some() && a.delete {
                why.push("value and --delete");
            }
            if a.value.as_deref() == Some("") {
                why.push("empty value");
            }
        }
        _ => {}
    }
    (a, why.is_empty(), why.join(", "))
}
fn args_mode(cx: &Cx, w: u64) {
    let sc = Scratch::new("args");
    let mut r = Rng::new(cx.seed * 977 + w);
    while cx.left() {
        let (a, ok, why) = arg_case(&mut r);
        let mut main = World::new();
        let mut input = World::new();
        for i in 0..2 {
            let b = gen_block(&mut r, [i, 0, 0], &Opts { dup_names: false, max_blocks: 1, undecodable: false, big: false, many: false });
            main.insert(key([i, 0, 0]), b.encode());
            input.insert(key([i, 0, 0]), simple(&mut r, [i, 0, 0], "a:src", false));
        }
        let c = Case { args: a.clone(), main: main.clone(), input: input.clone(), note: why.clone() };
        let (m, ip) = (sc.0.join("map.sqlite"), sc.0.join("input.sqlite"));
        write_db(&m, &main);
        write_db(&ip, &input);
        let mut argv = vec!["-y".to_string(), m.to_str().unwrap().to_string()];
        let mut extra = a.to_argv(ip.to_str().unwrap());
        let mut ok = ok;
        let mut why = why;
        // structural errors the argument parser must catch
        if r.chance(1, 12) {
            if let Some(i) = extra.iter().position(|x| x == "--p2") {
                extra.drain(i..i + 4);
                ok = false;
                why = "--p1 without --p2".into();
            }
        } else if r.chance(1, 20) {
            if let Some(i) = extra.iter().position(|x| x == "--p1") {
                extra[i + 2] = "abc".into();
                ok = false;
                why = "non-numeric coordinate".into();
            }
        }
        argv.extend(extra);
        let before = (std::fs::read(&m).unwrap(), std::fs::read(&ip).unwrap());
        let out = exec(cx.bin, &argv, "", 60, &[]);
        let done = out.text.contains("Done.");
        cx.count(format!("{} [{}]", argv[2..].join(" ").replace(ip.to_str().unwrap(), "INPUT"), if ok { "valid" } else { &why }));
        let f = if out.err.contains("panicked") {
            Some(format!("panic: {}", out.err.trim()))
        } else if ok && !done {
            Some(format!("a valid command line was not carried out: {} {}", out.text.trim(), out.err.trim()))
        } else if !ok && done {
            Some(format!("an invalid command line ({}) was accepted", why))
        } else if !ok && !(out.text.to_lowercase().contains("error") || out.err.to_lowercase().contains("error")) {
            Some(format!("an invalid command line ({}) was not reported as an error: {}", why, out.text.trim()))
        } else if !ok && (std::fs::read(&m).unwrap(), std::fs::read(&ip).unwrap()) != before && read_db(&m) != Ok(main.clone()) {
            Some(format!("an invalid command line ({}) changed the map", why))
        } else {
            None
        };
        if let Some(m) = f {
            cx.fail(m, &c, format!("command line: {}\n", argv.join(" ")));
        }
    }
}

// ---- C19 -----------------------------------------------------------------
fn crash_case(r: &mut Rng, i: u64) -> Case {
    let cmd = *r.pick(&["fill", "replacenodes", "setparam2", "deletemeta", "deletetimers", "deleteobjects", "replaceininv", "setmetavar", "deleteblocks", "clone", "overlay", "vacuum"]);
    let mut c;
    loop {
        c = gen_case(r, cmd, true);
        if cmd == "vacuum" || expect(&c).touched >= 2 {
            break;
        }
    }
    if i % 4 == 3 {
        // more dirty pages than the page cache holds, so that it spills early
        let cmd = *r.pick(&["setparam2", "fill", "deleteblocks", "overlay"]);
        let mut a = Args { cmd: cmd.into(), area: Some(([-31000; 3], [31000; 3])), ..Default::default() };
        let mut main = World::new();
        let mut input = World::new();
        for k in 0..420 {
            let p = [k % 21, k / 21, 0];
            main.insert(key(p), simple(r, p, "default:stone", true));
            if cmd == "overlay" {
                input.insert(key(p), simple(r, p, "default:dirt", true));
            }
        }
        match cmd {
            "setparam2" => a.param2 = Some("7".into()),
            "fill" => a.new_node = Some("a:b".into()),
            _ => {}
        }
        c = Case { args: a, main, input, note: String::new() };
    }
    c
}
fn crash_mode(cx: &Cx, w: u64) {
    let sc = Scratch::new("crash");
    let mut r = Rng::new(cx.seed * 7919 + w);
    let mut i = w;
    while cx.left() {
        i += 1;
        let c = crash_case(&mut r, i);
        let (m, ip) = (sc.0.join("map.sqlite"), sc.0.join("input.sqlite"));
        let jr = sc.0.join("map.sqlite-journal");
        let setup = || {
            let _ = std::fs::remove_file(&jr);
            write_db(&m, &c.main);
            let _ = std::fs::remove_file(sc.0.join("input.sqlite-journal"));
            write_db(&ip, &c.input);
        };
        setup();
        let cnt = sc.0.parent().unwrap().join(format!("{}.cnt", sc.0.file_name().unwrap().to_str().unwrap()));
        let sh = |k: &str, v: String| vec![
            ("LD_PRELOAD".to_string(), cx.shim.clone()),
            ("SHIM_DIR".to_string(), sc.0.to_str().unwrap().to_string()),
            (k.to_string(), v),
        ];
        let mut argv = vec!["-y".to_string(), m.to_str().unwrap().to_string()];
        argv.extend(c.args.to_argv(ip.to_str().unwrap()));
        // complete run: the final state and the number of events
        let out = exec(cx.bin, &argv, "", 100, &sh("SHIM_COUNT", cnt.to_str().unwrap().into()));
        let n: u64 = std::fs::read_to_string(&cnt).unwrap_or_default().trim().parse().unwrap_or(0);
        let _ = std::fs::remove_file(&cnt);
        let after = match read_db(&m) {
            Ok(a) => a,
            Err(e) => {
                cx.fail(format!("unreadable after a complete run: {}", e), &c, String::new());
                return;
            }
        };
        if !out.text.contains("Done.") {
            // Other checks report commands that do not finish; here the map must be untouched then.
            if after != c.main {
                cx.fail(format!("the command did not report completion but changed the map: {:.300} {:.300}", out.text.trim(), out.err.trim()), &c, String::new());
            }
            continue;
        }
        let label = c.args.to_argv("INPUT").join(" ");
        // the prompt
        for (ans, go) in [("n\n", false), ("", false), ("no\n", false), ("\n", false), ("yes please\n", false), ("y\n", true), ("Y\n", true)].iter() {
            if !(r.chance(1, 3) && cx.left()) {
                continue;
            }
            setup();
            let out = exec(cx.bin, &argv[1..], ans, 100, &[]);
            cx.count(format!("{} / answer {:?}", label, ans));
            let got = read_db(&m);
            if !*go && (got.as_ref() != Ok(&c.main) || out.text.contains("Done.")) {
                cx.fail(format!("declining with {:?} still ran the command", ans), &c, String::new());
            }
            if *go && (got.map(|g| compare(&expect(&c), &g)) != Ok(None) || !out.text.contains("Done.")) {
                cx.fail(format!("confirming with {:?} did not run the command correctly", ans), &c, String::new());
            }
        }
        // crash points
        let mut points: Vec<u64> = if n <= 24 { (1..=n).collect() } else {
            let mut v: Vec<u64> = vec![1, 2, 3, n, n - 1, n - 2, n - 3, n - 4];
            for _ in 0..8 { v.push(1 + r.below(n as usize) as u64) }
            v
        };
        points.dedup();
        for p in points {
            for mode in ["SHIM_KILL", "SHIM_FAIL"] {
                if !cx.left() {
                    return;
                }
                setup();
                let out = exec(cx.bin, &argv, "", 100, &sh(mode, p.to_string()));
                cx.count(format!("{} / {} at file operation {} of {}", label, if mode == "SHIM_KILL" { "killed" } else { "I/O error" }, p, n));
                let done = out.text.contains("Done.");
                match read_db(&m) {
                    Err(e) => cx.fail(format!("map unreadable after {} at file operation {} of {}: {}", mode, p, n, e), &c, String::new()),
                    Ok(g) => {
                        // serialization order inside a block may vary: compare by meaning
                        let is_before = g == c.main;
                        let is_after = g == after || compare(&expect(&c), &g).is_none();
                        if !is_before && !is_after {
                            let diffs = g.iter().filter(|(k, v)| c.main.get(k) != Some(v)).count();
                            cx.fail(format!("after {} at file operation {} of {}, the map is neither the old nor the new one ({} blocks differ from the old one)", mode, p, n, diffs), &c, String::new());
                        }
                        if done && !is_after {
                            cx.fail(format!("after {} at file operation {} of {}, completion was reported but the map is unchanged", mode, p, n), &c, String::new());
                        }
                        if mode == "SHIM_FAIL" && !is_before && !done {
                            cx.fail(format!("after an I/O error at file operation {} of {}, no completion was reported but the map changed", p, n), &c, String::new());
                        }
                    }
                }
            }
        }
    }
}

// ---- more blocks than the cache holds --------------------------------------
fn big_mode(cx: &Cx, w: u64) {
    let mut r = Rng::new(cx.seed * 31 + w);
    let sc = Scratch::new("big");
    let mut first = true;
    while cx.left() || first {
        first = false;
        let axis = (w % 3) as usize;
        let dir = if (w / 3) % 2 == 0 { 1 } else { -1 };
        let ext: [i32; 3] = match axis {
            2 => [35, 31, 3],
            1 => [1085, 3, 1],
            _ => [5, 15, 15],
        };
        let cmd = if w % 8 == 7 { "overlay" } else { "clone" };
        let mut main = World::new();
        let base = [-(ext[0] / 2), -1, -1];
        let pool: Vec<Vec<u8>> = (0..64).map(|i| simple(&mut r, [0, 0, 0], &format!("m:n{}", i), false)).collect();
        let mut input = World::new();
        for z in 0..ext[2] {
            for y in 0..ext[1] {
                for x in 0..ext[0] {
                    let p = [base[0] + x, base[1] + y, base[2] + z];
                    main.insert(key(p), r.pick(&pool).clone());
                    if cmd == "overlay" {
                        input.insert(key(p), r.pick(&pool).clone());
                    }
                }
            }
        }
        let mut hi = [0; 3];
        let mut lo = [0; 3];
        let mut of = [0; 3];
        for i in 0..3 {
            lo[i] = base[i] * 16;
            hi[i] = (base[i] + ext[i]) * 16 - 1;
        }
        of[axis] = dir * 16;
        if dir > 0 { hi[axis] -= 16 } else { lo[axis] += 16 }
        let a = Args { cmd: cmd.into(), area: Some((lo, hi)), offset: Some(of), ..Default::default() };
        let c = Case { args: a, main, input, note: String::new() };
        let (m, _) = check_case(cx.bin, &sc.0, &c, true);
        cx.count(format!("{} of {} blocks by {:?}", cmd, c.main.len(), of));
        if let Some(m) = m {
            cx.fail(m, &c, String::new());
        }
    }
}

// ---- C23: what is opened -------------------------------------------------
fn tree(d: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                m.insert(p.clone(), None);
                m.extend(tree(&p));
            } else {
                m.insert(p.clone(), std::fs::read(&p).ok());
            }
        }
    }
    m
}
fn table_db(p: &Path, sql: &str, w: &World) {
    let _ = std::fs::remove_file(p);
    let c = sqlite::open(p).unwrap();
    c.execute(format!("PRAGMA synchronous=OFF; {}", sql)).unwrap();
    let s = c.prepare("INSERT INTO blocks (pos, data) VALUES (?,?)");
    if let Ok(mut s) = s {
        for (k, v) in w {
            let _ = s.bind(1, *k);
            let _ = s.bind(2, v.as_slice());
            let _ = s.next();
            let _ = s.reset();
        }
    }
}
/// Puts something at d; returns the path to name, the database file if it is a map, and what it is.
fn place(r: &mut Rng, d: &Path, w: &World, good: bool) -> (PathBuf, Option<PathBuf>, String) {
    std::fs::create_dir_all(d).unwrap();
    let m = d.join("map.sqlite");
    if good {
        let odd = d.join(*r.pick(&["world.db", "map", "map.sqlite.bak", "a b", "MAP.SQLITE"]));
        return match r.below(6) {
            0 => { write_db(&m, w); (m.clone(), Some(m), "map file".into()) }
            1 => { write_db(&m, w); (d.to_path_buf(), Some(m), "world directory".into()) }
            2 => { write_db(&odd, w); (odd.clone(), Some(odd), "map file of another name".into()) }
            _ => {
                let q = *r.pick(&[
                    "CREATE TABLE blocks (pos INT PRIMARY KEY, data BLOB)",
                    "CREATE TABLE `blocks` (`pos` INT NOT NULL, `data` BLOB, PRIMARY KEY(`pos`))",
                    "CREATE TABLE `blocks` (`pos` INT PRIMARY KEY, `data` BLOB, `mtime` INTEGER)",
                    "CREATE TABLE other (a TEXT); CREATE TABLE blocks (pos INT NOT NULL PRIMARY KEY, data BLOB NOT NULL); CREATE INDEX i ON other(a)",
                    "CREATE TABLE blocks (pos INT NOT NULL PRIMARY KEY, data BLOB DEFAULT NULL) WITHOUT ROWID",
                ]);
                table_db(&m, q, w);
                (m.clone(), Some(m), format!("map by {}", q))
            }
        };
    }
    match r.below(16) {
        14 => {
            // a map beside it, or above it, is not what was named
            write_db(&m, w);
            let s = d.join("mods");
            std::fs::create_dir_all(&s).unwrap();
            (r.pick(&[d.join("nothing"), s.clone(), s.join("map.sqlite"), s.join("x"), d.join("map.sqlit"), d.join("map.sqlite.txt")]).clone(), None, "no map, but one beside it".into())
        }
        15 => {
            std::fs::create_dir_all(d.join("sub")).unwrap();
            write_db(&d.join("sub").join("map.sqlite"), w);
            (d.to_path_buf(), None, "map in a directory below".into())
        }
        0 => (d.join("nothing"), None, "nothing there".into()),
        1 => (d.to_path_buf(), None, "empty directory".into()),
        2 => { std::fs::create_dir_all(&m).unwrap(); (d.to_path_buf(), None, "map.sqlite is a directory".into()) }
        3 => { std::fs::write(&m, b"this is not a database, although it is long enough to look like one ........................................................").unwrap(); (if r.chance(1, 2) { m } else { d.to_path_buf() }, None, "text file".into()) }
        4 => { std::fs::write(&m, b"").unwrap(); (if r.chance(1, 2) { m } else { d.to_path_buf() }, None, "empty file".into()) }
        5 => { write_db(&d.join("world.db"), w); (d.to_path_buf(), None, "directory whose map has another name".into()) }
        6 => { write_db(&m, w); (m.join("map.sqlite"), None, "path below a file".into()) }
        7 => { write_db(&d.join("map.sqlite2"), w); (m, None, "map file that is not there".into()) }
        _ => {
            let q = *r.pick(&[
                "CREATE TABLE block (pos INT PRIMARY KEY, data BLOB)",
                "CREATE TABLE blocks (pos INT, data BLOB)",
                "CREATE TABLE blocks (pos TEXT PRIMARY KEY, data BLOB)",
                "CREATE TABLE blocks (id INT PRIMARY KEY, data BLOB)",
                "CREATE TABLE blocks (pos INT PRIMARY KEY, data TEXT)",
                "CREATE TABLE blocks (pos INT PRIMARY KEY, content BLOB)",
                "CREATE TABLE blocks (pos INT, data BLOB, PRIMARY KEY(pos, data))",
                "CREATE TABLE blocks (pos INT, data BLOB PRIMARY KEY)",
                "CREATE TABLE blocks (pos INT, data BLOB, PRIMARY KEY(data, pos))",
                "CREATE TABLE blocks (pos INT PRIMARY KEY)",
                "CREATE TABLE blocks (data BLOB, pos INT PRIMARY KEY)",
                "CREATE TABLE blocks (x INT, pos INT PRIMARY KEY, data BLOB)",
                "CREATE TABLE blocks (pos INT PRIMARY KEY, mtime INT, data BLOB)",
                "CREATE TABLE blocks (pos INT, data BLOB, dim INT DEFAULT 0, PRIMARY KEY(dim, pos))",
                "CREATE TABLE blocks (pos INT, data BLOB PRIMARY KEY, dim INT)",
                "CREATE TABLE Block (pos INT PRIMARY KEY, data BLOB)",
                "CREATE TABLE blocks (x INT, y INT, z INT, data BLOB, PRIMARY KEY(x, z, y))",
                "CREATE TABLE b (pos INT PRIMARY KEY, data BLOB); CREATE VIEW blocks AS SELECT pos, data FROM b",
                "CREATE TABLE blocks (pos BLOB PRIMARY KEY, data INT)",
            ]);
            table_db(&m, q, w);
            (if r.chance(1, 2) { m } else { d.to_path_buf() }, None, q.into())
        }
    }
}
fn open_mode(cx: &Cx, w: u64) {
    let sc = Scratch::new("open");
    let mut r = Rng::new(cx.seed * 6151 + w);
    let mut n = 0;
    while cx.left() {
        n += 1;
        let cmd = *r.pick(&["overlay", "overlay", "overlay", "fill", "setparam2", "deleteblocks", "vacuum", "clone", "deletemeta", "replaceininv"]);
        let mut c = if cmd == "vacuum" { Case { args: Args { cmd: cmd.into(), ..Default::default() }, main: gen_case(&mut r, "fill", false).main, input: World::new(), note: String::new() } } else { gen_case(&mut r, cmd, false) };
        if r.chance(1, 8) {
            c.main.clear();
        }
        let top = sc.0.join(format!("t{}", n));
        let g = r.below(3);
        let (good_m, good_i) = (g != 0, g != 1 || cmd != "overlay");
        let dirs = [("main", "input"), ("world v1.2", "b.sqlite"), ("a b", "map.sqlite"), ("wörld", "-x")];
        let (md, id) = *r.pick(&dirs);
        let (mp, mf, what) = place(&mut r, &top.join(md), &c.main, good_m);
        let (ip, _, iwhat) = place(&mut r, &top.join(id), &c.input, good_i);
        let ok = good_m && good_i;
        let ask = r.chance(1, 3);
        let mut argv = vec![];
        if !ask {
            argv.push("-y".to_string());
        }
        argv.push(mp.to_str().unwrap().to_string());
        argv.extend(c.args.to_argv(ip.to_str().unwrap()));
        let before = tree(&top);
        let out = exec(cx.bin, &argv, "y\n", 60, &[]);
        let after = tree(&top);
        let about = format!("map: {}; source: {}", what, if cmd == "overlay" { iwhat.as_str() } else { "none" });
        cx.count(format!("{} on {}", cmd, about));
        let done = out.text.contains("Done.");
        let both = (out.text.clone() + &out.err).to_lowercase();
        let f = if out.err.contains("panicked") {
            Some(format!("panic: {}", out.err.trim()))
        } else if !ok {
            if done {
                Some("it was accepted as a map".to_string())
            } else if !both.contains("error") {
                Some(format!("no error was shown: {:.200}", out.text.trim()))
            } else if out.text.contains("Proceed") {
                Some("confirmation was asked before it was refused".into())
            } else if before != after {
                Some("a refused command changed or created a file".into())
            } else {
                None
            }
        } else if !done {
            Some(format!("a map was refused: {:.200} {:.200}", out.text.trim(), out.err.trim()))
        } else if ask && !out.text.contains("Proceed") {
            Some("confirmation was not asked".into())
        } else {
            let f = mf.unwrap();
            let rest = |t: &BTreeMap<PathBuf, Option<Vec<u8>>>| -> BTreeMap<PathBuf, Option<Vec<u8>>> { t.iter().filter(|(k, _)| **k != f).map(|(k, v)| (k.clone(), v.clone())).collect() };
            if rest(&before) != rest(&after) {
                Some("another file changed or appeared".into())
            } else {
                match read_db(&f) {
                    Err(e) => Some(format!("unreadable map: {}", e)),
                    Ok(g) => compare(&expect(&c), &g),
                }
            }
        };
        if let Some(m) = f {
            cx.fail(format!("{} ({})", m, about), &c, format!("command: mapeditr {}\n", argv.join(" ")));
            return;
        }
        let _ = std::fs::remove_dir_all(&top);
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let bin = PathBuf::from(&a[3]);
    let cx = Cx {
        prop: &a[2],
        bin: &bin,
        seed: a[5].parse().unwrap(),
        secs: a[6].parse().unwrap(),
        start: Instant::now(),
        shim: a.get(7).cloned().unwrap_or_default(),
        acc: Mutex::new(Acc { evals: 0, distinct: BTreeSet::new(), samples: vec![], fail: None }),
    };
    let nw = std::thread::available_parallelism().map_or(4, |n| n.get()) as u64;
    std::thread::scope(|s| {
        for w in 0..nw {
            let (cx, mode) = (&cx, a[1].as_str());
            s.spawn(move || match mode {
                "args" => args_mode(cx, w),
                "crash" => crash_mode(cx, w),
                "big" => big_mode(cx, w),
                "open" => open_mode(cx, w),
                _ => panic!("mode"),
            });
        }
    });
    let acc = cx.acc.into_inner().unwrap();
    let mut line = format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":{:?},\"wall\":{:.2}", acc.evals, acc.distinct.len(), acc.samples, cx.start.elapsed().as_secs_f64());
    let bad = acc.fail.is_some();
    if let Some((m, c, x)) = acc.fail {
        let p = save_replay(Path::new(&a[4]), cx.prop, &c, &m, &x);
        line += &format!(",\"violation\":{:?},\"replay\":{:?}", m, p.to_str().unwrap());
    }
    println!("{}}}", line);
    std::process::exit(bad as i32);
}
