//! Contract files (.vc).
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct LoopC {
    pub kind: Option<String>,
    pub spec: String,
    pub head: String,
    pub tail: String,
    pub before: String,
    pub after: String,
}
#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub path: String,
    pub opts: BTreeMap<String, String>,
    pub ret: String,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub calls: Vec<(String, usize, bool, String)>, // name, ordinal, after?, text
    pub lifts: BTreeMap<usize, String>,            // immediately-invoked closure -> "name(args) -> ret | call args"
    pub subst: Vec<(String, String)>,
    pub at: String,
    /// Generated from the command table: its kind.
    pub table: Option<String>,
}
#[derive(Clone, Debug)]
pub enum Item {
    Struct(String, BTreeMap<String, String>),
    Other(String, BTreeMap<String, String>),
    Raw(String),
    Fn(FnC),
}
#[derive(Default, Clone, Debug)]
pub struct Module {
    pub name: String,
    pub file: String,
    pub items: Vec<Item>,
}

fn opts(ws: &[&str]) -> BTreeMap<String, String> {
    ws.iter()
        .map(|w| match w.split_once('=') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (w.to_string(), "1".into()),
        })
        .collect()
}

pub fn parse(name: &str, text: &str) -> Result<Vec<Module>, String> {
    let mut mods: Vec<Module> = vec![];
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        let at = format!("{}:{}", name, i + 1);
        i += 1;
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let mut body = String::new();
        let mut head = l.to_string();
        if let Some(h) = l.strip_suffix("<<<") {
            head = h.trim().to_string();
            loop {
                if i >= lines.len() {
                    return Err(format!("{}: unterminated <<<", at));
                }
                if lines[i].trim() == ">>>" {
                    i += 1;
                    break;
                }
                body.push_str(lines[i]);
                body.push('\n');
                i += 1;
            }
        }
        let w: Vec<&str> = head.split_whitespace().collect();
        if w[0] == "module" {
            mods.push(Module { name: w[1].into(), file: w.get(2).unwrap_or(&"").to_string(), items: vec![] });
            continue;
        }
        let m = mods.last_mut().ok_or(format!("{}: no module", at))?;
        match w[0] {
            "struct" | "enum" => m.items.push(Item::Struct(w[1].into(), opts(&w[2..]))),
            "const" | "type" | "trait" | "static" => m.items.push(Item::Other(w[1].into(), opts(&w[2..]))),
            "raw" => m.items.push(Item::Raw(body)),
            "fn" => m.items.push(Item::Fn(FnC { path: w[1].into(), opts: opts(&w[2..]), ret: "r".into(), at, ..Default::default() })),
            "table" => m.items.push(Item::Fn(FnC { path: w[2].into(), opts: opts(&w[3..]), ret: "r".into(), at, table: Some(w[1].into()), ..Default::default() })),
            _ => {
                let f = match m.items.last_mut() {
                    Some(Item::Fn(f)) => f,
                    _ => return Err(format!("{}: directive {} outside fn", at, w[0])),
                };
                match w[0] {
                    "ret" => f.ret = w[1].into(),
                    "spec" => f.spec = body,
                    "entry" => f.entry = body,
                    "exit" => f.exit = body,
                    "loop" => {
                        let k: usize = w[1].parse().map_err(|_| at.clone())?;
                        let lc = f.loops.entry(k).or_default();
                        match w.get(2).copied() {
                            None => lc.spec = body,
                            Some("head") => lc.head = body,
                            Some("tail") => lc.tail = body,
                            Some("before") => lc.before = body,
                            Some("after") => lc.after = body,
                            Some(k) if k.starts_with("kind=") => {
                                lc.kind = Some(k[5..].into());
                                lc.spec = body;
                            }
                            Some(x) => return Err(format!("{}: loop {}", at, x)),
                        }
                    }
                    "call" => {
                        let k: usize = w[2].parse().map_err(|_| at.clone())?;
                        f.calls.push((w[1].into(), k, w[3] == "after", body));
                    }
                    "lift" => {
                        let k: usize = w[1].parse().map_err(|_| at.clone())?;
                        f.lifts.insert(k, body.trim().into());
                    }
                    "subst" => {
                        let (a, b) = body.split_once("==>").ok_or(format!("{}: subst needs ==>", at))?;
                        f.subst.push((a.trim().into(), b.trim().into()));
                    }
                    x => return Err(format!("{}: unknown directive {}", at, x)),
                }
            }
        }
    }
    if std::env::var("EXTRACT_VACUITY").is_ok() {
        vacuity(name, &mut mods);
    }
    Ok(mods)
}

/// Something false at the start and end of every function and loop, under an unknown condition: each has
/// to be refused, else the contract or invariant around it is contradictory.
fn vacuity(file: &str, mods: &mut [Module]) {
    let base: usize = file.bytes().filter(|b| b.is_ascii_digit()).fold(0, |a, b| a * 10 + (b - b'0') as usize) * 1000;
    let mut n = base;
    let mut add = |s: &mut String| {
        n += 1;
        s.push_str(&format!("\nproof {{ if vac({}) {{ assert(false); }} }}\n", n));
    };
    for m in mods {
        for i in &mut m.items {
            if let Item::Fn(f) = i {
                if f.opts.contains_key("external") {
                    continue;
                }
                add(&mut f.entry);
                add(&mut f.exit);
                for l in f.loops.values_mut() {
                    add(&mut l.head);
                    add(&mut l.tail);
                    add(&mut l.after);
                }
            }
        }
    }
}
