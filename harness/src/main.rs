#![allow(elided_lifetimes_in_paths, mismatched_lifetime_syntaxes)]
//! Witness search and bounded stand-ins for the properties of miniserde.
//!   vh search PROP SEED SECONDS(quick budget) DEEP(0/1) OUTDIR   -> one JSON line
//!   vh replay FILE                                              -> exit 1 if the case still fails
mod alloc;
mod derived;
mod derived_gen;
mod gen;
mod kinds;
mod phases;
mod rec;
mod refp;
mod rng;
mod types;
mod work;

use std::io::Read;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::A = alloc::A;

fn js(s: &str) -> String {
    let mut o = String::new();
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn run_case(kind: u8, p: &[u8]) -> kinds::Bad {
    work::current(kind, p);
    match std::panic::catch_unwind(|| kinds::run(kind, p)) {
        Ok(b) => b,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            vec![(vec!["*"], format!("panic: {}", m))]
        }
    }
}

struct Found { kind: u8, payload: Vec<u8>, props: Vec<String>, msg: String }

fn worker(a: &[String]) {
    let (prop, seed, secs, deep, part, parts, map, out) = (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<f64>().unwrap(), a[3] == "1", a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), &a[6], &a[7]);
    std::panic::set_hook(Box::new(|_| {}));
    work::attach(map);
    let mut n = 0u64;
    let mut per = std::collections::BTreeMap::<u8, u64>::new();
    let mut samples: Vec<String> = Vec::new();
    let mut other: Vec<Found> = Vec::new();
    let mut hit: Option<Found> = None;
    let mut f = |k: u8, p: &[u8]| -> bool {
        n += 1;
        *per.entry(k).or_insert(0) += 1;
        let bad = run_case(k, p);
        if samples.len() < 12 && n % 977 == 1 { samples.push(kinds::describe(k, p)) }
        for (props, msg) in bad {
            let fd = Found { kind: k, payload: p.to_vec(), props: props.iter().map(|s| s.to_string()).collect(), msg };
            if props.iter().any(|x| *x == "*" || x == prop) { hit = Some(fd); return true }
            if other.len() < 20 { other.push(fd) }
        }
        false
    };
    let mut s = phases::Sink { f: &mut f, part, parts, n: 0, deadline: Instant::now() + Duration::from_secs_f64(secs), stop: false };
    phases::explore(prop, seed, deep, &mut s);
    let fj = |f: &Found| format!("{{\"kind\":{},\"payload\":{},\"props\":[{}],\"msg\":{},\"case\":{}}}", f.kind, js(&hex(&f.payload)), f.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(","), js(&f.msg), js(&kinds::describe(f.kind, &f.payload)));
    let text = format!("{{\"n\":{},\"per\":{{{}}},\"samples\":[{}],\"hit\":{},\"other\":[{}]}}", n, per.iter().map(|(k, v)| format!("{}:{}", js(kinds::name(*k)), v)).collect::<Vec<_>>().join(","),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), hit.as_ref().map_or("null".into(), fj), other.iter().map(fj).collect::<Vec<_>>().join(","));
    // (whole or not at all: the master may end this process at any moment)
    std::fs::write(format!("{}.part", out), text).unwrap();
    std::fs::rename(format!("{}.part", out), out).unwrap();
}

fn search(a: &[String]) {
    let (prop, seed, secs, deep, dir) = (&a[0], &a[1], a[2].parse::<f64>().unwrap(), &a[3], &a[4]);
    std::fs::create_dir_all(dir).unwrap();
    let parts: usize = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let exe = std::env::current_exe().unwrap();
    struct W { ch: std::process::Child, map: String, out: String, last: u64, since: Instant, done: bool }
    let mut ws: Vec<W> = (0..parts).map(|i| {
        let map = format!("{}/w{}.map", dir, i);
        let out = format!("{}/w{}.json", dir, i);
        let _ = std::fs::remove_file(&out);
        std::fs::File::create(&map).unwrap().set_len(work::SIZE as u64).unwrap();
        let ch = std::process::Command::new(&exe).args(["worker", prop, seed, &secs.to_string(), deep, &i.to_string(), &parts.to_string(), &map, &out])
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
        W { ch, map, out, last: 0, since: Instant::now(), done: false }
    }).collect();
    let read = |p: &str| { let mut b = Vec::new(); std::fs::File::open(p).unwrap().read_to_end(&mut b).unwrap(); work::decode(&b) };
    let seq = |p: &str| { let mut b = [0u8; 8]; std::fs::File::open(p).and_then(|mut f| f.read_exact(&mut b)).unwrap(); u64::from_le_bytes(b) };
    let mut crash: Option<(u8, Vec<u8>, String)> = None;
    let limit = Instant::now() + Duration::from_secs_f64(secs + 60.0);
    loop {
        let mut busy = false;
        for w in ws.iter_mut() {
            if w.done { continue }
            match w.ch.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    if !st.success() {
                        let (_, k, p, m) = read(&w.map);
                        crash.get_or_insert((k, p, format!("process ended: {}{}", st, if m.is_empty() { String::new() } else { format!(" ({})", m) })));
                    }
                }
                None => {
                    busy = true;
                    let q = seq(&w.map);
                    if q != w.last { w.last = q; w.since = Instant::now() }
                    if w.since.elapsed() > Duration::from_secs(20) || Instant::now() > limit {
                        let (q, k, p, _) = read(&w.map);
                        let _ = w.ch.kill();
                        let _ = w.ch.wait();
                        w.done = true;
                        if q > 0 && w.since.elapsed() > Duration::from_secs(20) { crash.get_or_insert((k, p, "does not return within 20 s".into())); }
                    }
                }
            }
        }
        let hit = ws.iter().any(|w| w.done && std::fs::read_to_string(&w.out).is_ok_and(|t| !t.contains("\"hit\":null")));
        if !busy { break }
        if crash.is_some() || hit { for w in ws.iter_mut() { let _ = w.ch.kill(); let _ = w.ch.wait(); } break }
        std::thread::sleep(Duration::from_millis(20));
    }
    let outs: Vec<String> = ws.iter().filter_map(|w| std::fs::read_to_string(&w.out).ok()).collect();
    let cj = match &crash { None => "null".into(), Some((k, p, m)) => format!("{{\"kind\":{},\"payload\":{},\"props\":[\"*\"],\"msg\":{},\"case\":{}}}", k, js(&hex(p)), js(m), js(&kinds::describe(*k, p))) };
    println!("{{\"crash\":{},\"workers\":[{}]}}", cj, outs.join(","));
    for w in &ws { let _ = std::fs::remove_file(&w.map); let _ = std::fs::remove_file(&w.out); let _ = std::fs::remove_file(format!("{}.part", w.out)); }
}

fn replay(path: &str) {
    let t = std::fs::read_to_string(path).unwrap();
    // {"property":"C01","kind":1,"payload":"hex",...}
    let get = |k: &str| { let i = t.find(&format!("\"{}\":", k)).unwrap() + k.len() + 3; t[i..].trim_start().trim_start_matches('"').split(|c| c == '"' || c == ',' || c == '}').next().unwrap().trim().to_string() };
    let (prop, kind, pay) = (get("property"), get("kind").parse::<u8>().unwrap(), get("payload"));
    let p: Vec<u8> = (0..pay.len() / 2).map(|i| u8::from_str_radix(&pay[2 * i..2 * i + 2], 16).unwrap()).collect();
    println!("{}", kinds::describe(kind, &p));
    let bad = run_case(kind, &p);
    let mut hit = false;
    for (props, msg) in bad { println!("[{}] {}", props.join(" "), msg); hit |= props.iter().any(|x| *x == "*" || *x == prop) }
    if hit { std::process::exit(1) }
    println!("holds");
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1..]),
        Some("search") => search(&a[1..]),
        Some("replay") => replay(&a[1]),
        _ => { eprintln!("usage: vh search|replay"); std::process::exit(2) }
    }
}
