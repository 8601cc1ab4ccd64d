//! Bounded exploration of the real crate against independent oracles, and replay of recorded cases.
//!   engine run PROP --secs S --seed N --jobs J --out FILE --src DIR
//!   engine replay FILE
mod gen;
mod oracle;
mod props;
mod term;
use std::io::Write;
use std::time::{Duration, Instant};
use term::T;

fn arg(a: &[String], k: &str, d: &str) -> String { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string()) }

enum Out { Ok, Nothing, Bad(String), Panic(String) }
fn one(prop: &str, t: &T) -> Out {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::check(prop, t))) {
        Ok(Ok(true)) => Out::Ok,
        Ok(Ok(false)) => Out::Nothing,
        Ok(Err(m)) => Out::Bad(m),
        Err(e) => Out::Panic(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())),
    }
}
fn bad(prop: &str, t: &T) -> Option<String> {
    match one(prop, t) {
        Out::Bad(m) => Some(m),
        Out::Panic(m) if prop == "C14" => Some(format!("panicked: {}", m)),
        _ => None,
    }
}
fn shrink(prop: &str, t: &T) -> (T, String) {
    let mut best = t.clone();
    let mut msg = bad(prop, t).unwrap_or_default();
    let t0 = Instant::now();
    'o: loop {
        for c in cands(&best) {
            if t0.elapsed() > Duration::from_secs(5) { break 'o; }
            if let Some(m) = bad(prop, &c) { best = c; msg = m; continue 'o; }
        }
        break;
    }
    (best, msg)
}
/// smaller variants; the root operation is kept
fn cands(t: &T) -> Vec<T> {
    let mut r = vec![];
    if let T::N(o, k) = t {
        let variadic = matches!(*o, "add" | "mul" | "rawadd" | "rawmul" | "list");
        for i in 0..k.len() {
            if variadic { let mut k2 = k.clone(); k2.remove(i); r.push(T::N(o, k2)); }
            let mut subs: Vec<T> = k[i].kids().to_vec();
            subs.extend(cands(&k[i]));
            if k[i].size() > 1 { subs.push(T::V(0)); subs.push(T::i(2)); }
            for s in subs { if s.size() < k[i].size() || matches!((&s, &k[i]), (T::N(..), T::N(..)) if s.size() == k[i].size()) { let mut k2 = k.clone(); k2[i] = s; r.push(T::N(o, k2)); } }
        }
    }
    r.retain(|x| x.size() < t.size());
    r
}

fn child(a: &[String]) {
    let prop = a[2].clone();
    let secs: f64 = arg(a, "--secs", "5").parse().unwrap();
    let seed: u64 = arg(a, "--seed", "1").parse().unwrap();
    let (shard, shards): (usize, usize) = (arg(a, "--shard", "0").parse().unwrap(), arg(a, "--shards", "1").parse().unwrap());
    let skip: usize = arg(a, "--skip", "0").parse().unwrap();
    let status = arg(a, "--status", "/dev/null");
    let mut d = gen::Dict::default();
    gen::harvest(std::path::Path::new(&arg(a, "--src", "/repo/src")), &mut d);
    let mut st = std::fs::OpenOptions::new().write(true).create(true).open(&status).unwrap();
    let run = move || {
        std::panic::set_hook(Box::new(|_| {}));
        let t0 = Instant::now();
        let (mut n, mut ok, mut i, mut exhausted) = (0usize, 0usize, 0usize, false);
        let mut distinct = std::collections::HashSet::new();
        let mut samples: Vec<String> = vec![];
        let mut rng = gen::Rng(seed.wrapping_mul(1000003).wrapping_add(shard as u64));
        while t0.elapsed().as_secs_f64() < secs {
            let t = if !exhausted { match props::small(&prop, i * shards + shard, &d) { Some(t) => t, None => { exhausted = true; continue } } } else { props::random(&prop, &mut rng, &d) };
            i += 1;
            if i <= skip { continue; }
            let text = format!("{}", t);
            use std::os::unix::fs::FileExt;
            let line = format!("{} {}\n", i, text);
            let _ = st.write_all_at(line.as_bytes(), 0);
            n += 1;
            match one(&prop, &t) {
                Out::Ok => { ok += 1; use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); text.hash(&mut h); if distinct.insert(h.finish()) && samples.len() < 3 && (distinct.len() % 97 == 1) { samples.push(text.clone()); } }
                Out::Nothing => {}
                Out::Bad(_) => { let (s, m) = shrink(&prop, &t); println!("BAD\t{}\t{}", s, m.replace('\n', " ")); }
                Out::Panic(m) => { if prop == "C14" { let (s, m2) = shrink(&prop, &t); let _ = m2; println!("BAD\t{}\tpanicked: {}", s, m.replace('\n', " ")); } else { println!("PANIC\t{}", text); } }
            }
        }
        for s in samples { println!("SAMPLE\t{}", s); }
        println!("DONE\t{}\t{}\t{}\t{}", n, ok, distinct.len(), exhausted);
        let _ = std::io::stdout().flush();
        std::process::exit(0);
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(run).unwrap().join().ok();
}

/// run one case in a process of its own: Ok(None) fine, Ok(Some(message)) bad
fn isolated(prop: &str, text: &str, limit: u64) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new(exe).args(["case", prop, text]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            use std::io::Read;
            let mut o = String::new();
            c.stdout.take().unwrap().read_to_string(&mut o).ok();
            if s.code() == Some(0) { return None; }
            if s.code() == Some(1) { return Some(o.trim().to_string()); }
            return if prop == "C15" { Some(format!("the process died ({}): the recursion does not end", s)) } else { None };
        }
        if t0.elapsed().as_secs() > limit { c.kill().ok(); c.wait().ok(); return if prop == "C15" { Some(format!("no result within {} s", limit)) } else { None }; }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn parent(a: &[String]) {
    let prop = a[2].clone();
    let jobs: usize = arg(a, "--jobs", "4").parse().unwrap();
    let secs: f64 = arg(a, "--secs", "5").parse().unwrap();
    let dir = arg(a, "--dir", "/tmp/engine");
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let hs: Vec<_> = (0..jobs).map(|j| {
        let (exe, a, prop, dir) = (exe.clone(), a.to_vec(), prop.clone(), dir.clone());
        std::thread::spawn(move || {
            let status = format!("{}/{}.{}.status", dir, prop, j);
            let t0 = Instant::now();
            let (mut out, mut skip, mut crashes) = (vec![], 0usize, 0);
            loop {
                let left = secs - t0.elapsed().as_secs_f64();
                if left <= 0.2 || crashes > 20 { break; }
                let _ = std::fs::write(&status, "");
                let outf = format!("{}/{}.{}.out", dir, prop, j);
                let mut c = std::process::Command::new(&exe).arg("child").args(&a[2..]).args(["--shard", &j.to_string(), "--shards", &jobs.to_string(), "--skip", &skip.to_string(), "--status", &status, "--secs", &left.to_string()])
                    .stdout(std::fs::File::create(&outf).unwrap()).stderr(std::process::Stdio::null()).spawn().unwrap();
                let mut last = (String::new(), Instant::now());
                let code = loop {
                    if let Some(s) = c.try_wait().unwrap() { break s.code(); }
                    let s = std::fs::read_to_string(&status).unwrap_or_default();
                    let s = s.lines().next().unwrap_or("").to_string();
                    if s != last.0 { last = (s, Instant::now()); }
                    if last.1.elapsed().as_secs() > 20 { c.kill().ok(); c.wait().ok(); break None; }
                    std::thread::sleep(Duration::from_millis(20));
                };
                let o = std::fs::read_to_string(&outf).unwrap_or_default();
                out.extend(o.lines().map(|l| l.to_string()));
                if code == Some(0) { break; }
                crashes += 1;
                let s = std::fs::read_to_string(&status).unwrap_or_default();
                let l = s.lines().next().unwrap_or("").to_string();
                let mut it = l.splitn(2, ' ');
                skip = it.next().and_then(|x| x.parse().ok()).unwrap_or(skip + 1);
                let text = it.next().unwrap_or("").to_string();
                if prop == "C15" { if let Some(m) = isolated(&prop, &text, 20) {
                    // shrink in separate processes
                    let mut best = (text.clone(), m);
                    let t1 = Instant::now();
                    'o: while let Some(t) = term::parse(&best.0) {
                        for c in cands(&t) {
                            if t1.elapsed().as_secs() > 20 { break 'o; }
                            if let Some(m) = isolated(&prop, &c.to_string(), 3) { best = (c.to_string(), m); continue 'o; }
                        }
                        break;
                    }
                    out.push(format!("BAD\t{}\t{}", best.0, best.1));
                } } else { out.push(format!("CRASH\t{}", text)); }
            }
            out
        })
    }).collect();
    for h in hs { for l in h.join().unwrap() { println!("{}", l); } }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "run" => parent(&a),
        "child" => child(&a),
        "case" => {
            let (prop, text) = (a[2].clone(), a[3].clone());
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                std::panic::set_hook(Box::new(|_| {}));
                match term::parse(&text) {
                    None => { println!("cannot parse {}", text); std::process::exit(3) }
                    Some(t) => match bad(&prop, &t) { Some(m) => { println!("{}", m); std::process::exit(1) } None => std::process::exit(0) },
                }
            }).unwrap();
            h.join().ok();
        }
        "iso" => match isolated(&a[2], &a[3], 20) { Some(m) => { println!("{}", m); std::process::exit(1) } None => {} },
        _ => std::process::exit(2),
    }
}
