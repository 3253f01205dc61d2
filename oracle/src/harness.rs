use std::{
    collections::{HashMap, HashSet},
    fs,
    io::{BufRead, BufReader, Write},
    os::unix::fs::FileExt,
    panic,
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    sync::{Arc, Mutex, mpsc},
    time::{Duration, Instant},
};

use serde_json::{Value, json};

use crate::{
    common::{Out, Prop},
    props,
    rng::Rng,
};

const HANG_SECS: u64 = 12;
const MAX_FAILS: usize = 3;

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn hash(parts: &[String]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        for b in p.as_bytes() {
            h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100_0000_01b3);
    }
    h
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let s = format!("{info}").replace('\n', " ");
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}

/// Evaluate one case in-process; a panic in the code under test is a failure.
pub fn eval(p: &Prop, case: &[String]) -> Out {
    match panic::catch_unwind(panic::AssertUnwindSafe(|| (p.check)(case))) {
        Ok(o) => o,
        Err(_) => Out::Fail(format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone()))),
    }
}

pub fn main(args: &[String]) -> i32 {
    install_hook();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd == "list" {
        for p in props::all() {
            println!("{}", p.id);
        }
        return 0;
    }
    let id = opt(args, "--prop").unwrap_or_default();
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("no such property: {id}");
        return 2;
    };
    match cmd {
        "run" => run(args, &p),
        "worker" => worker(args, &p),
        "one" => {
            let f = opt(args, "--case").unwrap_or_default();
            let v: Value = serde_json::from_str(&fs::read_to_string(&f).unwrap_or_default()).unwrap_or(Value::Null);
            let v = v.get("case").cloned().unwrap_or(v);
            let case: Vec<String> = v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
            match eval(&p, &case) {
                Out::Pass(_) => {
                    println!("PASS");
                    0
                }
                Out::Skip => {
                    println!("SKIP");
                    3
                }
                Out::Fail(m) => {
                    println!("FAIL {m}");
                    1
                }
            }
        }
        "shrink" => {
            let f = opt(args, "--case").unwrap_or_default();
            let case = read_case(Path::new(&f));
            let (c, m) = shrink_in_process(&p, case);
            println!("{}", json!({"case": c, "message": m}));
            0
        }
        _ => {
            eprintln!("usage: oracle run|one|list");
            2
        }
    }
}

fn read_case(f: &Path) -> Vec<String> {
    let v: Value = serde_json::from_str(&fs::read_to_string(f).unwrap_or_default()).unwrap_or(Value::Null);
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()
}

fn nth_case(p: &Prop, i: u64, ex: u64, thorough: bool, seed: u64) -> Vec<String> {
    if i < ex {
        (p.exhaustive_case)(i, thorough)
    } else {
        let mut rng = Rng::new(seed, i - ex);
        (p.random_case)(&mut rng)
    }
}

fn worker(args: &[String], p: &Prop) -> i32 {
    let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt(args, "--tier").as_deref() == Some("thorough");
    let shard: u64 = opt(args, "--shard").unwrap().parse().unwrap();
    let shards: u64 = opt(args, "--shards").unwrap().parse().unwrap();
    let start: u64 = opt(args, "--start").unwrap().parse().unwrap();
    let secs: u64 = opt(args, "--secs").unwrap().parse().unwrap();
    let cur = PathBuf::from(opt(args, "--cur").unwrap());
    let hashes = PathBuf::from(opt(args, "--hashes").unwrap());
    let ex = (p.exhaustive)(thorough);
    let total = ex + if thorough { p.random.1 } else { p.random.0 };
    let file = fs::OpenOptions::new().create(true).write(true).truncate(false).open(&cur).unwrap();
    let begin = Instant::now();
    let (mut evals, mut skips, mut nontrivial, mut fails) = (0u64, 0u64, 0u64, 0usize);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    // Interleave: systematic cases first in each shard, but never let them eat
    // more than 60 % of the time.
    let mut i = start;
    while i % shards != shard {
        i += 1;
    }
    let mut buf: Vec<u8> = vec![];
    let mut ex_done = true;
    while i < total {
        if begin.elapsed().as_secs() >= secs {
            break;
        }
        if i < ex && begin.elapsed().as_millis() as u64 > secs * 650 {
            ex_done = false;
            i = ex + ((shards + shard) - ex % shards) % shards;
            continue;
        }
        let case = nth_case(p, i, ex, thorough, seed);
        buf.clear();
        buf.extend_from_slice(&i.to_le_bytes());
        let mut body: Vec<u8> = vec![];
        for part in &case {
            body.extend_from_slice(&(part.len() as u32).to_le_bytes());
            body.extend_from_slice(part.as_bytes());
        }
        buf.extend_from_slice(&(case.len() as u32).to_le_bytes());
        buf.extend_from_slice(&body);
        let _ = file.write_at(&buf, 0);
        match eval(p, &case) {
            Out::Pass(nt) => {
                evals += 1;
                if nt && seen.len() < 600_000 && seen.insert(hash(&case)) {
                    nontrivial += 1;
                    if samples.len() < 2 && (nontrivial == 7 || nontrivial == 4000) {
                        samples.push(json!(case));
                    }
                }
            }
            Out::Skip => skips += 1,
            Out::Fail(m) => {
                evals += 1;
                fails += 1;
                println!("FAIL\t{}", json!({"case": case, "message": m, "index": i}));
                if fails >= MAX_FAILS {
                    break;
                }
            }
        }
        i += shards;
    }
    let mut hb: Vec<u8> = Vec::with_capacity(seen.len() * 8);
    for h in &seen {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    if let Ok(mut f) = fs::OpenOptions::new().create(true).append(true).open(&hashes) {
        let _ = f.write_all(&hb);
    }
    println!("STATS\t{}", json!({"evals": evals, "skips": skips, "samples": samples, "ex_done": ex_done && i >= ex.min(total)}));
    0
}

fn decode_cur(f: &Path) -> Option<(u64, Vec<String>)> {
    let b = fs::read(f).ok()?;
    if b.len() < 12 {
        return None;
    }
    let i = u64::from_le_bytes(b[0..8].try_into().ok()?);
    let n = u32::from_le_bytes(b[8..12].try_into().ok()?) as usize;
    let mut at = 12;
    let mut parts = vec![];
    for _ in 0..n {
        let l = u32::from_le_bytes(b.get(at..at + 4)?.try_into().ok()?) as usize;
        at += 4;
        parts.push(String::from_utf8_lossy(b.get(at..at + l)?).into_owned());
        at += l;
    }
    Some((i, parts))
}

fn spawn_worker(args: &[String], dir: &Path, shard: u64, shards: u64, start: u64, secs: u64) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("worker");
    for k in ["--prop", "--seed", "--tier"] {
        if let Some(v) = opt(args, k) {
            c.arg(k).arg(v);
        }
    }
    c.arg("--shard").arg(shard.to_string()).arg("--shards").arg(shards.to_string());
    c.arg("--start").arg(start.to_string()).arg("--secs").arg(secs.to_string());
    c.arg("--cur").arg(dir.join(format!("cur{shard}")));
    c.arg("--hashes").arg(dir.join(format!("hash{shard}")));
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    c.spawn().unwrap()
}

fn run(args: &[String], p: &Prop) -> i32 {
    let secs: u64 = opt(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(20);
    let out = PathBuf::from(opt(args, "--out").unwrap_or("/dev/stdout".into()));
    let shards: u64 = opt(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt(args, "--tier").as_deref() == Some("thorough");
    let dir = std::env::temp_dir().join(format!("oracle-{}-{}", p.id, std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let begin = Instant::now();
    let fails: Arc<Mutex<Vec<Value>>> = Default::default();
    let stats: Arc<Mutex<Vec<Value>>> = Default::default();
    let mut threads = vec![];
    for shard in 0..shards {
        let (args, dir, fails, stats) = (args.to_vec(), dir.clone(), fails.clone(), stats.clone());
        threads.push(std::thread::spawn(move || {
            let mut start = shard;
            let mut crashes = 0;
            loop {
                let left = secs.saturating_sub(begin.elapsed().as_secs());
                if left == 0 || fails.lock().unwrap().len() >= MAX_FAILS {
                    break;
                }
                let cur = dir.join(format!("cur{shard}"));
                let _ = fs::remove_file(&cur);
                let mut child = spawn_worker(&args, &dir, shard, shards, start, left);
                let so = child.stdout.take().unwrap();
                let (tx, rx) = mpsc::channel();
                let reader = std::thread::spawn(move || {
                    for line in BufReader::new(so).lines().map_while(Result::ok) {
                        if tx.send(line).is_err() {
                            break;
                        }
                    }
                });
                let mut last = (u64::MAX, Instant::now());
                let mut got_stats = false;
                let mut hung = false;
                let status = loop {
                    while let Ok(line) = rx.try_recv() {
                        if let Some(j) = line.strip_prefix("FAIL\t") {
                            fails.lock().unwrap().push(serde_json::from_str(j).unwrap());
                        } else if let Some(j) = line.strip_prefix("STATS\t") {
                            stats.lock().unwrap().push(serde_json::from_str(j).unwrap());
                            got_stats = true;
                        }
                    }
                    if let Ok(Some(s)) = child.try_wait() {
                        break Some(s);
                    }
                    if fails.lock().unwrap().len() >= MAX_FAILS {
                        let _ = child.kill();
                        let _ = child.wait();
                        break None;
                    }
                    if let Some((i, _)) = decode_cur(&cur)
                        && i != last.0
                    {
                        last = (i, Instant::now());
                    }
                    if last.1.elapsed().as_secs() >= HANG_SECS && last.0 != u64::MAX && !got_stats {
                        let _ = child.kill();
                        let _ = child.wait();
                        hung = true;
                        break None;
                    }
                    std::thread::sleep(Duration::from_millis(40));
                };
                let _ = reader.join();
                while let Ok(line) = rx.try_recv() {
                    if let Some(j) = line.strip_prefix("FAIL\t") {
                        fails.lock().unwrap().push(serde_json::from_str(j).unwrap());
                    } else if let Some(j) = line.strip_prefix("STATS\t") {
                        stats.lock().unwrap().push(serde_json::from_str(j).unwrap());
                        got_stats = true;
                    }
                }
                if got_stats {
                    break;
                }
                if status.is_none() && !hung {
                    break;
                }
                if let Some((i, case)) = decode_cur(&cur) {
                    let what = if hung { format!("hang: no answer within {HANG_SECS} s") } else { format!("crash: worker died ({status:?})") };
                    // Confirm in a fresh process, so that a stray kill is not blamed on the code.
                    let v = one_subprocess(&args, &dir, &format!("c{shard}"), &case, HANG_SECS);
                    if v.is_some() {
                        fails.lock().unwrap().push(json!({"case": case, "message": what, "index": i, "kind": "process"}));
                    }
                    start = i + shards;
                }
                crashes += 1;
                if crashes > 5 {
                    break;
                }
            }
        }));
    }
    for t in threads {
        let _ = t.join();
    }
    let fails = fails.lock().unwrap().clone();
    let stats = stats.lock().unwrap().clone();
    let sum = |k: &str| stats.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum::<u64>();
    let mut seen: HashSet<u64> = HashSet::new();
    for s in 0..shards {
        if let Ok(b) = fs::read(dir.join(format!("hash{s}"))) {
            for c in b.chunks_exact(8) {
                seen.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let samples: Vec<Value> = stats.iter().flat_map(|s| s["samples"].as_array().cloned().unwrap_or_default()).take(4).collect();
    let ex = (p.exhaustive)(thorough);
    let ex_done = stats.len() as u64 == shards && stats.iter().all(|s| s["ex_done"].as_bool() == Some(true));
    let mut shrunk: Vec<Value> = vec![];
    let mut by_msg: HashMap<String, usize> = HashMap::new();
    for f in &fails {
        let m = f["message"].as_str().unwrap_or("").chars().take(40).collect::<String>();
        let n = by_msg.entry(m).or_default();
        *n += 1;
        if *n > 2 || shrunk.len() >= 3 {
            continue;
        }
        let case: Vec<String> = f["case"].as_array().unwrap().iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        let (c, m) = if f["kind"] == "process" {
            shrink_subprocess(args, &dir, case, f["message"].as_str().unwrap_or(""))
        } else {
            shrink_guarded(args, &dir, case, f["message"].as_str().unwrap_or(""))
        };
        shrunk.push(json!({"property": p.id, "case": c, "message": m, "original": f["case"], "seed": seed, "index": f["index"]}));
    }
    let _ = fs::remove_dir_all(&dir);
    let res = json!({
        "property": p.id, "seed": seed, "evaluations": sum("evals"), "skipped": sum("skips"),
        "distinct_nontrivial": seen.len(), "rule": p.rule, "samples": samples,
        "systematic_cases": ex, "systematic_complete": ex_done && ex > 0,
        "wall_s": begin.elapsed().as_secs_f64(),
        "failures": shrunk,
    });
    let _ = fs::write(&out, serde_json::to_string_pretty(&res).unwrap());
    if fails.is_empty() { 0 } else { 1 }
}

/// Some(message) if the case fails (including crash / timeout) in a fresh process.
fn one_subprocess(args: &[String], dir: &Path, tag: &str, case: &[String], secs: u64) -> Option<String> {
    let f = dir.join(format!("one{tag}.json"));
    fs::write(&f, json!(case).to_string()).ok()?;
    let exe = std::env::current_exe().ok()?;
    let mut c = Command::new(exe)
        .arg("one")
        .arg("--prop")
        .arg(opt(args, "--prop").unwrap())
        .arg("--case")
        .arg(&f)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return match s.code() {
                Some(0) | Some(3) => None,
                Some(1) => Some("fails".into()),
                _ => Some("crash: the process died (stack overflow or abort)".into()),
            };
        }
        if t.elapsed().as_secs() >= secs {
            let _ = c.kill();
            let _ = c.wait();
            return Some("hang: no answer".into());
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn candidates(case: &[String]) -> Vec<Vec<String>> {
    let mut v = vec![];
    // Drop whole parts (never the first).
    for i in (1..case.len()).rev() {
        let mut c = case.to_vec();
        c.remove(i);
        v.push(c);
    }
    for (i, part) in case.iter().enumerate() {
        let lines: Vec<&str> = part.split_inclusive('\n').collect();
        let mut k = lines.len() / 2;
        while k >= 1 && lines.len() > 1 {
            let mut a = 0;
            while a < lines.len() {
                let b = (a + k).min(lines.len());
                let mut c = case.to_vec();
                c[i] = lines[..a].concat() + &lines[b..].concat();
                v.push(c);
                a = b;
            }
            k /= 2;
        }
    }
    for (i, part) in case.iter().enumerate() {
        let chars: Vec<char> = part.chars().collect();
        let mut k = chars.len() / 2;
        while k >= 1 {
            let mut a = 0;
            while a < chars.len() {
                let b = (a + k).min(chars.len());
                let mut c = case.to_vec();
                c[i] = chars[..a].iter().chain(chars[b..].iter()).collect();
                v.push(c);
                a = b;
            }
            k /= 2;
            if k > 0 && chars.len() / k > 600 {
                break;
            }
        }
    }
    v
}

fn shrink_in_process(p: &Prop, mut case: Vec<String>) -> (Vec<String>, String) {
    let mut msg = match eval(p, &case) {
        Out::Fail(m) => m,
        _ => return (case, "not reproduced".into()),
    };
    let panicky = msg.starts_with("panic");
    let begin = Instant::now();
    let mut progress = true;
    while progress && begin.elapsed().as_secs() < 10 {
        progress = false;
        for c in candidates(&case) {
            if begin.elapsed().as_secs() >= 10 {
                break;
            }
            if let Out::Fail(m) = eval(p, &c)
                && m.starts_with("panic") == panicky
            {
                case = c;
                msg = m;
                progress = true;
                break;
            }
        }
    }
    (case, msg)
}

fn shrink_guarded(args: &[String], dir: &Path, case: Vec<String>, msg: &str) -> (Vec<String>, String) {
    let f = dir.join("shrink.json");
    let _ = fs::write(&f, json!(case).to_string());
    let exe = std::env::current_exe().unwrap();
    let Ok(mut c) = Command::new(exe)
        .arg("shrink")
        .arg("--prop")
        .arg(opt(args, "--prop").unwrap())
        .arg("--case")
        .arg(&f)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    else {
        return (case, msg.into());
    };
    let so = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || BufReader::new(so).lines().map_while(Result::ok).last());
    let t = Instant::now();
    loop {
        if let Ok(Some(_)) = c.try_wait() {
            break;
        }
        if t.elapsed().as_secs() >= 25 {
            let _ = c.kill();
            let _ = c.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    if let Ok(Some(line)) = h.join()
        && let Ok(v) = serde_json::from_str::<Value>(&line)
        && let Some(a) = v["case"].as_array()
    {
        let m = v["message"].as_str().unwrap_or(msg).to_string();
        if m != "not reproduced" {
            return (a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(), m);
        }
    }
    (case, msg.into())
}

fn shrink_subprocess(args: &[String], dir: &Path, mut case: Vec<String>, msg: &str) -> (Vec<String>, String) {
    let begin = Instant::now();
    let mut progress = true;
    while progress && begin.elapsed().as_secs() < 30 {
        progress = false;
        for c in candidates(&case) {
            if begin.elapsed().as_secs() >= 30 {
                break;
            }
            if one_subprocess(args, dir, "s", &c, 2).is_some() {
                case = c;
                progress = true;
                break;
            }
        }
    }
    (case, msg.into())
}
