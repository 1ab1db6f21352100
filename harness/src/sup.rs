//! The supervisor: splits a check's cases over worker processes, watches them, confirms what they report in a fresh process, and writes
//! the evidence.

use crate::case::{escape, unescape, Case, Check, Obs, Tier};
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Processor seconds one case may take before it counts as running without end. Cases take milliseconds.
const CASE_CPU: u64 = 20;

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("JSMON_VERIF").unwrap_or("/verif".into()))
}
pub fn tier() -> Tier {
    Tier { thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn case_rng(id: &str, seed: u64, i: u64) -> Rng {
    Rng::new(crate::case::hash_str(id) ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ i.wrapping_mul(0xD134_2543_DE82_EF95))
}

/// The case with number `i`: enumerated and random ones alternate while both last.
fn nth_case(c: &dyn Check, t: &Tier, seed: u64, i: u64) -> Option<Case> {
    let (e, r) = (c.enumerated(t), c.random(t));
    let both = e.min(r);
    let (en, k) = if i < 2 * both {
        (i % 2 == 0, i / 2)
    } else {
        (e > r, both + (i - 2 * both))
    };
    if en {
        if k >= e {
            return None;
        }
        Some(c.nth(k, t))
    } else {
        if k >= r {
            return None;
        }
        let mut rng = case_rng(c.id(), seed, k);
        Some(c.gen(&mut rng, k))
    }
}

fn command(args: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::null());
    c
}

fn limit(c: &mut Command, cpu: Option<u64>) {
    unsafe {
        c.pre_exec(move || {
            let set = |what, soft: u64, hard: u64| {
                let l = libc::rlimit { rlim_cur: soft, rlim_max: hard };
                libc::setrlimit(what, &l);
            };
            set(libc::RLIMIT_CORE, 0, 0);
            if std::env::var_os("JSMON_ASAN").is_none() {
                set(libc::RLIMIT_AS, 3 << 30, 3 << 30);
            }
            if let Some(n) = cpu {
                set(libc::RLIMIT_CPU, n, n + 5);
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

// ---- worker

pub fn worker(c: &dyn Check, shard: u64, of: u64, dir: &Path, upto: Option<u64>) {
    let t = tier();
    let seed = seed();
    let cur = File::create(dir.join(format!("cur.{}", shard))).unwrap();
    let mut out = File::create(dir.join(format!("out.{}", shard))).unwrap();
    let soft = Duration::from_secs(if t.thorough { 3000 } else { 240 });
    let start = Instant::now();
    let mut o = Obs::default();
    let mut found = 0;
    let mut i = shard;
    let mut cut = false;
    loop {
        if upto.map_or(false, |u| i > u) {
            break;
        }
        let case = match nth_case(c, &t, seed, i) {
            Some(c) => c,
            None => break,
        };
        let mut buf = Vec::with_capacity(64 + case.texts.iter().map(|t| t.len()).sum::<usize>());
        buf.extend_from_slice(&[0; 16]);
        buf.extend_from_slice(case.encode().as_bytes());
        let len = buf.len() as u64 - 16;
        buf[0..8].copy_from_slice(&(i + 1).to_le_bytes());
        buf[8..16].copy_from_slice(&len.to_le_bytes());
        cur.write_all_at(&buf, 0).unwrap();
        o.evals += 1;
        o.nontrivial = false;
        let r = c.eval(&case, &mut o);
        if o.nontrivial {
            o.distinct.insert(case.hash());
        }
        if let Err(msg) = r {
            let (case, msg) = if c.shrinks(&case) { shrink(c, case, msg) } else { (case, msg) };
            writeln!(out, "V\t{}\t{}\t{}", i, escape(&msg), case.encode()).unwrap();
            out.flush().unwrap();
            found += 1;
            if found >= 2 {
                break;
            }
        }
        i += of;
        if start.elapsed() > soft {
            cut = true;
            break;
        }
    }
    let mut s = String::new();
    s.push_str(&format!("E\t{}\n", o.evals));
    if cut {
        s.push_str("C\n");
    }
    for (k, v) in &o.counts {
        s.push_str(&format!("N\t{}\t{}\n", k, v));
    }
    for x in &o.samples {
        s.push_str(&format!("S\t{}\n", x));
    }
    out.write_all(s.as_bytes()).unwrap();
    let mut h = File::create(dir.join(format!("hash.{}", shard))).unwrap();
    let mut b = Vec::with_capacity(o.distinct.len() * 8);
    for x in &o.distinct {
        b.extend_from_slice(&x.to_le_bytes());
    }
    h.write_all(&b).unwrap();
    writeln!(out, "D").unwrap();
}

/// Make the witness smaller while it stays one.
fn shrink(c: &dyn Check, case: Case, msg: String) -> (Case, String) {
    let start = Instant::now();
    let mut best = case;
    let mut msg = msg;
    let mut o = Obs::default();
    let mut chunk = best.texts[0].chars().count() / 2;
    while chunk > 0 {
        let mut at = 0;
        let mut any = false;
        loop {
            let cs: Vec<char> = best.texts[0].chars().collect();
            if at >= cs.len() || start.elapsed() > Duration::from_secs(10) {
                break;
            }
            let end = (at + chunk).min(cs.len());
            let t: String = cs[..at].iter().chain(cs[end..].iter()).collect();
            let mut x = best.clone();
            x.texts[0] = t;
            match c.eval(&x, &mut o) {
                Err(m) => {
                    best = x;
                    msg = m;
                    any = true;
                }
                Ok(()) => at += chunk,
            }
        }
        if start.elapsed() > Duration::from_secs(10) {
            break;
        }
        if !any || chunk > 1 {
            chunk /= 2;
        }
    }
    (best, msg)
}

// ---- supervisor

struct Worker {
    child: Child,
    shard: u64,
    seq: u64,
    cpu0: u64,
    done: bool,
}

fn cpu_of(pid: u32) -> u64 {
    // user + system time in ticks
    let s = match fs::read_to_string(format!("/proc/{}/stat", pid)) {
        Ok(s) => s,
        Err(_) => return 0,
    };
    let rest = &s[s.rfind(')').map_or(0, |i| i + 1)..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (g(11) + g(12)) / unsafe { libc::sysconf(libc::_SC_CLK_TCK) as u64 }.max(1)
}

fn read_cur(dir: &Path, shard: u64) -> Option<(u64, Case)> {
    let mut b = vec![];
    File::open(dir.join(format!("cur.{}", shard))).ok()?.read_to_end(&mut b).ok()?;
    if b.len() < 16 {
        return None;
    }
    let mut w = [0u8; 8];
    w.copy_from_slice(&b[0..8]);
    let seq = u64::from_le_bytes(w);
    w.copy_from_slice(&b[8..16]);
    let len = u64::from_le_bytes(w) as usize;
    if b.len() < 16 + len {
        return None;
    }
    Case::decode(std::str::from_utf8(&b[16..16 + len]).ok()?).map(|c| (seq, c))
}
fn read_seq(dir: &Path, shard: u64) -> u64 {
    let mut w = [0u8; 8];
    match File::open(dir.join(format!("cur.{}", shard))) {
        Ok(f) => match f.read_exact_at(&mut w, 0) {
            Ok(()) => u64::from_le_bytes(w),
            Err(_) => 0,
        },
        Err(_) => 0,
    }
}

pub struct Found {
    pub msg: String,
    pub case: Case,
    pub shard: u64,
    pub of: u64,
    pub index: u64,
}

pub struct Totals {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub cut: bool,
    pub found: Vec<Found>,
    pub errors: Vec<String>,
}

fn workdir(id: &str) -> PathBuf {
    let d = verif_dir().join("work").join(format!("{}.{}", id, std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    d
}

pub fn explore(c: &dyn Check) -> Totals {
    let dir = workdir(c.id());
    let of = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) as u64;
    let mut tot = Totals { evals: 0, distinct: HashSet::new(), counts: BTreeMap::new(), samples: vec![], cut: false, found: vec![], errors: vec![] };
    let mut ws: Vec<Worker> = vec![];
    for shard in 0..of {
        let err = File::create(dir.join(format!("err.{}", shard))).unwrap();
        let mut cmd = command(&["work", c.id(), &shard.to_string(), &of.to_string(), dir.to_str().unwrap()]);
        cmd.stderr(err);
        limit(&mut cmd, None);
        ws.push(Worker { child: cmd.spawn().unwrap(), shard, seq: 0, cpu0: 0, done: false });
    }
    let mut stop_at: Option<Instant> = None;
    loop {
        let mut alive = false;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    if let Some(sig) = st.signal() {
                        match read_cur(&dir, w.shard) {
                            Some((seq, case)) => tot.found.push(Found {
                                msg: format!("the process was ended by signal {} ({})", sig, signal_name(sig)),
                                case,
                                shard: w.shard,
                                of,
                                index: seq - 1,
                            }),
                            None => tot.errors.push(format!("worker {} ended by signal {}", w.shard, sig)),
                        }
                    } else if !st.success() {
                        let e = fs::read_to_string(dir.join(format!("err.{}", w.shard))).unwrap_or_default();
                        if st.code() == Some(ASAN_EXIT) {
                            if let Some((seq, case)) = read_cur(&dir, w.shard) {
                                tot.found.push(Found { msg: format!("AddressSanitizer: {}", asan_line(&e)), case, shard: w.shard, of, index: seq - 1 });
                                continue;
                            }
                        }
                        tot.errors.push(format!("worker {} failed ({:?}): {}", w.shard, st.code(), crate::mon::clip(&e, 600)));
                    }
                }
                None => {
                    alive = true;
                    let seq = read_seq(&dir, w.shard);
                    let cpu = cpu_of(w.child.id());
                    if seq != w.seq {
                        w.seq = seq;
                        w.cpu0 = cpu;
                    } else if seq != 0 && cpu.saturating_sub(w.cpu0) > CASE_CPU {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        match read_cur(&dir, w.shard) {
                            Some((seq, case)) => tot.found.push(Found {
                                msg: format!("still running after {} s of processor time", CASE_CPU),
                                case,
                                shard: w.shard,
                                of,
                                index: seq - 1,
                            }),
                            None => tot.errors.push("a worker stopped making progress".into()),
                        }
                    }
                }
            }
        }
        if !alive {
            break;
        }
        // Once a worker has failed its check, the others need not finish.
        if stop_at.is_none() && (0..of).any(|s| has_violation(&dir, s)) {
            stop_at = Some(Instant::now() + Duration::from_secs(12));
        }
        if !tot.found.is_empty() && stop_at.is_none() {
            stop_at = Some(Instant::now() + Duration::from_secs(5));
        }
        if stop_at.map_or(false, |t| Instant::now() > t) {
            for w in ws.iter_mut() {
                if !w.done {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    w.done = true;
                    tot.cut = true;
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(60));
    }
    for shard in 0..of {
        let s = fs::read_to_string(dir.join(format!("out.{}", shard))).unwrap_or_default();
        for line in s.lines() {
            let f: Vec<&str> = line.splitn(4, '\t').collect();
            match f[0] {
                "E" => tot.evals += f[1].parse::<u64>().unwrap_or(0),
                "C" => tot.cut = true,
                "N" => {
                    let v: u64 = f[2].parse().unwrap_or(0);
                    let e = tot.counts.entry(f[1].to_string()).or_insert(0);
                    if f[1].starts_with("max:") {
                        *e = (*e).max(v);
                    } else {
                        *e += v;
                    }
                }
                "S" => tot.samples.push(f[1..].join("\t")),
                "V" => {
                    if let (Ok(index), Some(msg), Some(case)) = (f[1].parse(), unescape(f[2]), f.get(3).and_then(|c| Case::decode(c))) {
                        tot.found.push(Found { msg, case, shard, of, index });
                    }
                }
                _ => {}
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("hash.{}", shard))) {
            for x in b.chunks_exact(8) {
                let mut w = [0u8; 8];
                w.copy_from_slice(x);
                tot.distinct.insert(u64::from_le_bytes(w));
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    tot
}

pub const ASAN_EXIT: i32 = 86;

fn asan_line(e: &str) -> String {
    e.lines().find(|l| l.contains("AddressSanitizer")).unwrap_or("error").to_string()
}

fn has_violation(dir: &Path, shard: u64) -> bool {
    fs::read(dir.join(format!("out.{}", shard))).map_or(false, |b| b.starts_with(b"V\t"))
}

fn signal_name(s: i32) -> &'static str {
    match s {
        libc::SIGSEGV => "invalid memory access or stack exhaustion",
        libc::SIGABRT => "abort",
        libc::SIGILL => "illegal instruction",
        libc::SIGBUS => "bus error",
        libc::SIGXCPU => "processor time limit",
        libc::SIGKILL => "killed",
        _ => "signal",
    }
}

pub enum Confirm {
    Yes(String),
    No,
    Unclear(String),
}

/// Evaluate a replay file in a fresh process.
pub fn confirm(path: &Path, history: bool) -> Confirm {
    let mut cmd = command(&[if history { "replay-history" } else { "replay" }, path.to_str().unwrap()]);
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    limit(&mut cmd, Some(if history { 600 } else { CASE_CPU + 10 }));
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return Confirm::Unclear(e.to_string()),
    };
    let mut out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = out.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let mut errp = child.stderr.take().unwrap();
    let ereader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = errp.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let start = Instant::now();
    let st = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break st;
        }
        if start.elapsed() > Duration::from_secs(if history { 400 } else { 120 }) {
            let _ = child.kill();
            let _ = child.wait();
            return Confirm::Unclear("the replay did not end in time".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let s = reader.join().unwrap_or_default();
    let e = ereader.join().unwrap_or_default();
    if let Some(sig) = st.signal() {
        if sig == libc::SIGKILL && !history {
            // The hard processor limit, or the machine ran out of memory.
            return Confirm::Unclear("the replay was killed".into());
        }
        return Confirm::Yes(format!("the process was ended by signal {} ({})", sig, signal_name(sig)));
    }
    match st.code() {
        Some(0) => Confirm::No,
        Some(1) => Confirm::Yes(
            s.lines().rev().find(|l| l.starts_with("FOUND ")).map(|l| l[6..].to_string()).unwrap_or_default(),
        ),
        Some(ASAN_EXIT) => Confirm::Yes(format!("AddressSanitizer: {}", asan_line(&e))),
        c => Confirm::Unclear(format!("the replay ended with {:?}: {}", c, crate::mon::clip(&e, 300))),
    }
}

pub fn write_replay(id: &str, name: &str, f: &Found) -> PathBuf {
    let d = verif_dir().join("work").join("replay");
    fs::create_dir_all(&d).unwrap();
    let p = d.join(format!("{}-{}.txt", id, name));
    let mut s = String::new();
    s.push_str(&format!("check {}\n", id));
    s.push_str(&format!("what {}\n", escape(&f.msg)));
    s.push_str(&format!("case {}\n", f.case.encode()));
    s.push_str(&format!("history {} {} {} {} {}\n", seed(), if tier().thorough { "thorough" } else { "quick" }, f.shard, f.of, f.index));
    s.push_str("# Replay: /verif/check replay <this file>\n");
    fs::write(&p, s).unwrap();
    p
}

pub struct Replay {
    pub id: String,
    pub case: Case,
    pub history: Vec<String>,
}
pub fn read_replay(p: &Path) -> Option<Replay> {
    let s = fs::read_to_string(p).ok()?;
    let mut id = None;
    let mut case = None;
    let mut history = vec![];
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("check ") {
            id = Some(x.to_string());
        } else if let Some(x) = l.strip_prefix("case ") {
            case = Case::decode(x);
        } else if let Some(x) = l.strip_prefix("history ") {
            history = x.split(' ').map(|s| s.to_string()).collect();
        }
    }
    Some(Replay { id: id?, case: case?, history })
}

/// Repeat everything the worker did before the case, in the same order and the same process.
pub fn replay_history(p: &Path) -> i32 {
    let r = match read_replay(p) {
        Some(r) if r.history.len() == 5 => r,
        _ => return 2,
    };
    let n = |i: usize| r.history[i].parse::<u64>().unwrap_or(0);
    std::env::set_var("VERIF_SEED", &r.history[0]);
    std::env::set_var("VERIF_TIER", &r.history[1]);
    let (shard, of, index) = (n(2), n(3), n(4));
    let id = r.id.clone();
    let dir = workdir(&format!("{}.history", id));
    let d = dir.clone();
    crate::deep(move || worker(crate::find(&id), shard, of.max(1), &d, Some(index)));
    let s = fs::read_to_string(dir.join(format!("out.{}", shard))).unwrap_or_default();
    let _ = fs::remove_dir_all(&dir);
    match s.lines().find(|l| l.starts_with("V\t")) {
        Some(l) => {
            println!("FOUND {}", l.split('\t').nth(2).and_then(unescape).unwrap_or_default());
            1
        }
        None => 0,
    }
}

/// Report on confirmed findings; the exit status.
pub fn conclude(id: &str, tot: Totals, rule: &str, start: Instant, min_evals: u64) -> i32 {
    let mut confirmed: Vec<(PathBuf, String)> = vec![];
    let mut unclear = vec![];
    for (k, f) in tot.found.iter().enumerate().take(6) {
        let p = write_replay(id, &format!("{}-{}", seed(), k), f);
        match confirm(&p, false) {
            Confirm::Yes(m) => confirmed.push((p, if m.is_empty() { f.msg.clone() } else { m })),
            Confirm::Unclear(m) => unclear.push(m),
            Confirm::No => match confirm(&p, true) {
                Confirm::Yes(m) => confirmed.push((p, format!("(only after the parses before it) {}", if m.is_empty() { f.msg.clone() } else { m }))),
                // That the same text was answered in two ways is seen once and for all, whether or not it happens again.
                Confirm::No if id == "C17" && f.msg.contains(crate::worldchecks::DIFFERS) => confirmed.push((p, format!("(not in every run) {}", f.msg))),
                Confirm::No => unclear.push(format!("not reproducible: {}", f.msg)),
                Confirm::Unclear(m) => unclear.push(m),
            },
        }
        if !confirmed.is_empty() && k >= 2 {
            break;
        }
    }
    let cov = Coverage {
        evaluations: tot.evals,
        distinct: tot.distinct.len() as u64,
        rule: rule.to_string(),
        samples: tot.samples.clone(),
        counts: tot.counts.clone(),
        cut: tot.cut,
    };
    write_evidence(id, &cov, start.elapsed().as_secs_f64(), confirmed.len());
    for (p, m) in &confirmed {
        println!("{}: {}", id, m);
        println!("VIOLATION property={} replay={}", id, p.display());
    }
    if !confirmed.is_empty() {
        return 1;
    }
    if !unclear.is_empty() || !tot.errors.is_empty() {
        for m in unclear.iter().chain(tot.errors.iter()) {
            eprintln!("{}: inconclusive: {}", id, m);
        }
        return 2;
    }
    if tot.evals < min_evals {
        eprintln!("{}: inconclusive: only {} cases were evaluated", id, tot.evals);
        return 2;
    }
    println!("{}: held on {} cases ({} distinct and non-trivial), {:.1} s", id, tot.evals, cov.distinct, start.elapsed().as_secs_f64());
    0
}

pub struct Coverage {
    pub evaluations: u64,
    pub distinct: u64,
    pub rule: String,
    pub samples: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub cut: bool,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_evidence(id: &str, c: &Coverage, wall: f64, violations: usize) {
    let d = verif_dir().join("evidence");
    fs::create_dir_all(&d).unwrap();
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n", json_str(id)));
    s.push_str(&format!(" \"tier\": \"{}\",\n", if tier().thorough { "thorough" } else { "quick" }));
    s.push_str(&format!(" \"seed\": {},\n \"level\": \"exploration\",\n", seed()));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", c.evaluations, c.distinct));
    s.push_str(&format!("  \"rule\": {},\n", json_str(&c.rule)));
    s.push_str(&format!("  \"stopped_early\": {},\n  \"violations\": {},\n", c.cut, violations));
    s.push_str("  \"observed\": {");
    let mut first = true;
    for (k, v) in &c.counts {
        s.push_str(&format!("{}\n   {}: {}", if first { "" } else { "," }, json_str(k), v));
        first = false;
    }
    s.push_str("\n  },\n  \"samples\": [");
    let mut seen = HashSet::new();
    let mut first = true;
    for x in c.samples.iter().filter(|x| seen.insert(x.to_string())).take(40) {
        s.push_str(&format!("{}\n   {}", if first { "" } else { "," }, json_str(x)));
        first = false;
    }
    s.push_str(&format!("\n  ]\n }},\n \"wall_s\": {:.2}\n}}\n", wall));
    fs::write(d.join(format!("{}.json", id)), s).unwrap();
}
