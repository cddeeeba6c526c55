//! Supervisor and worker. The worker runs the cases (several threads); the supervisor survives
//! whatever the code under test does to the worker process, confirms crashes and hangs on a single
//! case, writes the replay file and the evidence.
use crate::case::*;
use crate::rng::{hash_str, Rng};
use crate::snap::clip;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
fn limit(what: i32, v: u64) {
    let r = [v, v];
    unsafe {
        setrlimit(what, &r);
    }
}
/// CPU time of this thread in nanoseconds
pub fn thread_cpu_ns() -> u64 {
    let mut t = [0i64; 2];
    unsafe {
        clock_gettime(3, &mut t);
    }
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

#[derive(Debug, Clone)]
pub enum Verdict {
    Held,
    Violated(String),
    HarnessError(String),
}

/// run a closure, turning a panic of the code under test into a message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, bool)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let mine = loc.starts_with("src/") || loc.contains("/verif/harness/");
            Err((format!("panic '{}' at {}", clip(&msg), loc), mine))
        }
    }
}

pub fn run_case(p: &Prop, c: &Case, ctx: &mut Ctx) -> Verdict {
    ctx.evals += 1;
    match guarded(|| (p.check)(c, ctx)) {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(m)) if m.starts_with("INCONCLUSIVE ") => Verdict::HarnessError(m),
        Ok(Err(m)) => Verdict::Violated(m),
        Err((m, true)) => Verdict::HarnessError(m),
        Err((m, false)) => Verdict::Violated(m),
    }
}

pub fn case_of(p: &Prop, seed: u64, idx: u64, thorough: bool) -> Case {
    let mut r = Rng::from_parts(&[seed, hash_str(p.id, 1), idx]);
    let mut idx = idx;
    // first the enumerated families, then every kind of very large document, then the property's own workload
    if NEAR_PROPS.contains(&p.id) {
        let n = crate::gen::near_terms();
        if idx < n {
            let src = crate::gen::nth_near_term(idx);
            let po = match p.id {
                "C01" => r.below(64) as u32,
                "C10" | "C11" | "C12" => 0b111000,
                "C09" => r.below(2) as u32,
                _ => 0,
            };
            return Case::new(src, po, r.below(256) as u32, r.u64() >> 16);
        }
        idx -= n;
    }
    if SLOT_PROPS.contains(&p.id) {
        let n = crate::gen::slots();
        if idx < n {
            let src = crate::gen::nth_slot(idx);
            let po = match p.id {
                "C01" | "C24" => r.below(64) as u32,
                "C10" | "C11" => [0b111000, 0b001000, 0b010000, 0b100000][r.below(4)] | r.below(8) as u32,
                // names starting with '=' are excluded
                "C12" => [0b111000, 0b001000, 0b010000, 0b100000][r.below(4)] | (r.below(8) as u32 & 5),
                "C17" => r.below(8) as u32 & 5,
                "C26" => [0, 0b111000][r.below(2)],
                _ => [0, 0, 0, 1, 2, 4, 3, 6][r.below(8)],
            };
            return Case::new(src, po, r.below(256) as u32, r.u64() >> 16);
        }
        idx -= n;
    }
    if SLOT_PROPS.contains(&p.id) || p.id == "C02" {
        let n = crate::ladder::ladder();
        if idx < n {
            if let Some((src, repaired)) = crate::ladder::nth_ladder(idx) {
                let fix = 0b111000;
                let po = match p.id {
                    "C01" if !repaired => [0, 0, fix][r.below(3)] | r.below(8) as u32,
                    "C01" | "C02" | "C24" | "C13" | "C20" | "C21" | "C22" | "C26" | "C28" if repaired => fix | r.below(8) as u32,
                    "C10" | "C11" => [fix, fix, 0b001000, 0b010000, 0b100000][r.below(5)] | r.below(8) as u32,
                    "C12" => fix | (r.below(8) as u32 & 5),
                    "C17" => [0, 0, 1, 4][r.below(4)],
                    _ => [0, 0, 0, 0, 1, 2, 4, 7][r.below(8)],
                };
                return Case::new(src, po, r.below(256) as u32, r.u64() >> 16);
            }
            return (p.gen)(idx + 100_000, &mut r, thorough);
        }
        idx -= n;
    }
    if SLOT_PROPS.contains(&p.id) {
        let n = crate::ladder::words() + crate::ladder::relatives();
        if idx < n {
            let src = match idx.checked_sub(crate::ladder::words()) {
                None => crate::ladder::nth_word(idx),
                Some(k) => crate::ladder::nth_relative(k),
            };
            let po = match p.id {
                "C01" | "C24" => r.below(64) as u32,
                "C10" | "C11" => [0b111000, 0b111000, 0b001000, 0b010000, 0b100000][r.below(5)] | r.below(8) as u32,
                "C12" => [0b111000, 0b001000, 0b010000, 0b100000][r.below(4)] | (r.below(8) as u32 & 5),
                "C17" => r.below(8) as u32 & 5,
                _ => [0, 0, 0, 1, 2, 4, 3, 6][r.below(8)],
            };
            return Case::new(src, po, r.below(256) as u32, r.u64() >> 16);
        }
        idx -= n;
    }
    if BIG_PROPS.contains(&p.id) {
        let n = 2 * crate::gen::BIGS as u64;
        if idx < n {
            let kind = idx as usize;
            let mut src = crate::gen::big(&mut r, kind);
            let mut po = 0;
            match p.id {
                "C01" | "C15" => {
                    src.push_str(["</zz>", "<", "<b>", "<a b='", "<!--", "</"][(kind + kind / 16) % 6]);
                    po = if p.id == "C01" { r.below(64) as u32 } else { 0 };
                }
                "C11" => {
                    src.push_str(["</zz>t", "< t", "<b>t<i>", "</ >"][(kind + kind / 16) % 4]);
                    po = 0b111000;
                }
                "C10" => po = 0b111000,
                _ => {}
            }
            return Case::new(src, po, r.below(256) as u32, r.u64() >> 16);
        }
        idx -= n;
    }
    let mut c = (p.gen)(idx, &mut r, thorough);
    if c.tag.is_empty() && c.src.len() < 4000 && (p.id == "C02" || SLOT_PROPS.contains(&p.id)) && r.chance(1, 24) {
        c.src = crate::gen::stretch(&mut r, &c.src);
    }
    c
}
/// how many cases of a run are the systematic families
pub fn systematic(p: &Prop) -> u64 {
    let mut n = 0;
    if NEAR_PROPS.contains(&p.id) {
        n += crate::gen::near_terms();
    }
    if SLOT_PROPS.contains(&p.id) {
        n += crate::gen::slots() + crate::ladder::ladder() + crate::ladder::words() + crate::ladder::relatives();
    }
    if p.id == "C02" {
        n += crate::ladder::ladder();
    }
    if BIG_PROPS.contains(&p.id) {
        n += 2 * crate::gen::BIGS as u64;
    }
    n
}
const NEAR_PROPS: &[&str] = &["C01", "C03", "C06", "C07", "C09", "C10", "C12", "C14", "C15"];
const SLOT_PROPS: &[&str] = &[
    "C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C26", "C28",
];
const BIG_PROPS: &[&str] = &[
    "C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C26", "C28",
];

/// shrink the source text while the case is still violated
pub fn shrink(p: &Prop, c: &Case, msg: &str) -> (Case, String) {
    let t0 = Instant::now();
    let mut best = c.clone();
    let mut bmsg = msg.to_string();
    let mut ctx = Ctx { quiet: true, ..Default::default() };
    let mut tries = 0;
    let mut attempt = |cand: Case, best: &mut Case, bmsg: &mut String| -> bool {
        if tries > 4000 || t0.elapsed() > Duration::from_secs(8) {
            return false;
        }
        tries += 1;
        if let Verdict::Violated(m) = run_case(p, &cand, &mut ctx) {
            *best = cand;
            *bmsg = m;
            true
        } else {
            false
        }
    };
    let mut size = best.src.chars().count() / 2;
    while size >= 1 {
        let mut i = 0;
        loop {
            if t0.elapsed() > Duration::from_secs(8) {
                return (best, bmsg);
            }
            let v: Vec<char> = best.src.chars().collect();
            if i >= v.len() {
                break;
            }
            let e = (i + size).min(v.len());
            let s: String = v[..i].iter().chain(&v[e..]).collect();
            let cand = Case { src: s, ..best.clone() };
            if !attempt(cand, &mut best, &mut bmsg) {
                i += size.max(1);
            }
        }
        size /= 2;
    }
    for bit in 0..9 {
        if best.po >> bit & 1 == 1 {
            let cand = Case { po: best.po & !(1 << bit), ..best.clone() };
            attempt(cand, &mut best, &mut bmsg);
        }
        if best.ro >> bit & 1 == 1 {
            let cand = Case { ro: best.ro & !(1 << bit), ..best.clone() };
            attempt(cand, &mut best, &mut bmsg);
        }
    }
    (best, bmsg)
}

// ------------------------------------------------------------------ little text formats

pub fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
pub fn unhex(s: &str) -> String {
    let v: Vec<u8> = (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect();
    String::from_utf8_lossy(&v).into_owned()
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn case_lines(c: &Case) -> String {
    format!("po={}\nro={}\naux={}\ntag={}\nsrc_hex={}\n", c.po, c.ro, c.aux, hex(&c.tag), hex(&c.src))
}
fn parse_lines(s: &str) -> BTreeMap<String, String> {
    s.lines().filter_map(|l| l.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect()
}
fn case_from(m: &BTreeMap<String, String>) -> Case {
    let n = |k: &str| m.get(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    Case { src: unhex(m.get("src_hex").map(|s| s.as_str()).unwrap_or("")), po: n("po") as u32, ro: n("ro") as u32, aux: n("aux"), tag: unhex(m.get("tag").map(|s| s.as_str()).unwrap_or("")) }
}

// ------------------------------------------------------------------ worker

struct Slot {
    idx: AtomicU64, // idx + 1, 0 = idle
    tid: AtomicU64,
}

pub fn tid_cpu_ms(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let u: u64 = f.get(11)?.parse().ok()?;
    let k: u64 = f.get(12)?.parse().ok()?;
    Some((u + k) * 10)
}

pub fn work(p: &'static Prop, seed: u64, thorough: bool, dir: &Path) -> i32 {
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 26 << 30);
    install_hook();
    let total = systematic(p) + if thorough { p.thorough } else { p.quick };
    let deadline = Instant::now() + Duration::from_secs(if thorough { 1500 } else { 420 });
    let n = p.threads;
    let slots: Arc<Vec<Slot>> = Arc::new((0..n).map(|_| Slot { idx: AtomicU64::new(0), tid: AtomicU64::new(0) }).collect());
    let slotfile = Arc::new(std::fs::File::create(dir.join("slots")).expect("slots"));
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, Case, Verdict)>>> = Arc::new(Mutex::new(None));
    let mut hs = vec![];
    for t in 0..n {
        let (slots, slotfile, next, stop, found) = (slots.clone(), slotfile.clone(), next.clone(), stop.clone(), found.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                        if let Some(x) = l.file_name().and_then(|x| x.to_str()).and_then(|x| x.parse().ok()) {
                            slots[t].tid.store(x, Ordering::SeqCst);
                        }
                    }
                    let mut ctx = Ctx::default();
                    let profile = std::env::var("MON_PROFILE").is_ok();
                    while !stop.load(Ordering::Relaxed) {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total || (i % 64 == 0 && Instant::now() > deadline) {
                            break;
                        }
                        slots[t].idx.store(i + 1, Ordering::Relaxed);
                        let _ = slotfile.write_at(&(i + 1).to_le_bytes(), t as u64 * 8);
                        let c = case_of(p, seed, i, thorough);
                        let t0 = if profile { thread_cpu_ns() } else { 0 };
                        let v = run_case(p, &c, &mut ctx);
                        if profile {
                            let ms = (thread_cpu_ns() - t0) / 1_000_000;
                            if ms > 20 {
                                eprintln!("{} ms: case {} {}", ms, i, c.show());
                            }
                        }
                        if !matches!(v, Verdict::Held) {
                            stop.store(true, Ordering::SeqCst);
                            let mut f = found.lock().unwrap();
                            let better = match &*f {
                                None => true,
                                Some((j, _, Verdict::HarnessError(_))) => matches!(v, Verdict::Violated(_)) || i < *j,
                                Some((j, _, _)) => i < *j && matches!(v, Verdict::Violated(_)),
                            };
                            if better {
                                *f = Some((i, c, v));
                            }
                        }
                    }
                    slots[t].idx.store(0, Ordering::SeqCst);
                    let _ = slotfile.write_at(&0u64.to_le_bytes(), t as u64 * 8);
                    ctx
                })
                .expect("thread"),
        );
    }
    // watchdog on CPU time, not on the wall clock
    let mut seen: Vec<(u64, u64)> = vec![(0, 0); n];
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for t in 0..n {
            let i = slots[t].idx.load(Ordering::Relaxed);
            if i == 0 {
                continue;
            }
            if seen[t].0 != i {
                seen[t] = (i, tid_cpu_ms(slots[t].tid.load(Ordering::SeqCst)).unwrap_or(0));
                continue;
            }
            if let Some(now) = tid_cpu_ms(slots[t].tid.load(Ordering::SeqCst)) {
                if now.saturating_sub(seen[t].1) > p.cpu_limit * 1000 {
                    let _ = std::fs::write(dir.join("hang"), format!("{}", i - 1));
                    std::process::exit(77);
                }
            }
        }
    }
    let mut all = Ctx::default();
    for h in hs {
        if let Ok(c) = h.join() {
            merge(&mut all, c);
        }
    }
    let found = found.lock().unwrap().take();
    let mut out = String::new();
    let mut code = 0;
    if let Some((i, c, v)) = found {
        match v {
            Verdict::Violated(m) => {
                // shrink in a thread with a large stack as well; never lose the original
                let (sc, sm) = {
                    let (c2, m2) = (c.clone(), m.clone());
                    let _ = std::fs::write(dir.join("found"), format!("idx={}\nmsg={}\n{}", i, hex(&m), case_lines(&c)));
                    std::thread::Builder::new().stack_size(256 << 20).spawn(move || shrink(p, &c2, &m2)).ok().and_then(|h| h.join().ok()).unwrap_or((c, m))
                };
                let _ = std::fs::write(dir.join("found"), format!("idx={}\nmsg={}\n{}", i, hex(&sm), case_lines(&sc)));
                code = 1;
            }
            Verdict::HarnessError(m) => {
                let _ = std::fs::write(dir.join("harness_error"), format!("case {}: {}\n{}\n", i, m, c.show()));
                code = 2;
            }
            Verdict::Held => {}
        }
    }
    let _ = writeln!(out, "evals={}", all.evals);
    let _ = writeln!(out, "distinct={}", all.distinct.len());
    for (k, v) in &all.counters {
        let _ = writeln!(out, "c.{}={}", k, v);
    }
    for (i, s) in all.samples.iter().take(12).enumerate() {
        let _ = writeln!(out, "s.{}={}", i, hex(s));
    }
    let _ = std::fs::write(dir.join("result"), out);
    code
}

/// the coverage-guided phase, in a process of its own
pub fn evolve(p: &'static Prop, seed: u64, thorough: bool, dir: &Path) -> i32 {
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 26 << 30);
    install_hook();
    let (rounds, per) = evolution(p, thorough);
    let deadline = Instant::now() + Duration::from_secs(if thorough { 900 } else { 120 });
    let (ctx, found, [edges, corpus, done]) = crate::evolve::run(p, seed, rounds, per, deadline, dir);
    let mut out = String::new();
    let _ = writeln!(out, "evals={}", ctx.evals);
    let _ = writeln!(out, "distinct={}", ctx.distinct.len());
    for (k, v) in &ctx.counters {
        let _ = writeln!(out, "c.{}={}", k, v);
    }
    let _ = writeln!(out, "c.evolved_cases={}\nc.evolved_corpus={}\nc.max_edges_reached={}\nc.max_edges_instrumented={}\nc.evolved_rounds={}", ctx.evals, corpus, edges, crate::evolve::guards_seen(), done);
    let _ = std::fs::write(dir.join("evolved"), out);
    match found {
        None => 0,
        Some(crate::evolve::Found { case, verdict: Verdict::Violated(m) }) => {
            let _ = std::fs::write(dir.join("found"), format!("idx=0\nmsg={}\n{}", hex(&m), case_lines(&case)));
            let (c2, m2) = (case.clone(), m.clone());
            let (sc, sm) = std::thread::Builder::new().stack_size(256 << 20).spawn(move || shrink(p, &c2, &m2)).ok().and_then(|h| h.join().ok()).unwrap_or((case, m));
            let _ = std::fs::write(dir.join("found"), format!("idx=0\nmsg={}\n{}", hex(&sm), case_lines(&sc)));
            1
        }
        Some(f) => {
            let m = match f.verdict {
                Verdict::HarnessError(m) => m,
                _ => String::new(),
            };
            let _ = std::fs::write(dir.join("harness_error"), format!("evolved case: {}\n{}\n", m, f.case.show()));
            2
        }
    }
}
/// rounds and cases per lane and round
fn evolution(p: &Prop, thorough: bool) -> (u64, u64) {
    let per = match p.id {
        "C02" => 150,
        "C01" | "C21" | "C28" => 500,
        _ => 1000,
    };
    if !SLOT_PROPS.contains(&p.id) && p.id != "C02" {
        return (0, 0);
    }
    (if thorough { 1500 } else { 30 }, per)
}
/// the case a lane of the coverage-guided phase was busy with
fn lane_case(dir: &Path, lane: usize) -> Option<Case> {
    let b = std::fs::read(dir.join(format!("evo-{}", lane))).ok()?;
    let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
    let s = String::from_utf8(b.get(8..8 + n)?.to_vec()).ok()?;
    Some(case_from(&parse_lines(&s)))
}

pub fn merge(a: &mut Ctx, b: Ctx) {
    a.evals += b.evals;
    for (k, v) in b.counters {
        let e = a.counters.entry(k).or_insert(0);
        if k.starts_with("max_") {
            *e = (*e).max(v);
        } else {
            *e += v;
        }
    }
    if a.distinct.is_empty() {
        a.distinct = b.distinct;
    } else {
        a.distinct.extend(b.distinct);
    }
    a.samples.extend(b.samples);
}

/// one case, alone in this process (used to confirm crashes and hangs)
pub fn one(p: &'static Prop, c: Case, print: bool) -> i32 {
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 26 << 30);
    limit(RLIMIT_CPU, p.cpu_limit * 2 + 10);
    install_hook();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run_case(p, &c, &mut Ctx::default())).expect("thread");
    match h.join() {
        Ok(Verdict::Held) => {
            if print {
                println!("held");
            }
            0
        }
        Ok(Verdict::Violated(m)) => {
            println!("violated: {}", m);
            1
        }
        Ok(Verdict::HarnessError(m)) => {
            println!("harness error: {}", m);
            2
        }
        Err(_) => 2,
    }
}

pub fn replay(find: fn(&str) -> Option<&'static Prop>, path: &str) -> i32 {
    let m = parse_lines(&std::fs::read_to_string(path).unwrap_or_default());
    let id = m.get("property").cloned().unwrap_or_default();
    let Some(p) = find(&id) else {
        println!("no property {:?} in {}", id, path);
        return 2;
    };
    if m.get("kind").map(|k| k == "extra").unwrap_or(false) {
        println!("found by an extra phase of the check: {}", unhex(m.get("msg").map(|s| s.as_str()).unwrap_or("")));
        return 1;
    }
    let c = case_from(&m);
    println!("{}", c.show());
    one(p, c, true)
}

// ------------------------------------------------------------------ supervisor

pub struct Report {
    pub violation: Option<(Option<Case>, String)>,
    pub error: Option<String>,
}

pub fn supervise(p: &'static Prop, seed: u64, thorough: bool, root: &Path) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let scratch = std::env::temp_dir().join(format!("rphtml-mon-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).expect("scratch");
    let env = Env { seed, thorough, exe: exe.clone(), scratch: scratch.clone() };
    let mut violation: Option<(Option<Case>, String)> = None;
    let mut error: Option<String> = None;
    let mut res: BTreeMap<String, String> = BTreeMap::new();

    let st = Command::new(&exe).args(["work", p.id, &seed.to_string(), if thorough { "thorough" } else { "quick" }]).arg(&scratch).env("TMPDIR", &scratch).stdout(Stdio::null()).stderr(Stdio::null()).status();
    match st {
        Err(e) => error = Some(format!("cannot start the worker: {}", e)),
        Ok(st) => {
            if let Ok(s) = std::fs::read_to_string(scratch.join("result")) {
                res = parse_lines(&s);
            }
            match (st.code(), st.signal()) {
                (Some(0), _) => {}
                (Some(1), _) => {
                    let m = parse_lines(&std::fs::read_to_string(scratch.join("found")).unwrap_or_default());
                    violation = Some((Some(case_from(&m)), unhex(m.get("msg").map(|s| s.as_str()).unwrap_or(""))));
                }
                (Some(2), _) => error = Some(std::fs::read_to_string(scratch.join("harness_error")).unwrap_or_default()),
                (code, sig) => {
                    // hang or crash: confirm on the single case
                    let mut suspects: Vec<u64> = vec![];
                    if let Some(i) = std::fs::read_to_string(scratch.join("hang")).ok().and_then(|s| s.parse().ok()) {
                        suspects.push(i);
                    } else if let Ok(b) = std::fs::read(scratch.join("slots")) {
                        for ch in b.chunks_exact(8) {
                            let v = u64::from_le_bytes(ch.try_into().unwrap());
                            if v > 0 {
                                suspects.push(v - 1);
                            }
                        }
                    }
                    suspects.sort();
                    // a violation was found, and the process died while shrinking it
                    if let Ok(s) = std::fs::read_to_string(scratch.join("found")) {
                        let m = parse_lines(&s);
                        violation = Some((Some(case_from(&m)), unhex(m.get("msg").map(|s| s.as_str()).unwrap_or(""))));
                    } else {
                        for i in suspects {
                            let o = Command::new(&exe).args(["one", p.id, &seed.to_string(), if thorough { "thorough" } else { "quick" }, &i.to_string()]).stderr(Stdio::null()).output();
                            if let Ok(o) = o {
                                let c = case_of(p, seed, i, thorough);
                                match (o.status.code(), o.status.signal()) {
                                    (Some(0), _) | (Some(2), _) => {}
                                    (Some(1), _) => violation = Some((Some(c), String::from_utf8_lossy(&o.stdout).trim().to_string())),
                                    (_, Some(s)) => violation = Some((Some(c), format!("the process died (signal {}{}) on this case, twice", s, if s == 24 || s == 9 { ": CPU time limit" } else { "" }))),
                                    _ => {}
                                }
                                if violation.is_some() {
                                    break;
                                }
                            }
                        }
                        if violation.is_none() {
                            error = Some(format!("worker ended with code {:?} signal {:?}; not reproduced on a single case", code, sig));
                        }
                    }
                }
            }
        }
    }
    if violation.is_none() && error.is_none() && evolution(p, thorough).0 > 0 {
        let st = Command::new(&exe).args(["evolve", p.id, &seed.to_string(), if thorough { "thorough" } else { "quick" }]).arg(&scratch).env("TMPDIR", &scratch).stdout(Stdio::null()).stderr(if std::env::var("MON_PROFILE").is_ok() { Stdio::inherit() } else { Stdio::null() }).status();
        let extra = std::fs::read_to_string(scratch.join("evolved")).map(|s| parse_lines(&s)).unwrap_or_default();
        for (k, v) in extra {
            let add = v.parse::<u64>().unwrap_or(0);
            let old = res.get(&k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
            let new = if k.starts_with("c.max_") { old.max(add) } else { old + add };
            res.insert(k, new.to_string());
        }
        match st.map(|s| (s.code(), s.signal())) {
            Err(e) => error = Some(format!("cannot start the coverage-guided phase: {}", e)),
            Ok((Some(0), _)) => {}
            Ok((Some(1), _)) => {
                let m = parse_lines(&std::fs::read_to_string(scratch.join("found")).unwrap_or_default());
                violation = Some((Some(case_from(&m)), unhex(m.get("msg").map(|s| s.as_str()).unwrap_or(""))));
            }
            Ok((Some(2), _)) => error = Some(std::fs::read_to_string(scratch.join("harness_error")).unwrap_or_default()),
            Ok((code, sig)) => {
                if let Ok(s) = std::fs::read_to_string(scratch.join("found")) {
                    let m = parse_lines(&s);
                    violation = Some((Some(case_from(&m)), unhex(m.get("msg").map(|s| s.as_str()).unwrap_or(""))));
                } else {
                    for lane in 0..8 {
                        let Some(c) = lane_case(&scratch, lane) else { continue };
                        let f = scratch.join("suspect.case");
                        let _ = std::fs::write(&f, format!("property={}\nkind=case\n{}", p.id, case_lines(&c)));
                        if let Ok(o) = Command::new(&exe).arg("replay").arg(&f).stderr(Stdio::null()).output() {
                            match (o.status.code(), o.status.signal()) {
                                (Some(1), _) => violation = Some((Some(c), String::from_utf8_lossy(&o.stdout).trim().to_string())),
                                (_, Some(s)) => violation = Some((Some(c), format!("the process died (signal {}{}) on this case, twice", s, if s == 24 || s == 9 { ": CPU time limit" } else { "" }))),
                                _ => {}
                            }
                        }
                        if violation.is_some() {
                            break;
                        }
                    }
                    if violation.is_none() {
                        error = Some(format!("the coverage-guided phase ended with code {:?} signal {:?}; not reproduced on a single case", code, sig));
                    }
                }
            }
        }
    }
    let mut ectx = Ctx::default();
    let mut extra_violation = false;
    if violation.is_none() && error.is_none() {
        if let Some(f) = p.extra {
            install_hook();
            match guarded(|| f(&env, &mut ectx)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) => {
                    if let Some(m) = m.strip_prefix("INCONCLUSIVE ") {
                        error = Some(m.to_string());
                    } else {
                        violation = Some((None, m));
                        extra_violation = true;
                    }
                }
                Err((m, false)) => {
                    violation = Some((None, m));
                    extra_violation = true;
                }
                Err((m, true)) => error = Some(m),
            }
        }
    }
    let num = |k: &str| res.get(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    let mut counters: BTreeMap<String, u64> = res.iter().filter(|(k, _)| k.starts_with("c.")).map(|(k, v)| (k[2..].to_string(), v.parse().unwrap_or(0))).collect();
    for (k, v) in &ectx.counters {
        *counters.entry(k.to_string()).or_insert(0) += v;
    }
    let evals = num("evals") + ectx.evals;
    let distinct = num("distinct") + ectx.distinct.len() as u64;
    // a run that observed too little is inconclusive
    if violation.is_none() && error.is_none() {
        for (k, min) in p.need {
            let got = counters.get(*k).copied().unwrap_or(0);
            if got < *min {
                error = Some(format!("only {} observations of '{}' (needs {})", got, k, min));
            }
        }
    }
    let mut samples: Vec<String> = res.iter().filter(|(k, _)| k.starts_with("s.")).map(|(_, v)| unhex(v)).collect();
    samples.extend(ectx.samples.iter().cloned());
    samples.truncate(10);

    let mut code = 0;
    let mut nviol = 0;
    if let Some((c, m)) = &violation {
        nviol = 1;
        code = 1;
        let dir = root.join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.case", p.id, seed));
        let mut s = format!("property={}\nkind={}\nseed={}\ntier={}\nmsg={}\nmessage={}\n", p.id, if extra_violation { "extra" } else { "case" }, seed, if thorough { "thorough" } else { "quick" }, hex(m), m.replace('\n', " "));
        if let Some(c) = c {
            s.push_str(&case_lines(c));
            s.push_str(&format!("show={}\n", c.show().replace('\n', " ")));
        }
        let _ = std::fs::write(&path, s);
        println!("{}", m);
        if let Some(c) = c {
            println!("{}", c.show());
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
    } else if let Some(e) = &error {
        code = 2;
        println!("INCONCLUSIVE property={} {}", p.id, e.trim());
    }

    let mut ev = String::new();
    let _ = write!(
        ev,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        jstr(p.id),
        jstr(if thorough { "thorough" } else { "quick" }),
        seed,
        evals,
        distinct,
        jstr(p.rule)
    );
    let mut exhaustive = p.exhaustive.to_string();
    if SLOT_PROPS.contains(&p.id) {
        if !exhaustive.is_empty() {
            exhaustive.push_str("; ");
        }
        exhaustive.push_str(&format!(
            "{} templates with a deciding character or a near-terminator, {} sizes from the library's literals, {} placements of its words, {} character substitutions in base documents",
            crate::gen::slots(),
            crate::ladder::ladder(),
            crate::ladder::words(),
            crate::ladder::relatives()
        ));
    }
    if !exhaustive.is_empty() {
        let _ = write!(ev, "  \"exhaustive_part\": {},\n", jstr(&exhaustive));
    }
    let _ = write!(ev, "  \"observed\": {{{}}},\n", counters.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(ev, "  \"samples\": [{}]\n }},\n", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(ev, " \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(ev, " \"verdict\": {},\n", jstr(if violation.is_some() { "violated" } else if error.is_some() { "inconclusive" } else { "held on what was observed" }));
    let _ = write!(ev, " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), nviol);
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let _ = std::fs::write(root.join("evidence").join(format!("{}.json", p.id)), ev);
    let _ = std::fs::remove_dir_all(&scratch);
    if code == 0 {
        println!("HELD property={} evaluations={} distinct_nontrivial={} wall={:.1}s", p.id, evals, distinct, t0.elapsed().as_secs_f64());
    }
    code
}

pub fn digest_set(v: &HashSet<u64>) -> u64 {
    v.iter().fold(0, |a, b| a ^ b)
}
pub fn path_of(s: &str) -> PathBuf {
    PathBuf::from(s)
}
