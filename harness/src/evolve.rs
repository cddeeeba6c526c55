//! Coverage feedback: the library is compiled with edge and comparison callbacks (SanitizerCoverage),
//! and cases that reach new edges, hit counts or comparison distances are kept and varied further.
//! Only the workload is steered by this; every case is judged by the property's own monitor.
use crate::case::*;
use crate::gen;
use crate::rng::Rng;
use crate::runner::{guarded, run_case, Verdict};
use std::cell::{Cell, UnsafeCell};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::path::Path;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const EDGES: usize = 1 << 14;
const CMPS: usize = 1 << 18;
struct Map {
    edges: Vec<u8>,
    touched: Vec<u32>,
    cmp: Vec<u64>,
    cmp_touched: Vec<u32>,
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LAST: Cell<u32> = const { Cell::new(0) };
    static MAP: UnsafeCell<Map> = const { UnsafeCell::new(Map { edges: vec![], touched: vec![], cmp: vec![], cmp_touched: vec![] }) };
}
static GUARDS: AtomicU32 = AtomicU32::new(0);
/// # Safety
/// called by the instrumentation with the bounds of its guard section
pub unsafe fn guards(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            *p = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
        }
        p = p.add(1);
    }
}
pub fn guards_seen() -> u32 {
    GUARDS.load(Ordering::Relaxed)
}
#[inline]
pub fn edge(g: u32) {
    if ON.with(|o| o.get()) {
        LAST.with(|l| l.set(g));
        MAP.with(|m| {
            let m = unsafe { &mut *m.get() };
            let e = &mut m.edges[g as usize % EDGES];
            if *e == 0 {
                m.touched.push(g % EDGES as u32);
            }
            *e = e.saturating_add(1);
        });
    }
}
#[inline]
pub fn compared(a: u64, b: u64) {
    if a != b && ON.with(|o| o.get()) {
        let last = LAST.with(|l| l.get()) as usize;
        let d = a.abs_diff(b);
        // exact for small distances, then by magnitude
        let dist = if d < 16 { d as usize } else { 16 + d.ilog2() as usize };
        let ham = (a ^ b).count_ones() as usize;
        MAP.with(|m| {
            let m = unsafe { &mut *m.get() };
            for bit in [(last * 131 + dist) % (CMPS / 2), CMPS / 2 + (last * 67 + ham) % (CMPS / 2)] {
                let w = &mut m.cmp[bit / 64];
                if *w >> (bit % 64) & 1 == 0 {
                    *w |= 1 << (bit % 64);
                    m.cmp_touched.push(bit as u32);
                }
            }
        });
    }
}
/// run with recording on and give the features that were seen
fn recorded<T>(f: impl FnOnce() -> T) -> (T, Vec<u32>) {
    MAP.with(|m| {
        let m = unsafe { &mut *m.get() };
        if m.edges.is_empty() {
            m.edges = vec![0; EDGES];
            m.cmp = vec![0; CMPS / 64];
            m.touched.reserve(EDGES);
            m.cmp_touched.reserve(CMPS);
        }
    });
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    let mut feats = vec![];
    MAP.with(|m| {
        let m = unsafe { &mut *m.get() };
        for g in m.touched.drain(..) {
            let n = m.edges[g as usize];
            m.edges[g as usize] = 0;
            let bucket = match n {
                1 => 0,
                2 => 1,
                3 => 2,
                4..=7 => 3,
                8..=15 => 4,
                16..=31 => 5,
                32..=127 => 6,
                _ => 7,
            };
            feats.push(g * 8 + bucket);
        }
        for b in m.cmp_touched.drain(..) {
            m.cmp[b as usize / 64] &= !(1 << (b % 64));
            feats.push((EDGES * 8) as u32 + b);
        }
    });
    (r, feats)
}

/// parse options this property is about
pub fn po_for(id: &str, r: &mut Rng) -> u32 {
    let fix = [0b111000, 0b111000, 0b001000, 0b010000, 0b100000, 0b011000, 0b101000, 0b110000][r.below(8)];
    match id {
        "C01" | "C02" | "C13" | "C20" | "C21" | "C22" | "C26" | "C28" => {
            if r.chance(1, 3) {
                0
            } else {
                r.below(64) as u32
            }
        }
        "C10" | "C11" => fix | r.below(8) as u32,
        "C12" => fix | (r.below(8) as u32 & 5),
        "C17" => r.below(8) as u32 & 5,
        _ => [0, 0, 0, 1, 2, 4, 3, 6, 5, 7][r.below(10)],
    }
}

fn vary(r: &mut Rng, id: &str, a: &Case, b: &Case) -> Case {
    let mut c = a.clone();
    let n = 1 + r.below(3);
    for _ in 0..n {
        let v: Vec<char> = c.src.chars().collect();
        let len = v.len();
        let cut = |r: &mut Rng| {
            // mostly at the borders of tags and words
            let k = r.below(len + 1);
            if r.chance(2, 3) {
                (k..len).find(|i| matches!(v[*i], '<' | ' ') || (*i > 0 && v[*i - 1] == '>')).unwrap_or(len)
            } else {
                k
            }
        };
        match r.below(14) {
            0..=3 => c.src = gen::mutate(r, &c.src),
            4 => {
                // splice with the other one
                let w: Vec<char> = b.src.chars().collect();
                let (x, y) = (cut(r), r.below(w.len() + 1));
                c.src = v[..x].iter().chain(&w[y..]).collect();
            }
            5 => {
                // a part of the other one in here
                let w: Vec<char> = b.src.chars().collect();
                let y = r.below(w.len() + 1);
                let z = (y + 1 + r.below(30)).min(w.len());
                let x = cut(r);
                c.src = v[..x].iter().chain(&w[y..z.max(y)]).chain(&v[x..]).collect();
            }
            6 => {
                // repeat a part
                let x = cut(r);
                let y = (x + 1 + r.below(12)).min(len);
                let times = [2, 3, 4, 5, 8, 17, 33, 65][r.below(8)];
                if y > x && (y - x) * times < 1500 {
                    let part: String = v[x..y].iter().collect();
                    c.src = v[..x].iter().collect::<String>() + &part.repeat(times) + &v[y..].iter().collect::<String>();
                }
            }
            7 => {
                // one level down
                let nm = r.pick(&["b", "div", "svg", "pre", "math", "p", "PRE", "g", "html", "x-y"]);
                let (x, y) = (cut(r), cut(r));
                let (x, y) = (x.min(y), x.max(y));
                let at = r.pick(&["", "", " a=b", " id='q'", " c"]);
                c.src = format!("{}<{}{}>{}</{}>{}", v[..x].iter().collect::<String>(), nm, at, v[x..y].iter().collect::<String>(), nm, v[y..].iter().collect::<String>());
            }
            8 => {
                let w = &crate::ladder::literals().words;
                if !w.is_empty() {
                    let x = cut(r);
                    let t = &w[r.below(w.len())];
                    c.src = v[..x].iter().collect::<String>() + t + &v[x..].iter().collect::<String>();
                }
            }
            9 => {
                let x = cut(r);
                let t = r.pick(&[
                    "<!--c-->", "<br>", "<br/>", " ", "\n", "x", "<p> </p>", "<i a='b c'>t</i>", "<script>x</script>", "<title> t</title>", "<!DOCTYPE a>", "</x>", "< ", "&amp;", "<svg><g/></svg>", "<svg><g><![CDATA[x]]></g></svg>", "<textarea>\n</textarea>", "<b>", "</b>", " a=b", " id=x", " c='d'", "/", "=",
                ]);
                c.src = v[..x].iter().collect::<String>() + t + &v[x..].iter().collect::<String>();
            }
            10 => c.po = po_for(id, r),
            11 => c.ro = (c.ro ^ (1 << r.below(8))) & 255,
            12 => c.ro = r.below(256) as u32,
            _ => c.aux = r.u64() >> 16,
        }
    }
    if c.src.chars().count() > 3000 {
        c.src = c.src.chars().take(2000).collect();
    }
    c
}

struct Entry {
    case: Case,
}
pub struct Found {
    pub case: Case,
    pub verdict: Verdict,
}

/// Rounds over a shared corpus: in each round every lane varies the frozen corpus with its own random
/// stream, then the finds are merged in lane order, so that a run depends on its seed only.
pub fn run(p: &'static Prop, seed: u64, rounds: u64, per_round: u64, deadline: Instant, dir: &Path) -> (Ctx, Option<Found>, [u64; 3]) {
    let lanes = p.threads.min(8);
    let mut corpus: Vec<Entry> = vec![];
    let mut seen: HashSet<u32> = HashSet::new();
    let mut total = Ctx::default();
    let mut found: Option<Found> = None;
    let ticks: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..lanes).map(|_| Default::default()).collect());
    let mut done_rounds = 0;
    for round in 0..rounds {
        if Instant::now() > deadline || found.is_some() {
            break;
        }
        let mut outs: Vec<(Ctx, Vec<(Case, Vec<u32>)>, Option<Found>)> = vec![];
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for lane in 0..lanes {
                let (corpus, seen, ticks) = (&corpus, &seen, ticks.clone());
                let path = dir.join(format!("evo-{}", lane));
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(sc, move || {
                            if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                                if let Some(x) = l.file_name().and_then(|x| x.to_str()).and_then(|x| x.parse().ok()) {
                                    ticks[lane].1.store(x, Ordering::SeqCst);
                                }
                            }
                            let file = std::fs::File::create(&path).expect("slot");
                            let mut r = Rng::from_parts(&[seed, crate::rng::hash_str(p.id, 3), round, lane as u64]);
                            let mut ctx = Ctx::default();
                            let mut fresh: Vec<(Case, Vec<u32>)> = vec![];
                            let mut mine: HashSet<u32> = HashSet::new();
                            let mut bad = None;
                            for _ in 0..per_round {
                                let c = if corpus.is_empty() || r.chance(1, 40) {
                                    let mut s = match r.below(4) {
                                        0 => gen::nth_slot(r.u64() % gen::slots()),
                                        1 => gen::token_soup(&mut r),
                                        2 => gen::broken(&mut r, &Default::default()),
                                        _ => {
                                            let w = gen::Wf::normal(&mut r, &Default::default());
                                            gen::well_formed(&mut r, w)
                                        }
                                    };
                                    if s.len() > 3000 {
                                        s.clear();
                                    }
                                    Case::new(s, po_for(p.id, &mut r), r.below(256) as u32, r.u64() >> 16)
                                } else {
                                    // the newest ones more often
                                    let pool = corpus.len() + fresh.len();
                                    let pick = |r: &mut Rng| {
                                        let k = if r.chance(1, 2) { pool - 1 - r.below(pool.div_ceil(4)) } else { r.below(pool) };
                                        if k < corpus.len() {
                                            corpus[k].case.clone()
                                        } else {
                                            fresh[k - corpus.len()].0.clone()
                                        }
                                    };
                                    let (a, b) = (pick(&mut r), pick(&mut r));
                                    vary(&mut r, p.id, &a, &b)
                                };
                                let rec = format!("po={}\nro={}\naux={}\ntag=\nsrc_hex={}\n", c.po, c.ro, c.aux, crate::runner::hex(&c.src));
                                let mut buf = (rec.len() as u64).to_le_bytes().to_vec();
                                buf.extend(rec.as_bytes());
                                let _ = file.write_at(&buf, 0);
                                ticks[lane].0.fetch_add(1, Ordering::Relaxed);
                                let (v, feats) = recorded(|| run_case(p, &c, &mut ctx));
                                if !matches!(v, Verdict::Held) {
                                    bad = Some(Found { case: c, verdict: v });
                                    break;
                                }
                                if feats.iter().any(|f| !seen.contains(f) && !mine.contains(f)) {
                                    mine.extend(feats.iter().filter(|f| !seen.contains(f)));
                                    fresh.push((c, feats));
                                }
                            }
                            ticks[lane].1.store(0, Ordering::SeqCst);
                            (ctx, fresh, bad)
                        })
                        .expect("thread"),
                );
            }
            // CPU time watchdog
            let mut at: Vec<(u64, u64)> = vec![(u64::MAX, 0); lanes];
            while hs.iter().any(|h| !h.is_finished()) {
                std::thread::sleep(Duration::from_millis(20));
                for lane in 0..lanes {
                    let (n, tid) = (ticks[lane].0.load(Ordering::Relaxed), ticks[lane].1.load(Ordering::SeqCst));
                    if tid == 0 {
                        continue;
                    }
                    if let Some(cpu) = crate::runner::tid_cpu_ms(tid) {
                        if at[lane].0 != n {
                            at[lane] = (n, cpu);
                        } else if cpu.saturating_sub(at[lane].1) > p.cpu_limit * 1000 {
                            let _ = std::fs::write(dir.join("evo-hang"), format!("{}", lane));
                            std::process::exit(77);
                        }
                    }
                }
            }
            for h in hs {
                if let Ok(x) = h.join() {
                    outs.push(x);
                }
            }
        });
        done_rounds += 1;
        for (ctx, fresh, bad) in outs {
            crate::runner::merge(&mut total, ctx);
            for (c, feats) in fresh {
                if feats.iter().any(|f| !seen.contains(f)) {
                    seen.extend(feats);
                    corpus.push(Entry { case: c });
                }
            }
            if let Some(b) = bad {
                let better = match (&found, &b.verdict) {
                    (None, _) => true,
                    (Some(Found { verdict: Verdict::HarnessError(_), .. }), Verdict::Violated(_)) => true,
                    _ => false,
                };
                if better {
                    found = Some(b);
                }
            }
        }
    }
    if std::env::var("MON_PROFILE").is_ok() {
        let mut o = String::new();
        for e in corpus.iter().rev().take(40) {
            let _ = writeln!(o, "{}", e.case.show());
        }
        eprintln!("{}", o);
    }
    let edges = seen.iter().filter(|f| **f < (EDGES * 8) as u32).map(|f| f / 8).collect::<HashSet<_>>().len() as u64;
    let _ = guarded(|| ());
    (total, found, [edges, corpus.len() as u64, done_rounds])
}
