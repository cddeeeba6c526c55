use monitor::{props, runner};
use std::path::Path;

#[global_allocator]
static A: monitor::alloc::Counting = monitor::alloc::Counting;

// callbacks of the coverage instrumentation of the library (see build.sh)
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    monitor::evolve::guards(a, b);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    monitor::evolve::edge(*g);
}
macro_rules! compares {
    ($($name:ident $t:ty),*) => {
        $(#[no_mangle]
        pub extern "C" fn $name(a: $t, b: $t) {
            monitor::evolve::compared(a as u64, b as u64);
        })*
    };
}
compares!(
    __sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16, __sanitizer_cov_trace_cmp4 u32, __sanitizer_cov_trace_cmp8 u64,
    __sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16, __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_const_cmp8 u64
);
/// # Safety
/// called by the instrumentation: number of cases, bits, cases
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    for i in 0..(*cases).min(24) {
        monitor::evolve::compared(v, *cases.add(2 + i as usize));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(1);
    let code = match s(1) {
        "check" => match props::find(s(2)) {
            Some(p) => {
                let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
                let thorough = s(3) == "thorough" || (s(3).is_empty() && std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false));
                let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
                runner::supervise(p, seed, thorough, Path::new(&root))
            }
            None => 2,
        },
        "work" => match props::find(s(2)) {
            Some(p) => runner::work(p, n(3), s(4) == "thorough", Path::new(s(5))),
            None => 2,
        },
        "evolve" => match props::find(s(2)) {
            Some(p) => runner::evolve(p, n(3), s(4) == "thorough", Path::new(s(5))),
            None => 2,
        },
        "one" => match props::find(s(2)) {
            Some(p) => {
                let c = runner::case_of(p, n(3), n(5), s(4) == "thorough");
                runner::one(p, c, true)
            }
            None => 2,
        },
        "replay" => runner::replay(props::find, s(2)),
        "sub" => props::sub(&a[2..]),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
