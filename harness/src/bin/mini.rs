//! Small workload for the sanitizers: no files, no clock. `mini histories N SEED` | `mini threads SEED`
use monitor::props;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
    std::process::exit(match a.get(1).map(|s| s.as_str()) {
        Some("histories") => props::mini_histories(n(2), n(3)),
        Some("threads") => props::mini_threads(n(2)),
        _ => 2,
    });
}
