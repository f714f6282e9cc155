//! Shared plumbing of the harness binaries: one JSON job per input line, one JSON result per output
//! line. A panic of the code under test is data, never a failure of the harness.
use serde_json::{json, Value};

mod reader;
use std::io::{BufRead, Write};

/// The generated front end; where it fails on a file that the bootstrap front end reads, the latter. (The generated front
/// end is itself a lexer and parser made by lapex: a bug in the code generators must not hide what they do to other grammars.)
#[derive(Clone, Copy)]
pub struct AnyInputParser;

impl lapex_input::LapexInputParser for AnyInputParser {
    fn parse_lapex<'src>(&self, source: &'src str) -> Result<lapex_input::RuleSet<'src>, lapex_input::LapexParsingError> {
        use lapex_input_bootstrap::BootstrapLapexInputParser as Boot;
        use lapex_input_gen::GeneratedLapexInputParser as Gen;
        let first = std::panic::catch_unwind(|| (Gen {}).parse_lapex(source));
        if let Ok(Ok(rules)) = first {
            return Ok(rules);
        }
        if let Ok(Ok(rules)) = std::panic::catch_unwind(|| (Boot {}).parse_lapex(source)) {
            return Ok(rules);
        }
        if let Ok(Ok(rules)) = std::panic::catch_unwind(|| reader::read(source)) {
            return Ok(rules);
        }
        match first {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}

pub fn catch<F: FnOnce() -> Value>(f: F) -> Value {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "panic".to_string()
            };
            json!({"status": "panic", "msg": msg})
        }
    }
}

/// Runs every job in a big-stack worker thread (several in parallel), results in job order.
pub fn run_jobs(f: fn(&Value) -> Value) {
    std::panic::set_hook(Box::new(|_| {}));
    let jobs: Vec<Value> = std::io::stdin()
        .lock()
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("job line is JSON"))
        .collect();
    // every result is written as soon as it is there; a job running longer than the limit ends the process
    let limit = std::time::Duration::from_secs(
        std::env::args().nth(1).and_then(|a| a.parse().ok()).unwrap_or(20),
    );
    let jobs = std::sync::Arc::new(jobs);
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let running: std::sync::Arc<Vec<std::sync::Mutex<Option<std::time::Instant>>>> =
        std::sync::Arc::new((0..8).map(|_| std::sync::Mutex::new(None)).collect());
    let threads: Vec<_> = (0..8)
        .map(|k| {
            let (jobs, next, running) = (jobs.clone(), next.clone(), running.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= jobs.len() {
                        break;
                    }
                    *running[k].lock().unwrap() = Some(std::time::Instant::now());
                    let r = f(&jobs[i]);
                    *running[k].lock().unwrap() = None;
                    let mut line = r.to_string();
                    line.push('\n');
                    let out = std::io::stdout();
                    let mut out = out.lock();
                    out.write_all(line.as_bytes()).unwrap();
                    out.flush().unwrap();
                })
                .unwrap()
        })
        .collect();
    while threads.iter().any(|t| !t.is_finished()) {
        std::thread::sleep(std::time::Duration::from_millis(5));
        let stuck = running
            .iter()
            .any(|r| r.lock().unwrap().map(|s| s.elapsed() > limit).unwrap_or(false));
        if stuck {
            let _out = std::io::stdout().lock();
            std::process::exit(3);
        }
    }
    for t in threads {
        t.join().unwrap();
    }
}
