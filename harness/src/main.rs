mod conc;
mod de;
mod pack;
mod pipe;
mod pure;
mod race;
mod url;
mod util;
mod world;
mod ws;

use std::{
    cell::Cell,
    io::{BufRead, Write},
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        mpsc, Arc,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value};

thread_local! {
    static LOGGING: Cell<bool> = Cell::new(false);
}

/// Formats what is logged, in the scenarios that run with logging on, and throws it away.
struct Sink;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) && r.target().starts_with("socket_io") {
            let _ = r.args().to_string();
        }
    }
    fn flush(&self) {}
}

static SINK: Sink = Sink;

/// How long one scenario may take before it is taken to hang.  They take milliseconds.
const HANG: Duration = Duration::from_secs(20);
const LONG: Duration = Duration::from_secs(240);

/// Run all cases on a few threads; a case that hangs is recorded as such and its thread given up.
fn run_all(cases: Vec<Value>, f: fn(&Value, u64) -> Value, seed: u64, out: &str, hang: Duration) {
    let n = cases.len();
    let cases = Arc::new(cases);
    let next = Arc::new(AtomicUsize::new(0));
    let (tx, rx) = mpsc::channel::<(usize, usize, Option<Value>)>();
    let mut workers = 0;
    let mut busy: Vec<Option<(usize, Instant)>> = Vec::new();
    let start = |w: usize| {
        let (cases, next, tx) = (cases.clone(), next.clone(), tx.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= cases.len() {
                    break;
                }
                let _ = tx.send((w, i, None));
                let s = util::Rng::derive(seed, &[i as u64]).next();
                let s = cases[i].get("seed").and_then(Value::as_u64).unwrap_or(s >> 1);
                LOGGING.with(|l| l.set(s % 2 == 0));
                let r = f(&cases[i], s);
                let _ = tx.send((w, i, Some(r)));
            })
            .unwrap();
    };
    for w in 0..8 {
        busy.push(None);
        start(w);
        workers += 1;
    }
    let mut results: Vec<Option<Value>> = vec![None; n];
    let mut left = n;
    let mut hangs = 0;
    while left > 0 {
        if let Ok((w, i, r)) = rx.recv_timeout(Duration::from_millis(200)) {
            match r {
                None => busy[w] = Some((i, Instant::now())),
                Some(v) => {
                    busy[w] = None;
                    if results[i].is_none() {
                        results[i] = Some(v);
                        left -= 1;
                    }
                }
            }
            continue;
        }
        for w in 0..workers {
            if let Some((i, t)) = busy[w] {
                if t.elapsed() > hang {
                    busy[w] = None;
                    if results[i].is_none() {
                        results[i] = Some(json!({"hang":true,"id":cases[i]["id"],"case":cases[i]}));
                        left -= 1;
                        hangs += 1;
                    }
                    busy.push(None);
                    start(workers);
                    workers += 1;
                }
            }
        }
        if hangs >= 3 {
            break; // enough; the rest is not run
        }
    }
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for r in results.into_iter().flatten() {
        writeln!(o, "{}", r).unwrap();
    }
    o.flush().unwrap();
    std::process::exit(0); // threads that hang are left behind
}

fn main() {
    std::panic::set_hook(Box::new(|_| world::PANICKED.with(|p| p.set(true))));
    log::set_logger(&SINK).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[4].parse().unwrap();
    let f = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let cases: Vec<Value> = f
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let run: fn(&Value, u64) -> Value = match args[1].as_str() {
        "session" => world::run_script_file,
        "soak" => world::soak,
        "race" => race::race,
        "text" => pure::text,
        "url" => url::url,
        "engine" => pure::engine,
        "slice" => pure::slice,
        "pack" => pack::pack,
        "de" => de::de,
        "view" => de::view,
        m => panic!("unknown mode {}", m),
    };
    run_all(cases, run, seed, &args[3], if args[1] == "soak" || args[1] == "race" { LONG } else { HANG });
}
