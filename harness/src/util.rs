use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::BufRead;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

pub type Params = BTreeMap<String, String>;
/// replays one trace line
pub type RunFn = fn(&str, &mut ChaCha8Rng, &Params, &mut Outcome);

thread_local! {
    pub static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

#[derive(Serialize, Clone)]
pub struct Mismatch {
    pub kind: String,
    pub step: usize,
    pub detail: String,
}

/// what replaying one or more traces gave
#[derive(Default)]
pub struct Outcome {
    pub steps: u64,
    pub compared: BTreeMap<String, u64>,
    pub mismatches: Vec<Mismatch>,
    /// recorded histories to be validated by TLC
    pub lines: Vec<String>,
    /// something never happened, which took long to find out
    pub stuck: bool,
}

impl Outcome {
    pub fn cmp(&mut self, what: &str) {
        if let Some(x) = self.compared.get_mut(what) {
            *x += 1;
        } else {
            self.compared.insert(what.to_string(), 1);
        }
    }
    pub fn bad(&mut self, kind: &str, step: usize, detail: String) {
        if self.mismatches.len() < 20 {
            self.mismatches.push(Mismatch {
                kind: kind.to_string(),
                step,
                detail,
            });
        }
    }
    pub fn ok(&self) -> bool {
        self.mismatches.is_empty()
    }
}

/// result of a call of the code under test, a panic is an observation as any other
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| PANIC_AT.with(|p| p.borrow().clone()))
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Serialize)]
struct Failed {
    trace: String,
    seed: u64,
    mismatches: Vec<Mismatch>,
}

#[derive(Serialize, Default)]
struct Summary {
    replayed: u64,
    /// left out, as enough behaviours were stuck
    skipped: u64,
    steps: u64,
    compared: BTreeMap<String, u64>,
    failed_traces: u64,
    kinds: BTreeMap<String, u64>,
    failed: Vec<Failed>,
    sample: Vec<String>,
    lines: Vec<String>,
    hang: bool,
    tlc: Vec<String>,
}

const ENOUGH_STUCK: u64 = 16;
const HANG_AFTER: Duration = Duration::from_secs(40);

/// reads the output of TLC on stdin, replays every trace in it, and writes the summary
pub fn drive(run: RunFn, seed: u64, threads: usize, out: &str, params: Params) {
    let summary = Arc::new(Mutex::new(Summary::default()));
    let (tx, rx) = mpsc::sync_channel::<String>(4096);
    let rx = Arc::new(Mutex::new(rx));
    let current: Arc<Vec<Mutex<Option<(Instant, String)>>>> =
        Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let done = Arc::new(AtomicBool::new(false));
    let count = Arc::new(AtomicU64::new(0));
    let stuck = Arc::new(AtomicU64::new(0));

    let mut handles = vec![];
    for t in 0..threads {
        let (rx, summary, current, params, count, stuck) = (
            rx.clone(),
            summary.clone(),
            current.clone(),
            params.clone(),
            count.clone(),
            stuck.clone(),
        );
        handles.push(std::thread::spawn(move || {
            let mut local = Summary::default();
            loop {
                let Ok(line) = rx.lock().unwrap().recv() else {
                    break;
                };
                if stuck.load(Ordering::Relaxed) >= ENOUGH_STUCK {
                    local.skipped += 1;
                    continue;
                }
                let line_seed = seed ^ fnv(&line);
                let mut rng = ChaCha8Rng::seed_from_u64(line_seed);
                *current[t].lock().unwrap() = Some((Instant::now(), line.clone()));
                let mut outcome = Outcome::default();
                run(&line, &mut rng, &params, &mut outcome);
                *current[t].lock().unwrap() = None;
                let n = count.fetch_add(1, Ordering::Relaxed);
                local.replayed += 1;
                if outcome.stuck {
                    stuck.fetch_add(1, Ordering::Relaxed);
                }
                local.steps += outcome.steps;
                for (k, v) in outcome.compared {
                    *local.compared.entry(k).or_insert(0) += v;
                }
                local.lines.append(&mut outcome.lines);
                if n == 10 {
                    let mut s = line.clone();
                    s.truncate(1500);
                    local.sample.push(s);
                }
                if !outcome.mismatches.is_empty() {
                    local.failed_traces += 1;
                    let mut new_kind = false;
                    for m in &outcome.mismatches {
                        let c = local.kinds.entry(m.kind.clone()).or_insert(0);
                        *c += 1;
                        new_kind |= *c <= 3;
                    }
                    if new_kind && local.failed.len() < 60 {
                        local.failed.push(Failed {
                            trace: line,
                            seed,
                            mismatches: outcome.mismatches,
                        });
                    }
                }
            }
            let mut s = summary.lock().unwrap();
            s.replayed += local.replayed;
            s.skipped += local.skipped;
            s.steps += local.steps;
            for (k, v) in local.compared {
                *s.compared.entry(k).or_insert(0) += v;
            }
            s.failed_traces += local.failed_traces;
            for (k, v) in local.kinds {
                *s.kinds.entry(k).or_insert(0) += v;
            }
            s.failed.append(&mut local.failed);
            s.sample.append(&mut local.sample);
            s.lines.append(&mut local.lines);
        }));
    }

    // a call of the code under test which never returns is an observation too
    {
        let (current, done, summary, out) = (
            current.clone(),
            done.clone(),
            summary.clone(),
            out.to_string(),
        );
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(Ordering::Relaxed) {
                return;
            }
            for c in current.iter() {
                let c = c.lock().unwrap();
                if let Some((since, line)) = c.as_ref() {
                    if since.elapsed() > HANG_AFTER {
                        let mut s = summary.lock().unwrap();
                        s.hang = true;
                        s.failed_traces += 1;
                        *s.kinds.entry("hang".to_string()).or_insert(0) += 1;
                        s.failed.push(Failed {
                            trace: line.clone(),
                            seed,
                            mismatches: vec![Mismatch {
                                kind: "hang".to_string(),
                                step: 0,
                                detail: "a call did not return".to_string(),
                            }],
                        });
                        std::fs::write(&out, serde_json::to_string(&*s).unwrap()).unwrap();
                        std::process::exit(0);
                    }
                }
            }
        });
    }

    let mut tlc = std::collections::VecDeque::new();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.starts_with("\"TRACE ") {
            let s: String = serde_json::from_str(&line).expect("trace line");
            if tx.send(s["TRACE ".len()..].to_string()).is_err() {
                break;
            }
        } else if line.starts_with('{') {
            if tx.send(line).is_err() {
                break;
            }
        } else {
            if tlc.len() > 300 {
                tlc.pop_front();
            }
            tlc.push_back(line);
        }
    }
    drop(tx);
    for h in handles {
        if h.join().is_err() {
            eprintln!("harness thread panicked");
            std::process::exit(3);
        }
    }
    done.store(true, Ordering::Relaxed);
    let mut s = summary.lock().unwrap();
    s.tlc = tlc.into_iter().collect();
    std::fs::write(out, serde_json::to_string(&*s).unwrap()).unwrap();
    std::process::exit(0);
}

pub fn choose<'a, T>(rng: &mut ChaCha8Rng, xs: &'a [T]) -> &'a T {
    &xs[rng.gen_range(0..xs.len())]
}

pub fn shuffle<T>(rng: &mut ChaCha8Rng, xs: &mut [T]) {
    use rand::seq::SliceRandom;
    xs.shuffle(rng);
}

pub fn pubkey(rng: &mut ChaCha8Rng) -> solana_sdk::pubkey::Pubkey {
    solana_sdk::pubkey::Pubkey::new_from_array(rng.gen())
}

/// strictly increasing values
pub fn increasing(rng: &mut ChaCha8Rng, n: usize) -> Vec<u64> {
    let mut v = *choose(rng, &[0u64, 1, 2, 17, 200_000_000, (1 << 32) - 3, 1 << 40]);
    let gap = *choose(rng, &[1u64, 1, 1, 2, 10, 5000, 432_000, 1 << 33]);
    let mut r = vec![];
    for _ in 0..n {
        r.push(v);
        v += rng.gen_range(1..=gap);
    }
    r
}

/// strictly increasing write versions, including the extremes
pub fn write_versions(rng: &mut ChaCha8Rng, n: usize) -> Vec<u64> {
    match rng.gen_range(0..4) {
        0 => (0..n as u64).collect(),
        1 => (0..n as u64).map(|x| u64::MAX - (n as u64 - 1) + x).collect(),
        2 => {
            let mut r = increasing(rng, n);
            r[n - 1] = u64::MAX;
            r
        }
        _ => increasing(rng, n),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(24).map(|x| format!("{x:02x}")).collect();
    if b.len() > 24 {
        s.push_str(&format!("..({})", b.len()));
    }
    s
}
