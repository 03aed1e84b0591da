//! Runs operations of the specification concurrently on the real storages and records histories,
//! which are judged by StoreConcTrace.tla / TokenConcTrace.tla.
use crate::store::{self, same_content, COMMITMENTS, NONE, QUERIES};
use crate::util::*;
use lite_account_manager_common::{
    account_data::AccountData,
    account_filter::{AccountFilter, AccountFilterType},
    account_filters_interface::AccountFiltersStoreInterface,
    account_store_interface::AccountStorageInterface,
    commitment::Commitment,
    slot_info::SlotInfo,
};
use crate::token;
use lite_token_account_storage::{
    account_types::{Program, TokenAccount, TokenAccountIndex},
    inmemory_token_account_storage::InmemoryTokenAccountStorage,
    inmemory_token_storage::TokenProgramAccountsStorage,
    token_account_storage_interface::TokenAccountStorageInterface,
};
use lite_account_manager_common::account_store_interface::AccountLoadingError;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use solana_sdk::pubkey::Pubkey;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

thread_local! {
    static NOISE: Cell<u64> = const { Cell::new(0x9e3779b97f4a7c15) };
}

fn noise() -> u64 {
    NOISE.with(|n| {
        let mut x = n.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        n.set(x);
        x
    })
}

fn spin(us: u64) {
    let t = Instant::now();
    while t.elapsed() < Duration::from_micros(us) {
        std::hint::spin_loop();
    }
}

/// filters of a user which sometimes take a while
struct SlowFilters {
    inner: Arc<dyn AccountFiltersStoreInterface>,
    slow: Slow,
}

struct Slow {
    active: Arc<AtomicBool>,
    level: u64,
}

impl Slow {
    fn delay(&self) {
        if !self.active.load(Ordering::Relaxed) {
            return;
        }
        let x = noise();
        match (x >> 20) % (4 + self.level) {
            0..=3 => {}
            4 => spin(x % 20),
            5 => std::thread::yield_now(),
            6 => spin(x % 100),
            7 => std::thread::sleep(Duration::from_micros(x % 200)),
            _ => std::thread::sleep(Duration::from_micros(x % 1000)),
        }
    }
}

impl AccountFiltersStoreInterface for SlowFilters {
    fn satisfies(&self, account_data: &AccountData) -> bool {
        self.slow.delay();
        let r = self.inner.satisfies(account_data);
        self.slow.delay();
        r
    }
    fn contains_filter(&self, filter: &AccountFilter) -> bool {
        let r = self.inner.contains_filter(filter);
        self.slow.delay();
        r
    }
}

/// a call of the storage
enum Do {
    Update(AccountData, Commitment, bool),
    Notify(SlotInfo, Commitment),
    Get(Pubkey, Commitment),
    Gpa(Pubkey, Option<Vec<AccountFilterType>>, Commitment),
    Snapshot(Pubkey),
}

struct Job {
    op: Value,
    call: Do,
    wait: u64,
}

#[derive(Clone)]
enum Ret {
    Update(bool, bool),
    Notify(Vec<AccountData>),
    Get(Option<AccountData>),
    Gpa(Vec<AccountData>),
    Snapshot(Pubkey, Vec<u8>),
    Error(String),
}

fn perform(s: &Arc<dyn AccountStorageInterface>, x: Do) -> Result<Ret, String> {
    guard(|| match x {
        Do::Update(a, c, init) => {
            if init {
                s.initilize_or_update_account(a);
                Ret::Update(true, true)
            } else {
                Ret::Update(s.update_account(a, c), false)
            }
        }
        Do::Notify(i, c) => Ret::Notify(s.process_slot_data(i, c)),
        Do::Get(a, c) => match s.get_account(a, c) {
            Ok(x) => Ret::Get(x),
            Err(e) => Ret::Error(e.to_string()),
        },
        Do::Gpa(p, f, c) => match s.get_program_accounts(p, f, c) {
            Ok(x) => Ret::Gpa(x),
            Err(e) => Ret::Error(e.to_string()),
        },
        Do::Snapshot(p) => match s.create_snapshot(p) {
            Ok(x) => Ret::Snapshot(p, x),
            Err(e) => Ret::Error(e.to_string()),
        },
    })
}

/// what a storage which only knows the snapshots has
fn load_snapshots(
    events: &mut [Event],
    keys: &HashSet<Pubkey>,
    fresh: impl Fn() -> Arc<dyn AccountStorageInterface>,
    out: &mut Outcome,
) {
    for (_, _, _, _, ret) in events.iter_mut() {
        let Some(Ok(Ret::Snapshot(program, bytes))) = ret else {
            continue;
        };
        let program = *program;
        let bytes = std::mem::take(bytes);
        let loaded = guard(|| {
            let storage = fresh();
            if let Err(e) = storage.load_from_snapshot(program, bytes) {
                return Ret::Error(format!("loading a snapshot: {e}"));
            }
            let mut list = vec![];
            for pk in keys {
                let got: Vec<_> = COMMITMENTS.iter().map(|c| storage.get_account(*pk, *c)).collect();
                for x in &got {
                    match x {
                        Err(e) => return Ret::Error(format!("reading from a loaded snapshot: {e}")),
                        Ok(x) if x.as_ref().map(|x| x.account.data.data()) != got[2].as_ref().unwrap().as_ref().map(|x| x.account.data.data()) => {
                            return Ret::Error("levels of a loaded snapshot differ".to_string())
                        }
                        Ok(_) => {}
                    }
                }
                list.extend(got.into_iter().nth(2).unwrap().unwrap());
            }
            if list.iter().any(|x| x.account.owner != program) {
                return Ret::Error("account of another program in a snapshot".to_string());
            }
            Ret::Gpa(list)
        });
        out.cmp("snapshots");
        *ret = Some(loaded);
    }
}

type Event = (u64, usize, bool, Value, Option<Result<Ret, String>>);

/// runs the calls of every thread, returns the events in order
fn run_threads(
    storage: &Arc<dyn AccountStorageInterface>,
    threads: Vec<Vec<Job>>,
    rng: &mut ChaCha8Rng,
) -> Vec<Event> {
    let clock = Arc::new(AtomicU64::new(1));
    let barrier = Arc::new(Barrier::new(threads.len()));
    let handles: Vec<_> = threads
        .into_iter()
        .enumerate()
        .map(|(x, jobs)| {
            let (clock, barrier, storage) = (clock.clone(), barrier.clone(), storage.clone());
            let seed: u64 = rng.gen::<u64>() | 1;
            std::thread::spawn(move || {
                NOISE.with(|n| n.set(seed));
                let mut events: Vec<Event> = Vec::with_capacity(jobs.len() * 2);
                barrier.wait();
                for job in jobs {
                    if job.wait > 0 {
                        spin(job.wait);
                    }
                    events.push((clock.fetch_add(1, Ordering::SeqCst), x + 1, true, job.op, None));
                    let r = perform(&storage, job.call);
                    events.push((clock.fetch_add(1, Ordering::SeqCst), x + 1, false, Value::Null, Some(r)));
                }
                events
            })
        })
        .collect();
    let mut all = vec![];
    for h in handles {
        all.extend(h.join().expect("thread of a history"));
    }
    all.sort_by_key(|x| x.0);
    all
}

/// deals calls to threads, keeping their order within a thread
fn waits(rng: &mut ChaCha8Rng, style: u32) -> u64 {
    match style {
        0 => 0,
        1 => rng.gen_range(0..6),
        2 => rng.gen_range(0..40),
        _ => *choose(rng, &[0u64, 0, 2, 30, 150]),
    }
}

pub fn run_store(line: &str, rng: &mut ChaCha8Rng, params: &Params, out: &mut Outcome) {
    let reps: usize = params.get("reps").map_or(1, |x| x.parse().unwrap());
    for _ in 0..reps {
        let mut r = ChaCha8Rng::seed_from_u64(rng.gen());
        one_store(line, &mut r, params, out);
        if !out.ok() {
            return;
        }
    }
}

fn one_store(line: &str, rng: &mut ChaCha8Rng, params: &Params, out: &mut Outcome) {
    let mut trace: store::Trace = serde_json::from_str(line).expect("trace");
    for i in 1..trace.h.len() {
        trace.h[i - 1].obs = trace.h[i].pre.take();
    }
    let mut w = store::World::new(rng, &trace);
    for keys in w.groups.values_mut() {
        keys.truncate(1);
    }
    let kept: HashSet<Pubkey> = w.groups.values().map(|x| x[0]).collect();
    w.names.retain(|pk, _| kept.contains(pk));
    let active = Arc::new(AtomicBool::new(false));
    let level = rng.gen_range(0..6);
    let at_work = active.clone();
    w.wrap = Some(Box::new(move |inner| Arc::new(SlowFilters { inner, slow: Slow { active: at_work.clone(), level } })));
    let dispatch = params.get("dispatch").map(|x| x.as_str());
    let storage = w.store(rng, &trace.cfg, dispatch);
    // storages of a dispatching storage are independent: each of them has its own history
    let home = |k: &str| match (dispatch, k.as_bytes()[0]) {
        (Some("P" | "P+Q"), b'p' | b'd') => 1,
        (Some("P+Q"), b'q') => 2,
        _ => 0,
    };
    let mut homes: HashMap<String, usize> = HashMap::new();

    // calls of the specification
    let mut ops: Vec<(Value, Do)> = vec![];
    for step in &trace.h {
        let op = &step.op;
        match op.t.as_str() {
            "u" => {
                if *homes.entry(op.a.clone()).or_insert(home(&op.k)) != home(&op.k) {
                    continue;
                }
                let x = w.version(rng, &op.a, 0, op.s, op.w, &op.k);
                let init = op.c == 2 && rng.gen_bool(0.2);
                ops.push((
                    json!({"t": "u", "a": op.a, "s": op.s, "w": op.w, "k": op.k, "c": op.c}),
                    Do::Update(x, COMMITMENTS[op.c], init),
                ));
            }
            "n" => {
                let slot = w.slots[op.s as usize];
                let parent = w.slots[op.p as usize];
                ops.push((
                    json!({"t": "n", "s": op.s, "p": op.p, "c": op.c}),
                    Do::Notify(SlotInfo { slot, parent, root: 0 }, COMMITMENTS[op.c]),
                ));
            }
            x => panic!("op {x}"),
        }
    }
    // other accounts written in the same slots make notifications longer
    let others: u32 = *choose(rng, &[0, 0, 3, 30, 120]);
    let mut other_keys = HashSet::new();
    for s in w.slots.clone() {
        for _ in 0..others {
            let pk = pubkey(rng);
            other_keys.insert(pk);
            let owner = w.progs[*choose(rng, &["P", "Q"])];
            let x = AccountData {
                pubkey: pk,
                account: Arc::new(lite_account_manager_common::account_data::Account::from_solana_account(
                    solana_sdk::account::Account { lamports: 1, data: vec![1, 2, 3], owner, executable: false, rent_epoch: 0 },
                    lite_account_manager_common::account_data::CompressionMethod::None,
                )),
                updated_slot: s,
                write_version: 0,
            };
            storage.update_account(x, Commitment::Processed);
        }
    }
    // queries which are answered
    let mut queries = vec![];
    for o in ["P", "Q"] {
        for (i, q) in QUERIES.iter().enumerate() {
            let c = w.conditions(rng, q);
            if storage.get_program_accounts(w.progs[o], c.clone(), Commitment::Processed).is_ok() {
                queries.push((o, i, c));
            }
        }
    }

    // programs which are covered by the filters as a whole
    let saved: Vec<&str> = queries.iter().filter(|x| x.1 == 0).map(|x| x.0).collect();

    let n_write = rng.gen_range(2..=3usize);
    let n_read = rng.gen_range(1..=2usize);
    let style = rng.gen_range(0..4);
    let before = rng.gen_range(0..=ops.len() / 2);
    let names: Vec<String> = w.groups.keys().cloned().collect();
    let mut threads: Vec<Vec<Job>> = (0..n_write + n_read).map(|_| vec![]).collect();
    let mut events: Vec<Event> = vec![];
    let mut clock = 0;
    for (n, (op, call)) in ops.into_iter().enumerate() {
        if n < before {
            // already done when the threads start
            let ret = perform(&storage, call);
            events.push((clock, 1, true, op, None));
            events.push((clock, 1, false, Value::Null, Some(ret)));
            clock += 1;
        } else {
            let x = rng.gen_range(0..n_write);
            threads[x].push(Job { op, call, wait: waits(rng, style) });
        }
    }
    for x in n_write..n_write + n_read {
        for _ in 0..rng.gen_range(3..10) {
            let l = rng.gen_range(0..3usize);
            let (op, call) = if !saved.is_empty() && rng.gen_bool(0.2) {
                let o = *choose(rng, &saved);
                (json!({"t": "q", "o": o, "i": 1, "l": 2, "saved": true}), Do::Snapshot(w.progs[o]))
            } else if queries.is_empty() || rng.gen_bool(0.6) {
                let a = choose(rng, &names).clone();
                (json!({"t": "g", "a": a, "l": l}), Do::Get(w.groups[&a][0], COMMITMENTS[l]))
            } else {
                let (o, i, c) = choose(rng, &queries).clone();
                (
                    json!({"t": "q", "o": o, "i": i + 1, "l": l}),
                    Do::Gpa(w.progs[o], c, COMMITMENTS[l]),
                )
            };
            threads[x].push(Job { op, call, wait: waits(rng, style) });
        }
    }
    active.store(true, Ordering::Relaxed);
    events.extend(run_threads(&storage, threads, rng));
    active.store(false, Ordering::Relaxed);
    // what is left at the end
    for a in &names {
        for (l, c) in COMMITMENTS.iter().enumerate() {
            let ret = perform(&storage, Do::Get(w.groups[a][0], *c));
            events.push((u64::MAX, 1, true, json!({"t": "g", "a": a, "l": l}), None));
            events.push((u64::MAX, 1, false, Value::Null, Some(ret)));
        }
    }
    for (o, i, c) in &queries {
        for (l, level) in COMMITMENTS.iter().enumerate() {
            let ret = perform(&storage, Do::Gpa(w.progs[*o], c.clone(), *level));
            events.push((u64::MAX, 1, true, json!({"t": "q", "o": o, "i": i + 1, "l": l}), None));
            events.push((u64::MAX, 1, false, Value::Null, Some(ret)));
        }
    }
    let everything: Arc<dyn AccountFiltersStoreInterface> = w.filter_store(rng, &trace.cfg);
    load_snapshots(&mut events, &kept, || Arc::new(InmemoryAccountStore::new(everything.clone())), out);
    let parts: HashSet<usize> = homes.values().copied().collect();
    for part in parts {
        let within = |a: &str| homes.get(a).copied().unwrap_or(part) == part;
        let mut mine: Vec<Event> = vec![];
        let mut ignore: HashSet<usize> = HashSet::new();
        for (t, x, call, op, ret) in &events {
            if *call {
                let other = match op["t"].as_str().unwrap() {
                    "n" => false,
                    "q" => home(&op["o"].as_str().unwrap().to_lowercase()) != part,
                    _ => !within(op["a"].as_str().unwrap()),
                };
                if other {
                    ignore.insert(*x);
                    continue;
                }
            } else if ignore.remove(x) {
                continue;
            }
            mine.push((*t, *x, *call, op.clone(), ret.clone()));
        }
        record(line, mine, &names, out, false, |x| {
            if other_keys.contains(&x.pubkey) {
                return Ok(None);
            }
            let id = w.id(x).ok_or("unknown version")?;
            let (a, _) = w.names.get(&x.pubkey).ok_or("unknown account")?;
            match w.sent.get(&(a.clone(), 0, id)) {
                Some(y) if same_content(x, y) => Ok(if within(a) { Some((a.clone(), id, 0)) } else { None }),
                _ => Err("wrong content".to_string()),
            }
        });
    }
}

/// events of a history with results in terms of the specification
fn record(
    line: &str,
    events: Vec<Event>,
    names: &[String],
    out: &mut Outcome,
    slots: bool,
    name: impl Fn(&AccountData) -> Result<Option<(String, i64, i64)>, String>,
) {
    // versions, with the slot which was reported if it counts
    let show = |id: i64, slot: i64| if slots { json!([id, slot]) } else { json!(id) };
    let mut h = vec![];
    let mut overlap = 0u64;
    let mut pending: HashMap<usize, Value> = HashMap::new();
    for (_, x, call, op, ret) in events {
        out.steps += 1;
        if call {
            if !pending.is_empty() {
                overlap += 1;
            }
            pending.insert(x, op.clone());
            h.push(json!({"e": "call", "x": x, "op": op}));
            continue;
        }
        let op = pending.remove(&x).expect("pending");
        let step = h.len();
        let names_of = |list: &[AccountData]| -> Result<Vec<(String, i64, i64)>, String> {
            let mut r: Vec<(String, i64, i64)> = vec![];
            for y in list {
                if let Some(z) = name(y)? {
                    if r.iter().any(|b| b.0 == z.0) {
                        return Err(format!("{} is returned twice", z.0));
                    }
                    r.push(z);
                }
            }
            Ok(r)
        };
        let r = match ret.expect("result") {
            Err(p) => {
                out.bad("panic", step, format!("{op}: {p}"));
                return;
            }
            Ok(Ret::Error(e)) => Err(e),
            Ok(Ret::Snapshot(..)) => Err("not loaded".to_string()),
            Ok(Ret::Update(b, unknown)) => Ok(json!({"t": if unknown { "-" } else { "u" }, "b": b})),
            Ok(Ret::Notify(list)) => names_of(&list).map(|v| {
                let ch: Vec<_> = v.into_iter().map(|x| (x.0, x.1)).collect();
                json!({"t": "n", "ch": ch})
            }),
            Ok(Ret::Get(None)) => Ok(json!({"t": "g", "v": show(NONE, NONE)})),
            Ok(Ret::Get(Some(y))) => match name(&y) {
                Ok(Some((a, id, slot))) if op["a"] == a.as_str() => Ok(json!({"t": "g", "v": show(id, slot)})),
                Ok(_) => Err("another account is returned".to_string()),
                Err(e) => Err(e),
            },
            Ok(Ret::Gpa(list)) => names_of(&list).map(|v| {
                let mut q: BTreeMap<String, Value> = names.iter().map(|a| (a.clone(), show(NONE, NONE))).collect();
                q.extend(v.into_iter().map(|x| (x.0, show(x.1, x.2))));
                json!({"t": "q", "q": q})
            }),
        };
        match r {
            Ok(r) => h.push(json!({"e": "ret", "x": x, "r": r})),
            Err(e) => {
                out.bad(&format!("conc_result_{}", op["t"].as_str().unwrap_or("")), step, format!("{op}: {e}"));
                return;
            }
        }
    }
    out.cmp("histories");
    *out.compared.entry("overlapping".to_string()).or_insert(0) += overlap;
    out.lines.push(json!({"trace": line, "h": {"h": h}}).to_string());
}

/// storage of token accounts of a user which sometimes takes a while
struct SlowTokens {
    inner: InmemoryTokenAccountStorage,
    slow: Slow,
}

impl TokenAccountStorageInterface for SlowTokens {
    fn contains(&self, pubkey: &Pubkey) -> Option<TokenAccountIndex> {
        self.slow.delay();
        let r = self.inner.contains(pubkey);
        self.slow.delay();
        r
    }
    fn save_or_update(&self, token_account: TokenAccount) -> (TokenAccountIndex, bool) {
        self.slow.delay();
        let r = self.inner.save_or_update(token_account);
        self.slow.delay();
        r
    }
    fn get_by_index(&self, indexes: HashSet<TokenAccountIndex>) -> Result<Vec<TokenAccount>, AccountLoadingError> {
        self.slow.delay();
        let r = self.inner.get_by_index(indexes);
        self.slow.delay();
        r
    }
    fn get_by_pubkey(&self, pubkey: &Pubkey) -> Option<TokenAccount> {
        self.slow.delay();
        let r = self.inner.get_by_pubkey(pubkey);
        self.slow.delay();
        r
    }
    fn delete(&self, pubkey: &Pubkey) {
        self.slow.delay();
        self.inner.delete(pubkey);
        self.slow.delay();
    }
    fn create_snapshot(&self, program: Program) -> Result<Vec<Vec<u8>>, AccountLoadingError> {
        self.slow.delay();
        let r = self.inner.create_snapshot(program);
        self.slow.delay();
        r
    }
}

pub fn run_token(line: &str, rng: &mut ChaCha8Rng, params: &Params, out: &mut Outcome) {
    let reps: usize = params.get("reps").map_or(1, |x| x.parse().unwrap());
    for _ in 0..reps {
        let mut r = ChaCha8Rng::seed_from_u64(rng.gen());
        one_token(line, &mut r, params, out);
        if !out.ok() {
            return;
        }
    }
}

/// the query without conditions
const EVERYTHING: usize = 11;

fn one_token(line: &str, rng: &mut ChaCha8Rng, params: &Params, out: &mut Outcome) {
    let trace: token::Trace = serde_json::from_str(line).expect("trace");
    let mut w = token::World::new(rng, &trace);
    w.repeat = false;
    for keys in w.groups.values_mut() {
        keys.truncate(1);
    }
    let kept: HashSet<Pubkey> = w.groups.values().map(|x| x[0]).collect();
    w.names.retain(|pk, _| kept.contains(pk));
    let active = Arc::new(AtomicBool::new(false));
    let storage: Arc<dyn AccountStorageInterface> = Arc::new(TokenProgramAccountsStorage::new(Arc::new(SlowTokens {
        inner: InmemoryTokenAccountStorage::default(),
        slow: Slow { active: active.clone(), level: rng.gen_range(0..6) },
    })));
    let mut ops: Vec<(Value, Do)> = vec![];
    let mut names: Vec<String> = vec![];
    for step in &trace.h {
        let op = &step.op;
        match op.t.as_str() {
            "u" => {
                // versions are told apart by their content
                let key = (op.a.clone(), 0, op.s * 100 + op.w);
                let fresh = !w.sent.contains_key(&key);
                let mut v = w.version(rng, &op.a, 0, op.s, op.w, &op.k);
                let mut tries = 0;
                while fresh && w.sent.iter().any(|(k, x)| k.0 == op.a && *k != key && x.raw == v.raw && !x.raw.is_empty()) && tries < 100 {
                    w.sent.remove(&key);
                    v = w.version(rng, &op.a, 0, op.s, op.w, &op.k);
                    tries += 1;
                }
                if !names.contains(&op.a) {
                    names.push(op.a.clone());
                }
                let init = op.c == 2 && rng.gen_bool(0.2);
                ops.push((
                    json!({"t": "u", "a": op.a, "s": op.s, "w": op.w, "k": op.k, "c": op.c}),
                    Do::Update(v.data, COMMITMENTS[op.c], init),
                ));
            }
            "n" => {
                let info = SlotInfo { slot: w.slots[op.s as usize], parent: w.slots[op.p as usize], root: 0 };
                ops.push((json!({"t": "n", "s": op.s, "p": op.p, "c": op.c}), Do::Notify(info, COMMITMENTS[op.c])));
            }
            x => panic!("op {x}"),
        }
    }
    // every account of the specification is shown
    for a in params["accts"].split(',') {
        if !w.groups.contains_key(a) {
            let pk = pubkey(rng);
            w.groups.insert(a.to_string(), vec![pk]);
            w.names.insert(pk, a.to_string());
        }
    }
    let all: Vec<String> = w.groups.keys().cloned().collect();
    if names.is_empty() {
        names = all.clone();
    }
    // other accounts written in the same slots make notifications longer
    let others: u32 = *choose(rng, &[0, 0, 1, 3, 12]);
    let mut other_keys = HashSet::new();
    for s in w.slots.clone() {
        for _ in 0..others {
            let pk = pubkey(rng);
            other_keys.insert(pk);
            let f = crate::codec::Fields::random(rng, w.noise_owner, w.noise_mint);
            let raw = crate::codec::token_account(&f, false, rng, false);
            let v = w.make(rng, pk, spl_token::id(), raw, 1, s, 0);
            storage.update_account(v.data, Commitment::Processed);
        }
    }
    let mut queries = vec![];
    for o in ["T", "X"] {
        for (i, q) in token::QUERIES.iter().enumerate() {
            let c = w.conditions(rng, q);
            if storage.get_program_accounts(token::token_program(o), c.clone(), Commitment::Processed).is_ok() {
                queries.push((o, i, c));
            }
        }
    }

    let n_write = rng.gen_range(2..=3usize);
    let n_read = rng.gen_range(1..=2usize);
    let style = rng.gen_range(0..4);
    let before = rng.gen_range(0..=ops.len() / 2);
    let mut threads: Vec<Vec<Job>> = (0..n_write + n_read).map(|_| vec![]).collect();
    let mut events: Vec<Event> = vec![];
    if others > 0 {
        // these made the slots known
        for s in 1..w.slots.len() {
            let op = json!({"t": "e", "s": s});
            events.push((0, 1, true, op, None));
            events.push((0, 1, false, Value::Null, Some(Ok(Ret::Update(true, true)))));
        }
    }
    let mut clock = 1;
    for (n, (op, call)) in ops.into_iter().enumerate() {
        if n < before {
            let ret = perform(&storage, call);
            events.push((clock, 1, true, op, None));
            events.push((clock, 1, false, Value::Null, Some(ret)));
            clock += 1;
        } else {
            let x = rng.gen_range(0..n_write);
            threads[x].push(Job { op, call, wait: waits(rng, style) });
        }
    }
    for x in n_write..n_write + n_read {
        for _ in 0..rng.gen_range(3..10) {
            let l = rng.gen_range(0..3usize);
            let (op, call) = if rng.gen_bool(0.2) {
                let o = *choose(rng, &["T", "X"]);
                (json!({"t": "q", "o": o, "i": EVERYTHING, "l": 2, "saved": true}), Do::Snapshot(token::token_program(o)))
            } else if rng.gen_bool(0.6) {
                let a = choose(rng, &names).clone();
                (json!({"t": "g", "a": a, "l": l}), Do::Get(w.groups[&a][0], COMMITMENTS[l]))
            } else {
                let (o, i, c) = choose(rng, &queries).clone();
                (json!({"t": "q", "o": o, "i": i + 1, "l": l}), Do::Gpa(token::token_program(o), c, COMMITMENTS[l]))
            };
            threads[x].push(Job { op, call, wait: waits(rng, style) });
        }
    }
    active.store(true, Ordering::Relaxed);
    events.extend(run_threads(&storage, threads, rng));
    active.store(false, Ordering::Relaxed);
    for a in &all {
        for (l, c) in COMMITMENTS.iter().enumerate() {
            let ret = perform(&storage, Do::Get(w.groups[a][0], *c));
            events.push((u64::MAX, 1, true, json!({"t": "g", "a": a, "l": l}), None));
            events.push((u64::MAX, 1, false, Value::Null, Some(ret)));
        }
    }
    for (o, i, c) in &queries {
        for (l, level) in COMMITMENTS.iter().enumerate() {
            let ret = perform(&storage, Do::Gpa(token::token_program(o), c.clone(), *level));
            events.push((u64::MAX, 1, true, json!({"t": "q", "o": o, "i": i + 1, "l": l}), None));
            events.push((u64::MAX, 1, false, Value::Null, Some(ret)));
        }
    }
    load_snapshots(
        &mut events,
        &w.names.keys().copied().collect(),
        || Arc::new(TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default()))),
        out,
    );
    record(line, events, &all, out, true, |x| {
        if other_keys.contains(&x.pubkey) {
            return Ok(None);
        }
        let a = w.names.get(&x.pubkey).ok_or("unknown account")?;
        let raw = x.account.data.data();
        let ids: Vec<i64> = w
            .sent
            .iter()
            .filter(|(k, v)| k.0 == *a && v.raw == raw && v.data.account.owner == x.account.owner && v.data.account.lamports > 0)
            .map(|(k, _)| k.2)
            .collect();
        let slot = w.slots.iter().position(|s| *s == x.updated_slot).map_or(-1, |s| s as i64);
        match ids.as_slice() {
            [id] => Ok(Some((a.clone(), *id, slot))),
            [] => Err(format!("wrong content of {a}: {}", hex(&raw))),
            // the same content twice, the slot tells them apart
            many => Ok(Some((a.clone(), many.iter().copied().find(|id| id / 100 == slot).unwrap_or(many[0]), slot))),
        }
    });
}
