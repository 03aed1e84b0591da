//! Drives AccountsOnDemand along environment steps generated from OnDemandImpl.tla, with a source whose calls
//! return when the steps say so, and records what the callers and the source see. The recorded histories are
//! judged by OnDemand.tla.
use crate::store::{compression, encode};
use crate::util::*;
use lite_account_manager_common::{
    account_data::{Account, AccountData},
    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter},
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    accounts_source_interface::AccountsSourceInterface,
    commitment::Commitment,
    mutable_filter_store::MutableFilterStore,
    simple_filter_store::SimpleFilterStore,
};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Deserialize, Serialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Key {
    k: String,
    a: String,
    o: String,
    c: BTreeSet<String>,
}

#[derive(Deserialize, Debug)]
struct Op {
    t: String,
    #[serde(default)]
    c: usize,
    #[serde(default)]
    k: Option<Key>,
    #[serde(default)]
    l: String,
    #[serde(default)]
    ok: bool,
    #[serde(default)]
    a: String,
    #[serde(default)]
    v: usize,
    #[serde(default)]
    w: bool,
}

#[derive(Deserialize, Debug)]
struct Step {
    op: Op,
    q: bool,
}

#[derive(Deserialize, Debug)]
struct Trace {
    cfg: Vec<Key>,
    h: Vec<Step>,
}

fn info(a: &str) -> (&'static str, &'static [&'static str]) {
    match a {
        "a" => ("P", &["d1", "h1"]),
        "b" => ("P", &["d1"]),
        "c" => ("P", &[]),
        "d" => ("P", &["h1"]),
        "q" => ("Q", &["d1"]),
        _ => ("-", &[]),
    }
}
const EXISTING: [&str; 5] = ["a", "b", "c", "d", "q"];
const NAMES: [&str; 6] = ["a", "b", "c", "d", "q", "n"];
const FINAL_CALLER: usize = 9;

impl Key {
    fn matches(&self, a: &str) -> bool {
        if self.k == "a" {
            self.a == a
        } else {
            let (o, c) = info(a);
            o == self.o && self.c.iter().all(|x| c.contains(&x.as_str()))
        }
    }
    fn covers(&self, x: &Key) -> bool {
        self.k == x.k && if self.k == "a" { self.a == x.a } else { self.o == x.o && self.c.is_subset(&x.c) }
    }
}

struct Names {
    keys: BTreeMap<String, Pubkey>,
    names: HashMap<Pubkey, String>,
    progs: BTreeMap<String, Pubkey>,
    slots: Vec<u64>,
    len: u64,
    at: u64,
    tag: Vec<u8>,
}

impl Names {
    fn conditions(&self, filters: &Option<Vec<AccountFilterType>>) -> BTreeSet<String> {
        filters
            .iter()
            .flatten()
            .map(|f| match f {
                AccountFilterType::Datasize(n) if *n == self.len => "d1".to_string(),
                AccountFilterType::Memcmp(m) if m.offset == self.at && m.bytes() == self.tag => "h1".to_string(),
                x => format!("{x:?}"),
            })
            .collect()
    }
    fn program(&self, pk: &Pubkey) -> String {
        self.progs.iter().find(|(_, p)| *p == pk).map_or("?".to_string(), |x| x.0.clone())
    }
    fn account_key(&self, pk: &Pubkey) -> Key {
        Key {
            k: "a".to_string(),
            a: self.names.get(pk).cloned().unwrap_or("?".to_string()),
            o: "-".to_string(),
            c: BTreeSet::new(),
        }
    }
    fn program_key(&self, pk: &Pubkey, filters: &Option<Vec<AccountFilterType>>) -> Key {
        Key {
            k: "g".to_string(),
            a: "-".to_string(),
            o: self.program(pk),
            c: self.conditions(filters),
        }
    }
}

enum Command {
    None,
    Deliver(Box<AccountData>, Value, Value),
    End(bool),
}

struct Outstanding {
    load: bool,
    key: Key,
    command: Command,
}

#[derive(Default)]
struct State {
    log: Vec<Value>,
    active: BTreeMap<usize, Key>,
    outstanding: BTreeMap<u64, Outstanding>,
    next: u64,
    panicked: Option<String>,
}

struct Shared {
    st: Mutex<State>,
    cond: Condvar,
    names: Names,
}

impl Shared {
    /// a call of the source: returns when the environment says so
    fn source_call(&self, load: bool, key: Key, storage: Option<Arc<dyn AccountStorageInterface>>) -> anyhow::Result<()> {
        let mut st = self.st.lock().unwrap();
        st.log.push(json!({"e": if load {"ls"} else {"ss"}, "k": key}));
        let id = st.next;
        st.next += 1;
        st.outstanding.insert(
            id,
            Outstanding {
                load,
                key: key.clone(),
                command: Command::None,
            },
        );
        self.cond.notify_all();
        loop {
            let command = std::mem::replace(&mut st.outstanding.get_mut(&id).unwrap().command, Command::None);
            match command {
                Command::None => st = self.cond.wait(st).unwrap(),
                Command::Deliver(account, begin, end) => {
                    st.log.push(begin);
                    drop(st);
                    storage.as_ref().unwrap().initilize_or_update_account(*account);
                    st = self.st.lock().unwrap();
                    st.log.push(end);
                    self.cond.notify_all();
                }
                Command::End(ok) => {
                    st.log.push(json!({"e": if load {"le"} else {"se"}, "k": key, "ok": ok}));
                    st.outstanding.remove(&id);
                    self.cond.notify_all();
                    return if ok { Ok(()) } else { Err(anyhow::anyhow!("source failed")) };
                }
            }
        }
    }
}

struct Source(Arc<Shared>);

impl AccountsSourceInterface for Source {
    fn subscribe_accounts(&self, accounts: HashSet<Pubkey>) -> anyhow::Result<()> {
        let mut r = Ok(());
        for a in accounts {
            r = r.and(self.0.source_call(false, self.0.names.account_key(&a), None));
        }
        r
    }
    fn subscribe_program_accounts(&self, program_id: Pubkey, filters: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        let key = self.0.names.program_key(&program_id, &filters);
        self.0.source_call(false, key, None)
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, account_filters: AccountFilters) -> anyhow::Result<()> {
        let mut r = Ok(());
        for f in account_filters {
            for a in &f.accounts {
                r = r.and(self.0.source_call(true, self.0.names.account_key(a), Some(storage.clone())));
            }
            if let Some(p) = &f.program_id {
                let key = self.0.names.program_key(p, &f.filters);
                r = r.and(self.0.source_call(true, key, Some(storage.clone())));
            }
        }
        r
    }
}

struct Drive<'a> {
    rng: &'a mut ChaCha8Rng,
    sh: Arc<Shared>,
    od: Arc<AccountsOnDemand>,
    world: BTreeMap<String, usize>,
    made: HashMap<(String, usize), AccountData>,
    /// the accounts each load still has to deliver
    delivered: HashSet<(u64, String)>,
    stuck: bool,
    all: Arc<Mutex<HashMap<(Pubkey, u64), AccountData>>>,
}

fn level(l: &str) -> Commitment {
    if l == "p" {
        Commitment::Processed
    } else {
        Commitment::Finalized
    }
}

impl Drive<'_> {
    fn account(&mut self, a: &str, v: usize) -> AccountData {
        if let Some(x) = self.made.get(&(a.to_string(), v)) {
            return x.clone();
        }
        let n = &self.sh.names;
        let (o, c) = info(a);
        let len = if c.contains(&"d1") { n.len } else { n.len + self.rng.gen_range(1..9) };
        let mut data: Vec<u8> = (0..len).map(|_| self.rng.gen()).collect();
        let (at, end) = (n.at as usize, n.at as usize + n.tag.len());
        if c.contains(&"h1") {
            data[at..end].copy_from_slice(&n.tag);
        } else {
            while data[at..end] == n.tag {
                data[at] = data[at].wrapping_add(1);
            }
        }
        let x = AccountData {
            pubkey: n.keys[a],
            account: Arc::new(Account::from_solana_account(
                solana_sdk::account::Account {
                    lamports: self.rng.gen_range(1..1 << 40),
                    data,
                    owner: n.progs[o],
                    executable: false,
                    rent_epoch: 0,
                },
                compression(self.rng, 3),
            )),
            updated_slot: n.slots[v],
            write_version: self.rng.gen(),
        };
        self.all.lock().unwrap().insert((x.pubkey, x.updated_slot), x.clone());
        self.made.insert((a.to_string(), v), x.clone());
        x
    }

    fn filters(&mut self, c: &BTreeSet<String>) -> Option<Vec<AccountFilterType>> {
        if c.is_empty() && self.rng.gen_bool(0.5) {
            return None;
        }
        let mut r = vec![];
        for x in c {
            for _ in 0..(if self.rng.gen_range(0..5) == 0 { 2 } else { 1 }) {
                r.push(if x == "d1" {
                    AccountFilterType::Datasize(self.sh.names.len)
                } else {
                    AccountFilterType::Memcmp(MemcmpFilter {
                        offset: self.sh.names.at,
                        data: encode(self.rng, &self.sh.names.tag),
                    })
                });
            }
        }
        shuffle(self.rng, &mut r);
        Some(r)
    }

    /// a caller may rightly be blocked
    fn justified(st: &State, key: &Key) -> bool {
        st.outstanding
            .values()
            .any(|o| if o.load { o.key.covers(key) } else { o.key.k == key.k })
    }

    /// until nothing moves any more: everybody who can return has returned
    fn quiet(&mut self) {
        let start = Instant::now();
        let mut same = 0;
        let mut len = usize::MAX;
        loop {
            {
                let mut st = self.sh.st.lock().unwrap();
                let busy = st.active.values().any(|k| !Self::justified(&st, k));
                let expired = start.elapsed() > Duration::from_secs(8);
                if (!busy && same >= 2) || expired {
                    let b: Vec<usize> = st.active.keys().cloned().collect();
                    st.log.push(json!({"e": "quiet", "b": b}));
                    self.stuck |= expired;
                    return;
                }
                if st.log.len() == len && !busy {
                    same += 1;
                } else {
                    same = 0;
                }
                len = st.log.len();
            }
            std::thread::sleep(Duration::from_micros(if start.elapsed() > Duration::from_millis(20) { 2000 } else { 150 }));
        }
    }

    fn call(&mut self, c: usize, key: &Key, l: &str) {
        {
            let mut st = self.sh.st.lock().unwrap();
            if st.active.contains_key(&c) {
                return;
            }
            st.active.insert(c, key.clone());
            st.log.push(json!({"e": "call", "c": c, "k": key, "l": l}));
        }
        let filters = self.filters(&key.c);
        let (sh, od, key, l, all) = (self.sh.clone(), self.od.clone(), key.clone(), level(l), self.all.clone());
        std::thread::spawn(move || {
            let start = Instant::now();
            let version = |x: &AccountData| -> i64 {
                let known = all.lock().unwrap().get(&(x.pubkey, x.updated_slot)).cloned();
                match known {
                    Some(y) if crate::store::same_content(&y, x) => {
                        sh.names.slots.iter().position(|s| *s == x.updated_slot).map_or(-1, |i| i as i64)
                    }
                    _ => -1,
                }
            };
            let r = guard(|| {
                if key.k == "a" {
                    od.get_account(sh.names.keys[&key.a], l).map(|x| match x {
                        None => json!({"t": "acc", "v": 0}),
                        Some(x) if x.pubkey == sh.names.keys[&key.a] => json!({"t": "acc", "v": version(&x)}),
                        _ => json!({"t": "acc", "v": -1}),
                    })
                } else {
                    od.get_program_accounts(sh.names.progs[&key.o], filters, l).map(|list| {
                        let mut m = serde_json::Map::new();
                        let mut twice = false;
                        for x in list {
                            let name = sh.names.names.get(&x.pubkey).cloned().unwrap_or("?".to_string());
                            twice |= m.insert(name, json!(version(&x))).is_some();
                        }
                        if twice {
                            json!({"t": "twice"})
                        } else {
                            json!({"t": "gpa", "v": m})
                        }
                    })
                }
            });
            let ms = start.elapsed().as_millis() as u64;
            let mut st = sh.st.lock().unwrap();
            let r = match r {
                Ok(Ok(x)) => x,
                Ok(Err(e)) => json!({"t": "err", "ms": ms, "err": match e {
                    AccountLoadingError::OperationTimeOut => "timeout".to_string(),
                    AccountLoadingError::ErrorCreatingSnapshot => "snap".to_string(),
                    AccountLoadingError::ErrorSubscribingAccount => "sub".to_string(),
                    e => format!("{e:?}"),
                }}),
                Err(p) => {
                    st.panicked = Some(p);
                    json!({"t": "panic"})
                }
            };
            st.log.push(json!({"e": "ret", "c": c, "r": r}));
            st.active.remove(&c);
            sh.cond.notify_all();
        });
    }

    fn command(&mut self, id: u64, command: Command) {
        let mut st = self.sh.st.lock().unwrap();
        let len = st.log.len();
        let end = matches!(command, Command::End(_));
        st.outstanding.get_mut(&id).unwrap().command = command;
        self.sh.cond.notify_all();
        let start = Instant::now();
        // the source does what it was told, nothing else may change the storage until then
        loop {
            let done = if end {
                !st.outstanding.contains_key(&id)
            } else {
                st.log[len..].iter().any(|x| x["e"] == "de")
            };
            if done {
                return;
            }
            if start.elapsed() > Duration::from_secs(8) {
                self.stuck = true;
                return;
            }
            st = self.sh.cond.wait_timeout(st, Duration::from_millis(100)).unwrap().0;
        }
    }

    fn find(&self, load: bool, key: &Key) -> Option<u64> {
        let st = self.sh.st.lock().unwrap();
        st.outstanding.iter().find(|(_, o)| o.load == load && o.key == *key).map(|x| *x.0)
    }

    fn deliver(&mut self, id: u64, a: &str) {
        let v = self.world.get(a).cloned().unwrap_or(0);
        if v == 0 || !self.delivered.insert((id, a.to_string())) {
            return;
        }
        let x = self.account(a, v);
        self.command(
            id,
            Command::Deliver(Box::new(x), json!({"e": "db", "a": a, "v": v}), json!({"e": "de", "a": a, "v": v})),
        );
    }

    fn end_load(&mut self, id: u64, key: &Key, ok: bool) {
        if ok {
            let mut names = EXISTING.to_vec();
            shuffle(self.rng, &mut names);
            for a in names {
                if key.matches(a) {
                    self.deliver(id, a);
                }
            }
        }
        self.command(id, Command::End(ok));
    }

    fn update(&mut self, a: &str, v: usize, l: &str, new: bool) {
        if new {
            self.world.insert(a.to_string(), v);
        }
        let x = self.account(a, v);
        self.sh.st.lock().unwrap().log.push(json!({"e": "ub", "a": a, "v": v, "l": l}));
        let r = guard(|| self.od.update_account(x, level(l)));
        let mut st = self.sh.st.lock().unwrap();
        match r {
            Ok(r) => st.log.push(json!({"e": "ue", "a": a, "v": v, "l": l, "r": r})),
            Err(p) => st.panicked = Some(p),
        }
    }

    /// all the outstanding calls of the source succeed, until nobody is waiting any more
    fn finish(&mut self) {
        for _ in 0..100 {
            self.quiet();
            if self.stuck {
                return;
            }
            let next = {
                let st = self.sh.st.lock().unwrap();
                st.outstanding.iter().next().map(|(id, o)| (*id, o.load, o.key.clone()))
            };
            match next {
                Some((id, true, key)) => self.end_load(id, &key, true),
                Some((id, false, _)) => self.command(id, Command::End(true)),
                None => return,
            }
        }
        self.stuck = true;
    }

    /// the loads in progress stay in progress for longer than the callers may wait
    fn late(&mut self) {
        let start = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(300));
            let mut st = self.sh.st.lock().unwrap();
            if st.active.len() <= st.outstanding.len() || start.elapsed() > Duration::from_secs(20) {
                let b: Vec<usize> = st.active.keys().cloned().collect();
                st.log.push(json!({"e": "late", "b": b}));
                return;
            }
        }
    }
}

pub fn record(line: &str, rng: &mut ChaCha8Rng, _params: &Params, out: &mut Outcome) {
    let trace: Trace = serde_json::from_str(line).expect("trace");
    let versions = 3 + trace.h.iter().map(|s| s.op.v).max().unwrap_or(0);
    let keys: BTreeMap<String, Pubkey> = NAMES.iter().map(|n| (n.to_string(), pubkey(rng))).collect();
    let names = Names {
        names: keys.iter().map(|(n, k)| (*k, n.clone())).collect(),
        keys,
        progs: ["P", "Q"].iter().map(|n| (n.to_string(), pubkey(rng))).collect(),
        slots: increasing(rng, versions),
        len: rng.gen_range(30..300),
        at: rng.gen_range(0..20),
        tag: (0..rng.gen_range(2..8)).map(|_| rng.gen()).collect(),
    };
    let filters = Arc::new(MutableFilterStore::default());
    for k in &trace.cfg {
        filters.add_account_filters(&vec![if k.k == "a" {
            AccountFilter {
                accounts: vec![names.keys[&k.a]],
                program_id: None,
                filters: None,
            }
        } else {
            AccountFilter {
                accounts: vec![],
                program_id: Some(names.progs[&k.o]),
                filters: if k.c.is_empty() {
                    None
                } else {
                    Some(
                        k.c.iter()
                            .map(|x| {
                                if x == "d1" {
                                    AccountFilterType::Datasize(names.len)
                                } else {
                                    AccountFilterType::Memcmp(MemcmpFilter {
                                        offset: names.at,
                                        data: encode(rng, &names.tag),
                                    })
                                }
                            })
                            .collect(),
                    )
                },
            }
        }]);
    }
    let _ = SimpleFilterStore::default();
    let sh = Arc::new(Shared {
        st: Mutex::new(State::default()),
        cond: Condvar::new(),
        names,
    });
    let storage: Arc<dyn AccountStorageInterface> = Arc::new(InmemoryAccountStore::new(filters.clone()));
    let od = Arc::new(AccountsOnDemand::new(Arc::new(Source(sh.clone())), filters, storage));
    let mut d = Drive {
        rng,
        sh: sh.clone(),
        od,
        world: EXISTING.iter().map(|a| (a.to_string(), 1)).collect(),
        made: HashMap::new(),
        delivered: HashSet::new(),
        stuck: false,
        all: Default::default(),
    };
    for step in &trace.h {
        if step.q {
            d.quiet();
        }
        if d.stuck {
            break;
        }
        let op = &step.op;
        match op.t.as_str() {
            "call" => d.call(op.c, op.k.as_ref().unwrap(), &op.l),
            "sub" => {
                if let Some(id) = d.find(false, op.k.as_ref().unwrap()) {
                    d.command(id, Command::End(op.ok));
                }
            }
            "del" => {
                if let Some(id) = d.find(true, op.k.as_ref().unwrap()) {
                    d.deliver(id, &op.a);
                }
            }
            "load" => {
                if let Some(id) = d.find(true, op.k.as_ref().unwrap()) {
                    d.end_load(id, op.k.as_ref().unwrap(), op.ok);
                }
            }
            "up" => d.update(&op.a, op.v, &op.l, op.w),
            "late" => d.late(),
            x => panic!("op {x}"),
        }
        out.steps += 1;
    }
    if !d.stuck {
        d.finish();
    }
    // everything can be requested and loaded in the end
    let mut last: Vec<Key> = vec![];
    for step in &trace.h {
        if let Some(k) = &step.op.k {
            if !last.contains(k) {
                last.push(k.clone());
            }
        }
    }
    shuffle(d.rng, &mut last);
    for k in last {
        if d.stuck {
            break;
        }
        let l = *choose(d.rng, &["p", "f"]);
        d.call(FINAL_CALLER, &k, l);
        d.finish();
    }
    let (h, panicked) = {
        let st = sh.st.lock().unwrap();
        (st.log.clone(), st.panicked.clone())
    };
    out.stuck = d.stuck;
    if let Some(p) = panicked {
        out.bad("panic", out.steps as usize, p);
    }
    for e in &h {
        out.cmp(match e["e"].as_str().unwrap() {
            "ret" => "returned",
            "ss" => "subscribed",
            "ls" => "loads",
            "ue" => "updates",
            "quiet" => "quiescent",
            _ => continue,
        });
    }
    out.lines.push(json!({"trace": line, "h": {"cfg": trace.cfg, "h": h}}).to_string());
}
