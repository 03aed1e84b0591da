//! Replays behaviours of AccountStore.tla on InmemoryAccountStore (or on StorageByProgramId).
use crate::util::*;
use lite_account_manager_common::{
    account_data::{Account, AccountData, CompressionMethod},
    account_filter::{
        AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData,
    },
    account_filters_interface::AccountFiltersStoreInterface,
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    accounts_source_interface::AccountsSourceInterface,
    commitment::Commitment,
    except_filter_store::ExceptFilterStore,
    mutable_filter_store::MutableFilterStore,
    simple_filter_store::SimpleFilterStore,
    slot_info::SlotInfo,
};
use lite_account_storage::{
    inmemory_account_store::InmemoryAccountStore, storage_by_program_id::StorageByProgramId,
};
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde::{Deserialize, Serialize};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

pub const COMMITMENTS: [Commitment; 3] = [
    Commitment::Processed,
    Commitment::Confirmed,
    Commitment::Finalized,
];
/// the level as it comes with a request
#[allow(deprecated)]
pub fn level(c: usize) -> Commitment {
    use solana_sdk::commitment_config::{CommitmentConfig, CommitmentLevel::*};
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let names = [[Processed, Processed, Recent], [Confirmed, Single, SingleGossip], [Finalized, Max, Root]];
    Commitment::from(CommitmentConfig { commitment: names[c][n % 3] })
}
pub const NONE: i64 = -101;

#[derive(Deserialize, Serialize, Debug, Clone)]
pub struct Op {
    pub t: String,
    #[serde(default)]
    pub a: String,
    #[serde(default)]
    pub s: i64,
    #[serde(default)]
    pub w: i64,
    #[serde(default)]
    pub k: String,
    #[serde(default)]
    pub c: usize,
    #[serde(default)]
    pub p: i64,
    #[serde(default)]
    pub o: String,
    #[serde(default)]
    pub i: usize,
}

#[derive(Deserialize, Debug)]
pub struct Obs {
    rd: BTreeMap<String, Vec<i64>>,
    #[serde(default)]
    g: BTreeMap<String, Vec<Vec<Vec<String>>>>,
}

#[derive(Deserialize, Debug)]
pub struct Step {
    pub op: Op,
    ret: bool,
    ch: Vec<(String, i64)>,
    /// observations before the call
    #[serde(default)]
    pub pre: Option<Obs>,
    /// observations after the call
    #[serde(default)]
    pub obs: Option<Obs>,
    /// what a partitioned storage may answer as well
    #[serde(skip)]
    pub alt: Option<Alt>,
}

#[derive(Deserialize, Debug)]
pub struct Alt {
    ret: bool,
    ch: Vec<(String, i64)>,
    #[serde(default)]
    pre: Option<Obs>,
    #[serde(default)]
    obs: Option<Obs>,
}

#[derive(Deserialize, Debug)]
pub struct Trace {
    pub cfg: String,
    /// filters which are added while the store is in use
    #[serde(default)]
    pub extra: String,
    pub h: Vec<Step>,
    #[serde(default)]
    pub obs: Option<Obs>,
    #[serde(default)]
    dh: Vec<Alt>,
    #[serde(default)]
    dobs: Option<Obs>,
}

/// a source which knows nothing and must not be asked for programs
struct EmptySource;
impl AccountsSourceInterface for EmptySource {
    fn subscribe_accounts(&self, _: HashSet<Pubkey>) -> anyhow::Result<()> {
        Ok(())
    }
    fn subscribe_program_accounts(&self, _: Pubkey, _: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        panic!("the source was asked for a covered query")
    }
    fn save_snapshot(&self, _: Arc<dyn AccountStorageInterface>, _: AccountFilters) -> anyhow::Result<()> {
        Ok(())
    }
}

/// the concrete world of one trace
pub struct World {
    pub slots: Vec<u64>,
    wvs: Vec<u64>,
    /// every account of the specification stands for one or more accounts having the same history
    pub groups: BTreeMap<String, Vec<Pubkey>>,
    pub names: HashMap<Pubkey, (String, usize)>,
    pub progs: BTreeMap<String, Pubkey>,
    len64: usize,
    len32: usize,
    /// position and values of the two tags
    tags: [(usize, [Vec<u8>; 3]); 2],
    pub sent: BTreeMap<(String, usize, i64), AccountData>,
    compress: u32,
    /// empty bytes to be compared wherever a size is asked for: at its end, or at the start
    empty: Option<bool>,
    /// tags are compared in two pieces
    split: bool,
    /// accounts are written again without a change
    repeat: bool,
    contents: HashMap<(String, usize, String), solana_sdk::account::Account>,
    /// changes the filters of the stores
    pub wrap: Option<Wrap>,
    extra: String,
    /// filters of the store if they can be extended
    shared: std::cell::RefCell<Option<Arc<MutableFilterStore>>>,
}

type Wrap = Box<dyn Fn(Arc<dyn AccountFiltersStoreInterface>) -> Arc<dyn AccountFiltersStoreInterface>>;

/// owner, length, tags, alive
fn kind_info(k: &str) -> (&'static str, u32, [usize; 2], bool) {
    match k {
        "p1" => ("P", 64, [1, 1], true),
        "p2" => ("P", 64, [2, 1], true),
        "p3" => ("P", 32, [1, 2], true),
        "p4" => ("P", 64, [1, 2], true),
        "q1" => ("Q", 64, [1, 1], true),
        "q2" => ("Q", 32, [2, 2], true),
        "r1" => ("R", 64, [1, 1], true),
        "p0" => ("P", 0, [0, 0], true),
        "s0" => ("S", 0, [0, 0], true),
        "dp" => ("P", 64, [1, 1], false),
        "ds" => ("S", 0, [0, 0], false),
        x => panic!("kind {x}"),
    }
}

pub fn compression(rng: &mut ChaCha8Rng, mode: u32) -> CompressionMethod {
    match if mode == 3 { rng.gen_range(0..3) } else { mode } {
        0 => CompressionMethod::None,
        1 => CompressionMethod::Lz4(rng.gen_range(1..9)),
        _ => CompressionMethod::Zstd(rng.gen_range(1..6)),
    }
}

pub fn encode(rng: &mut ChaCha8Rng, bytes: &[u8]) -> MemcmpFilterData {
    match rng.gen_range(0..3) {
        0 => MemcmpFilterData::Bytes(bytes.to_vec()),
        1 => MemcmpFilterData::Base58(bs58::encode(bytes).into_string()),
        _ => {
            use base64::Engine;
            MemcmpFilterData::Base64(base64::engine::general_purpose::STANDARD.encode(bytes))
        }
    }
}

impl World {
    pub fn new(rng: &mut ChaCha8Rng, trace: &Trace) -> Self {
        let mut max_s = 0;
        let mut max_w = 0;
        let mut accts: BTreeSet<String> = BTreeSet::new();
        for step in &trace.h {
            max_s = max_s.max(step.op.s).max(step.op.p);
            max_w = max_w.max(step.op.w);
            if let Some(obs) = &step.obs {
                accts.extend(obs.rd.keys().cloned());
            }
        }
        let mut groups = BTreeMap::new();
        let mut names = HashMap::new();
        for a in accts {
            let n = match rng.gen_range(0..20) {
                0 => rng.gen_range(5..40),
                1..=4 => 2,
                _ => 1,
            };
            let keys: Vec<Pubkey> = (0..n).map(|_| pubkey(rng)).collect();
            for (i, k) in keys.iter().enumerate() {
                names.insert(*k, (a.clone(), i));
            }
            groups.insert(a, keys);
        }
        let mut progs = BTreeMap::new();
        for p in ["P", "Q", "R"] {
            progs.insert(p.to_string(), pubkey(rng));
        }
        progs.insert("S".to_string(), Pubkey::default());
        let mut lay = vec![0, 1];
        shuffle(rng, &mut lay);
        let mut tags: [(usize, [Vec<u8>; 3]); 2] = Default::default();
        let mut min = 0;
        for i in lay {
            let len = *choose(rng, &[1usize, 1, 4, 8, 32]);
            let at = min + *choose(rng, &[0usize, 0, 1, 7, 40]);
            let t1: Vec<u8> = (0..len).map(|_| rng.gen()).collect();
            let mut t2 = t1.clone();
            let j = rng.gen_range(0..len);
            t2[j] = t2[j].wrapping_add(rng.gen_range(1..=255));
            tags[i] = (at, [vec![], t1, t2]);
            min = at + len;
        }
        let mut lens = vec![min, min + 1, min + 32, 165, 1000, 20_000];
        lens.retain(|x| *x >= min);
        let len64 = *choose(rng, &lens);
        let len32 = loop {
            let l = *choose(rng, &lens);
            if l != len64 {
                break l;
            }
        };
        World {
            slots: increasing(rng, max_s as usize + 1),
            wvs: write_versions(rng, max_w as usize + 1),
            groups,
            names,
            progs,
            len64,
            len32,
            tags,
            sent: BTreeMap::new(),
            compress: rng.gen_range(0..4),
            empty: *choose(rng, &[None, None, None, None, Some(true), Some(false)]),
            split: rng.gen_range(0..5) == 0,
            repeat: rng.gen_range(0..4) == 0,
            contents: HashMap::new(),
            wrap: None,
            extra: if trace.extra == "-" { String::new() } else { trace.extra.clone() },
            shared: Default::default(),
        }
    }

    fn len(&self, n: u32) -> usize {
        match n {
            64 => self.len64,
            32 => self.len32,
            _ => 0,
        }
    }

    fn content(&self, rng: &mut ChaCha8Rng, k: &str) -> solana_sdk::account::Account {
        let (owner, n, tag, alive) = kind_info(k);
        let len = self.len(n);
        let compressible = rng.gen_bool(0.5);
        let mut data: Vec<u8> = if compressible {
            vec![rng.gen(); len]
        } else {
            (0..len).map(|_| rng.gen()).collect()
        };
        for ((at, values), tag) in self.tags.iter().zip(tag) {
            if tag > 0 {
                data[*at..*at + values[tag].len()].copy_from_slice(&values[tag]);
            }
        }
        let lamports = if alive {
            *choose(rng, &[1, u64::MAX, 890880, 1 << 33])
        } else {
            0
        };
        solana_sdk::account::Account {
            lamports,
            data,
            owner: self.progs[owner],
            executable: rng.gen_bool(0.1),
            rent_epoch: *choose(rng, &[0, u64::MAX, 361]),
        }
    }

    /// content of a version never changes, but the compression of what is sent may
    pub fn version(
        &mut self,
        rng: &mut ChaCha8Rng,
        a: &str,
        i: usize,
        s: i64,
        w: i64,
        k: &str,
    ) -> AccountData {
        let key = (a.to_string(), i, s * 100 + w);
        if let Some(x) = self.sent.get(&key) {
            return x.clone();
        }
        let same = (a.to_string(), i, k.to_string());
        let content = match self.contents.get(&same) {
            Some(x) if self.repeat && rng.gen_bool(0.5) => x.clone(),
            _ => self.content(rng, k),
        };
        self.contents.insert(same, content.clone());
        let account = AccountData {
            pubkey: self.groups[a][i],
            account: Arc::new(Account::from_solana_account(content, compression(rng, self.compress))),
            updated_slot: self.slots[s as usize],
            write_version: self.wvs[w as usize],
        };
        self.sent.insert(key, account.clone());
        account
    }

    pub fn conditions(&self, rng: &mut ChaCha8Rng, conds: &[&str]) -> Option<Vec<AccountFilterType>> {
        if conds.is_empty() && rng.gen_bool(0.7) {
            return None;
        }
        let mut r = vec![];
        for c in conds {
            for _ in 0..(if rng.gen_range(0..6) == 0 { 2 } else { 1 }) {
                let mut memcmp = |rng: &mut ChaCha8Rng, offset: usize, bytes: &[u8]| {
                    r.push(AccountFilterType::Memcmp(MemcmpFilter { offset: offset as u64, data: encode(rng, bytes) }))
                };
                match *c {
                    "n64" | "n32" => {
                        let len = if *c == "n64" { self.len64 } else { self.len32 };
                        if let Some(end) = self.empty {
                            memcmp(rng, if end { len } else { 0 }, &[]);
                        }
                        r.push(AccountFilterType::Datasize(len as u64));
                    }
                    "t1" | "t2" | "u2" => {
                        let (at, values) = &self.tags[if *c == "u2" { 1 } else { 0 }];
                        let v = &values[if *c == "t1" { 1 } else { 2 }];
                        if self.split && v.len() > 1 {
                            memcmp(rng, *at + v.len() / 2, &v[v.len() / 2..]);
                            memcmp(rng, *at, &v[..v.len() / 2]);
                        } else {
                            memcmp(rng, *at, v);
                        }
                    }
                    x => panic!("condition {x}"),
                }
            }
        }
        shuffle(rng, &mut r);
        Some(r)
    }

    fn filters(&self, rng: &mut ChaCha8Rng, accounts: &[&str], f: &[(&str, &[&str])]) -> AccountFilters {
        let mut r: AccountFilters = vec![];
        for (prog, conds) in f {
            for _ in 0..(if rng.gen_range(0..8) == 0 { 2 } else { 1 }) {
                r.push(AccountFilter {
                    accounts: vec![],
                    program_id: Some(self.progs[*prog]),
                    filters: self.conditions(rng, conds),
                });
            }
        }
        for a in accounts {
            for chunk in self.groups.get(*a).map(|x| x.chunks(3)).into_iter().flatten() {
                if !r.is_empty() && rng.gen_bool(0.3) {
                    let i = rng.gen_range(0..r.len());
                    r[i].accounts.extend_from_slice(chunk);
                } else {
                    r.push(AccountFilter {
                        accounts: chunk.to_vec(),
                        program_id: None,
                        filters: None,
                    });
                }
            }
        }
        shuffle(rng, &mut r);
        if rng.gen_bool(0.3) {
            // configuration files hold filters as JSON
            let json = serde_json::to_string(&r).unwrap();
            r = serde_json::from_str(&json).unwrap();
        }
        r
    }

    pub fn filter_store(&self, rng: &mut ChaCha8Rng, cfg: &str) -> Arc<dyn AccountFiltersStoreInterface> {
        let (except, filters) = match cfg {
            "P" => (false, self.filters(rng, &[], &[("P", &[])])),
            "PQ" => (false, self.filters(rng, &[], &[("P", &[]), ("Q", &["n64"])])),
            "Pc" => (false, self.filters(rng, &[], &[("P", &["n64", "t1"])])),
            "Pcc" => (
                false,
                self.filters(rng, &[], &[("P", &["t2"]), ("P", &["n32"]), ("Q", &[])]),
            ),
            "acc" => (false, self.filters(rng, &["a"], &[("Q", &["n64"])])),
            "exQ" => (true, self.filters(rng, &[], &[("Q", &[])])),
            "exQc" => (true, self.filters(rng, &["b"], &[("Q", &["n64"])])),
            "Q" => (false, self.filters(rng, &[], &[("Q", &[])])),
            "PQall" => (false, self.filters(rng, &[], &[("P", &[]), ("Q", &[])])),
            "exP" => (true, self.filters(rng, &[], &[("P", &[])])),
            "exPQ" => (true, self.filters(rng, &[], &[("P", &[]), ("Q", &[])])),
            "all" => (true, vec![]),
            x => panic!("cfg {x}"),
        };
        if except {
            let mut f = ExceptFilterStore::default();
            f.add_account_filters(&filters);
            Arc::new(f)
        } else if self.extra.is_empty() && rng.gen_bool(0.5) {
            let mut f = SimpleFilterStore::default();
            f.add_account_filters(&filters);
            Arc::new(f)
        } else {
            let f = MutableFilterStore::default();
            for x in filters {
                f.add_account_filters(&vec![x]);
            }
            let f = Arc::new(f);
            *self.shared.borrow_mut() = Some(f.clone());
            f
        }
    }

    /// adds the i-th of the extra filters
    fn grow(&self, rng: &mut ChaCha8Rng, i: usize) {
        let filters = match (self.extra.as_str(), i) {
            ("Q64P", 0) => self.filters(rng, &[], &[("Q", &["n64"])]),
            ("Q64P", 1) => self.filters(rng, &["b"], &[]),
            ("Q64P", 2) => self.filters(rng, &[], &[("P", &[])]),
            ("P2Q", 0) => self.filters(rng, &[], &[("P", &["t2"])]),
            ("P2Q", 1) => self.filters(rng, &["b"], &[("Q", &[]), ("P", &["n32"])]),
            ("Q", 0) => self.filters(rng, &[], &[("Q", &[])]),
            ("a", 0) => self.filters(rng, &["a"], &[]),
            x => panic!("extra {x:?}"),
        };
        let store = self.shared.borrow();
        let store = store.as_ref().expect("extensible filters");
        if rng.gen_bool(0.5) {
            store.add_account_filters(&filters);
        } else {
            for x in filters {
                store.add_account_filters(&vec![x]);
            }
        }
    }

    fn wrapped(&self, rng: &mut ChaCha8Rng, cfg: &str) -> Arc<dyn AccountFiltersStoreInterface> {
        let filters = self.filter_store(rng, cfg);
        match &self.wrap {
            Some(wrap) => wrap(filters),
            None => filters,
        }
    }

    pub fn store(&self, rng: &mut ChaCha8Rng, cfg: &str, dispatch: Option<&str>) -> Arc<dyn AccountStorageInterface> {
        let Some(dispatch) = dispatch else {
            let shared = self.shared.borrow().clone().filter(|_| !self.extra.is_empty());
            return match shared {
                // of the store before the restart
                Some(filters) => Arc::new(InmemoryAccountStore::new(filters)),
                None => Arc::new(InmemoryAccountStore::new(self.wrapped(rng, cfg))),
            };
        };
        if dispatch == "ondemand" {
            // every program is subscribed, so only missing accounts are asked from the source
            let filters = Arc::new(MutableFilterStore::default());
            for program in self.progs.values() {
                filters.add_account_filters(&vec![AccountFilter {
                    accounts: vec![],
                    program_id: Some(*program),
                    filters: None,
                }]);
            }
            let inner = Arc::new(InmemoryAccountStore::new(filters.clone()));
            return Arc::new(AccountsOnDemand::new(Arc::new(EmptySource), filters, inner));
        }
        let mut map: HashMap<Pubkey, Arc<dyn AccountStorageInterface>> = HashMap::new();
        // filters of the storages of P, Q and the others
        let (p, q, default) = match dispatch {
            "P" => ("P", None, "exP"),
            "P+Q" => ("P", Some("Q"), "exPQ"),
            "PQ" => ("PQall", None, "exPQ"),
            x => panic!("partition {x}"),
        };
        let of_p = Arc::new(InmemoryAccountStore::new(self.wrapped(rng, p)));
        map.insert(self.progs["P"], of_p.clone());
        if dispatch == "PQ" {
            map.insert(self.progs["Q"], of_p);
        }
        if let Some(q) = q {
            map.insert(
                self.progs["Q"],
                Arc::new(InmemoryAccountStore::new(self.wrapped(rng, q))),
            );
        }
        Arc::new(StorageByProgramId::new(
            map,
            Arc::new(InmemoryAccountStore::new(self.wrapped(rng, default))),
        ))
    }

    fn name(&self, pk: &Pubkey) -> String {
        match self.names.get(pk) {
            Some((a, i)) => format!("{a}/{i}"),
            None => format!("unknown {pk}"),
        }
    }

    pub fn describe(&self, x: &AccountData) -> String {
        let s = self.slots.iter().position(|s| *s == x.updated_slot);
        let w = self.wvs.iter().position(|w| *w == x.write_version);
        format!(
            "{}@slot{:?}({}) wv{:?}({}) lamports {} owner {} data {}",
            self.name(&x.pubkey),
            s,
            x.updated_slot,
            w,
            x.write_version,
            x.account.lamports,
            x.account.owner,
            guard(|| hex(&x.account.data.data())).unwrap_or("undecodable".into())
        )
    }

    /// model id of what was read
    pub fn id(&self, x: &AccountData) -> Option<i64> {
        let s = self.slots.iter().position(|s| *s == x.updated_slot)? as i64;
        let w = self.wvs.iter().position(|w| *w == x.write_version)? as i64;
        Some(s * 100 + w)
    }
}

pub fn same_content(x: &AccountData, y: &AccountData) -> bool {
    x.pubkey == y.pubkey
        && x.updated_slot == y.updated_slot
        && x.write_version == y.write_version
        && x.account.lamports == y.account.lamports
        && x.account.owner == y.account.owner
        && x.account.executable == y.account.executable
        && x.account.rent_epoch == y.account.rent_epoch
        && x.account.data.data() == y.account.data.data()
}

pub const QUERIES: [&[&str]; 6] = [&[], &["n64"], &["t2"], &["n64", "t1"], &["n32", "t2"], &["t1", "u2"]];

struct Replay<'a> {
    w: World,
    rng: &'a mut ChaCha8Rng,
    out: &'a mut Outcome,
    /// previous observation per account and level, to see versions going back
    prev: HashMap<(Pubkey, usize), i64>,
}

impl Replay<'_> {
    fn sent(&self, a: &str, i: usize, id: i64) -> Option<AccountData> {
        (id != NONE).then(|| self.w.sent[&(a.to_string(), i, id)].clone())
    }

    /// one of the expected states was read
    fn expect_same(&mut self, kind: &str, step: usize, what: &str, exps: &[Option<AccountData>], got: Option<&AccountData>) {
        let mut same = false;
        for exp in exps {
            same |= match (exp, got) {
                (None, None) => true,
                (Some(e), Some(g)) => match guard(|| same_content(e, g)) {
                    Ok(b) => b,
                    Err(p) => {
                        self.out.bad("panic", step, format!("{what}: {p}"));
                        return;
                    }
                },
                _ => false,
            };
        }
        let exp = exps[0].as_ref();
        if !same {
            let d = |x: Option<&AccountData>| x.map_or("nothing".to_string(), |x| self.w.describe(x));
            // right version, wrong bytes
            let is_content = match (exp, got) {
                (Some(e), Some(g)) => {
                    e.updated_slot == g.updated_slot && e.write_version == g.write_version
                }
                _ => false,
            };
            let detail = format!("{what}: expected {} got {}", d(exp), d(got));
            let kind = if is_content { format!("{kind}_content") } else { kind.to_string() };
            self.out.bad(&kind, step, detail);
        }
    }

    fn observe(&mut self, store: &Arc<dyn AccountStorageInterface>, obs: &Obs, alt: Option<&Obs>, step: usize) {
        let mut expected: HashMap<(Pubkey, usize), Vec<Option<AccountData>>> = HashMap::new();
        for (a, ids) in &obs.rd {
            for i in 0..self.w.groups[a].len() {
                let pk = self.w.groups[a][i];
                let mut got_ids = vec![];
                for l in 0..3 {
                    let mut exp = vec![self.sent(a, i, ids[l])];
                    if let Some(id) = alt.map(|x| x.rd[a][l]).filter(|x| *x != ids[l]) {
                        exp.push(self.sent(a, i, id));
                        self.out.cmp("differ");
                    }
                    let got = guard(|| store.get_account(pk, level(l)));
                    self.out.cmp("get");
                    match got {
                        Err(p) => self.out.bad("panic", step, format!("get_account: {p}")),
                        Ok(Err(e)) => self.out.bad("get", step, format!("get_account failed: {e}")),
                        Ok(Ok(got)) => {
                            self.expect_same(
                                "get",
                                step,
                                &format!("get_account({a}/{i}, {})", COMMITMENTS[l]),
                                &exp,
                                got.as_ref(),
                            );
                            got_ids.push(got.as_ref().and_then(|x| self.w.id(x)));
                        }
                    }
                    expected.insert((pk, l), exp);
                }
                if alt.is_some() {
                    continue;
                }
                // monitors independent of the expected values
                for l in 1..got_ids.len() {
                    if let (Some(x), Some(y)) = (got_ids[l - 1], got_ids[l]) {
                        self.out.cmp("order");
                        if y > x {
                            self.out.bad(
                                "order",
                                step,
                                format!("{a}/{i}: version {y} at {} newer than {x} at {}", COMMITMENTS[l], COMMITMENTS[l - 1]),
                            );
                        }
                    }
                }
                for (l, id) in got_ids.iter().enumerate() {
                    let exp = ids[l];
                    if let (Some(id), Some(prev)) = (id, self.prev.get(&(pk, l))) {
                        self.out.cmp("back");
                        if id < prev && exp >= *prev {
                            self.out.bad("back", step, format!("{a}/{i} at {} went back from {prev} to {id}", COMMITMENTS[l]));
                        }
                    }
                    if let Some(id) = id {
                        self.prev.insert((pk, l), *id);
                    }
                }
            }
        }
        for (prog, queries) in &obs.g {
            for (qi, levels) in queries.iter().enumerate() {
                let conds = self.w.conditions(self.rng, QUERIES[qi]);
                let n_levels: Vec<usize> = if levels.is_empty() { vec![self.rng.gen_range(0..3)] } else { vec![0, 1, 2] };
                for l in n_levels {
                    let program = self.w.progs[prog];
                    let what = format!("get_program_accounts({prog}, {:?}, {})", QUERIES[qi], COMMITMENTS[l]);
                    let got = guard(|| store.get_program_accounts(program, conds.clone(), level(l)));
                    let got = match got {
                        Err(p) => {
                            self.out.bad("panic", step, format!("{what}: {p}"));
                            continue;
                        }
                        Ok(x) => x,
                    };
                    if levels.is_empty() {
                        self.out.cmp("refused");
                        match got {
                            Err(AccountLoadingError::ConfigDoesnotContainRequiredFilters) => {}
                            Err(e) => self.out.bad("refuse", step, format!("{what}: refused with {e}")),
                            Ok(_) => self.out.bad("refuse", step, format!("{what}: answered although the filters do not cover it")),
                        }
                        continue;
                    }
                    self.out.cmp("gpa");
                    let got = match got {
                        Ok(x) => x,
                        Err(e) => {
                            self.out.bad("refuse", step, format!("{what}: refused with {e}"));
                            continue;
                        }
                    };
                    let members = |names: &[String]| {
                        let mut r: Vec<Pubkey> = names.iter().flat_map(|a| self.w.groups[a].iter().copied()).collect();
                        r.sort();
                        r
                    };
                    let exp = members(&levels[l]);
                    let other = alt.map(|x| members(&x.g[prog][qi][l]));
                    let mut keys: Vec<Pubkey> = got.iter().map(|x| x.pubkey).collect();
                    keys.sort();
                    if exp != keys && other.map_or(true, |x| x != keys) {
                        let n = |v: &[Pubkey]| v.iter().map(|x| self.w.name(x)).collect::<Vec<_>>();
                        let detail = format!("{what} with {conds:?}: expected {:?} got {:?}", n(&exp), n(&keys));
                        self.out.bad("gpa", step, detail);
                        continue;
                    }
                    for x in &got {
                        let mut e = expected.get(&(x.pubkey, l)).cloned().unwrap_or(vec![None]);
                        if alt.is_some() {
                            // the storage of the program may not know the newest state
                            let (a, i) = self.w.names[&x.pubkey].clone();
                            e.extend(self.w.sent.iter().filter(|(k, v)| k.0 == a && k.1 == i && v.account.owner == program).map(|(_, v)| Some(v.clone())));
                        }
                        self.expect_same("gpa", step, &what, &e, Some(x));
                    }
                }
            }
        }
    }

    /// snapshot is loaded into a store accepting everything and compared with the finalized states
    fn check_snapshot(&mut self, bytes: &[u8], program: Pubkey, rd: &BTreeMap<String, Vec<i64>>, step: usize) {
        let fresh: Arc<dyn AccountStorageInterface> =
            Arc::new(InmemoryAccountStore::new(Arc::new(ExceptFilterStore::default())));
        match guard(|| fresh.load_from_snapshot(program, bytes.to_vec())) {
            Err(p) => {
                self.out.bad("panic", step, format!("load_from_snapshot: {p}"));
                return;
            }
            Ok(Err(e)) => {
                self.out.bad("snapshot", step, format!("load_from_snapshot failed: {e}"));
                return;
            }
            Ok(Ok(())) => {}
        }
        for (a, ids) in rd {
            for i in 0..self.w.groups[a].len() {
                let pk = self.w.groups[a][i];
                let exp = self.sent(a, i, ids[2]).filter(|x| x.account.owner == program);
                for c in COMMITMENTS {
                    self.out.cmp("snapshot");
                    match guard(|| fresh.get_account(pk, c)) {
                        Err(p) => self.out.bad("panic", step, p),
                        Ok(Err(e)) => self.out.bad("snapshot", step, format!("{e}")),
                        Ok(Ok(got)) => self.expect_same("snapshot", step, &format!("{a}/{i} from a snapshot at {c}"), &[exp.clone()], got.as_ref()),
                    }
                }
            }
        }
    }
}

pub fn replay(line: &str, rng: &mut ChaCha8Rng, params: &Params, out: &mut Outcome) {
    let mut trace: Trace = serde_json::from_str(line).expect("trace");
    for i in 1..trace.h.len() {
        if let Some(obs) = trace.h[i].pre.take() {
            trace.h[i - 1].obs = Some(obs);
        }
    }
    if let (Some(last), Some(obs)) = (trace.h.last_mut(), trace.obs.take()) {
        last.obs = Some(obs);
    }
    let mut alts = std::mem::take(&mut trace.dh);
    for i in 1..alts.len() {
        alts[i - 1].obs = alts[i].pre.take();
    }
    if let Some(last) = alts.last_mut() {
        last.obs = trace.dobs.take();
    }
    for (step, alt) in trace.h.iter_mut().zip(alts) {
        step.alt = Some(alt);
    }
    let dispatch = params.get("dispatch").map(|x| x.as_str());
    let w = World::new(rng, &trace);
    let mut store = w.store(rng, &trace.cfg, dispatch);
    let mut r = Replay {
        w,
        rng,
        out,
        prev: HashMap::new(),
    };
    let mut snapshot: Option<(Vec<u8>, Pubkey)> = None;
    for (n, step) in trace.h.iter().enumerate() {
        r.out.steps += 1;
        let op = &step.op;
        match op.t.as_str() {
            "u" => {
                let group = r.w.groups.get(&op.a).map_or(0, |x| x.len());
                for i in 0..group {
                    let mut x = r.w.version(r.rng, &op.a, i, op.s, op.w, &op.k);
                    if r.rng.gen_bool(0.2) {
                        // same content, compressed otherwise
                        let method = compression(r.rng, r.w.compress);
                        let y = Account::from_solana_account(x.account.to_solana_account(), method);
                        x.account = Arc::new(y);
                    }
                    let what = format!("update_account({}, {})", r.w.describe(&x), COMMITMENTS[op.c]);
                    if op.c == 2 && r.rng.gen_bool(0.25) {
                        if let Err(p) = guard(|| store.initilize_or_update_account(x)) {
                            r.out.bad("panic", n, format!("initialize: {what}: {p}"));
                            return;
                        }
                        continue;
                    }
                    r.out.cmp("ret");
                    match guard(|| store.update_account(x, level(op.c))) {
                        Err(p) => {
                            r.out.bad("panic", n, format!("{what}: {p}"));
                            return;
                        }
                        Ok(got) => {
                            let other = step.alt.as_ref().map(|x| x.ret);
                            if got != step.ret && (dispatch.is_none() || other.is_some()) && other != Some(got) {
                                r.out.bad("ret", n, format!("{what}: expected {} got {got}", step.ret));
                            }
                        }
                    }
                }
            }
            "n" => {
                let slot = r.w.slots[op.s as usize];
                let parent = r.w.slots[op.p as usize];
                let root = r.rng.gen_range(0..=slot);
                let what = format!("process_slot_data(slot {}, parent {}, {})", op.s, op.p, COMMITMENTS[op.c]);
                let got = match guard(|| store.process_slot_data(SlotInfo { slot, parent, root }, level(op.c))) {
                    Err(p) => {
                        r.out.bad("panic", n, format!("{what}: {p}"));
                        return;
                    }
                    Ok(x) => x,
                };
                r.out.cmp("notif");
                let changes = |ch: &[(String, i64)]| {
                    let mut exp: Vec<AccountData> = vec![];
                    for (a, id) in ch {
                        for i in 0..r.w.groups[a].len() {
                            exp.push(r.w.sent[&(a.clone(), i, *id)].clone());
                        }
                    }
                    exp.sort_by_key(|x| x.pubkey);
                    exp
                };
                let mut exp = changes(&step.ch);
                let other = step.alt.as_ref().map(|x| changes(&x.ch));
                let mut got = got;
                got.sort_by_key(|x| x.pubkey);
                let all = got.clone();
                if dispatch.is_some() {
                    // see Matters in Dispatch.tla
                    let before = n.checked_sub(1).and_then(|i| trace.h[i].obs.as_ref());
                    let matters = |x: &AccountData| {
                        x.account.lamports > 0
                            || r.w.names.get(&x.pubkey).map_or(true, |(a, _)| before.is_some_and(|o| o.rd[a][op.c] != NONE))
                    };
                    exp.retain(matters);
                    got.retain(matters);
                }
                let same = |exp: &[AccountData], got: &[AccountData]| {
                    exp.len() == got.len() && guard(|| exp.iter().zip(got.iter()).all(|(x, y)| same_content(x, y))).unwrap_or(false)
                };
                if !same(&exp, &got) && !other.is_some_and(|x| same(&x, &all)) {
                    let d = |v: &[AccountData]| v.iter().map(|x| r.w.describe(x)).collect::<Vec<_>>();
                    let detail = format!("{what}: expected {:?} got {:?}", d(&exp), d(&got));
                    r.out.bad("notif", n, detail);
                }
            }
            "snap" => {
                let program = r.w.progs[&op.o];
                match guard(|| store.create_snapshot(program)) {
                    Err(p) => {
                        r.out.bad("panic", n, format!("create_snapshot: {p}"));
                        return;
                    }
                    Ok(Err(e)) => {
                        r.out.bad("snapshot", n, format!("create_snapshot failed: {e}"));
                        return;
                    }
                    Ok(Ok(bytes)) => {
                        if let Some(obs) = &step.obs {
                            r.check_snapshot(&bytes, program, &obs.rd, n);
                        }
                        // a part of it is refused, and changes nothing
                        let cut = r.rng.gen_range(0..bytes.len());
                        r.out.cmp("truncated");
                        match guard(|| store.load_from_snapshot(program, bytes[..cut].to_vec())) {
                            Err(p) => {
                                r.out.bad("panic", n, format!("load_from_snapshot of {cut} of {} bytes: {p}", bytes.len()));
                                return;
                            }
                            Ok(Ok(())) => r.out.bad("truncated", n, format!("{cut} of {} bytes of a snapshot were loaded", bytes.len())),
                            Ok(Err(_)) => {}
                        }
                        snapshot = Some((bytes, program));
                    }
                }
            }
            "load" | "restart" => {
                let (bytes, program) = snapshot.clone().expect("snapshot taken");
                if op.t == "restart" {
                    store = r.w.store(r.rng, &trace.cfg, dispatch);
                    r.prev.clear();
                }
                match guard(|| store.load_from_snapshot(program, bytes)) {
                    Err(p) => {
                        r.out.bad("panic", n, format!("load_from_snapshot: {p}"));
                        return;
                    }
                    Ok(Err(e)) => {
                        r.out.bad("snapshot", n, format!("load_from_snapshot failed: {e}"));
                        return;
                    }
                    Ok(Ok(())) => {}
                }
            }
            "f" => {
                r.out.cmp("grown");
                r.w.grow(r.rng, op.i);
            }
            x => panic!("op {x}"),
        }
        if let Some(obs) = &step.obs {
            r.observe(&store, obs, step.alt.as_ref().and_then(|x| x.obs.as_ref()), n);
        }
        if !r.out.ok() {
            return;
        }
    }
}
