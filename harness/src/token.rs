//! Replays behaviours of TokenStore.tla on TokenProgramAccountsStorage.
use crate::codec::{self, Fields};
use crate::store::{compression, encode, level, COMMITMENTS};
use crate::util::*;
use lite_account_manager_common::{
    account_data::{Account, AccountData},
    account_filter::{AccountFilter, AccountFilterType, MemcmpFilter},
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    except_filter_store::ExceptFilterStore,
    slot_info::SlotInfo,
};
use lite_account_storage::{inmemory_account_store::InmemoryAccountStore, storage_by_program_id::StorageByProgramId};
use lite_token_account_storage::{
    inmemory_token_account_storage::InmemoryTokenAccountStorage,
    inmemory_token_storage::TokenProgramAccountsStorage,
};
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde::Deserialize;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

const NONE: i64 = -101;
const FIN: i64 = 100_000;

#[derive(Deserialize, Debug)]
pub struct Op {
    pub t: String,
    #[serde(default)]
    pub a: String,
    #[serde(default)]
    pub s: i64,
    #[serde(default)]
    pub w: i64,
    #[serde(default)]
    pub k: String,
    #[serde(default)]
    pub c: usize,
    #[serde(default)]
    pub p: i64,
    #[serde(default)]
    pub o: String,
}

#[derive(Deserialize, Debug)]
pub struct Obs {
    pub rd: BTreeMap<String, Vec<i64>>,
    pub fs: i64,
    #[serde(default)]
    pub g: BTreeMap<String, Vec<Vec<Vec<String>>>>,
}

#[derive(Deserialize, Debug)]
pub struct Step {
    pub op: Op,
    pub ret: bool,
    pub ch: Vec<(String, i64)>,
    /// observations before the call
    #[serde(default)]
    pub pre: Option<Obs>,
    /// observations after the call
    #[serde(default)]
    pub obs: Option<Obs>,
}

#[derive(Deserialize, Debug)]
pub struct Trace {
    pub h: Vec<Step>,
    #[serde(default)]
    pub obs: Option<Obs>,
}

pub fn new_storage() -> Arc<dyn AccountStorageInterface> {
    Arc::new(TokenProgramAccountsStorage::new(Arc::new(
        InmemoryTokenAccountStorage::default(),
    )))
}

/// everything but the accounts of the token programs
fn other_accounts() -> Arc<dyn AccountStorageInterface> {
    let mut f = ExceptFilterStore::default();
    f.add_account_filters(
        &["T", "X"].map(|p| AccountFilter { accounts: vec![], program_id: Some(token_program(p)), filters: None }).to_vec(),
    );
    Arc::new(InmemoryAccountStore::new(Arc::new(f)))
}

/// the token storage, or both token programs dispatched to it and everything else to another storage
fn storage(dispatch: bool) -> Arc<dyn AccountStorageInterface> {
    let tokens = new_storage();
    if !dispatch {
        return tokens;
    }
    let map = HashMap::from([(token_program("T"), tokens.clone()), (token_program("X"), tokens)]);
    Arc::new(StorageByProgramId::new(map, other_accounts()))
}

pub fn token_program(o: &str) -> Pubkey {
    match o {
        "T" => spl_token::id(),
        "X" => spl_token_2022::id(),
        x => panic!("program {x}"),
    }
}

/// keys which may share their first bytes
pub struct Keys {
    prefix: [u8; 4],
    share: f64,
}

impl Keys {
    pub fn new(rng: &mut ChaCha8Rng) -> Self {
        Keys {
            prefix: *choose(rng, &[[0; 4], [255; 4], [1, 2, 3, 4]]),
            share: *choose(rng, &[0.0, 0.5, 1.0]),
        }
    }
    pub fn make(&self, rng: &mut ChaCha8Rng) -> Pubkey {
        let mut b: [u8; 32] = rng.gen();
        if rng.gen_bool(self.share) {
            b[..4].copy_from_slice(&self.prefix);
        }
        Pubkey::new_from_array(b)
    }
}

#[derive(Clone)]
pub struct Version {
    pub data: AccountData,
    pub raw: Vec<u8>,
    /// lamports of token accounts are not kept
    pub check_lamports: bool,
}

pub struct World {
    pub slots: Vec<u64>,
    pub wvs: Vec<u64>,
    pub groups: BTreeMap<String, Vec<Pubkey>>,
    pub names: HashMap<Pubkey, String>,
    pub owners: [Pubkey; 2],
    pub sent: BTreeMap<(String, usize, i64), Version>,
    pub compress: u32,
    pub half: usize,
    /// accounts which have nothing to do with the others and never change, their owner and mint
    pub noise: Vec<Version>,
    pub noise_owner: Pubkey,
    pub noise_mint: Pubkey,
    /// more of them, which appear at some step
    pub later: Vec<Version>,
    pub later_at: usize,
    pub big: bool,
    /// accounts are written again without a change
    pub repeat: bool,
    contents: HashMap<(String, usize, String), Version>,
}

impl World {
    pub fn new(rng: &mut ChaCha8Rng, trace: &Trace) -> Self {
        let mut max_s = 0;
        let mut max_w = 0;
        let mut accts: BTreeSet<String> = BTreeSet::new();
        for step in &trace.h {
            max_s = max_s.max(step.op.s).max(step.op.p);
            max_w = max_w.max(step.op.w);
            if let Some(obs) = &step.obs {
                accts.extend(obs.rd.keys().cloned());
            }
            if !step.op.a.is_empty() {
                accts.insert(step.op.a.clone());
            }
        }
        accts.insert("m1".to_string());
        accts.insert("m2".to_string());
        let keys = Keys::new(rng);
        let mut groups = BTreeMap::new();
        let mut names = HashMap::new();
        for a in accts {
            let n = if a.starts_with('m') { 1 } else { *choose(rng, &[1, 1, 1, 2, 3]) };
            let ks: Vec<Pubkey> = (0..n).map(|_| keys.make(rng)).collect();
            for k in &ks {
                names.insert(*k, a.clone());
            }
            groups.insert(a, ks);
        }
        let mut owners = [keys.make(rng), keys.make(rng)];
        if rng.gen_range(0..6) == 0 {
            // an owner may be an account itself
            let all: Vec<&Pubkey> = names.keys().collect();
            let mut all: Vec<Pubkey> = all.into_iter().copied().collect();
            all.sort();
            owners[0] = *choose(rng, &all);
        } else if rng.gen_range(0..8) == 0 {
            // burnt: owned by the default key
            owners[1] = Pubkey::default();
        }
        let mut w = World {
            slots: increasing(rng, max_s as usize + 1),
            wvs: write_versions(rng, max_w as usize + 1),
            groups,
            names,
            owners,
            sent: BTreeMap::new(),
            compress: rng.gen_range(0..4),
            half: *choose(rng, &[12usize, 16, 31]),
            noise: vec![],
            noise_owner: keys.make(rng),
            noise_mint: keys.make(rng),
            later: vec![],
            later_at: rng.gen_range(0..trace.h.len().max(1)),
            big: rng.gen_range(0..10) == 0,
            repeat: rng.gen_range(0..4) == 0,
            contents: HashMap::new(),
        };
        if w.slots[0] == w.slots[1 % w.slots.len()] {
            w.slots[0] = 0;
        }
        for _ in 0..*choose(rng, &[0, 0, 1, 3, 12]) {
            let program = *choose(rng, &["T", "X"]);
            let f = Fields::random(rng, w.noise_owner, w.noise_mint);
            let raw = codec::token_account(&f, program == "X" && rng.gen_bool(0.3), rng, false);
            let key = keys.make(rng);
            let v = w.make(rng, key, token_program(program), raw, 1, 0, 0);
            w.noise.push(v);
        }
        // many accounts, owners and mints
        if rng.gen_range(0..25) == 0 {
            let n = *choose(rng, &[70, 270, 300]);
            let first = *choose(rng, &[0, n / 2, n]);
            for i in 0..n {
                let program = *choose(rng, &["T", "X"]);
                let (owner, mint) = (keys.make(rng), keys.make(rng));
                let raw = codec::token_account(&Fields::random(rng, owner, mint), false, rng, false);
                let key = keys.make(rng);
                let v = w.make(rng, key, token_program(program), raw, 1, 0, 0);
                if i < first {
                    w.noise.push(v);
                } else {
                    w.later.push(v);
                }
            }
        }
        w
    }

    #[allow(clippy::too_many_arguments)]
    pub fn make(&self, rng: &mut ChaCha8Rng, pubkey: Pubkey, owner: Pubkey, raw: Vec<u8>, lamports: u64, slot: u64, wv: u64) -> Version {
        Version {
            data: AccountData {
                pubkey,
                account: Arc::new(Account::from_solana_account(
                    solana_sdk::account::Account {
                        lamports,
                        data: raw.clone(),
                        owner,
                        executable: false,
                        rent_epoch: u64::MAX,
                    },
                    compression(rng, self.compress),
                )),
                updated_slot: slot,
                write_version: wv,
            },
            raw,
            check_lamports: false,
        }
    }

    pub fn version(&mut self, rng: &mut ChaCha8Rng, a: &str, i: usize, s: i64, w: i64, k: &str) -> Version {
        let key = (a.to_string(), i, s * 100 + w);
        if let Some(x) = self.sent.get(&key) {
            return x.clone();
        }
        let same = (a.to_string(), i, k.to_string());
        if self.repeat && rng.gen_bool(0.5) {
            if let Some(x) = self.contents.get(&same) {
                let mut v = x.clone();
                v.data.updated_slot = self.slots[s as usize];
                v.data.write_version = self.wvs[w as usize];
                self.sent.insert(key, v.clone());
                return v;
            }
        }
        let mint = |m: &str| self.groups[m][0];
        let mut check_lamports = false;
        let mut lamports = *choose(rng, &[1u64, 2_039_280, 1 << 40, u64::MAX]);
        let mut fields = |rng: &mut ChaCha8Rng, o: usize, m: &str| Fields::random(rng, self.owners[o - 1], mint(m));
        let big = self.big;
        let tok = |rng: &mut ChaCha8Rng, f: Fields, ext: bool| codec::token_account(&f, ext, rng, big);
        let (owner, raw) = match k {
            "t11" | "t12" | "t21" | "t22" | "x11" | "x22" | "e11" | "e12" => {
                let d: Vec<usize> = k[1..].bytes().map(|x| (x - b'0') as usize).collect();
                let f = fields(rng, d[0], if d[1] == 1 { "m1" } else { "m2" });
                let p = if k.starts_with('t') { "T" } else { "X" };
                (token_program(p), tok(rng, f, k.starts_with('e')))
            }
            "mi" | "mx" | "me" => {
                check_lamports = true;
                let p = if k == "mi" { "T" } else { "X" };
                (token_program(p), codec::random_mint(rng, k == "me", big))
            }
            "sg" | "sx" => {
                check_lamports = true;
                let p = if k == "sg" { "T" } else { "X" };
                (token_program(p), codec::random_multisig(rng))
            }
            "dt" => {
                lamports = 0;
                let f = fields(rng, 1, "m1");
                let raw = match rng.gen_range(0..3) {
                    0 => vec![],
                    1 => vec![0; 165],
                    _ => tok(rng, f, false),
                };
                (token_program(*choose(rng, &["T", "X"])), raw)
            }
            "ds" => {
                lamports = 0;
                (Pubkey::default(), vec![0; *choose(rng, &[0usize, 0, 165])])
            }
            "ro" => {
                let f = fields(rng, 1, "m1");
                let raw = tok(rng, f, false);
                (Pubkey::new_from_array([9; 32]), raw)
            }
            "bd" => {
                let p: &str = *choose(rng, &["T", "X"]);
                let f = fields(rng, 1, "m1");
                (token_program(p), codec::malformed(rng, p, &f))
            }
            x => panic!("kind {x}"),
        };
        let mut v = self.make(rng, self.groups[a][i], owner, raw, lamports, self.slots[s as usize], self.wvs[w as usize]);
        v.check_lamports = check_lamports;
        self.contents.insert(same, v.clone());
        self.sent.insert(key, v.clone());
        v
    }

    pub fn conditions(&self, rng: &mut ChaCha8Rng, conds: &[&str]) -> Option<Vec<AccountFilterType>> {
        if conds.is_empty() && rng.gen_bool(0.7) {
            return None;
        }
        let mut r = vec![];
        for c in conds {
            let memcmp = |rng: &mut ChaCha8Rng, offset: u64, bytes: &[u8]| {
                AccountFilterType::Memcmp(MemcmpFilter { offset, data: encode(rng, bytes) })
            };
            for _ in 0..(if rng.gen_range(0..8) == 0 { 2 } else { 1 }) {
                r.push(match *c {
                    "n165" => AccountFilterType::Datasize(165),
                    "n82" => AccountFilterType::Datasize(82),
                    "n355" => AccountFilterType::Datasize(355),
                    "b2" => memcmp(rng, 165, &[2]),
                    "o1" => memcmp(rng, 32, &self.owners[0].to_bytes()),
                    "o2" => memcmp(rng, 32, &self.owners[1].to_bytes()),
                    "m1" => memcmp(rng, 0, &self.groups["m1"][0].to_bytes()),
                    "m2" => memcmp(rng, 0, &self.groups["m2"][0].to_bytes()),
                    "h1" => memcmp(rng, 32, &self.owners[0].to_bytes()[..self.half]),
                    x => panic!("condition {x}"),
                });
            }
        }
        shuffle(rng, &mut r);
        Some(r)
    }

    fn describe(&self, x: &AccountData) -> String {
        let name = self.names.get(&x.pubkey).cloned().unwrap_or_else(|| x.pubkey.to_string());
        let s = self.slots.iter().position(|s| *s == x.updated_slot);
        let data = x.account.data.data();
        let known: Vec<i64> = self
            .sent
            .iter()
            .filter(|(_, v)| v.data.pubkey == x.pubkey && v.raw == data)
            .map(|((_, _, id), _)| *id)
            .collect();
        format!(
            "{name}[content of {known:?}, slot {s:?} ({}), lamports {}, {} bytes {}]",
            x.updated_slot,
            x.account.lamports,
            data.len(),
            hex(&data)
        )
    }
}

pub const QUERIES: [&[&str]; 15] = [
    &["n165", "o1"],
    &["n165", "m1"],
    &["n165", "o1", "m2"],
    &["b2", "o1"],
    &["b2", "m1"],
    &["n82"],
    &["n165", "o2", "m1"],
    &["n165", "m2", "h1"],
    &["n165", "o2"],
    &["b2", "o1", "m2"],
    &[],
    &["n165"],
    &["o1"],
    &["n355"],
    &["n165", "h1"],
];

struct Replay<'a> {
    /// tells what the other storage answers if the accounts are dispatched
    others: Option<Arc<dyn AccountStorageInterface>>,
    w: World,
    rng: &'a mut ChaCha8Rng,
    out: &'a mut Outcome,
}

impl Replay<'_> {
    /// None if the account is the expected one
    fn differs(&self, exp: Option<&Version>, slot: Option<(u64, bool)>, got: Option<&AccountData>) -> Option<(&'static str, String)> {
        let d = |x: Option<&AccountData>| x.map_or("nothing".to_string(), |x| self.w.describe(x));
        let text = || format!("expected {} at slot {slot:?} got {}", d(exp.map(|x| &x.data)), d(got));
        match (exp, got) {
            (None, None) => None,
            (Some(e), Some(g)) => {
                if e.data.pubkey != g.pubkey
                    || e.raw != g.account.data.data()
                    || e.data.account.owner != g.account.owner
                    || g.account.lamports == 0
                    || (e.check_lamports && e.data.account.lamports != g.account.lamports)
                {
                    // another version of the account, or something that never was one
                    let other = self.w.sent.values().any(|x| {
                        x.data.pubkey == g.pubkey && x.raw == g.account.data.data() && x.data.account.owner == g.account.owner
                    });
                    Some((if other && e.raw != g.account.data.data() { "" } else { "_content" }, text()))
                } else if slot.is_some_and(|(s, pending)| s != g.updated_slot || (pending && e.data.write_version != g.write_version)) {
                    let wv = (e.data.write_version, g.write_version);
                    Some(("_slot", format!("{}, write versions {wv:?}", text())))
                } else {
                    None
                }
            }
            _ => Some(("", text())),
        }
    }

    /// version and slot which a read has to return, and whether it is not finalized
    fn expected(&self, a: &str, i: usize, id: i64, fs: i64) -> Option<(Version, (u64, bool))> {
        if id == NONE {
            return None;
        }
        let (id, fin) = if id >= FIN { (id - FIN, true) } else { (id, false) };
        let v = self.w.sent[&(a.to_string(), i, id)].clone();
        let slot = if fin {
            if fs == 0 { 0 } else { self.w.slots[fs as usize] }
        } else {
            v.data.updated_slot
        };
        Some((v, (slot, !fin)))
    }

    fn observe(&mut self, store: &Arc<dyn AccountStorageInterface>, obs: &Obs, step: usize) {
        let mut expected: HashMap<(Pubkey, usize), Option<(Version, (u64, bool))>> = HashMap::new();
        let mut read: HashMap<(Pubkey, usize), u64> = HashMap::new();
        for (a, ids) in &obs.rd {
            for i in 0..self.w.groups[a].len() {
                let pk = self.w.groups[a][i];
                for l in 0..3 {
                    let exp = self.expected(a, i, ids[l], obs.fs);
                    self.out.cmp("get");
                    let what = format!("get_account({a}/{i}, {})", COMMITMENTS[l]);
                    match guard(|| store.get_account(pk, level(l))) {
                        Err(p) => self.out.bad("panic", step, format!("{what}: {p}")),
                        Ok(Err(e)) => self.out.bad("get", step, format!("{what} failed: {e}")),
                        Ok(Ok(got)) => {
                            let other = self.others.as_ref().and_then(|x| x.get_account(pk, COMMITMENTS[l]).unwrap());
                            if other.is_some() {
                                self.out.cmp("other");
                            } else if let Some(x) = &got {
                                read.insert((pk, l), x.write_version);
                            }
                            if other.is_some() && (exp.is_none() || got == other) {
                                if got != other {
                                    self.out.bad("get", step, format!("{what}: the state of another program {other:?} is not read, but {got:?}"));
                                }
                            } else if let Some((k, t)) = self.differs(exp.as_ref().map(|x| &x.0), exp.as_ref().map(|x| x.1), got.as_ref()) {
                                self.out.bad(&format!("get{k}"), step, format!("{what}: {t}"));
                            }
                        }
                    }
                    expected.insert((pk, l), exp);
                }
            }
        }
        for (prog, queries) in &obs.g {
            let program = token_program(prog);
            for (qi, levels) in queries.iter().enumerate() {
                let conds = self.w.conditions(self.rng, QUERIES[qi]);
                let n_levels: Vec<usize> = if levels.is_empty() { vec![self.rng.gen_range(0..3)] } else { vec![0, 1, 2] };
                for l in n_levels {
                    let what = format!("get_program_accounts({prog}, {:?}, {})", QUERIES[qi], COMMITMENTS[l]);
                    let got = match guard(|| store.get_program_accounts(program, conds.clone(), level(l))) {
                        Err(p) => {
                            self.out.bad("panic", step, format!("{what}: {p}"));
                            continue;
                        }
                        Ok(x) => x,
                    };
                    if levels.is_empty() {
                        self.out.cmp("refused");
                        match got {
                            Err(AccountLoadingError::ShouldContainAnAccountFilter) => {}
                            Err(e) => self.out.bad("refuse", step, format!("{what}: refused with {e}")),
                            Ok(_) => self.out.bad("refuse", step, format!("{what}: answered")),
                        }
                        continue;
                    }
                    self.out.cmp("gpa");
                    let got = match got {
                        Ok(x) => x,
                        Err(e) => {
                            self.out.bad("gpa", step, format!("{what}: refused with {e}"));
                            continue;
                        }
                    };
                    // all the mints are asked for: others than the named ones are not
                    let mut exp: Vec<Pubkey> = vec![];
                    for a in &levels[l] {
                        exp.extend(self.w.groups[a].iter());
                    }
                    exp.sort();
                    let mut keys: Vec<Pubkey> = got.iter().map(|x| x.pubkey).collect();
                    keys.sort();
                    if exp != keys {
                        let n = |v: &[Pubkey]| {
                            v.iter().map(|x| self.w.names.get(x).cloned().unwrap_or_else(|| x.to_string())).collect::<Vec<_>>()
                        };
                        let detail = format!("{what} with {conds:?}: expected {:?} got {:?}", n(&exp), n(&keys));
                        self.out.bad("gpa", step, detail);
                        continue;
                    }
                    for x in &got {
                        let e = expected.get(&(x.pubkey, l)).cloned().flatten();
                        if let Some((k, t)) = self.differs(e.as_ref().map(|x| &x.0), e.as_ref().map(|x| x.1), Some(x)) {
                            self.out.bad(&format!("gpa{k}"), step, format!("{what}: {t}"));
                        } else if read.get(&(x.pubkey, l)).is_some_and(|w| *w != x.write_version) {
                            let t = format!("{what}: write version {} is not the one which is read, {:?}", x.write_version, read.get(&(x.pubkey, l)));
                            self.out.bad("gpa_slot", step, t);
                        }
                    }
                }
            }
        }
    }

    /// accounts which never change
    fn check_noise(&mut self, store: &Arc<dyn AccountStorageInterface>, step: usize) {
        let noise = self.w.noise.clone();
        for v in &noise {
            for c in COMMITMENTS {
                self.out.cmp("noise");
                match guard(|| store.get_account(v.data.pubkey, c)) {
                    Err(p) => self.out.bad("panic", step, p),
                    Ok(Err(e)) => self.out.bad("noise", step, format!("{e}")),
                    Ok(Ok(got)) => {
                        if let Some((_, t)) = self.differs(Some(v), None, got.as_ref()) {
                            self.out.bad("noise", step, format!("account which was not changed, at {c}: {t}"));
                        }
                    }
                }
            }
        }
        for prog in ["T", "X"] {
            for by_mint in [false, true] {
                let program = token_program(prog);
                let mut exp: Vec<Pubkey> = noise
                    .iter()
                    .filter(|v| v.data.account.owner == program && v.raw.len() == 165 && v.raw[32..64] == self.w.noise_owner.to_bytes())
                    .map(|v| v.data.pubkey)
                    .collect();
                exp.sort();
                let (offset, key) = if by_mint { (0, self.w.noise_mint) } else { (32, self.w.noise_owner) };
                let q = vec![
                    AccountFilterType::Datasize(165),
                    AccountFilterType::Memcmp(MemcmpFilter { offset, data: encode(self.rng, &key.to_bytes()) }),
                ];
                let c = *choose(self.rng, &COMMITMENTS);
                match guard(|| store.get_program_accounts(program, Some(q), c)) {
                    Err(p) => self.out.bad("panic", step, p),
                    Ok(Err(e)) => self.out.bad("noise", step, format!("{e}")),
                    Ok(Ok(got)) => {
                        let mut got: Vec<Pubkey> = got.iter().map(|x| x.pubkey).collect();
                        got.sort();
                        if got != exp {
                            self.out.bad("noise", step, format!("accounts which were not changed, by mint {by_mint}: expected {exp:?} got {got:?}"));
                        }
                    }
                }
            }
        }
    }

    fn check_snapshot(&mut self, bytes: &[u8], program: Pubkey, obs: &Obs, step: usize) {
        let fresh = new_storage();
        match guard(|| fresh.load_from_snapshot(program, bytes.to_vec())) {
            Err(p) => {
                self.out.bad("panic", step, format!("load_from_snapshot: {p}"));
                return;
            }
            Ok(Err(e)) => {
                self.out.bad("snapshot", step, format!("load_from_snapshot failed: {e}"));
                return;
            }
            Ok(Ok(())) => {}
        }
        let mut all: Vec<(Pubkey, Option<Version>)> = self
            .w
            .noise
            .iter()
            .map(|v| (v.data.pubkey, Some(v.clone()).filter(|x| x.data.account.owner == program)))
            .collect();
        for (a, ids) in &obs.rd {
            for i in 0..self.w.groups[a].len() {
                let exp = self.expected(a, i, ids[2], obs.fs).map(|x| x.0).filter(|x| x.data.account.owner == program);
                all.push((self.w.groups[a][i], exp));
            }
        }
        for (pk, exp) in &all {
            for c in COMMITMENTS {
                self.out.cmp("snapshot");
                match guard(|| fresh.get_account(*pk, c)) {
                    Err(p) => self.out.bad("panic", step, p),
                    Ok(Err(e)) => self.out.bad("snapshot", step, format!("{e}")),
                    Ok(Ok(got)) => {
                        if let Some((k, t)) = self.differs(exp.as_ref(), None, got.as_ref()) {
                            self.out.bad(&format!("snapshot{k}"), step, format!("from a snapshot at {c}: {t}"));
                        }
                    }
                }
            }
        }
    }
}

pub fn replay(line: &str, rng: &mut ChaCha8Rng, params: &Params, out: &mut Outcome) {
    let mut trace: Trace = serde_json::from_str(line).expect("trace");
    for i in 1..trace.h.len() {
        if let Some(obs) = trace.h[i].pre.take() {
            trace.h[i - 1].obs = Some(obs);
        }
    }
    if let (Some(last), Some(obs)) = (trace.h.last_mut(), trace.obs.take()) {
        last.obs = Some(obs);
    }
    let w = World::new(rng, &trace);
    let dispatch = params.contains_key("dispatch");
    let mut store = storage(dispatch);
    let mut r = Replay { others: dispatch.then(other_accounts), w, rng, out };
    let add = |r: &mut Replay, store: &Arc<dyn AccountStorageInterface>, v: &Version| {
        if r.rng.gen_bool(0.5) {
            store.initilize_or_update_account(v.data.clone());
        } else {
            store.update_account(v.data.clone(), level(2));
        }
    };
    for v in r.w.noise.clone() {
        add(&mut r, &store, &v);
    }
    let mut snapshot: Option<(Vec<u8>, Pubkey, Vec<Version>)> = None;
    for (n, step) in trace.h.iter().enumerate() {
        r.out.steps += 1;
        if n == r.w.later_at {
            for v in std::mem::take(&mut r.w.later) {
                add(&mut r, &store, &v);
                r.w.noise.push(v);
            }
        }
        let op = &step.op;
        match op.t.as_str() {
            "u" => {
                for i in 0..r.w.groups[&op.a].len() {
                    let v = r.w.version(r.rng, &op.a, i, op.s, op.w, &op.k);
                    let mut x = v.data.clone();
                    if r.rng.gen_bool(0.2) {
                        let method = compression(r.rng, r.w.compress);
                        x.account = Arc::new(Account::from_solana_account(x.account.to_solana_account(), method));
                    }
                    let what = format!("update_account({} of kind {}, {})", r.w.describe(&x), op.k, COMMITMENTS[op.c]);
                    let other = r.others.as_ref().is_some_and(|o| o.update_account(x.clone(), COMMITMENTS[op.c]));
                    if op.c == 2 && r.rng.gen_bool(0.5) {
                        if let Err(p) = guard(|| store.initilize_or_update_account(x)) {
                            r.out.bad("panic", n, format!("initialize: {what}: {p}"));
                            return;
                        }
                        continue;
                    }
                    r.out.cmp("ret");
                    match guard(|| store.update_account(x, level(op.c))) {
                        Err(p) => {
                            r.out.bad("panic", n, format!("{what}: {p}"));
                            return;
                        }
                        Ok(got) => {
                            if got != (step.ret || other) {
                                r.out.bad("ret", n, format!("{what}: expected {} got {got}", step.ret));
                            }
                        }
                    }
                }
            }
            "n" => {
                let slot = r.w.slots[op.s as usize];
                let parent = r.w.slots[op.p as usize];
                let root = r.rng.gen_range(0..=slot);
                let what = format!("process_slot_data(slot {}, parent {}, {})", op.s, op.p, COMMITMENTS[op.c]);
                let mut got = match guard(|| store.process_slot_data(SlotInfo { slot, parent, root }, level(op.c))) {
                    Err(p) => {
                        r.out.bad("panic", n, format!("{what}: {p}"));
                        return;
                    }
                    Ok(x) => x,
                };
                r.out.cmp("notif");
                let mut exp: Vec<Version> = vec![];
                for (a, id) in &step.ch {
                    for i in 0..r.w.groups[a].len() {
                        exp.push(r.w.sent[&(a.clone(), i, *id)].clone());
                    }
                }
                exp.sort_by_key(|x| x.data.pubkey);
                got.sort_by_key(|x| x.pubkey);
                if let Some(o) = &r.others {
                    // those of the other programs, unless the account is reported already
                    for x in o.process_slot_data(SlotInfo { slot, parent, root }, COMMITMENTS[op.c]) {
                        r.out.cmp("other");
                        let token = exp.iter().any(|e| e.data.pubkey == x.pubkey);
                        match got.iter().position(|g| *g == x) {
                            Some(i) if token => drop(exp.retain(|e| e.data.pubkey != got[i].pubkey)),
                            None if token => continue,
                            None => r.out.bad("notif", n, format!("{what}: {x:?} of another program is missing")),
                            _ => {}
                        }
                        got.retain(|g| *g != x);
                    }
                }
                let d = |v: &[AccountData]| v.iter().map(|x| r.w.describe(x)).collect::<Vec<_>>();
                let e: Vec<AccountData> = exp.iter().map(|x| x.data.clone()).collect();
                if exp.len() != got.len() {
                    let detail = format!("{what}: expected {:?} got {:?}", d(&e), d(&got));
                    r.out.bad("notif", n, detail);
                } else {
                    for (e, g) in exp.iter().zip(got.iter()) {
                        if let Some((k, t)) = r.differs(Some(e), Some((e.data.updated_slot, true)), Some(g)) {
                            r.out.bad(&format!("notif{k}"), n, format!("{what}: {t}"));
                        } else if e.data.write_version != g.write_version {
                            r.out.bad("notif_slot", n, format!("{what}: write version {} instead of {}", g.write_version, e.data.write_version));
                        }
                    }
                }
            }
            "snap" => {
                let program = token_program(&op.o);
                match guard(|| store.create_snapshot(program)) {
                    Err(p) => {
                        r.out.bad("panic", n, format!("create_snapshot: {p}"));
                        return;
                    }
                    Ok(Err(e)) => {
                        r.out.bad("snapshot", n, format!("create_snapshot failed: {e}"));
                        return;
                    }
                    Ok(Ok(bytes)) => {
                        if let Some(obs) = &step.obs {
                            r.check_snapshot(&bytes, program, obs, n);
                        }
                        let cut = r.rng.gen_range(0..bytes.len());
                        r.out.cmp("truncated");
                        let part = bytes[..cut].to_vec();
                        match guard(|| store.load_from_snapshot(program, part)) {
                            Err(p) => {
                                r.out.bad("panic", n, format!("load_from_snapshot of {cut} of {} bytes: {p}", bytes.len()));
                                return;
                            }
                            Ok(Ok(())) => r.out.bad("truncated", n, format!("{cut} of {} bytes of a snapshot were loaded", bytes.len())),
                            Ok(Err(_)) => {}
                        }
                        snapshot = Some((bytes, program, r.w.noise.clone()));
                    }
                }
                let other = pubkey(r.rng);
                r.out.cmp("wrong");
                if !dispatch && !matches!(guard(|| store.create_snapshot(other)), Ok(Err(AccountLoadingError::WrongIndex))) {
                    r.out.bad("wrong", n, "snapshot of another program was not refused".to_string());
                }
                let q = r.w.conditions(r.rng, QUERIES[0]);
                if !dispatch && !matches!(guard(|| store.get_program_accounts(other, q, level(0))), Ok(Err(AccountLoadingError::WrongIndex))) {
                    r.out.bad("wrong", n, "query of another program was not refused".to_string());
                }
            }
            "load" | "restart" => {
                let (bytes, program, noise) = snapshot.clone().expect("snapshot taken");
                if op.t == "restart" {
                    store = storage(dispatch);
                    r.others = dispatch.then(other_accounts);
                    r.w.noise = noise.into_iter().filter(|v| v.data.account.owner == program).collect();
                }
                match guard(|| store.load_from_snapshot(program, bytes)) {
                    Err(p) => {
                        r.out.bad("panic", n, format!("load_from_snapshot: {p}"));
                        return;
                    }
                    Ok(Err(e)) => {
                        r.out.bad("snapshot", n, format!("load_from_snapshot failed: {e}"));
                        return;
                    }
                    Ok(Ok(())) => {}
                }
            }
            x => panic!("op {x}"),
        }
        if let Some(obs) = &step.obs {
            r.observe(&store, obs, n);
        }
        if !r.out.ok() {
            return;
        }
    }
    r.check_noise(&store, trace.h.len());
}
