//! Filter stores and conditions against Filters.tla, JSON parsing against FilterJson.tla.
use crate::store::{compression, encode};
use crate::util::*;
use lite_account_manager_common::{
    account_data::{Account, AccountData},
    account_filter::{AccountFilter, AccountFilterType, MemcmpFilter, MemcmpFilterData},
    account_filters_interface::AccountFiltersStoreInterface,
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    except_filter_store::ExceptFilterStore,
    mutable_filter_store::MutableFilterStore,
    simple_filter_store::SimpleFilterStore,
};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde::Deserialize;
use serde_json::{json, Value};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Deserialize, Debug, Clone)]
struct Cond {
    t: String,
    o: u64,
    b: Vec<u8>,
}

#[derive(Deserialize, Debug, Clone)]
struct Filter {
    acc: Vec<String>,
    o: String,
    c: Vec<Cond>,
}

#[derive(Deserialize, Debug)]
struct Probe {
    t: String,
    #[serde(default)]
    k: String,
    #[serde(default)]
    o: String,
    #[serde(default)]
    d: Vec<u8>,
    #[serde(default)]
    q: Option<Filter>,
    #[serde(default)]
    c: Option<Cond>,
    r: Vec<bool>,
    #[serde(default)]
    x: Vec<bool>,
}

#[derive(Deserialize, Debug)]
struct Step {
    add: Filter,
    p: Vec<Probe>,
}

#[derive(Deserialize, Debug)]
struct Trace {
    h: Vec<Step>,
}

struct World {
    block: usize,
    cells: [Vec<u8>; 2],
    far: u64,
    bad: Vec<MemcmpFilter>,
    keys: BTreeMap<String, Pubkey>,
    progs: BTreeMap<String, Pubkey>,
}

impl World {
    fn new(rng: &mut ChaCha8Rng) -> Self {
        let block = *choose(rng, &[1usize, 1, 2, 5, 32]);
        let c0: Vec<u8> = (0..block).map(|_| rng.gen()).collect();
        let mut c1 = c0.clone();
        let i = rng.gen_range(0..block);
        c1[i] = c1[i].wrapping_add(rng.gen_range(1..=255));
        let bads = [
            MemcmpFilterData::Base58("0OIl".to_string()),
            MemcmpFilterData::Base58("3Mc6v\u{e9}".to_string()),
            MemcmpFilterData::Base64("a".to_string()),
            MemcmpFilterData::Base64("!!!!".to_string()),
        ];
        let mut keys: BTreeMap<String, Pubkey> = ["k1", "k2", "k3"]
            .iter()
            .map(|k| (k.to_string(), pubkey(rng)))
            .collect();
        let mut progs: BTreeMap<String, Pubkey> = ["P", "Q"]
            .iter()
            .map(|k| (k.to_string(), pubkey(rng)))
            .collect();
        // keys which are something else too
        if rng.gen_range(0..4) == 0 {
            progs.insert((*choose(rng, &["P", "Q"])).into(), *choose(rng, &[Pubkey::default(), Pubkey::new_from_array([255; 32])]));
        }
        if rng.gen_range(0..4) == 0 {
            let x = progs[*choose(rng, &["P", "Q"])];
            keys.insert((*choose(rng, &["k1", "k2", "k3"])).into(), *choose(rng, &[Pubkey::default(), x]));
        }
        World {
            block,
            cells: [c0, c1],
            far: *choose(rng, &[u64::MAX, u64::MAX - 7, 1 << 40, 100_000]),
            bad: bads
                .into_iter()
                .map(|data| MemcmpFilter {
                    offset: rng.gen_range(0..4) * block as u64,
                    data,
                })
                .collect(),
            keys,
            progs,
        }
    }

    fn bytes(&self, cells: &[u8]) -> Vec<u8> {
        cells
            .iter()
            .flat_map(|c| self.cells[*c as usize].clone())
            .collect()
    }

    fn cond(&self, rng: &mut ChaCha8Rng, c: &Cond) -> AccountFilterType {
        match c.t.as_str() {
            "size" => AccountFilterType::Datasize(c.o * self.block as u64),
            "mem" => AccountFilterType::Memcmp(MemcmpFilter {
                offset: c.o * self.block as u64,
                data: encode(rng, &self.bytes(&c.b)),
            }),
            "far" => AccountFilterType::Memcmp(MemcmpFilter {
                offset: self.far,
                data: encode(rng, &self.bytes(&c.b)),
            }),
            "bad" => AccountFilterType::Memcmp(self.bad[c.o as usize].clone()),
            x => panic!("cond {x}"),
        }
    }

    fn filter(&self, rng: &mut ChaCha8Rng, f: &Filter) -> AccountFilter {
        let mut accounts: Vec<Pubkey> = f.acc.iter().map(|a| self.keys[a]).collect();
        if !accounts.is_empty() && rng.gen_range(0..4) == 0 {
            accounts.push(accounts[0]);
        }
        shuffle(rng, &mut accounts);
        let mut conds = vec![];
        for c in &f.c {
            for _ in 0..(if rng.gen_range(0..6) == 0 { 2 } else { 1 }) {
                conds.push(self.cond(rng, c));
            }
        }
        shuffle(rng, &mut conds);
        let filters = if conds.is_empty() && (f.o == "-" || rng.gen_bool(0.6)) {
            None
        } else {
            Some(conds)
        };
        AccountFilter {
            accounts,
            program_id: self.progs.get(&f.o).copied(),
            filters,
        }
    }

    fn account(&self, rng: &mut ChaCha8Rng, key: Pubkey, owner: &str, d: &[u8], open: bool) -> AccountData {
        AccountData {
            pubkey: key,
            account: Arc::new(Account::from_solana_account(
                solana_sdk::account::Account {
                    lamports: if open { rng.gen_range(1..1000) } else { *choose(rng, &[0, 0, 1, 890_880, u64::MAX]) },
                    data: self.bytes(d),
                    owner: self.progs[owner],
                    executable: rng.gen(),
                    rent_epoch: *choose(rng, &[0, 1, u64::MAX]),
                },
                compression(rng, 3),
            )),
            updated_slot: if open { rng.gen_range(1..1000) } else { *choose(rng, &[0, 1, u64::MAX]) },
            write_version: *choose(rng, &[0, 1, 77, u64::MAX]),
        }
    }
}

fn matches(c: &Cond, d: &[u8]) -> bool {
    match c.t.as_str() {
        "size" => d.len() as u64 == c.o,
        "mem" => {
            let o = c.o as usize;
            o + c.b.len() <= d.len() && d[o..o + c.b.len()] == c.b[..]
        }
        _ => false,
    }
}

fn same(exp: &[bool], got: Result<bool, String>) -> Result<(), String> {
    match got {
        Err(p) => Err(format!("panic {p}")),
        Ok(g) if exp.contains(&g) => Ok(()),
        Ok(g) => Err(format!("expected {exp:?} got {g}")),
    }
}

pub fn replay(line: &str, rng: &mut ChaCha8Rng, _params: &Params, out: &mut Outcome) {
    if line.starts_with("{\"json\"") || line.contains("\"json\":") {
        return replay_json(line, rng, out);
    }
    let trace: Trace = serde_json::from_str(line).expect("trace");
    let w = World::new(rng);
    let mut simple = SimpleFilterStore::default();
    let mut except = ExceptFilterStore::default();
    let mutable = Arc::new(MutableFilterStore::default());
    // the whole store on top of the filters
    let store = InmemoryAccountStore::new(mutable.clone());
    let mut admitted: Vec<(AccountData, String, Vec<u8>)> = vec![];
    let mut listed: Vec<String> = vec![];

    macro_rules! check {
        ($kind:expr, $n:expr, $exp:expr, $what:expr, $call:expr) => {
            out.cmp($kind);
            if let Err(e) = same(&$exp, guard(|| $call)) {
                let kind = if e.starts_with("panic") { "panic" } else { $kind };
                out.bad(kind, $n, format!("{}: {e}", $what));
            }
        };
    }

    for (n, step) in trace.h.iter().enumerate() {
        out.steps += 1;
        let mut f = w.filter(rng, &step.add);
        if rng.gen_bool(0.4) {
            let text = match rng.gen_range(0..3) {
                0 => serde_json::to_string(&f).unwrap(),
                1 => serde_json::to_string_pretty(&f).unwrap(),
                _ => serde_json::to_value(&f).unwrap().to_string(),
            };
            out.cmp("json");
            match guard(|| serde_json::from_str::<AccountFilter>(&text)) {
                Ok(Ok(g)) => {
                    if g != f {
                        out.bad("json", n, format!("{f:?} became {g:?} through {text}"));
                    }
                    f = g;
                }
                Ok(Err(e)) => out.bad("json", n, format!("{text} not parsed: {e}")),
                Err(p) => out.bad("panic", n, format!("{text}: {p}")),
            }
        }
        listed.extend(step.add.acc.iter().cloned());
        if let Err(p) = guard(|| {
            simple.add_account_filters(&vec![f.clone()]);
            except.add_account_filters(&vec![f.clone()]);
            mutable.add_account_filters(&vec![f.clone()]);
        }) {
            out.bad("panic", n, format!("adding {f:?}: {p}"));
            return;
        }
        for p in &step.p {
            match p.t.as_str() {
                "sat" => {
                    let a = w.account(rng, w.keys[&p.k], &p.o, &p.d, false);
                    let what = format!("satisfies {} of {} data {:?}", p.k, p.o, p.d);
                    check!("sat", n, p.r, format!("simple {what}"), simple.satisfies(&a));
                    check!("sat", n, p.r, format!("mutable {what}"), mutable.satisfies(&a));
                    check!("exsat", n, p.x, format!("except {what}"), except.satisfies(&a));
                    if !listed.contains(&p.k) {
                        let key = pubkey(rng);
                        let a = w.account(rng, key, &p.o, &p.d, true);
                        let c = *choose(rng, &crate::store::COMMITMENTS);
                        check!("store", n, p.r, format!("update_account, {what}"), store.update_account(a.clone(), c));
                        if p.r == [true] {
                            admitted.push((a, p.o.clone(), p.d.clone()));
                        }
                    }
                }
                "con" => {
                    let q = p.q.as_ref().unwrap();
                    let query = w.filter(rng, q);
                    let what = format!("contains_filter {query:?} with {:?} added", trace.h[..=n].iter().map(|x| &x.add).collect::<Vec<_>>());
                    check!("con", n, p.r, format!("simple {what}"), simple.contains_filter(&query));
                    check!("con", n, p.r, format!("mutable {what}"), mutable.contains_filter(&query));
                    check!("excon", n, p.x, format!("except {what}"), except.contains_filter(&query));
                    if q.acc.is_empty() && q.o != "-" {
                        out.cmp("store");
                        let got = guard(|| {
                            store.get_program_accounts(
                                query.program_id.unwrap(),
                                query.filters.clone(),
                                lite_account_manager_common::commitment::Commitment::Processed,
                            )
                        });
                        match got {
                            Err(p) => out.bad("panic", n, format!("get_program_accounts {what}: {p}")),
                            Ok(Err(AccountLoadingError::ConfigDoesnotContainRequiredFilters)) => {
                                if p.r == [true] {
                                    out.bad("store", n, format!("get_program_accounts refused, {what}"));
                                }
                            }
                            Ok(Err(e)) => out.bad("store", n, format!("get_program_accounts: {e}, {what}")),
                            Ok(Ok(list)) => {
                                if p.r == [false] {
                                    out.bad("store", n, format!("get_program_accounts not refused, {what}"));
                                }
                                let mut exp: Vec<Pubkey> = admitted
                                    .iter()
                                    .filter(|(_, o, d)| *o == q.o && q.c.iter().all(|c| matches(c, d)))
                                    .map(|x| x.0.pubkey)
                                    .collect();
                                let mut keys: Vec<Pubkey> = list.iter().map(|x| x.pubkey).collect();
                                exp.sort();
                                keys.sort();
                                if exp != keys {
                                    out.bad("store", n, format!("get_program_accounts lists {} accounts instead of {}, {what}", keys.len(), exp.len()));
                                }
                            }
                        }
                    }
                }
                "cond" => {
                    let c = p.c.as_ref().unwrap();
                    let cond = w.cond(rng, c);
                    let a = w.account(rng, w.keys["k1"], "P", &p.d, false);
                    let what = format!("{cond:?} on {:?}", w.bytes(&p.d));
                    check!("cond", n, p.r, format!("allows {what}"), cond.allows(&a.account.data.data()));
                    // the same through the types of the RPC interface
                    let one = AccountFilter { accounts: vec![], program_id: None, filters: Some(vec![cond.clone()]) };
                    let rpc = match guard(|| one.get_rpc_filter()) {
                        Ok(Some(r)) if r.len() == 1 => r,
                        _ => {
                            out.bad("cond", n, format!("no rpc filter for {what}"));
                            continue;
                        }
                    };
                    check!("cond", n, p.r, format!("rpc filter of {what}"), a.allows(&rpc[0]));
                    check!("cond", n, p.r, format!("converted rpc filter of {what}"), AccountFilterType::from(&rpc[0]).allows(&a.account.data.data()));
                    // length does not depend on the compression
                    check!("cond", n, [true], format!("data length of {:?}", p.d), a.account.data.len() == p.d.len() * w.block
                        && a.account.data.is_empty() == p.d.is_empty()
                        && a.account.data.data() == w.bytes(&p.d));
                    check!("cond", n, [true], format!("json of {what}"), {
                        let v = serde_json::to_string(&cond).unwrap();
                        serde_json::from_str::<AccountFilterType>(&v).unwrap() == cond
                    });
                }
                x => panic!("probe {x}"),
            }
        }
        if !out.ok() {
            return;
        }
    }
}

#[derive(Deserialize, Debug)]
struct Doc {
    top: String,
    acc: String,
    prog: String,
    fil: String,
}

#[derive(Deserialize, Debug)]
struct JsonTrace {
    json: Doc,
    ok: bool,
}

fn bad_key(rng: &mut ChaCha8Rng) -> String {
    let ok = pubkey(rng).to_string();
    match rng.gen_range(0..6) {
        0 => String::new(),
        1 => ok[..ok.len() - 3].to_string(),
        2 => format!("{ok}{ok}"),
        3 => format!("0{}", &ok[1..]),
        4 => "not a key".to_string(),
        _ => format!(" {ok}"),
    }
}

fn replay_json(line: &str, rng: &mut ChaCha8Rng, out: &mut Outcome) {
    let t: JsonTrace = serde_json::from_str(line).expect("trace");
    out.steps += 1;
    let key = |rng: &mut ChaCha8Rng| match rng.gen_range(0..8) {
        0 => Pubkey::default(),
        1 => Pubkey::new_from_array([255; 32]),
        _ => pubkey(rng),
    };
    let keys: Vec<Pubkey> = (0..3).map(|_| key(rng)).collect();
    let prog = key(rng);
    let mut accounts: Vec<Pubkey> = vec![];
    let mut program_id = None;
    let mut filters: Option<Vec<AccountFilterType>> = None;
    let mut doc = serde_json::Map::new();
    let s = |k: &Pubkey| Value::String(k.to_string());
    match t.json.acc.as_str() {
        "absent" => {}
        "null" => {
            doc.insert("accounts".into(), Value::Null);
        }
        "ok0" => {
            doc.insert("accounts".into(), json!([]));
        }
        "ok1" => {
            accounts = vec![keys[0]];
            doc.insert("accounts".into(), json!([s(&keys[0])]));
        }
        "ok3" => {
            accounts = keys.clone();
            doc.insert("accounts".into(), Value::Array(keys.iter().map(s).collect()));
        }
        "badkey" => {
            let mut v: Vec<Value> = keys.iter().map(s).collect();
            let i = rng.gen_range(0..3);
            v[i] = Value::String(bad_key(rng));
            doc.insert("accounts".into(), Value::Array(v));
        }
        "nonstring" => {
            doc.insert("accounts".into(), json!([s(&keys[0]), rng.gen::<u32>()]));
        }
        "nested" => {
            doc.insert("accounts".into(), json!([[s(&keys[0])]]));
        }
        "notarray" => {
            let v = match rng.gen_range(0..3) {
                0 => s(&keys[0]),
                1 => json!(5),
                _ => json!({ keys[0].to_string(): 1 }),
            };
            doc.insert("accounts".into(), v);
        }
        x => panic!("{x}"),
    }
    match t.json.prog.as_str() {
        "absent" => {}
        "ok" => {
            program_id = Some(prog);
            doc.insert("programId".into(), s(&prog));
        }
        "bad" => {
            doc.insert("programId".into(), Value::String(bad_key(rng)));
        }
        "nonstring" => {
            doc.insert("programId".into(), json!(12));
        }
        "null" => {
            doc.insert("programId".into(), Value::Null);
        }
        "array" => {
            doc.insert("programId".into(), json!([s(&prog)]));
        }
        x => panic!("{x}"),
    }
    let bytes: Vec<u8> = (0..rng.gen_range(0..5)).map(|_| rng.gen()).collect();
    let offset = *choose(rng, &[0u64, 1, 165, u64::MAX]);
    let size = *choose(rng, &[0u64, 165, u64::MAX]);
    // what the configuration files contain
    let (mem_json, mem) = match rng.gen_range(0..3) {
        0 => (json!({"bytes": bytes}), MemcmpFilterData::Bytes(bytes.clone())),
        1 => {
            let t = bs58::encode(&bytes).into_string();
            (json!({ "base58": t }), MemcmpFilterData::Base58(t))
        }
        _ => {
            use base64::Engine;
            let t = base64::engine::general_purpose::STANDARD.encode(&bytes);
            (json!({ "base64": t }), MemcmpFilterData::Base64(t))
        }
    };
    let mem = AccountFilterType::Memcmp(MemcmpFilter { offset, data: mem });
    let mem_json = json!({"memcmp": {"offset": offset, "data": mem_json}});
    let size_json = json!({ "datasize": size });
    let size = AccountFilterType::Datasize(size);
    let fil = match t.json.fil.as_str() {
        "absent" => None,
        "null" => Some(Value::Null),
        "empty" => {
            filters = Some(vec![]);
            Some(json!([]))
        }
        "size" => {
            filters = Some(vec![size]);
            Some(json!([size_json]))
        }
        "mem" => {
            filters = Some(vec![mem]);
            Some(json!([mem_json]))
        }
        "mixed" => {
            filters = Some(vec![mem.clone(), size, mem]);
            Some(json!([mem_json, size_json, mem_json]))
        }
        "undecodable" => {
            filters = Some(vec![AccountFilterType::Memcmp(MemcmpFilter {
                offset,
                data: MemcmpFilterData::Base58("0OIl".into()),
            })]);
            Some(json!([{"memcmp": {"offset": offset, "data": {"base58": "0OIl"}}}]))
        }
        "unknown" => Some(json!([size_json, {"tokenState": 1}])),
        "badoffset" => Some(json!([{"memcmp": {"offset": "zero", "data": {"bytes": [1]}}}])),
        "negative" => Some(json!([{"memcmp": {"offset": -1, "data": {"bytes": [1]}}}])),
        "nodata" => Some(json!([{"memcmp": {"offset": 1}}])),
        "bytesrange" => Some(json!([{"memcmp": {"offset": 1, "data": {"bytes": [300]}}}])),
        "badvariant" => Some(json!([{"memcmp": {"offset": 1, "data": {"base32": "aa"}}}])),
        "float" => Some(json!([{"datasize": 1.5}])),
        "notarray" => Some(match rng.gen_range(0..2) {
            0 => size_json,
            _ => json!("datasize"),
        }),
        x => panic!("{x}"),
    };
    if let Some(f) = fil {
        doc.insert("filters".into(), f);
    }
    let value = match t.json.top.as_str() {
        "object" => Value::Object(doc),
        "array" => json!([Value::Object(doc)]),
        "number" => json!(7),
        "string" => json!("filter"),
        _ => json!(true),
    };
    let text = value.to_string();
    let got = if rng.gen_bool(0.5) {
        guard(|| serde_json::from_str::<AccountFilter>(&text).map_err(|e| e.to_string()))
    } else {
        guard(|| serde_json::from_value::<AccountFilter>(value.clone()).map_err(|e| e.to_string()))
    };
    out.cmp("parse");
    match got {
        Err(p) => out.bad("panic", 0, format!("parsing {text}: {p}")),
        Ok(Err(e)) => {
            if t.ok {
                out.bad("parse", 0, format!("{text} was refused: {e}"));
            }
        }
        Ok(Ok(f)) => {
            let exp = AccountFilter { accounts, program_id, filters };
            if !t.ok {
                out.bad("parse", 0, format!("{text} was accepted as {f:?}"));
            } else if f != exp {
                out.bad("parse", 0, format!("{text} was read as {f:?} instead of {exp:?}"));
            }
        }
    }
}
