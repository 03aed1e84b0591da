//! Contents of token program accounts, and the replay of TokenCodec.tla
use crate::store::{compression, encode, COMMITMENTS};
use crate::token::{new_storage, token_program, Keys};
use crate::util::*;
use lite_account_manager_common::{
    account_data::{Account as SlimAccount, AccountData},
    account_filter::{AccountFilterType, MemcmpFilter},
    account_store_interface::AccountStorageInterface,
    slot_info::SlotInfo,
};
use rand::Rng;
use serde::Deserialize;
use rand_chacha::ChaCha8Rng;
use solana_sdk::{program_option::COption, program_pack::Pack, pubkey::Pubkey};
use spl_token::state::{Account, AccountState, Mint, Multisig};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Fields {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<(Pubkey, u64)>,
    pub state: u8,
    pub native: Option<u64>,
    pub close: Option<Pubkey>,
}

pub fn number(rng: &mut ChaCha8Rng) -> u64 {
    match rng.gen_range(0..4) {
        0 => 0,
        1 => *choose(rng, &[u64::MAX, 1, 255, 1 << 32, (1 << 32) - 1, 1 << 63, 2_039_280]),
        _ => rng.gen(),
    }
}

/// mostly different, sometimes one of the values with a meaning
pub fn amount(rng: &mut ChaCha8Rng) -> u64 {
    if rng.gen_bool(0.25) {
        number(rng)
    } else {
        rng.gen() // tells versions apart
    }
}

/// keys as they occur as fields, also the default one
pub fn some_key(rng: &mut ChaCha8Rng) -> Pubkey {
    match rng.gen_range(0..6) {
        0 => Pubkey::default(),
        1 => Pubkey::new_from_array([255; 32]),
        _ => pubkey(rng),
    }
}

impl Fields {
    pub fn random(rng: &mut ChaCha8Rng, owner: Pubkey, mint: Pubkey) -> Self {
        let key = |rng: &mut ChaCha8Rng| match rng.gen_range(0..8) {
            0 => owner,
            1 => mint,
            _ => some_key(rng),
        };
        Fields {
            mint,
            owner,
            amount: amount(rng),
            delegate: rng.gen_bool(0.3).then(|| (key(rng), number(rng))),
            state: rng.gen_range(0..3),
            native: rng.gen_bool(0.3).then(|| number(rng)),
            close: rng.gen_bool(0.3).then(|| key(rng)),
        }
    }
}

fn extension(rng: &mut ChaCha8Rng, ty: u8, big: bool) -> Vec<u8> {
    let n = match rng.gen_range(0..4) {
        0 => 0,
        1 => rng.gen_range(1..5),
        2 if big => *choose(rng, &[65_535usize, 65_536, 70_000]),
        // multisigs have 355 bytes, so extended accounts never do
        _ => loop {
            let n = rng.gen_range(5..400);
            if n + 166 != 355 {
                break n;
            }
        },
    };
    let mut r = vec![ty];
    r.extend((0..n).map(|_| rng.gen::<u8>()));
    r
}

pub fn token_account(f: &Fields, ext: bool, rng: &mut ChaCha8Rng, big: bool) -> Vec<u8> {
    let acc = Account {
        mint: f.mint,
        owner: f.owner,
        amount: f.amount,
        delegate: f.delegate.map(|x| x.0).into(),
        state: match f.state {
            0 => AccountState::Uninitialized,
            1 => AccountState::Initialized,
            _ => AccountState::Frozen,
        },
        is_native: f.native.into(),
        delegated_amount: f.delegate.map_or(0, |x| x.1),
        close_authority: f.close.into(),
    };
    let mut data = vec![0; 165];
    acc.pack_into_slice(&mut data);
    if ext {
        data.extend(extension(rng, 2, big));
    }
    data
}

pub fn mint_account(authority: Option<Pubkey>, supply: u64, decimals: u8, init: bool, freeze: Option<Pubkey>) -> Vec<u8> {
    let m = Mint {
        mint_authority: authority.into(),
        supply,
        decimals,
        is_initialized: init,
        freeze_authority: COption::from(freeze),
    };
    let mut data = vec![0; 82];
    m.pack_into_slice(&mut data);
    data
}

pub fn extend_mint(mut data: Vec<u8>, rng: &mut ChaCha8Rng, big: bool) -> Vec<u8> {
    data.resize(165, 0);
    data.extend(extension(rng, 1, big));
    data
}

pub fn random_mint(rng: &mut ChaCha8Rng, ext: bool, big: bool) -> Vec<u8> {
    let authority = rng.gen_bool(0.6).then(|| some_key(rng));
    let freeze = rng.gen_bool(0.5).then(|| authority.filter(|_| rng.gen_bool(0.2)).unwrap_or_else(|| some_key(rng)));
    let decimals = *choose(rng, &[0, 9, 255, rng.clone().gen()]);
    let data = mint_account(authority, amount(rng), decimals, rng.gen_bool(0.8), freeze);
    if ext {
        extend_mint(data, rng, big)
    } else {
        data
    }
}

pub fn multisig(m: u8, n: u8, init: bool, signers: [Pubkey; 11]) -> Vec<u8> {
    let s = Multisig { m, n, is_initialized: init, signers };
    let mut data = vec![0; 355];
    s.pack_into_slice(&mut data);
    data
}

pub fn random_multisig(rng: &mut ChaCha8Rng) -> Vec<u8> {
    let mut signers = [Pubkey::default(); 11];
    let n = rng.gen_range(0..=11);
    for s in signers.iter_mut().take(n) {
        *s = some_key(rng);
    }
    signers[0] = pubkey(rng); // tells versions apart
    multisig(rng.gen(), if rng.gen_bool(0.8) { n as u8 } else { rng.gen() }, rng.gen_bool(0.8), signers)
}

/// owned by a token program, but no state of it
pub fn malformed(rng: &mut ChaCha8Rng, program: &str, f: &Fields) -> Vec<u8> {
    let mut data = token_account(f, false, rng, false);
    match rng.gen_range(0..4) {
        0 => {
            // state
            data[108] = *choose(rng, &[3u8, 4, 255]);
            data
        }
        1 => {
            // tag of the delegate
            data[72] = 2;
            data
        }
        2 => {
            let mut m = random_mint(rng, false, false);
            m[45] = 7; // neither initialized nor not
            m
        }
        _ => {
            let n = *choose(rng, &[0usize, 1, 81, 83, 100, 164, 200, 356]);
            let mut data: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
            if program == "X" && n > 165 {
                data[165] = *choose(rng, &[0u8, 3, 255]);
            }
            data
        }
    }
}

#[derive(Deserialize, Debug)]
struct Content {
    ty: String,
    o: String,
    #[serde(default)]
    st: u8,
    #[serde(default)]
    del: String,
    #[serde(default)]
    nat: String,
    #[serde(default)]
    clo: String,
    #[serde(default)]
    ext: String,
    #[serde(default)]
    init: bool,
    #[serde(default)]
    aut: String,
    #[serde(default)]
    fre: String,
    #[serde(default)]
    n: usize,
    #[serde(default)]
    hole: bool,
}

#[derive(Deserialize, Debug)]
struct Trace {
    from: Content,
    to: Content,
}

struct Stored {
    account: AccountData,
    raw: Vec<u8>,
    ty: String,
    owner: Pubkey,
    mint: Pubkey,
}

fn build(rng: &mut ChaCha8Rng, c: &Content, pk: Pubkey, slot: u64, lamports: u64, owner: Pubkey, mint: Pubkey, big: bool) -> Stored {
    let mut lamports = lamports;
    let mut some = |x: &str| (x == "v").then(|| some_key(rng));
    let raw = match c.ty.as_str() {
        "t" => {
            let (del, clo) = (some(&c.del), some(&c.clo));
            let f = Fields {
                mint,
                owner,
                amount: number(rng),
                delegate: del.map(|x| (x, number(rng))),
                state: c.st,
                native: (c.nat == "v").then(|| number(rng)),
                close: clo,
            };
            token_account(&f, c.ext == "v", rng, big)
        }
        "m" => {
            let (aut, fre) = (some(&c.aut), some(&c.fre));
            let m = mint_account(aut, number(rng), rng.gen(), c.init, fre);
            if c.ext == "v" {
                extend_mint(m, rng, big)
            } else {
                m
            }
        }
        "s" => {
            let mut signers = [Pubkey::default(); 11];
            for s in signers.iter_mut().take(c.n) {
                *s = some_key(rng);
            }
            if c.hole && c.n > 0 {
                signers[rng.gen_range(0..c.n)] = Pubkey::default();
            }
            multisig(rng.gen(), c.n as u8, c.init, signers)
        }
        _ => {
            if c.o == "T" {
                lamports = 0;
            }
            vec![0; *choose(rng, &[0usize, 165])]
        }
    };
    let program = match c.o.as_str() {
        "R" => Pubkey::new_from_array([9; 32]),
        x => token_program(x),
    };
    let mode = rng.gen_range(0..4);
    Stored {
        account: AccountData {
            pubkey: pk,
            account: Arc::new(SlimAccount::from_solana_account(
                solana_sdk::account::Account {
                    lamports,
                    data: raw.clone(),
                    owner: program,
                    executable: false,
                    rent_epoch: u64::MAX,
                },
                compression(rng, mode),
            )),
            updated_slot: slot,
            write_version: 1,
        },
        raw,
        ty: c.ty.clone(),
        owner,
        mint,
    }
}

/// what is stored is read back byte for byte
fn check(out: &mut Outcome, rng: &mut ChaCha8Rng, store: &Arc<dyn AccountStorageInterface>, x: &Stored, level: usize, stage: &str) {
    let c = COMMITMENTS[level];
    let mut all = vec![];
    out.cmp("content");
    match guard(|| store.get_account(x.account.pubkey, c)) {
        Err(p) => out.bad("panic", 0, format!("{stage}: {p}")),
        Ok(Err(e)) => out.bad("content", 0, format!("{stage}: {e}")),
        Ok(Ok(None)) => {
            if x.ty != "d" {
                out.bad("content", 0, format!("{stage}: nothing read at {c}"));
            }
        }
        Ok(Ok(Some(got))) => {
            if x.ty == "d" {
                out.bad("content", 0, format!("{stage}: account which is gone was read at {c}"));
            } else {
                all.push(got);
            }
        }
    }
    let program = x.account.account.owner;
    let q = match x.ty.as_str() {
        "t" => {
            let size = if x.raw.len() == 165 {
                AccountFilterType::Datasize(165)
            } else {
                AccountFilterType::Memcmp(MemcmpFilter { offset: 165, data: encode(rng, &[2]) })
            };
            let (offset, key) = *choose(rng, &[(0, x.mint), (32, x.owner)]);
            Some(vec![size, AccountFilterType::Memcmp(MemcmpFilter { offset, data: encode(rng, &key.to_bytes()) })])
        }
        "m" if x.raw.len() == 82 => Some(vec![AccountFilterType::Datasize(82)]),
        _ => None,
    };
    if let Some(q) = q {
        out.cmp("content");
        match guard(|| store.get_program_accounts(program, Some(q.clone()), c)) {
            Err(p) => out.bad("panic", 0, format!("{stage}: {p}")),
            Ok(Err(e)) => out.bad("content", 0, format!("{stage}: {e}")),
            Ok(Ok(got)) => {
                let mut got: Vec<AccountData> = got.into_iter().filter(|y| y.pubkey == x.account.pubkey).collect();
                if got.len() != 1 {
                    out.bad("content", 0, format!("{stage}: {q:?} at {c}: account listed {} times", got.len()));
                }
                all.append(&mut got);
            }
        }
    }
    for got in all {
        let data = got.account.data.data();
        let lamports_ok = x.ty == "t" || got.account.lamports == x.account.account.lamports;
        if data != x.raw || got.account.owner != program || got.pubkey != x.account.pubkey || !lamports_ok {
            let at = data.iter().zip(x.raw.iter()).position(|(a, b)| a != b);
            out.bad(
                "content",
                0,
                format!(
                    "{stage} at {c}: {} bytes of owner {} lamports {} read instead of {} bytes of owner {} lamports {}, first difference at {at:?}",
                    data.len(),
                    got.account.owner,
                    got.account.lamports,
                    x.raw.len(),
                    program,
                    x.account.account.lamports
                ),
            );
        }
    }
}

pub fn replay(line: &str, rng: &mut ChaCha8Rng, _params: &Params, out: &mut Outcome) {
    let trace: Trace = serde_json::from_str(line).expect("trace");
    let keys = Keys::new(rng);
    let big = rng.gen_range(0..50) == 0;
    let (pk, owner, mint) = (keys.make(rng), keys.make(rng), keys.make(rng));
    let (owner2, mint2) = if rng.gen_bool(0.5) { (owner, mint) } else { (keys.make(rng), keys.make(rng)) };
    let lamports = *choose(rng, &[1u64, 1_461_600, u64::MAX]);
    let a = build(rng, &trace.from, pk, 10, lamports, owner, mint, big);
    let b = build(rng, &trace.to, pk, 12, lamports / 2 + 1, owner2, mint2, big);
    let mut store = new_storage();
    let notify = |store: &Arc<dyn AccountStorageInterface>, slot: u64, l: usize| {
        store.process_slot_data(SlotInfo { slot, parent: slot - 1, root: 0 }, COMMITMENTS[l]);
    };
    out.steps += 1;
    // first content
    let path = rng.gen_range(0..4);
    match path {
        0 => {
            store.update_account(a.account.clone(), COMMITMENTS[0]);
            notify(&store, 10, 0);
            check(out, rng, &store, &a, 0, "first, processed");
            notify(&store, 10, 1);
            check(out, rng, &store, &a, 1, "first, confirmed");
            notify(&store, 10, 2);
        }
        1 => {
            store.update_account(a.account.clone(), COMMITMENTS[2]);
        }
        2 => store.initilize_or_update_account(a.account.clone()),
        _ => {
            store.update_account(a.account.clone(), COMMITMENTS[1]);
            notify(&store, 10, 2);
        }
    }
    for l in 0..3 {
        check(out, rng, &store, &a, l, "first");
    }
    let reload = |store: &mut Arc<dyn AccountStorageInterface>, program: Pubkey, out: &mut Outcome| {
        if program != spl_token::id() && program != spl_token_2022::id() {
            return;
        }
        let bytes = guard(|| store.create_snapshot(program).unwrap());
        let fresh = new_storage();
        match guard(|| fresh.load_from_snapshot(program, bytes.unwrap())) {
            Ok(Ok(())) => *store = fresh,
            x => out.bad("content", 0, format!("snapshot not loaded: {x:?}")),
        }
    };
    if rng.gen_bool(0.3) {
        reload(&mut store, a.account.account.owner, out);
        for l in 0..3 {
            check(out, rng, &store, &a, l, "first, reloaded");
        }
    }
    // second content
    match rng.gen_range(0..3) {
        0 => {
            store.update_account(b.account.clone(), COMMITMENTS[0]);
            check(out, rng, &store, &b, 0, "second, processed");
            check(out, rng, &store, &a, 2, "first, still finalized");
            notify(&store, 12, 0);
            notify(&store, 12, 1);
            check(out, rng, &store, &b, 1, "second, confirmed");
            check(out, rng, &store, &a, 2, "first, still finalized");
            notify(&store, 12, 2);
        }
        1 => {
            store.update_account(b.account.clone(), COMMITMENTS[2]);
        }
        _ => store.initilize_or_update_account(b.account.clone()),
    }
    for l in 0..3 {
        check(out, rng, &store, &b, l, "second");
    }
    reload(&mut store, b.account.account.owner, out);
    if b.ty != "d" || b.account.account.owner == spl_token::id() {
        for l in 0..3 {
            check(out, rng, &store, &b, l, "second, reloaded");
        }
    }
}
