#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays consistent)."""
import json, os
ST='account_storage/src/inmemory_account_store.rs'; BC='account_storage/src/account_data_by_commitment.rs'
DI='account_storage/src/storage_by_program_id.rs'
SF='common/src/simple_filter_store.rs'; AF='common/src/account_filter.rs'; EX='common/src/except_filter_store.rs'; MF='common/src/mutable_filter_store.rs'; AD='common/src/account_data.rs'
TK='token_account_storage/src/inmemory_token_storage.rs'; TA='token_account_storage/src/inmemory_token_account_storage.rs'; TU='token_account_storage/src/token_program_utils.rs'; TT='token_account_storage/src/account_types.rs'
OD='accounts_on_demand/src/accounts_on_demand.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p('S01','Reads return the newest account version that reached the requested level',
  "For every account tracked by the account store, reading it at processed, confirmed or finalized returns the newest version (by slot, then by write version) among the versions that reached that level, byte for byte as it was supplied with its slot and write version, or nothing if no version reached it or that version has zero lamports. Processed reads return the newest version received, whatever the order in which the updates arrived. A level may also be given as a commitment of the RPC interface: processed and recent ask for processed, confirmed, single and singleGossip for confirmed, finalized, root and max for finalized.",
  ['histories','inputs'],'all sequences of account updates (any slots, write versions, commitments, arrival orders, duplicates) and slot notifications',
  'unit tests replay a few fixed in-order sequences; stale duplicates, several write versions per slot and reordered slots are sampled once or never',
  [ST,BC],[('AccountDataByCommitment::update',BC),('promote_slot_commitment',BC),('get_account_data',BC)],['get_account at the three levels'],
  [('processed_accounts','version per slot not yet finalized',BC),('confirmed_account/finalized_account','newest version that reached the level',BC)])
p('S02','Slot notifications promote the slot and its linked ancestors, and nothing else',
  "When a slot is notified confirmed (finalized), exactly the account versions written in that slot or in any of its ancestors along the known parent links reach the confirmed (finalized) level, also when the notification comes before the account updates, when levels are skipped, repeated or arrive out of order, and on forks. A version written in a slot which is not on the promoted chain does not reach the level.",
  ['histories','schedules'],'all interleavings of account updates and processed/confirmed/finalized notifications over arbitrary slot trees',
  'tests use one linear chain with notifications in the expected order; the early exits of the ancestor walk and updates arriving after the notification are not sampled',
  [ST,BC],[('process_slot_data ancestor walk',ST),('add_account_index_to_slot_status',ST),('promote_slot_commitment',BC)],['get_account','process_slot_data'],
  [('slots_status','level, parent and accounts of each slot',ST)])
p('S03','Levels are ordered and never move backwards',
  "While an account stays tracked, its finalized version is never newer than its confirmed version, which is never newer than its processed version, and the version read at each level never goes back to an older one, whatever updates and notifications arrive.",
  ['histories'],'all sequences of updates and slot notifications, including stale, duplicated and reordered ones',
  'a regression needs a particular late update or notification after a newer one; tests only move forward',
  [ST,BC],[('is_newer comparison',BC),('update',BC),('removal of superseded processed versions',BC)],['get_account before and after every step'])
p('S04','Slot notifications report exactly the accounts they changed',
  "A confirmed or finalized slot notification returns exactly one entry for each account whose version at that level it changed, carrying the new version, and nothing for accounts it left unchanged; a processed notification returns nothing and repeating a notification returns nothing new.",
  ['histories'],'all sequences of updates and notifications',
  'subscribers rely on the returned list; tests check its length in a couple of linear sequences',
  [ST,BC],[('process_slot_data',ST),('promote_slot_commitment',BC)],['return value of process_slot_data'])
p('S05','getProgramAccounts is exact at every level',
  "For a query covered by the configured filters, getProgramAccounts at a level returns exactly the accounts which a read at that level would return, are owned by the program at that level and match every condition of the query, each once and with the same content, for every data compression and every encoding of the conditions.",
  ['histories','inputs'],'all histories (including owner changes, deletions, re-creations) and all covered queries',
  'tests query fixed sets; accounts changing owner or data between levels, compressed data and deleted accounts are combined rarely',
  [ST,BC],[('accounts_by_owner index',ST),('get_account_data_filtered',BC),('get_account_with_filtering_from_lock',ST)],['get_program_accounts vs get_account'],
  [('accounts_by_owner','accounts indexed by the owners of their versions',ST)])
p('S06','getProgramAccounts is refused exactly when the filters do not cover it',
  "A getProgramAccounts query on the account store is answered if and only if the configured filters cover it, and is refused with the configuration error otherwise; whenever a query is answered, every account matching it is one the store would have admitted.",
  ['configurations','inputs'],'all filter configurations and all queries',
  'tests use a few hand written configurations',
  [ST,SF,EX,MF],[('contains_filter check',ST),('contains_filter_internal',SF)],['get_program_accounts result or error'])
p('S07','Deletions and owner changes take effect level by level and are complete',
  "A deletion (zero lamports) or an owner change becomes visible at a level exactly when its version reaches that level: until then reads and queries at that level still show the previous state, and from then on the account is absent (respectively listed only under the new owner). Finalizing it never hides or drops a newer version of the account, and an account which was deleted or left the filters and is finalized as such can be tracked again when a later admitted version arrives.",
  ['histories'],'all histories mixing deletions, owner changes, re-creations and slot progress at all levels',
  'tests cover one deletion and one owner change in order; re-creation before finalization and interleavings with newer versions are not covered',
  [ST,BC],[('update_owner_delete_if_necessary',ST),('can_be_deleted / delete_account',ST)],['get_account, get_program_accounts'])
p('S08','Exactly the admitted updates are stored and update results say so',
  "An account starts being tracked exactly when an update satisfying the filters arrives, and once tracked every later update is taken into account even if it no longer satisfies the filters; updates of untracked accounts not satisfying the filters change nothing. update_account returns true exactly if it added or replaced a stored version, so a stale or duplicated update returns false and changes nothing.",
  ['histories','configurations'],'all update sequences under all filter configurations',
  'tests check a few return values in order',
  [ST,BC],[('update_account admission',ST),('AccountDataByCommitment::update',BC)],['return value of update_account, get_account'])
p('S09','Snapshots restore exactly the finalized accounts of a program',
  "A snapshot of a program contains exactly the finalized accounts it owns; loading it into a fresh store with the same filters makes every one of them readable at all three levels with identical content, slot and write version, and loading it into a store having newer versions never replaces them. Loading truncated bytes is reported as an error and changes nothing.",
  ['histories','inputs'],'all histories before the snapshot, any compression of the account data, any state of the loading store',
  'one test makes a snapshot of freshly inserted accounts',
  [ST],[('create_snapshot',ST),('load_from_snapshot',ST)],['create_snapshot, load_from_snapshot, get_account'])
p('S10','Concurrent updates, notifications and reads of the account store are safe',
  "Under any interleaving of concurrent updates, slot notifications, reads, queries and snapshots from several threads, no call blocks forever or panics, every read, query and snapshot returns, for every account, a state which was current at some moment during the call, results and final state are explained by some order of the updates and of the promotions of single accounts, and no update or promotion is lost.",
  ['schedules'],'all thread interleavings of calls on a shared store',
  'all tests of the account store are single threaded',
  [ST],[('lock order pubkey index -> accounts -> account -> slots',ST)],['call/return history of all operations'])
p('F01','Filter matching does not depend on the encoding or the compression',
  "Whether a filter accepts an account depends only on the raw account data, owner and pubkey: a memcmp condition matches iff the decoded bytes are found at the offset, a data size condition iff the uncompressed length is equal, whether the bytes are given raw, as base58 or base64, whatever the compression of the account data, and also after serializing the filter to JSON and back. An account is accepted iff it is listed or some filter of its owner program has all of its conditions matching.",
  ['inputs','configurations'],'all filters, encodings, offsets (also beyond the data) and compression methods',
  'tests cover a handful of offsets and encodings',
  [AF,SF,AD],[('bytes_match',AF),('satisfies_filter',SF),('Data::data',AD)],['satisfies'])
p('F02','Filter coverage is sound and complete on sets of conditions',
  "A filter store covers a program query iff the program is subscribed with a set of conditions which is contained in the conditions of the query (no conditions at all covering everything), independent of the order, duplication and encoding of conditions and of the order in which filters were added; it covers an account list iff every account is listed. Hence every account matching a covered query is accepted by the store.",
  ['configurations','inputs'],'all sets of added filters, in all orders and encodings, and all queries',
  'tests use a few orders and prefixes of one filter',
  [SF,MF],[('contains_filter_internal',SF),('add_account_filter',SF)],['contains_filter'])
p('F03','The except store is the exact complement and never over-claims coverage',
  "The except filter store accepts an account iff the excluded filters do not accept it, and claims to cover a program query only if no account matching the query can be excluded by the excluded program filters or listed accounts of the query; queries on programs without exclusions are covered.",
  ['configurations','inputs'],'all exclusion sets and queries',
  'tests exclude whole programs only',
  [EX,SF],[('ExceptFilterStore::contains_filter',EX),('intersects_filter',SF)],['satisfies, contains_filter'])
p('F04','Malformed filters are rejected without crashing',
  "Parsing a JSON filter with malformed public keys or structure yields an error, and a memcmp condition whose text cannot be decoded matches no account and never makes an update, a query or a coverage test crash.",
  ['inputs'],'all JSON documents and undecodable strings',
  'tests only parse well formed filters',
  [AF,SF],[('Deserialize for AccountFilter',AF),('try_bytes',AF)],['deserialization, satisfies, get_program_accounts'])
p('D01','Partitioning by program behaves like a single store',
  "A storage which dispatches programs to separate storages answers reads, queries, notifications and snapshots as one single store holding all the accounts would, for accounts of dispatched and of other programs alike, also when accounts move between owners and when accounts do not exist in some of the storages.",
  ['histories','configurations'],'all histories and assignments of programs to storages',
  'there is no test of the dispatching storage',
  [DI],[('update_account fan-out',DI),('get_account fall-through',DI)],['all storage calls compared with a single store'])
p('T01','Token reads follow the chain of the requested level',
  "Reading a token program account at processed returns its version in the most recent slot above the confirmed one, else its version on the chain of the confirmed slot through the known parents, else its finalized version; confirmed reads start at the confirmed slot; several versions in the same slot resolve to the highest write version. A version on a fork which is not on the confirmed chain is not visible at confirmed. States which are not finalized are read with the slot and write version of their update.",
  ['histories'],'all sequences of token, mint, multisig updates, deletions and slot notifications over slot trees',
  'tests use one linear chain of one token account',
  [TK],[('ProcessedAccountStore',TK),('get_confirmed_accounts',TK)],['get_account at the three levels'],
  [('processed_slot_accounts','versions by slot with the parent link',TK)])
p('T02','Finalizing a slot saves the newest token states of its chain, once',
  "Finalizing a slot makes, for every token program account written on the chain of that slot since the last finalized one, its newest version the finalized state, drops versions of abandoned forks, and returns exactly the accounts finalized by it which still exist. Neither late updates, nor repeated or out-of-order notifications, bring back an older finalized state.",
  ['histories'],'all histories of updates and notifications over slot trees',
  'tests finalize one linear chain',
  [TK],[('ProcessedAccountStore::finalize',TK),('add_account_finalized',TK)],['get_account(finalized), process_slot_data'])
p('T03','Token getProgramAccounts by owner, by mint and for mints is exact',
  "A token program query by token account owner and/or mint (or for all mints) returns exactly the accounts visible at the level, belonging to the queried program and matching every condition, with the content a read returns, whatever the encoding of the conditions, and also for accounts whose owner or mint changed, that were closed or that are not yet finalized; other queries are refused.",
  ['histories','inputs'],'all histories and all queries by owner, mint or both at all levels',
  'tests query finalized accounts inserted once',
  [TK,TU],[('get_program_accounts',TK),('get_spl_token_owner_mint_filter',TU),('account_by_owner_pubkey / accounts_index_by_mint',TK)],['get_program_accounts vs get_account'])
p('T04','Token program accounts are reproduced exactly',
  "Every token account, mint and multisig in the form the two token programs write it (unset optional fields zeroed), initialized or not, frozen, with or without delegate, native reserve, close authority, authorities and token-2022 extensions, is returned with exactly the data bytes, owner program and pubkey it was stored with (mints and multisigs also with their lamports), before and after finalization.",
  ['inputs'],'all well formed accounts of both programs',
  'tests randomize the plain token account fields but neither extensions nor multisigs nor all states',
  [TU,TT],[('get_token_program_account_type',TU),('token_account_to_solana_account',TU),('TokenAccount::to_bytes/from_bytes',TT)],['get_account data bytes'])
p('T05','Token accounts sharing a key prefix or an index are independent',
  "Storing, updating, closing, re-creating or changing the kind of one token program account never changes what is read or listed for any other account, also for accounts whose public keys share a prefix, share owner or mint, or reuse the place of a closed account.",
  ['histories','inputs'],'all histories over accounts with colliding key prefixes',
  'random keys practically never collide in tests',
  [TA,TK],[('pubkey_to_index buckets',TA),('delete',TA),('save_or_update',TA)],['get_account and get_program_accounts of all other accounts'])
p('T06','Token snapshots restore the finalized token state',
  "Loading a snapshot of a token program into a fresh or used storage restores every finalized token account, mint and multisig of that program with identical content, and they are found again by owner and by mint; accounts of the other program are not included. Truncated snapshot bytes are reported as an error.",
  ['histories','inputs'],'all states before the snapshot, loading order and pre-existing mints of the loading storage',
  'there is no snapshot test of the token storage',
  [TK,TA],[('create_snapshot',TK),('load_from_snapshot mint remapping',TK)],['create_snapshot, load_from_snapshot, reads and queries'])
p('T07','Token storage queries never crash on any arrival order of mints and accounts',
  "Token accounts can arrive before their mint, survive the closing of their mint, or never see it, and every read, query, notification and snapshot still works and reports them with their own mint.",
  ['histories'],'all orders of mint creation/closing and token account updates',
  'tests always insert the mint and never close it',
  [TK,TU],[('mint index assignment',TU),('mint removal',TK)],['absence of panics, reads'])
p('T08','Concurrent updates, notifications and reads of the token storage are safe',
  "Under any interleaving of concurrent updates, slot notifications, reads, queries and snapshots from several threads, no call blocks forever or panics, and every read, query or snapshot (of finalized states) returns, for every account, either its pending state (at the requested level) at some moment during the call, or, if it had none at some moment, its finalized state then or later in the call: an existing account never briefly disappears, queries do not miss accounts which can be read, states of other forks are not returned. Results and final states are explained by some order of the effects of the calls, and no update or finalization is lost. (Accounts which are closed and created again as an account of another type while being read are not covered.)",
  ['schedules'],'all thread interleavings of finalization, updates, reads and queries',
  'tests are single threaded',
  [TK],[('finalize moves accounts between stores under one lock',TK),('get_accounts, get_all_accounts',TK),('add_account_finalized',TK)],['call/return history of all operations'])
p('T09','Exactly the updates of token program accounts are taken into account',
  "The token storage takes an update into account exactly if the account is owned by one of the token programs and has the layout of a token account, mint or multisig, or if it reports that a known account was closed or left the token programs; every other update (other programs, unknown layouts, slots older than the finalized one, stale or repeated write versions) changes nothing that can be read. update_account returns true exactly if the update was taken into account.",
  ['histories','inputs'],'all sequences of well formed, malformed, foreign, stale and repeated updates',
  'tests feed fresh well formed accounts only',
  [TK,TU],[('update_account acceptance',TK),('get_token_program_account_type',TU),('ProcessedAccountStore::update write version check',TK)],['return value of update_account, get_account, get_program_accounts'])
p('O01','Concurrent first requests share one subscription and one load',
  "However many callers request the same missing account or program query concurrently, the source is asked to subscribe and to load it once, the other callers wait and get the loaded data; once loaded, later requests are answered without asking the source again, also for accounts that turned out not to exist.",
  ['schedules','histories'],'all interleavings of callers with the steps of the source',
  'the on demand storage has no tests',
  [OD],[('accounts_in_loading / gpa_in_loading',OD),('mutable_filters',OD)],['calls reaching the source, results of the callers'])
p('O02','Source failures are reported and later requests retry',
  "If the source fails to subscribe or to load, the requesting caller gets the corresponding error, callers waiting for that load get an error instead of wrong data, nobody waits forever, and a later request tries again and succeeds if the source does.",
  ['fault_sequences','schedules'],'all failure points of the source and interleavings of callers',
  'no test injects a failing source',
  [OD],[('error paths of get_account and get_program_accounts',OD)],['results of callers, calls reaching the source'])
p('O03','Callers never get partial or wrongly absent data while a load is in progress',
  "A request for an account or query whose load (or the load of a covering query) is in progress is not answered from the partially loaded storage but waits for it; if the load does not complete within the time limit the caller gets a timeout error, never an empty or partial answer.",
  ['schedules'],'all interleavings of callers with loading steps, slow sources',
  'no test has a slow source',
  [OD],[('wait on the loading entry',OD),('covering loads',OD)],['results of callers'])
p('O04','Loaded data stays live: later updates are admitted',
  "After an on-demand load, the account or the accounts of the query are admitted by the shared filters, so that updates arriving during and after the load are stored and reads return them; requests covered by configured or loaded filters never contact the source.",
  ['histories','schedules'],'all interleavings of updates with loads, all orders of requests',
  'no test',
  [OD,MF],[('add_account_filters before loading the snapshot',OD)],['reads after updates'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
