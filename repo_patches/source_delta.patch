From d87cefc2d006a0efbf9cf703f68e821603914f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 01/44] fix: getProgramAccounts without filters returned
 deleted accounts

---
 account_storage/src/inmemory_account_store.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 04b7f74..d0b1e30 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -191,8 +191,10 @@ impl InmemoryAccountStore {
             None => {
                 let account_data = lk_on_account.get_account_data(commitment);
                 if let Some(account_data) = account_data {
-                    // recheck owner
-                    if program_pubkey == account_data.account.owner {
+                    // recheck owner and skip deleted accounts
+                    if account_data.account.lamports > 0
+                        && program_pubkey == account_data.account.owner
+                    {
                         return_vec.push(account_data);
                     }
                 }
-- 
2.43.0


From 00726af3229ffdb164b21c51e51e587b17dde526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 02/44] fix: promoting a slot ignored newer write versions of
 the same slot

---
 account_storage/src/account_data_by_commitment.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 5d88493..081889e 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -184,6 +184,11 @@ impl AccountDataByCommitment {
         }
         updated
     }
+
+    fn is_newer(data: &AccountData, than: &AccountData) -> bool {
+        (data.updated_slot, data.write_version) > (than.updated_slot, than.write_version)
+    }
+
     // this method will promote processed account to confirmed account to finalized account
     // returns promoted account
     pub fn promote_slot_commitment(
@@ -199,7 +204,7 @@ impl AccountDataByCommitment {
                 }
                 Commitment::Confirmed => match self.confirmed_account.take() {
                     Some(prev_account_data) => {
-                        if prev_account_data.updated_slot < account_data.updated_slot {
+                        if Self::is_newer(account_data, &prev_account_data) {
                             self.confirmed_account = Some(account_data.clone());
                             Some((account_data.clone(), Some(prev_account_data)))
                         } else {
@@ -216,7 +221,7 @@ impl AccountDataByCommitment {
                     // update confirmed if needed
                     match &self.confirmed_account {
                         Some(confirmed_account) => {
-                            if confirmed_account.updated_slot < account_data.updated_slot {
+                            if Self::is_newer(account_data, confirmed_account) {
                                 self.confirmed_account = Some(account_data.clone());
                             }
                         }
@@ -227,7 +232,7 @@ impl AccountDataByCommitment {
 
                     let result = match self.finalized_account.take() {
                         Some(prev_account_data) => {
-                            if prev_account_data.updated_slot < account_data.updated_slot {
+                            if Self::is_newer(account_data, &prev_account_data) {
                                 self.finalized_account = Some(account_data.clone());
                                 Some((account_data.clone(), Some(prev_account_data)))
                             } else {
-- 
2.43.0


From 0fa8a0c44db9b75719775008d8c9ed663b7cd4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 03/44] fix: slot notifications could downgrade slots, skip
 promotions or lose the parent link

---
 account_storage/src/inmemory_account_store.rs | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index d0b1e30..3d8bb51 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -358,14 +358,16 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 current_slot = None;
                 match lk.get_mut(&slot) {
                     Some(status) => {
-                        if status.commitment == commitment {
-                            // slot already processed for the commitment
-                            break;
-                        }
-                        status.commitment = commitment;
+                        // a slot promoted before its parent was known still has to promote its ancestors
+                        let new_parent = parent.is_some() && status.parent.is_none();
                         if parent.is_some() {
                             status.parent = parent;
                         }
+                        if status.commitment >= commitment && !new_parent {
+                            // slot already processed for the commitment
+                            break;
+                        }
+                        status.commitment = status.commitment.max(commitment);
                         for account in &status.accounts_updated {
                             match writable_accounts.entry(*account) {
                                 std::collections::hash_map::Entry::Occupied(_) => {
@@ -395,18 +397,18 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         } else if commitment == Commitment::Finalized {
                             log::debug!("slot status not found for {} for commitment finalized, could be normal if the entry is already removed or during startup", slot,);
                         }
-                        if commitment == Commitment::Confirmed
-                            || commitment == Commitment::Processed
-                        {
-                            // add status for processed slot
-                            let status = SlotStatus {
-                                commitment,
-                                accounts_updated: BTreeSet::new(),
-                                parent: Some(slot_info.parent),
-                            };
-                            lk.insert(slot, status);
+                        // add status, accounts of this slot may still be notified later
+                        let status = SlotStatus {
+                            commitment,
+                            accounts_updated: BTreeSet::new(),
+                            parent,
+                        };
+                        lk.insert(slot, status);
+                        if commitment != Commitment::Processed {
+                            if let Some(parent_slot) = parent {
+                                current_slot = Some((parent_slot, None));
+                            }
                         }
-                        break;
                     }
                 }
             }
-- 
2.43.0


From c8e693d4c47509a64c32d5e365d502b950592140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 04/44] fix: account updates racing with or following the slot
 notification lost their commitment

---
 account_storage/src/inmemory_account_store.rs | 56 ++++++-------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 3d8bb51..2fd969d 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -106,7 +106,9 @@ impl InmemoryAccountStore {
         false
     }
 
-    // commitment for which status was updated
+    // registers the account with the slot, so that it is promoted with the slot
+    // returns the commitment of the account update, slot could have already been promoted
+    // should be called while holding write lock on the account, as slot could be promoted just after
     fn add_account_index_to_slot_status(
         &self,
         slot: Slot,
@@ -114,49 +116,22 @@ impl InmemoryAccountStore {
         commitment: Commitment,
     ) -> Commitment {
         let mut lk = self.slots_status.lock().unwrap();
-        let slot_status = match lk.get_mut(&slot) {
-            Some(x) => x,
-            None => {
-                lk.insert(
-                    slot,
-                    SlotStatus {
-                        commitment,
-                        accounts_updated: BTreeSet::new(),
-                        parent: None,
-                    },
-                );
-                lk.get_mut(&slot).unwrap()
-            }
-        };
+        let slot_status = lk.entry(slot).or_insert_with(|| SlotStatus {
+            // only slot notifications change the commitment of the slot
+            commitment: Commitment::Processed,
+            accounts_updated: BTreeSet::new(),
+            parent: None,
+        });
         match commitment {
             Commitment::Processed | Commitment::Confirmed => {
                 // insert account into slot status
                 slot_status.accounts_updated.insert(account_index);
-                slot_status.commitment
+                slot_status.commitment.max(commitment)
             }
             Commitment::Finalized => commitment,
         }
     }
 
-    fn maybe_update_slot_status(
-        &self,
-        account_data: &AccountData,
-        commitment: Commitment,
-    ) -> Commitment {
-        let account_index = match self
-            .pubkey_to_account_index
-            .get(&account_data.pubkey)
-            .map(|x| *x)
-        {
-            Some(x) => x,
-            None => {
-                return commitment;
-            }
-        };
-        let slot = account_data.updated_slot;
-        self.add_account_index_to_slot_status(slot, account_index, commitment)
-    }
-
     pub fn satisfies_filters(&self, account: &AccountData) -> bool {
         self.filtered_accounts.satisfies(account)
     }
@@ -216,14 +191,14 @@ impl AccountStorageInterface for InmemoryAccountStore {
         }
         let updated_slot = account_data.updated_slot;
 
-        // check if the blockhash and slot is already confirmed
-        let commitment = self.maybe_update_slot_status(&account_data, commitment);
-
         let updated = match self.pubkey_to_account_index.entry(account_data.pubkey) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
+                // check if the slot is already confirmed
+                let commitment =
+                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
@@ -247,14 +222,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 if self.satisfies_filters(&account_data) {
                     ACCOUNT_STORED_IN_MEMORY.inc();
                     let mut lk = self.accounts_store.write().unwrap();
+                    let index = lk.len();
+                    let commitment =
+                        self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     lk.push(RwLock::new(AccountDataByCommitment::new(
                         account_data.clone(),
                         commitment,
                     )));
-                    let index = lk.len() - 1;
                     drop(lk);
                     self.add_account_owner(index, account_data.account.owner);
-                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     vac.insert(index);
                     true
                 } else {
-- 
2.43.0


From 4afa043d74d1da0bce02f8c3f64523015b902cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 05/44] fix: finalizing a deletion or an owner change dropped
 newer states of the account

---
 .../src/account_data_by_commitment.rs         |  20 +++-
 account_storage/src/inmemory_account_store.rs | 105 +++++++++---------
 2 files changed, 74 insertions(+), 51 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 081889e..1c76654 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -5,7 +5,7 @@ use lite_account_manager_common::{
     account_filter::AccountFilterType,
     commitment::Commitment,
 };
-use solana_sdk::clock::Slot;
+use solana_sdk::{clock::Slot, pubkey::Pubkey};
 
 #[derive(Default)]
 pub struct AccountDataByCommitment {
@@ -280,6 +280,24 @@ impl AccountDataByCommitment {
         }
     }
 
+    pub fn has_state_owned_by(&self, owner: &Pubkey) -> bool {
+        self.processed_accounts
+            .values()
+            .chain(&self.confirmed_account)
+            .chain(&self.finalized_account)
+            .any(|state| state.account.owner == *owner)
+    }
+
+    // returns finalized state if there are no states which are newer than it
+    pub fn finalized_if_latest(&self) -> Option<&AccountData> {
+        let finalized = self.finalized_account.as_ref()?;
+        self.processed_accounts
+            .values()
+            .chain(&self.confirmed_account)
+            .all(|state| !Self::is_newer(state, finalized))
+            .then_some(finalized)
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 2fd969d..c769fed 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -68,42 +68,53 @@ impl InmemoryAccountStore {
         }
     }
 
+    fn remove_account_owner(&self, account_index: AccountIndex, owner: &Pubkey) {
+        if let Some(accounts) = self.accounts_by_owner.get(owner) {
+            accounts.write().unwrap().remove(&account_index);
+        }
+    }
+
     // here if the commitment is processed and the account has changed owner from A->B we keep the key for both A and B
-    // then we remove the key from A for finalized commitment
+    // then we remove the key from A for finalized commitment, if no other state of the account is owned by A
     // returns true if entry needs to be deleted
     fn update_owner_delete_if_necessary(
         &self,
-        prev_account_data: &AccountData,
+        account: &AccountDataByCommitment,
+        prev_account_data: Option<&AccountData>,
         new_account_data: &AccountData,
         account_index: AccountIndex,
         commitment: Commitment,
     ) -> bool {
-        assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
-        if prev_account_data.account.owner != new_account_data.account.owner {
-            if commitment == Commitment::Finalized {
-                match self
-                    .accounts_by_owner
-                    .entry(prev_account_data.account.owner)
-                {
-                    dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                        occ.get_mut().write().unwrap().remove(&account_index);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(_) => {
-                        // do nothing
-                    }
-                }
-
-                // account is deleted or if new does not satisfies the filter criterias
-                if Self::is_deleted(new_account_data) || !self.satisfies_filters(new_account_data) {
-                    return true;
-                }
-            }
-            if !Self::is_deleted(new_account_data) && self.satisfies_filters(new_account_data) {
-                // update owner if account was not deleted but owner was change and the filter criterias are satisfied
-                self.add_account_owner(account_index, new_account_data.account.owner);
+        let mut is_owner_known = false;
+        if let Some(prev_account_data) = prev_account_data {
+            assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
+            let prev_owner = &prev_account_data.account.owner;
+            if *prev_owner == new_account_data.account.owner {
+                is_owner_known = !Self::is_deleted(prev_account_data);
+            } else if commitment == Commitment::Finalized && !account.has_state_owned_by(prev_owner)
+            {
+                self.remove_account_owner(account_index, prev_owner);
             }
         }
-        false
+        if !is_owner_known && !Self::is_deleted(new_account_data) {
+            self.add_account_owner(account_index, new_account_data.account.owner);
+        }
+        commitment == Commitment::Finalized && self.can_be_deleted(account)
+    }
+
+    // finalized account is deleted or does not satisfies the filter criterias, and has not been changed since
+    fn can_be_deleted(&self, account: &AccountDataByCommitment) -> bool {
+        account
+            .finalized_if_latest()
+            .map(|x| Self::is_deleted(x) || !self.satisfies_filters(x))
+            .unwrap_or_default()
+    }
+
+    fn delete_account(&self, account: &mut AccountDataByCommitment, account_index: AccountIndex) {
+        if let Some(finalized_account) = &account.finalized_account {
+            self.remove_account_owner(account_index, &finalized_account.account.owner);
+        }
+        account.delete();
     }
 
     // registers the account with the slot, so that it is promoted with the slot
@@ -202,16 +213,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-                    if let Some(prev_account) = prev_account {
-                        if self.update_owner_delete_if_necessary(
-                            &prev_account,
-                            &account_data,
-                            index,
-                            commitment,
-                        ) {
-                            acc_by_commitment.delete();
-                            occ.remove_entry();
-                        }
+                    if self.update_owner_delete_if_necessary(
+                        &acc_by_commitment,
+                        prev_account.as_ref(),
+                        &account_data,
+                        index,
+                        commitment,
+                    ) {
+                        self.delete_account(&mut acc_by_commitment, index);
+                        occ.remove_entry();
                     }
                     true
                 } else {
@@ -412,20 +422,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
             if let Some((account_data, prev_account_data)) =
                 writable_lk.promote_slot_commitment(update_slot, commitment)
             {
-                if let Some(prev_account_data) = prev_account_data {
-                    // check if owner has changed
-                    if (prev_account_data.account.owner != account_data.account.owner
-                        || account_data.account.lamports == 0)
-                        && self.update_owner_delete_if_necessary(
-                            &prev_account_data,
-                            &account_data,
-                            writable_account_index,
-                            commitment,
-                        )
-                    {
-                        self.pubkey_to_account_index.remove(&account_data.pubkey);
-                        writable_lk.delete();
-                    }
+                if self.update_owner_delete_if_necessary(
+                    &writable_lk,
+                    prev_account_data.as_ref(),
+                    &account_data,
+                    writable_account_index,
+                    commitment,
+                ) {
+                    self.pubkey_to_account_index.remove(&account_data.pubkey);
+                    self.delete_account(&mut writable_lk, writable_account_index);
                 }
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
-- 
2.43.0


From add9833d28ed1bd887d7ab4a338e1408b859fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 06/44] fix: finalizing a deletion could deadlock with a
 concurrent account update

---
 account_storage/src/inmemory_account_store.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index c769fed..615e3a6 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -415,6 +415,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
         };
 
         let mut updated_accounts = vec![];
+        let mut accounts_to_delete = vec![];
 
         let lk = self.accounts_store.read().unwrap();
         for (writable_account_index, update_slot) in writable_accounts {
@@ -429,13 +430,27 @@ impl AccountStorageInterface for InmemoryAccountStore {
                     writable_account_index,
                     commitment,
                 ) {
-                    self.pubkey_to_account_index.remove(&account_data.pubkey);
-                    self.delete_account(&mut writable_lk, writable_account_index);
+                    accounts_to_delete.push((account_data.pubkey, writable_account_index));
                 }
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
             }
         }
+        drop(lk);
+
+        // account update locks the pubkey before the account, here we should keep the same order to avoid deadlocks
+        for (pubkey, account_index) in accounts_to_delete {
+            self.pubkey_to_account_index.remove_if(&pubkey, |_, index| {
+                let read_lk = self.accounts_store.read().unwrap();
+                let mut account = read_lk[account_index].write().unwrap();
+                // account could have been updated in the meantime
+                let delete = *index == account_index && self.can_be_deleted(&account);
+                if delete {
+                    self.delete_account(&mut account, account_index);
+                }
+                delete
+            });
+        }
         updated_accounts
     }
 
-- 
2.43.0


From d0756db6c4f07fb53c62839e84c906b6011fe709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 07/44] fix: memcmp filters with undecodable bytes panicked
 while matching accounts

---
 common/src/account_filter.rs      | 22 ++++++++++++++--------
 common/src/simple_filter_store.rs |  9 ++++-----
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 9f07602..7a34cee 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -22,14 +22,17 @@ pub struct MemcmpFilter {
 
 impl MemcmpFilter {
     pub fn bytes(&self) -> Vec<u8> {
+        self.try_bytes().expect("memcmp decoding should work")
+    }
+
+    // returns none if the encoded bytes are not decodable
+    pub fn try_bytes(&self) -> Option<Vec<u8>> {
         match &self.data {
-            MemcmpFilterData::Bytes(bytes) => bytes.clone(),
-            MemcmpFilterData::Base58(b58) => bs58::decode(b58)
-                .into_vec()
-                .expect("Base58 decoding should work"),
-            MemcmpFilterData::Base64(b64) => base64::engine::general_purpose::STANDARD
-                .decode(b64)
-                .expect("B64 decoding should work"),
+            MemcmpFilterData::Bytes(bytes) => Some(bytes.clone()),
+            MemcmpFilterData::Base58(b58) => bs58::decode(b58).into_vec().ok(),
+            MemcmpFilterData::Base64(b64) => {
+                base64::engine::general_purpose::STANDARD.decode(b64).ok()
+            }
         }
     }
 
@@ -45,7 +48,10 @@ impl MemcmpFilter {
             }
             data[offset..offset + bytes.len()] == bytes[..]
         } else {
-            let bytes = self.bytes();
+            let Some(bytes) = self.try_bytes() else {
+                // nothing can match bytes which are not decodable
+                return false;
+            };
             let offset = self.offset as usize;
             if offset > data.len() {
                 return false;
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 5f4a7b3..484aab6 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -63,15 +63,14 @@ impl SimpleFilterStore {
                                 let filters = filters.iter().map(|x| match &x {
                                     AccountFilterType::Datasize(_) => x.clone(),
                                     AccountFilterType::Memcmp(memcmp) => {
-                                        match memcmp.data {
-                                            crate::account_filter::MemcmpFilterData::Bytes(_) => x.clone(),
-                                            crate::account_filter::MemcmpFilterData::Base58(_) |
-                                            crate::account_filter::MemcmpFilterData::Base64(_) => {
+                                        match memcmp.try_bytes() {
+                                            Some(bytes) => {
                                                 AccountFilterType::Memcmp(MemcmpFilter {
                                                     offset: memcmp.offset,
-                                                    data: crate::account_filter::MemcmpFilterData::Bytes(memcmp.bytes())
+                                                    data: crate::account_filter::MemcmpFilterData::Bytes(bytes)
                                                 })
                                             },
+                                            None => x.clone(),
                                         }
                                     },
                                 }).collect();
-- 
2.43.0


From 482bc384b736b6d771a099d1c4ab1b57cd424219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 08/44] fix: filter coverage depended on the encoding of the
 memcmp bytes

---
 common/src/simple_filter_store.rs | 53 ++++++++++++++++---------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 484aab6..af5336a 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -1,6 +1,8 @@
 use crate::{
     account_data::AccountData,
-    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter},
+    account_filter::{
+        AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData,
+    },
 };
 use solana_sdk::pubkey::Pubkey;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -24,6 +26,23 @@ pub struct SimpleFilterStore {
 }
 
 impl SimpleFilterStore {
+    // always compare and save filters in bytes
+    fn normalize(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType> {
+        filters
+            .iter()
+            .map(|x| match x {
+                AccountFilterType::Datasize(_) => x.clone(),
+                AccountFilterType::Memcmp(memcmp) => match memcmp.try_bytes() {
+                    Some(bytes) => AccountFilterType::Memcmp(MemcmpFilter {
+                        offset: memcmp.offset,
+                        data: MemcmpFilterData::Bytes(bytes),
+                    }),
+                    None => x.clone(),
+                },
+            })
+            .collect()
+    }
+
     pub fn add_account_filters(&mut self, account_filters: &AccountFilters) {
         for filter in account_filters {
             self.add_account_filter(filter);
@@ -44,7 +63,7 @@ impl SimpleFilterStore {
                         }
                         ProgramIdFilters::ByFilterType(current_filters) => {
                             if let Some(new_filters) = &account_filter.filters {
-                                current_filters.push(new_filters.iter().cloned().collect());
+                                current_filters.push(Self::normalize(new_filters));
                             } else {
                                 // the new filters will subscribe to all the filters
                                 *program_filters = ProgramIdFilters::AllowAll;
@@ -55,27 +74,12 @@ impl SimpleFilterStore {
                 None => {
                     self.program_id_filters.insert(
                         *program_id,
-                        account_filter
-                            .filters
-                            .clone()
-                            .map_or(ProgramIdFilters::AllowAll, |filters| {
-                                // always save filters in bytes
-                                let filters = filters.iter().map(|x| match &x {
-                                    AccountFilterType::Datasize(_) => x.clone(),
-                                    AccountFilterType::Memcmp(memcmp) => {
-                                        match memcmp.try_bytes() {
-                                            Some(bytes) => {
-                                                AccountFilterType::Memcmp(MemcmpFilter {
-                                                    offset: memcmp.offset,
-                                                    data: crate::account_filter::MemcmpFilterData::Bytes(bytes)
-                                                })
-                                            },
-                                            None => x.clone(),
-                                        }
-                                    },
-                                }).collect();
-                                ProgramIdFilters::ByFilterType(vec![filters])
-                            }),
+                        account_filter.filters.clone().map_or(
+                            ProgramIdFilters::AllowAll,
+                            |filters| {
+                                ProgramIdFilters::ByFilterType(vec![Self::normalize(&filters)])
+                            },
+                        ),
                     );
                 }
             }
@@ -100,8 +104,7 @@ impl SimpleFilterStore {
                         ProgramIdFilters::ByFilterType(filter_list) => {
                             if let Some(filter_to_match) = &account_filter.filters {
                                 // matches sorted filter list
-                                let filter_to_match: BTreeSet<AccountFilterType> =
-                                    filter_to_match.iter().cloned().collect();
+                                let filter_to_match = Self::normalize(filter_to_match);
                                 filter_list.iter().any(|stored_filters| {
                                     if filter_to_match.len() >= stored_filters.len() {
                                         let subset = filter_to_match
-- 
2.43.0


From 0f035c98f018d742d1ef09ea525e5cf119db4bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 09/44] fix: filter coverage was missed for subsets which were
 not a prefix of the query

---
 common/src/simple_filter_store.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index af5336a..81fb535 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -102,24 +102,13 @@ impl SimpleFilterStore {
                     match subscribed_filters {
                         ProgramIdFilters::AllowAll => true,
                         ProgramIdFilters::ByFilterType(filter_list) => {
-                            if let Some(filter_to_match) = &account_filter.filters {
-                                // matches sorted filter list
-                                let filter_to_match = Self::normalize(filter_to_match);
-                                filter_list.iter().any(|stored_filters| {
-                                    if filter_to_match.len() >= stored_filters.len() {
-                                        let subset = filter_to_match
-                                            .iter()
-                                            .take(stored_filters.len())
-                                            .cloned()
-                                            .collect::<BTreeSet<_>>();
-                                        subset == *stored_filters
-                                    } else {
-                                        false
-                                    }
-                                })
-                            } else {
-                                false
-                            }
+                            // no filters is same as an empty list of filters
+                            let filter_to_match = Self::normalize(
+                                account_filter.filters.as_deref().unwrap_or_default(),
+                            );
+                            filter_list
+                                .iter()
+                                .any(|stored_filters| stored_filters.is_subset(&filter_to_match))
                         }
                     }
                 }
-- 
2.43.0


From 94d09a29df16658d0932c3af895ad5851b211af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 10/44] fix: except filter store claimed to contain filters
 which were partly excluded

---
 common/src/except_filter_store.rs |  2 +-
 common/src/simple_filter_store.rs | 33 +++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/common/src/except_filter_store.rs b/common/src/except_filter_store.rs
index 9de0da8..cca7cab 100644
--- a/common/src/except_filter_store.rs
+++ b/common/src/except_filter_store.rs
@@ -24,7 +24,7 @@ impl AccountFiltersStoreInterface for ExceptFilterStore {
     }
 
     fn contains_filter(&self, filter: &AccountFilter) -> bool {
-        !self.simple_filter_store.contains_filter_internal(filter)
+        !self.simple_filter_store.intersects_filter(filter)
     }
 }
 
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 81fb535..555b533 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -121,6 +121,39 @@ impl SimpleFilterStore {
         accounts_match && program_filter_match
     }
 
+    // returns true if an account matched by the filter could be already subscribed
+    pub fn intersects_filter(&self, account_filter: &AccountFilter) -> bool {
+        fn size<'a>(mut filters: impl Iterator<Item = &'a AccountFilterType>) -> Option<u64> {
+            filters.find_map(|x| match x {
+                AccountFilterType::Datasize(size) => Some(*size),
+                AccountFilterType::Memcmp(_) => None,
+            })
+        }
+
+        let program_filters = account_filter
+            .program_id
+            .and_then(|program_id| self.program_id_filters.get(&program_id));
+        let program_intersects = match program_filters {
+            Some(ProgramIdFilters::AllowAll) => true,
+            Some(ProgramIdFilters::ByFilterType(filter_list)) => {
+                let size_to_match = size(account_filter.filters.iter().flatten());
+                filter_list.iter().any(|stored_filters| {
+                    match (size(stored_filters.iter()), size_to_match) {
+                        (Some(stored_size), Some(size_to_match)) => stored_size == size_to_match,
+                        _ => true,
+                    }
+                })
+            }
+            None => false,
+        };
+
+        program_intersects
+            || account_filter
+                .accounts
+                .iter()
+                .any(|pk| self.accounts.contains(pk))
+    }
+
     pub fn satisfies_filter(&self, account: &AccountData) -> bool {
         if self.accounts.contains(&account.pubkey) {
             return true;
-- 
2.43.0


From ff7985b1ae39f17d64aa8dc9a27299694577589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 11/44] fix: malformed pubkeys in account filters panicked
 instead of failing the deserialization

---
 common/src/account_filter.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 7a34cee..6d8a55b 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -1,6 +1,6 @@
 use base64::Engine;
 use itertools::Itertools;
-use serde::{ser::SerializeMap, Deserialize, Serialize};
+use serde::{de::Error, ser::SerializeMap, Deserialize, Serialize};
 use solana_rpc_client_api::filter::{Memcmp as RpcMemcmp, MemcmpEncodedBytes, RpcFilterType};
 use solana_sdk::pubkey::Pubkey;
 use std::str::FromStr;
@@ -116,28 +116,30 @@ impl<'de> Deserialize<'de> for AccountFilter {
     {
         let json: serde_json::value::Value = serde_json::value::Value::deserialize(deserializer)?;
 
+        let parse_pubkey = |v: &serde_json::value::Value| {
+            let pubkey = v
+                .as_str()
+                .ok_or_else(|| D::Error::custom("pubkey should be a string"))?;
+            Pubkey::from_str(pubkey).map_err(D::Error::custom)
+        };
+
         let accounts = match json.get("accounts") {
             Some(accounts) => match accounts.as_array() {
                 Some(accounts_array) => accounts_array
                     .iter()
-                    .map(|v| {
-                        Pubkey::from_str(v.as_str().expect("should be string"))
-                            .expect("Pubkey should be valid")
-                    })
-                    .collect_vec(),
+                    .map(parse_pubkey)
+                    .collect::<Result<_, _>>()?,
                 None => vec![],
             },
             None => vec![],
         };
-        let program_id = json.get("programId").map(|program_id| {
-            Pubkey::from_str(program_id.as_str().expect("should be string"))
-                .expect("Pubkey should be valid")
-        });
+        let program_id = match json.get("programId") {
+            Some(program_id) => Some(parse_pubkey(program_id)?),
+            None => None,
+        };
 
         let filters = match json.get("filters") {
-            Some(filters) => {
-                serde_json::from_value(filters.clone()).expect("account filters not deserializable")
-            }
+            Some(filters) => serde_json::from_value(filters.clone()).map_err(D::Error::custom)?,
             None => None,
         };
         Ok(Self {
-- 
2.43.0


From 0838cac3f30dee83069150fb752bcd8111b6c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 12/44] fix: accounts of the default storage were not found
 when other storages are configured

---
 account_storage/src/storage_by_program_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 3437ade..03612df 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -51,8 +51,8 @@ impl AccountStorageInterface for StorageByProgramId {
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if let Ok(accounts) = interface.get_account(account_pk, commitment) {
-                return Ok(accounts);
+            if let Ok(Some(account)) = interface.get_account(account_pk, commitment) {
+                return Ok(Some(account));
             }
         }
         self.default.get_account(account_pk, commitment)
-- 
2.43.0


From 71b61de9d3a30f112abbf1d099162d5619187c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 13/44] fix: an account changing its owner was only updated in
 one of the storages

---
 account_storage/src/storage_by_program_id.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 03612df..fd756da 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -27,12 +27,12 @@ impl StorageByProgramId {
 
 impl AccountStorageInterface for StorageByProgramId {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
+        // owner of the account could have changed, so other storages could also be tracking it
+        let mut updated = false;
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if interface.update_account(account_data.clone(), commitment) {
-                return true;
-            }
+            updated |= interface.update_account(account_data.clone(), commitment);
         }
-        self.default.update_account(account_data, commitment)
+        updated | self.default.update_account(account_data, commitment)
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
-- 
2.43.0


From 058cb39135d6291341fa43c9ddb0b6cbc36c75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 14/44] fix: token 2022 accounts with extensions were not
 stored

---
 token_account_storage/src/token_program_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index f69370f..4cb2938 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -94,8 +94,9 @@ pub fn get_token_program_account_type(
         match type_account {
             0 => {
                 //mint
+                // extensions are not unpacked
                 let mint = spl_token_2022::state::Mint::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Mint::LEN],
                 )?;
                 Ok(TokenProgramAccountType::Mint(MintAccount {
                     program: crate::account_types::Program::Token2022Program,
@@ -110,8 +111,9 @@ pub fn get_token_program_account_type(
                 }))
             }
             1 => {
+                // extensions are not unpacked
                 let token_account = spl_token_2022::state::Account::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Account::LEN],
                 )?;
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
-- 
2.43.0


From 5740d275c7ab86c9c03170b70db5ff4176974156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 15/44] fix: multisig signers were shifted if one of them is
 the default pubkey

---
 .../src/token_program_utils.rs                | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index 4cb2938..f0243fa 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -5,7 +5,6 @@ use crate::account_types::{
 };
 use anyhow::bail;
 use dashmap::DashMap;
-use itertools::Itertools;
 use lite_account_manager_common::{
     account_data::{Account, AccountData},
     account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
@@ -52,6 +51,15 @@ pub fn get_or_create_mint_index(
     }
 }
 
+// unused signers at the end are not stored
+fn used_signers(signers: &[Pubkey]) -> Vec<Pubkey> {
+    let used = signers
+        .iter()
+        .rposition(|x| *x != Pubkey::default())
+        .map_or(0, |last| last + 1);
+    signers[..used].to_vec()
+}
+
 pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
@@ -159,12 +167,7 @@ pub fn get_token_program_account_type(
                         is_initialized: multi_sig.is_initialized,
                         m: multi_sig.m,
                         n: multi_sig.n,
-                        signers: multi_sig
-                            .signers
-                            .iter()
-                            .filter(|x| **x != Pubkey::default())
-                            .copied()
-                            .collect_vec(),
+                        signers: used_signers(&multi_sig.signers),
                     },
                     account_data.pubkey,
                 ))
@@ -231,12 +234,7 @@ pub fn get_token_program_account_type(
                     is_initialized: multi_sig.is_initialized,
                     m: multi_sig.m,
                     n: multi_sig.n,
-                    signers: multi_sig
-                        .signers
-                        .iter()
-                        .filter(|x| **x != Pubkey::default())
-                        .copied()
-                        .collect_vec(),
+                    signers: used_signers(&multi_sig.signers),
                 },
                 account_data.pubkey,
             ))
-- 
2.43.0


From 0c01ce6a94feb7758893a0cdb462a1148fed2629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 16/44] fix: token account storage confused accounts with the
 same pubkey prefix

---
 .../src/inmemory_token_account_storage.rs     | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 16924b0..211f504 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -38,20 +38,15 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     fn contains(&self, pubkey: &Pubkey) -> Option<TokenAccountIndex> {
         match self.pubkey_to_index.entry(pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
-                let value = occ.get();
-                if value.len() > 1 {
-                    let lk = self.token_accounts.read().unwrap();
-                    for index in value {
-                        if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
-                            == *pubkey
-                        {
-                            return Some(*index);
-                        }
+                let lk = self.token_accounts.read().unwrap();
+                for index in occ.get() {
+                    if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
+                        == *pubkey
+                    {
+                        return Some(*index);
                     }
-                    None
-                } else {
-                    Some(value[0])
                 }
+                None
             }
             dashmap::mapref::entry::Entry::Vacant(_) => None,
         }
-- 
2.43.0


From aac3026048a90cf50d11da21f737d9f0bfe188d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 17/44] fix: deleting a token account dropped all accounts with
 the same pubkey prefix

---
 .../src/inmemory_token_account_storage.rs       | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 211f504..93c61cb 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -122,8 +122,9 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     }
 
     fn delete(&self, pubkey: &Pubkey) {
-        let acc_to_remove = self.pubkey_to_index.remove(&pubkey.into());
-        if let Some((_, indexes)) = acc_to_remove {
+        if let dashmap::mapref::entry::Entry::Occupied(mut occ) =
+            self.pubkey_to_index.entry(pubkey.into())
+        {
             let mut write_lk = self.token_accounts.write().unwrap();
             let deleted_account = TokenAccount {
                 program: Program::TokenProgram,
@@ -139,14 +140,20 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
                 additional_data: None,
             }
             .to_bytes();
-            for index in indexes {
-                let binary = write_lk.get_mut(index as usize).unwrap();
+            // there could be other accounts with same partial pubkey
+            let indexes = occ.get_mut();
+            for position in 0..indexes.len() {
+                let binary = write_lk.get_mut(indexes[position] as usize).unwrap();
                 if TokenAccount::get_pubkey_from_binary(binary) == *pubkey {
                     TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
                     *binary = deleted_account;
-                    return;
+                    indexes.remove(position);
+                    break;
                 }
             }
+            if indexes.is_empty() {
+                occ.remove();
+            }
         }
     }
 
-- 
2.43.0


From 9205642f307ac8b7cb9151010c21db2074482b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 18/44] fix: deleted multisig accounts were never removed

---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7db27a7..8d670ac 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -389,7 +389,7 @@ impl TokenProgramAccountsStorage {
                     TOKEN_MINTS_IN_MEMORY.dec();
                     self.mints_by_index.remove(&index);
                     self.accounts_index_by_mint.remove(&index);
-                } else if self.mints_index_by_pubkey.remove(&account_pk).is_some() {
+                } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
                     self.token_accounts_storage.delete(&account_pk);
-- 
2.43.0


From 9f6d26a06a6c9ccc7df0c4155a8c6098f50cb300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 19/44] fix: token accounts of closed or not yet known mints
 made the queries panic

---
 .../src/inmemory_token_storage.rs             | 73 +++++++++++--------
 .../src/token_program_utils.rs                | 25 +++++--
 2 files changed, 58 insertions(+), 40 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 8d670ac..588136b 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -24,7 +24,7 @@ use crate::{
     account_types::{MintAccount, MintIndex, MultiSig, Program, TokenAccount, TokenAccountIndex},
     token_account_storage_interface::TokenAccountStorageInterface,
     token_program_utils::{
-        get_spl_token_owner_mint_filter, get_token_program_account_type,
+        get_or_create_mint_index, get_spl_token_owner_mint_filter, get_token_program_account_type,
         token_account_to_solana_account, token_mint_to_solana_account,
         token_multisig_to_solana_account, token_program_account_to_solana_account,
         TokenProgramAccountType,
@@ -150,7 +150,7 @@ impl ProcessedAccountStore {
     pub fn get_processed_for_slot(
         &self,
         slot_info: SlotInfo,
-        mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+        mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
     ) -> Vec<AccountData> {
         let lk = self.processed_slot_accounts.read().unwrap();
         match lk.get(&slot_info.slot) {
@@ -162,7 +162,7 @@ impl ProcessedAccountStore {
                         &account.processed_account,
                         slot_info.slot,
                         account.write_version,
-                        mints_by_index,
+                        mint_pubkey_by_index,
                     )
                 })
                 .collect(),
@@ -303,6 +303,8 @@ impl ProcessedAccountStore {
 pub struct TokenProgramAccountsStorage {
     mints_by_index: Arc<DashMap<MintIndex, MintAccount>>,
     mints_index_by_pubkey: Arc<DashMap<Pubkey, MintIndex>>,
+    // has also the mints which are used by token accounts but are closed or not yet known
+    mint_pubkey_by_index: Arc<DashMap<MintIndex, Pubkey>>,
     multisigs: Arc<DashMap<Pubkey, MultiSig>>,
     accounts_index_by_mint: Arc<DashMap<MintIndex, VecDeque<TokenAccountIndex>>>,
     account_by_owner_pubkey: Arc<DashMap<InmemoryPubkey, Vec<TokenAccountIndex>>>,
@@ -319,6 +321,7 @@ impl TokenProgramAccountsStorage {
         Self {
             mints_by_index: Arc::new(DashMap::new()),
             mints_index_by_pubkey: Arc::new(DashMap::new()),
+            mint_pubkey_by_index: Arc::new(DashMap::new()),
             accounts_index_by_mint: Arc::new(DashMap::new()),
             multisigs: Arc::new(DashMap::new()),
             account_by_owner_pubkey: Arc::new(DashMap::new()),
@@ -367,28 +370,24 @@ impl TokenProgramAccountsStorage {
                 }
             }
             TokenProgramAccountType::Mint(mint_data) => {
-                match self.mints_index_by_pubkey.entry(mint_data.pubkey) {
-                    dashmap::mapref::entry::Entry::Occupied(occ) => {
-                        self.mints_by_index.insert(*occ.get(), mint_data);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(v) => {
-                        TOKEN_MINTS_IN_MEMORY.inc();
-                        let index = self
-                            .mint_counter
-                            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-                        self.mints_by_index.insert(index, mint_data);
-                        v.insert(index);
-                    }
+                let index = get_or_create_mint_index(
+                    mint_data.pubkey,
+                    &self.mints_index_by_pubkey,
+                    &self.mint_counter,
+                    &self.mint_pubkey_by_index,
+                );
+                if self.mints_by_index.insert(index, mint_data).is_none() {
+                    TOKEN_MINTS_IN_MEMORY.inc();
                 }
             }
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
                 self.multisigs.insert(pubkey, multisig_data);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                if let Some((_, index)) = self.mints_index_by_pubkey.remove(&account_pk) {
+                let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
+                // index of the mint is kept as it could still have token accounts
+                if mint_index.is_some_and(|index| self.mints_by_index.remove(&index).is_some()) {
                     TOKEN_MINTS_IN_MEMORY.dec();
-                    self.mints_by_index.remove(&index);
-                    self.accounts_index_by_mint.remove(&index);
                 } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
@@ -422,12 +421,13 @@ impl TokenProgramAccountsStorage {
         }
 
         if let Some(mint_index) = self.mints_index_by_pubkey.get(&account_pk) {
-            let mint_data = self.mints_by_index.get(&mint_index).unwrap();
-            return Some(token_mint_to_solana_account(
-                &mint_data,
-                self.finalized_slot.load(Ordering::Relaxed),
-                0,
-            ));
+            if let Some(mint_data) = self.mints_by_index.get(&mint_index) {
+                return Some(token_mint_to_solana_account(
+                    &mint_data,
+                    self.finalized_slot.load(Ordering::Relaxed),
+                    0,
+                ));
+            }
         }
 
         if let Some(token_account) = self.token_accounts_storage.get_by_pubkey(&account_pk) {
@@ -438,7 +438,7 @@ impl TokenProgramAccountsStorage {
                 &token_account,
                 self.finalized_slot.load(Ordering::Relaxed),
                 0,
-                &self.mints_by_index,
+                &self.mint_pubkey_by_index,
             );
         }
         None
@@ -465,7 +465,14 @@ impl TokenProgramAccountsStorage {
                     dashmap::mapref::entry::Entry::Vacant(_) => None,
                 };
 
-                let mint = mint.map(|pk| *self.mints_index_by_pubkey.get(&pk).unwrap().value());
+                let mint = match mint {
+                    Some(pk) => match self.mints_index_by_pubkey.get(&pk) {
+                        Some(mint_index) => Some(*mint_index),
+                        // mint is not known so there are no token accounts for it
+                        None => return Ok(vec![]),
+                    },
+                    None => None,
+                };
 
                 match indexes {
                     Some(indexes) => {
@@ -486,7 +493,7 @@ impl TokenProgramAccountsStorage {
                                     token_account,
                                     finalized_slot,
                                     0,
-                                    &self.mints_by_index,
+                                    &self.mint_pubkey_by_index,
                                 )
                             })
                             .collect_vec();
@@ -513,7 +520,7 @@ impl TokenProgramAccountsStorage {
                                         token_account,
                                         finalized_slot,
                                         0,
-                                        &self.mints_by_index,
+                                        &self.mint_pubkey_by_index,
                                     )
                                 })
                                 .collect_vec();
@@ -569,6 +576,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             &account_data,
             &self.mints_index_by_pubkey,
             &self.mint_counter,
+            &self.mint_pubkey_by_index,
         ) {
             Ok(res) => res,
             Err(e) => {
@@ -599,6 +607,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             &account_data,
             &self.mints_index_by_pubkey,
             &self.mint_counter,
+            &self.mint_pubkey_by_index,
         ) {
             Ok(res) => res,
             Err(e) => {
@@ -635,7 +644,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         &processed_account.processed_account,
                         *slot,
                         0,
-                        &self.mints_by_index,
+                        &self.mint_pubkey_by_index,
                     )),
                     None => Ok(self.get_account_finalized(account_pk)),
                 }
@@ -670,7 +679,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         &processed_account.processed_account,
                         *slot,
                         processed_account.write_version,
-                        &self.mints_by_index,
+                        &self.mint_pubkey_by_index,
                     );
                     match updated_account {
                         Some(updated_account) => {
@@ -706,7 +715,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                     self.processed_storage.update_slot_info(slot_info);
                 }
                 self.processed_storage
-                    .get_processed_for_slot(slot_info, &self.mints_by_index)
+                    .get_processed_for_slot(slot_info, &self.mint_pubkey_by_index)
             }
             Commitment::Finalized => {
                 log::debug!("finalize slot data  : {slot_info:?}");
@@ -725,7 +734,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                             &acc.processed_account,
                             *slot,
                             acc.write_version,
-                            &self.mints_by_index,
+                            &self.mint_pubkey_by_index,
                         )
                     })
                     .collect_vec();
diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index f0243fa..fd321a8 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -40,11 +40,13 @@ pub fn get_or_create_mint_index(
     mint: Pubkey,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
     mint_index_count: &Arc<AtomicU32>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
 ) -> MintIndex {
     match mint_index_by_pubkey.entry(mint) {
         dashmap::mapref::entry::Entry::Occupied(occ) => *occ.get(),
         dashmap::mapref::entry::Entry::Vacant(vac) => {
             let index = mint_index_count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+            mint_pubkey_by_index.insert(index, mint);
             vac.insert(index);
             index
         }
@@ -64,6 +66,7 @@ pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
     mint_index_count: &Arc<AtomicU32>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
 ) -> anyhow::Result<TokenProgramAccountType> {
     if account_data.account.lamports == 0
         || (account_data.account.owner != spl_token::id()
@@ -127,6 +130,7 @@ pub fn get_token_program_account_type(
                     token_account.mint,
                     mint_index_by_pubkey,
                     mint_index_count,
+                    mint_pubkey_by_index,
                 );
                 Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
                     program: crate::account_types::Program::Token2022Program,
@@ -197,6 +201,7 @@ pub fn get_token_program_account_type(
                 token_account.mint,
                 mint_index_by_pubkey,
                 mint_index_count,
+                mint_pubkey_by_index,
             );
             Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
                 program: crate::account_types::Program::TokenProgram,
@@ -248,17 +253,18 @@ pub fn token_account_to_solana_account(
     token_account: &TokenAccount,
     updated_slot: u64,
     write_version: u64,
-    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
 ) -> Option<AccountData> {
     if token_account.is_deleted {
         return None;
     }
     let (delegate, delegated_amount) = token_account.delegate.unwrap_or_default();
-    let mint = mints_by_index.get(&token_account.mint).unwrap();
+    // mint account could be closed or not yet known, so only its pubkey is used
+    let mint = *mint_pubkey_by_index.get(&token_account.mint)?;
     let data = match token_account.program {
         Program::TokenProgram => {
             let t_acc = spl_token::state::Account {
-                mint: mint.pubkey,
+                mint,
                 owner: token_account.owner,
                 amount: token_account.amount,
                 delegate: if token_account.delegate.is_some() {
@@ -285,7 +291,7 @@ pub fn token_account_to_solana_account(
         }
         Program::Token2022Program => {
             let t_acc = spl_token_2022::state::Account {
-                mint: mint.pubkey,
+                mint,
                 owner: token_account.owner,
                 amount: token_account.amount,
                 delegate: if token_account.delegate.is_some() {
@@ -454,12 +460,15 @@ pub fn token_program_account_to_solana_account(
     token_program_account: &TokenProgramAccountType,
     updated_slot: u64,
     write_version: u64,
-    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
 ) -> Option<AccountData> {
     match token_program_account {
-        TokenProgramAccountType::TokenAccount(tok_acc) => {
-            token_account_to_solana_account(tok_acc, updated_slot, write_version, mints_by_index)
-        }
+        TokenProgramAccountType::TokenAccount(tok_acc) => token_account_to_solana_account(
+            tok_acc,
+            updated_slot,
+            write_version,
+            mint_pubkey_by_index,
+        ),
         TokenProgramAccountType::Mint(mint_account) => Some(token_mint_to_solana_account(
             mint_account,
             updated_slot,
-- 
2.43.0


From 860cbac8af3b3866601b104d60560751d52c046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 20/44] fix: accounts recreated as another kind of token
 program account were kept as both kinds

---
 .../src/inmemory_token_storage.rs             | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 588136b..59a84f3 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -335,6 +335,22 @@ impl TokenProgramAccountsStorage {
 
     // treat account for finalized commitment
     pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
+        // account could have been deleted or recreated as an account of another kind
+        let account_pk = account.pubkey();
+        if !matches!(account, TokenProgramAccountType::Mint(_)) {
+            let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
+            // index of the mint is kept as it could still have token accounts
+            if mint_index.is_some_and(|index| self.mints_by_index.remove(&index).is_some()) {
+                TOKEN_MINTS_IN_MEMORY.dec();
+            }
+        }
+        if !matches!(account, TokenProgramAccountType::MultiSig(..)) {
+            self.multisigs.remove(&account_pk);
+        }
+        if !matches!(account, TokenProgramAccountType::TokenAccount(_)) {
+            self.token_accounts_storage.delete(&account_pk);
+        }
+
         match account {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 let token_account_owner = token_account.owner;
@@ -383,16 +399,8 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
                 self.multisigs.insert(pubkey, multisig_data);
             }
-            TokenProgramAccountType::Deleted(account_pk) => {
-                let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
-                // index of the mint is kept as it could still have token accounts
-                if mint_index.is_some_and(|index| self.mints_by_index.remove(&index).is_some()) {
-                    TOKEN_MINTS_IN_MEMORY.dec();
-                } else if self.multisigs.remove(&account_pk).is_some() {
-                    // do nothing multisig account is removed
-                } else {
-                    self.token_accounts_storage.delete(&account_pk);
-                }
+            TokenProgramAccountType::Deleted(_) => {
+                // already removed
             }
         }
         true
-- 
2.43.0


From 9df170c596fe9991f482ddfbe729a9932cf2f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 21/44] fix: token accounts were not found by their new owner
 or mint

---
 .../src/inmemory_token_storage.rs                  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 59a84f3..50ab6b6 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -355,10 +355,11 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 let token_account_owner = token_account.owner;
                 let mint_index = token_account.mint;
-                let (token_index, is_added) =
-                    self.token_accounts_storage.save_or_update(token_account);
-                if is_added {
-                    // add account to the indexes
+                // owner (or mint if account is recreated) of the account can change
+                let previous = self.token_accounts_storage.get_by_pubkey(&account_pk);
+                let (token_index, _) = self.token_accounts_storage.save_or_update(token_account);
+                // add account to the indexes
+                if previous.as_ref().map(|x| x.mint) != Some(mint_index) {
                     // add account index in accounts_index_by_mint map
                     match self.accounts_index_by_mint.entry(mint_index) {
                         dashmap::mapref::entry::Entry::Occupied(mut occ) => {
@@ -370,7 +371,8 @@ impl TokenProgramAccountsStorage {
                             v.insert(q);
                         }
                     }
-
+                }
+                if previous.as_ref().map(|x| x.owner) != Some(token_account_owner) {
                     // add account index in account_by_owner_pubkey map
                     match self
                         .account_by_owner_pubkey
@@ -523,6 +525,8 @@ impl TokenProgramAccountsStorage {
                                 .token_accounts_storage
                                 .get_by_index(indexes)?
                                 .iter()
+                                // mint of the account could have changed
+                                .filter(|acc| acc.mint == *mint_index)
                                 .filter_map(|token_account| {
                                     token_account_to_solana_account(
                                         token_account,
-- 
2.43.0


From 3ff94ef60aac110dbf9805000b13e2bf6c624da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 22/44] fix: token program snapshots could not be loaded

---
 .../src/inmemory_token_storage.rs             | 87 +++++++++----------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 50ab6b6..028d531 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -568,7 +568,8 @@ impl TokenProgramAccountsStorage {
 
 #[derive(Serialize, Deserialize)]
 struct TokenProgramSnapshot {
-    pub mints: Vec<(MintIndex, MintAccount)>,
+    pub mint_pubkeys: Vec<(MintIndex, Pubkey)>,
+    pub mints: Vec<MintAccount>,
     pub multisigs: Vec<MultiSig>,
     pub token_accounts: Vec<Vec<u8>>,
 }
@@ -770,19 +771,26 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let mints = self
             .mints_by_index
             .iter()
-            .filter_map(|mint_data| {
-                if mint_data.program == program {
-                    Some((*mint_data.key(), mint_data.clone()))
-                } else {
-                    None
-                }
-            })
+            .filter(|mint_data| mint_data.program == program)
+            .map(|mint_data| mint_data.clone())
             .collect_vec();
 
-        let multisigs = self.multisigs.iter().map(|ite| ite.clone()).collect_vec();
+        let multisigs = self
+            .multisigs
+            .iter()
+            .filter(|multisig| multisig.program == program)
+            .map(|ite| ite.clone())
+            .collect_vec();
         let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
+        // should be done after creating snapshot of token accounts, so that all of their mints are present
+        let mint_pubkeys = self
+            .mint_pubkey_by_index
+            .iter()
+            .map(|ite| (*ite.key(), *ite.value()))
+            .collect_vec();
 
         let snapshot = TokenProgramSnapshot {
+            mint_pubkeys,
             mints,
             multisigs,
             token_accounts,
@@ -792,7 +800,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         lz4::block::compress(
             &binary,
             Some(lz4::block::CompressionMode::HIGHCOMPRESSION(8)),
-            false,
+            true, // size is required to decompress
         )
         .map_err(|_| AccountLoadingError::CompressionIssues)
     }
@@ -808,58 +816,41 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let snapshot = bincode::deserialize::<TokenProgramSnapshot>(&decompress)
             .map_err(|_| AccountLoadingError::DeserializationIssues)?;
         let TokenProgramSnapshot {
+            mint_pubkeys,
             mints,
             multisigs,
             token_accounts,
         } = snapshot;
 
         for multisig in multisigs {
-            self.multisigs.insert(multisig.pubkey, multisig);
+            let pubkey = multisig.pubkey;
+            self.add_account_finalized(TokenProgramAccountType::MultiSig(multisig, pubkey));
         }
 
-        let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
         // remap all the mints
-        for (index, mint_account) in mints {
-            match self.mints_index_by_pubkey.get_mut(&mint_account.pubkey) {
-                Some(value) => {
-                    mint_mapping.insert(index, *value);
-                    self.mints_by_index.insert(index, mint_account);
-                }
-                None => {
-                    let mint_index = self.mint_counter.fetch_add(1, Ordering::Relaxed);
-                    mint_mapping.insert(index, mint_index);
-                    self.mints_by_index.insert(mint_index, mint_account);
-                }
-            }
+        let mint_mapping = mint_pubkeys
+            .into_iter()
+            .map(|(index, pubkey)| {
+                let new_index = get_or_create_mint_index(
+                    pubkey,
+                    &self.mints_index_by_pubkey,
+                    &self.mint_counter,
+                    &self.mint_pubkey_by_index,
+                );
+                (index, new_index)
+            })
+            .collect::<HashMap<MintIndex, MintIndex>>();
+        for mint_account in mints {
+            self.add_account_finalized(TokenProgramAccountType::Mint(mint_account));
         }
 
         for token_account_bytes in token_accounts {
             // use the new mint index
             let mut token_account = TokenAccount::from_bytes(&token_account_bytes);
-            let new_mint_index = *mint_mapping.get(&token_account.mint).unwrap();
-            token_account.mint = new_mint_index;
-            let owner = token_account.owner;
-            let (index, is_added) = self.token_accounts_storage.save_or_update(token_account);
-            if is_added {
-                match self.account_by_owner_pubkey.get_mut(&owner.into()) {
-                    Some(mut accs) => accs.push(index),
-                    None => {
-                        self.account_by_owner_pubkey
-                            .insert(owner.into(), vec![index]);
-                    }
-                }
-
-                match self.accounts_index_by_mint.get_mut(&new_mint_index) {
-                    Some(mut accs) => {
-                        accs.push_back(index);
-                    }
-                    None => {
-                        let mut q = VecDeque::new();
-                        q.push_back(index);
-                        self.accounts_index_by_mint.insert(new_mint_index, q);
-                    }
-                }
-            }
+            token_account.mint = *mint_mapping
+                .get(&token_account.mint)
+                .ok_or(AccountLoadingError::DeserializationIssues)?;
+            self.add_account_finalized(TokenProgramAccountType::TokenAccount(token_account));
         }
 
         Ok(())
-- 
2.43.0


From 830eae70c12bcb78b3972918a91cd378cd1e2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 23/44] fix: token storage lost the parent links of slots
 notified before their accounts

---
 token_account_storage/src/inmemory_token_storage.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 028d531..b6c443e 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -140,7 +140,7 @@ impl ProcessedAccountStore {
                     slot_info.slot,
                     ProcessedAccountBySlot {
                         processed_accounts: HashMap::new(),
-                        slot_parent: None,
+                        slot_parent: Some(slot_info.parent),
                     },
                 );
             }
@@ -723,10 +723,9 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             }
             Commitment::Confirmed => {
                 log::debug!("confirm slot data  : {slot_info:?}");
-                if self.confirmed_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
-                    self.processed_storage.update_slot_info(slot_info);
-                }
+                self.processed_storage.update_slot_info(slot_info);
+                self.confirmed_slot
+                    .fetch_max(slot_info.slot, Ordering::Relaxed);
                 self.processed_storage
                     .get_processed_for_slot(slot_info, &self.mint_pubkey_by_index)
             }
-- 
2.43.0


From 8233537e812d8bee1cf339e27d1fff1ab6cf7924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 24/44] fix: late slot notifications and updates regressed the
 finalized and processed token accounts

---
 .../src/inmemory_token_storage.rs               | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index b6c443e..4c0c244 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -598,6 +598,10 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             }
         };
         if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
+            if account_data.updated_slot < self.finalized_slot.load(Ordering::Relaxed) {
+                // update is too late, finalized state could be more recent
+                return false;
+            }
             self.processed_storage.insert_account(
                 account_data.pubkey,
                 token_program_account,
@@ -731,10 +735,17 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             }
             Commitment::Finalized => {
                 log::debug!("finalize slot data  : {slot_info:?}");
-                if self.finalized_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.processed_storage.update_slot_info(slot_info);
-                    self.finalized_slot.store(slot_info.slot, Ordering::Relaxed);
+                let last_finalized = self
+                    .finalized_slot
+                    .fetch_max(slot_info.slot, Ordering::Relaxed);
+                if last_finalized > slot_info.slot {
+                    // a more recent slot is already finalized
+                    return vec![];
                 }
+                self.processed_storage.update_slot_info(slot_info);
+                // finalized slot is also confirmed
+                self.confirmed_slot
+                    .fetch_max(slot_info.slot, Ordering::Relaxed);
 
                 // move data from processed storage to main storage
                 let finalized_accounts = self.processed_storage.finalize(slot_info.slot);
-- 
2.43.0


From 486b7b75ce187b17549dc3f5ab2c12c9d1648d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 25/44] fix: deletion of a token account which is not yet
 finalized was ignored

---
 token_account_storage/src/inmemory_token_storage.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 4c0c244..b49094e 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -123,6 +123,12 @@ impl ProcessedAccountStore {
         }
     }
 
+    pub fn contains(&self, account_pk: &Pubkey) -> bool {
+        let lk = self.processed_slot_accounts.read().unwrap();
+        lk.values()
+            .any(|slot| slot.processed_accounts.contains_key(account_pk))
+    }
+
     pub fn update_slot_info(&self, slot_info: SlotInfo) {
         log::debug!(
             "update slot info slot : {}, parent: {}, root: {}",
@@ -418,6 +424,7 @@ impl TokenProgramAccountsStorage {
                 .token_accounts_storage
                 .contains(&account_data.pubkey)
                 .is_some()
+            || self.processed_storage.contains(&account_data.pubkey)
     }
 
     pub fn get_account_finalized(&self, account_pk: Pubkey) -> Option<AccountData> {
-- 
2.43.0


From d3ea685aa8662068272433c753f64e5b92fdf1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 26/44] fix: token accounts being finalized were briefly
 missing

---
 .../src/inmemory_token_storage.rs             | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index b49094e..e86baea 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -182,7 +182,12 @@ impl ProcessedAccountStore {
     }
 
     // returns list of accounts that are finalized
-    pub fn finalize(&self, slot: u64) -> Vec<(ProcessedAccount, u64)> {
+    // accounts are saved before they disappear from the processed accounts
+    pub fn finalize(
+        &self,
+        slot: u64,
+        save_finalized: impl Fn(TokenProgramAccountType),
+    ) -> Vec<(ProcessedAccount, u64)> {
         log::debug!("finalizing slot : {slot}");
         let mut map_of_accounts: HashMap<Pubkey, (ProcessedAccount, u64)> = HashMap::new();
         let mut lk = self.processed_slot_accounts.write().unwrap();
@@ -224,6 +229,7 @@ impl ProcessedAccountStore {
         }
         let mut return_vec = Vec::with_capacity(map_of_accounts.len());
         for (_, acc) in map_of_accounts.drain() {
+            save_finalized(acc.0.processed_account.clone());
             return_vec.push(acc);
         }
         return_vec
@@ -755,9 +761,13 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                     .fetch_max(slot_info.slot, Ordering::Relaxed);
 
                 // move data from processed storage to main storage
-                let finalized_accounts = self.processed_storage.finalize(slot_info.slot);
+                let finalized_accounts =
+                    self.processed_storage
+                        .finalize(slot_info.slot, |processed_account| {
+                            self.add_account_finalized(processed_account);
+                        });
 
-                let accounts_notifications = finalized_accounts
+                finalized_accounts
                     .iter()
                     .filter_map(|(acc, slot)| {
                         token_program_account_to_solana_account(
@@ -767,11 +777,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                             &self.mint_pubkey_by_index,
                         )
                     })
-                    .collect_vec();
-                for (finalized_account, _) in finalized_accounts {
-                    self.add_account_finalized(finalized_account.processed_account);
-                }
-                accounts_notifications
+                    .collect_vec()
             }
         }
     }
-- 
2.43.0


From bc6e68836c813cc03a58f86439629888f34b70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 27/44] fix: getProgramAccounts of token storage ignored
 filters and accounts which are not yet finalized

---
 .../src/inmemory_token_storage.rs             | 88 ++++++++++++-------
 .../src/token_program_utils.rs                | 20 ++---
 2 files changed, 68 insertions(+), 40 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index e86baea..1c5435e 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -267,6 +267,39 @@ impl ProcessedAccountStore {
         }
     }
 
+    // returns all the accounts which are not yet finalized
+    pub fn get_all_accounts(
+        &self,
+        commitment: Commitment,
+        confirmed_slot: Slot,
+    ) -> HashMap<Pubkey, (ProcessedAccount, u64)> {
+        let lk = self.processed_slot_accounts.read().unwrap();
+        let mut accounts: HashMap<Pubkey, (ProcessedAccount, u64)> = HashMap::new();
+        let mut add_accounts = |slot: Slot, processed_accounts: &ProcessedAccountBySlot| {
+            for (pk, acc) in &processed_accounts.processed_accounts {
+                // slots are visited from most recent to least recent
+                accounts.entry(*pk).or_insert_with(|| (acc.clone(), slot));
+            }
+        };
+        if commitment == Commitment::Processed {
+            for (slot, processed_accounts) in lk.iter().rev() {
+                if *slot <= confirmed_slot {
+                    break;
+                }
+                add_accounts(*slot, processed_accounts);
+            }
+        }
+        let mut process_slot = Some(confirmed_slot);
+        while let Some(slot) = process_slot {
+            let Some(processed_accounts) = lk.get(&slot) else {
+                break;
+            };
+            add_accounts(slot, processed_accounts);
+            process_slot = processed_accounts.slot_parent;
+        }
+        accounts
+    }
+
     pub fn get_accounts(
         &self,
         account_pks: Vec<Pubkey>,
@@ -692,42 +725,37 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         if program_pubkey != spl_token::id() && program_pubkey != spl_token_2022::id() {
             return Err(AccountLoadingError::WrongIndex);
         }
+        let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
+        // should be done before getting finalized accounts, so that accounts being finalized are not missed
+        let processed_accounts = match commitment {
+            Commitment::Processed | Commitment::Confirmed => self
+                .processed_storage
+                .get_all_accounts(commitment, confirmed_slot),
+            Commitment::Finalized => HashMap::new(),
+        };
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
-            self.get_program_accounts_finalized(program_pubkey, account_filters)?;
-        let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
-        if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
-            // get list of all pks to search
-            let pks = account_data.iter().map(|x| x.pubkey).collect_vec();
-            let processed_accounts =
-                self.processed_storage
-                    .get_accounts(pks, commitment, confirmed_slot);
-            let mut to_remove = vec![];
-            for (index, processed_account) in processed_accounts.iter().enumerate() {
-                if let Some((processed_account, slot)) = processed_account {
-                    let updated_account = token_program_account_to_solana_account(
+            self.get_program_accounts_finalized(program_pubkey, account_filters.clone())?;
+        account_data.retain(|account| !processed_accounts.contains_key(&account.pubkey));
+        account_data.extend(
+            processed_accounts
+                .values()
+                .filter_map(|(processed_account, slot)| {
+                    token_program_account_to_solana_account(
                         &processed_account.processed_account,
                         *slot,
                         processed_account.write_version,
                         &self.mint_pubkey_by_index,
-                    );
-                    match updated_account {
-                        Some(updated_account) => {
-                            // update with processed or confirmed account state
-                            *account_data.get_mut(index).unwrap() = updated_account;
-                        }
-                        None => {
-                            // account must have been deleted
-                            to_remove.push(index);
-                        }
-                    }
-                }
-            }
-
-            for index in to_remove.iter().rev() {
-                account_data.remove(*index);
-            }
-        }
+                    )
+                }),
+        );
+        let filters = account_filters.unwrap_or_default();
+        account_data.retain(|account| {
+            account.account.owner == program_pubkey
+                && filters
+                    .iter()
+                    .all(|filter| filter.allows(&account.account.data.data()))
+        });
         Ok(account_data)
     }
 
diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index fd321a8..dbff4ce 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -7,7 +7,7 @@ use anyhow::bail;
 use dashmap::DashMap;
 use lite_account_manager_common::{
     account_data::{Account, AccountData},
-    account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
+    account_filter::{AccountFilterType, MemcmpFilter},
 };
 use solana_sdk::{
     program_option::COption,
@@ -486,7 +486,7 @@ pub fn get_spl_token_owner_mint_filter(
     filters: &[AccountFilterType],
 ) -> (Option<Pubkey>, Option<Pubkey>) {
     let mut data_size_filter: Option<u64> = None;
-    let mut memcmp_filter: Option<&[u8]> = None;
+    let mut memcmp_filter: Option<Vec<u8>> = None;
     let mut owner_key: Option<Pubkey> = None;
     let mut incorrect_owner_len: Option<usize> = None;
     let mut incorrect_mint_len: Option<usize> = None;
@@ -498,13 +498,13 @@ pub fn get_spl_token_owner_mint_filter(
     for filter in filters {
         match filter {
             AccountFilterType::Datasize(size) => data_size_filter = Some(*size),
-            AccountFilterType::Memcmp(MemcmpFilter {
-                offset,
-                data: MemcmpFilterData::Bytes(bytes),
-                ..
-            }) => {
+            AccountFilterType::Memcmp(memcmp) => {
+                let Some(bytes) = memcmp.try_bytes() else {
+                    continue;
+                };
+                let MemcmpFilter { offset, .. } = memcmp;
                 if *offset == account_packed_len && *program_id == spl_token_2022::id() {
-                    memcmp_filter = Some(bytes)
+                    memcmp_filter = Some(bytes.clone())
                 };
                 if *offset == SPL_TOKEN_ACCOUNT_OWNER_OFFSET {
                     if bytes.len() == PUBKEY_BYTES {
@@ -521,10 +521,10 @@ pub fn get_spl_token_owner_mint_filter(
                     }
                 }
             }
-            _ => {}
         }
     }
-    if data_size_filter == Some(account_packed_len) || memcmp_filter == Some(&[ACCOUNTTYPE_ACCOUNT])
+    if data_size_filter == Some(account_packed_len)
+        || memcmp_filter == Some(vec![ACCOUNTTYPE_ACCOUNT])
     {
         if let Some(incorrect_owner_len) = incorrect_owner_len {
             log::error!(
-- 
2.43.0


From 1c2484c8898b1bf5ef8b6f7ef760b8406095f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 28/44] fix: accounts loaded on demand were not added to the
 filters

---
 accounts_on_demand/src/accounts_on_demand.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index e288591..e958041 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -84,8 +84,10 @@ impl AccountStorageInterface for AccountsOnDemand {
                     None => {
                         // account is not loading
                         if self.mutable_filters.contains_account(account_pk) {
-                            // account was already tried to be loaded but does not exists
-                            Ok(None)
+                            // account was already tried to be loaded
+                            // it does not exists or was loaded in the meantime
+                            drop(lk);
+                            self.accounts_storage.get_account(account_pk, commitment)
                         } else {
                             // update account loading map
                             // create a notify for accounts under loading
@@ -104,6 +106,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 program_id: None,
                                 filters: None,
                             }];
+                            self.mutable_filters.add_account_filters(&account_filter);
                             self.accounts_source
                                 .save_snapshot(self.accounts_storage.clone(), account_filter)
                                 .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-- 
2.43.0


From 2209b41411cb21f80e69058e9c10ff4a4d9dfc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 29/44] fix: failing to load accounts on demand blocked or hid
 the accounts forever

---
 accounts_on_demand/src/accounts_on_demand.rs | 100 +++++++++++++++----
 1 file changed, 80 insertions(+), 20 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index e958041..a6972ea 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -12,7 +12,7 @@ use prometheus::{opts, register_int_gauge, IntGauge};
 use solana_sdk::pubkey::Pubkey;
 use std::sync::Condvar;
 use std::{
-    collections::{BTreeMap, HashMap, HashSet},
+    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
     sync::{Arc, Mutex},
     time::Duration,
 };
@@ -33,6 +33,9 @@ pub struct AccountsOnDemand {
     accounts_storage: Arc<dyn AccountStorageInterface>,
     accounts_in_loading: Arc<Mutex<HashMap<Pubkey, Arc<Condvar>>>>,
     gpa_in_loading: Arc<Mutex<BTreeMap<GpaAccountKey, Arc<Condvar>>>>,
+    // filters which are subscribed but their snapshot could not be loaded
+    failed_accounts: Arc<Mutex<HashSet<Pubkey>>>,
+    failed_gpa: Arc<Mutex<BTreeSet<GpaAccountKey>>>,
 }
 
 impl AccountsOnDemand {
@@ -47,8 +50,29 @@ impl AccountsOnDemand {
             accounts_storage: accounts_storage.clone(),
             accounts_in_loading: Arc::new(Mutex::new(HashMap::new())),
             gpa_in_loading: Arc::new(Mutex::new(BTreeMap::new())),
+            failed_accounts: Arc::new(Mutex::new(HashSet::new())),
+            failed_gpa: Arc::new(Mutex::new(BTreeSet::new())),
         }
     }
+
+    fn is_account_loaded(&self, account_pk: &Pubkey) -> bool {
+        self.mutable_filters.contains_account(*account_pk)
+            && !self.failed_accounts.lock().unwrap().contains(account_pk)
+    }
+
+    fn is_gpa_loaded(&self, program_id: Pubkey, filters: &Option<Vec<AccountFilterType>>) -> bool {
+        let account_filter = AccountFilter {
+            accounts: vec![],
+            program_id: Some(program_id),
+            filters: filters.clone(),
+        };
+        self.mutable_filters.contains_filter(&account_filter)
+            && !self
+                .failed_gpa
+                .lock()
+                .unwrap()
+                .contains(&(program_id, filters.clone().unwrap_or_default()))
+    }
 }
 
 impl AccountStorageInterface for AccountsOnDemand {
@@ -77,13 +101,21 @@ impl AccountStorageInterface for AccountsOnDemand {
                 match lk.get(&account_pk).cloned() {
                     Some(loading_account) => {
                         match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                            Ok(_) => self.accounts_storage.get_account(account_pk, commitment),
+                            Ok((lk, _)) => {
+                                drop(lk);
+                                let account =
+                                    self.accounts_storage.get_account(account_pk, commitment)?;
+                                if account.is_none() && !self.is_account_loaded(&account_pk) {
+                                    return Err(AccountLoadingError::ErrorCreatingSnapshot);
+                                }
+                                Ok(account)
+                            }
                             Err(_timeout) => Err(AccountLoadingError::OperationTimeOut),
                         }
                     }
                     None => {
                         // account is not loading
-                        if self.mutable_filters.contains_account(account_pk) {
+                        if self.is_account_loaded(&account_pk) {
                             // account was already tried to be loaded
                             // it does not exists or was loaded in the meantime
                             drop(lk);
@@ -95,9 +127,10 @@ impl AccountStorageInterface for AccountsOnDemand {
                             log::debug!("subscribing to accounts update : {}", account_pk);
                             let mut hash_set = HashSet::new();
                             hash_set.insert(account_pk);
-                            self.accounts_source
-                                .subscribe_accounts(hash_set)
-                                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+                            if self.accounts_source.subscribe_accounts(hash_set).is_err() {
+                                lk.remove(&account_pk);
+                                return Err(AccountLoadingError::ErrorSubscribingAccount);
+                            }
                             drop(lk);
 
                             // save snapshot
@@ -107,18 +140,26 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 filters: None,
                             }];
                             self.mutable_filters.add_account_filters(&account_filter);
-                            self.accounts_source
-                                .save_snapshot(self.accounts_storage.clone(), account_filter)
-                                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
+                            let snapshot_result = self
+                                .accounts_source
+                                .save_snapshot(self.accounts_storage.clone(), account_filter);
                             // update loading lock
                             {
                                 let mut write_lock = self.accounts_in_loading.lock().unwrap();
+                                let mut failed_accounts = self.failed_accounts.lock().unwrap();
+                                match snapshot_result {
+                                    Ok(_) => failed_accounts.remove(&account_pk),
+                                    Err(_) => failed_accounts.insert(account_pk),
+                                };
+                                drop(failed_accounts);
                                 let notify = write_lock.remove(&account_pk);
                                 drop(write_lock);
                                 if let Some(notify) = notify {
                                     notify.notify_all();
                                 }
                             }
+                            snapshot_result
+                                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
                             self.accounts_storage.get_account(account_pk, commitment)
                         }
                     }
@@ -140,7 +181,7 @@ impl AccountStorageInterface for AccountsOnDemand {
         };
         // accounts on demand will fetch gPA if they do not exist
         // it will first compare with existing filters and do the necessary if needed
-        if self.mutable_filters.contains_filter(&account_filter) {
+        if self.is_gpa_loaded(program_id, &filters) {
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
         } else {
@@ -152,11 +193,17 @@ impl AccountStorageInterface for AccountsOnDemand {
             {
                 Some(loading_account) => {
                     match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                        Ok(_) => self.accounts_storage.get_program_accounts(
-                            program_id,
-                            filters.clone(),
-                            commitment,
-                        ),
+                        Ok((lk, _)) => {
+                            drop(lk);
+                            if !self.is_gpa_loaded(program_id, &filters) {
+                                return Err(AccountLoadingError::ErrorCreatingSnapshot);
+                            }
+                            self.accounts_storage.get_program_accounts(
+                                program_id,
+                                filters.clone(),
+                                commitment,
+                            )
+                        }
                         Err(_timeout) => {
                             // todo replace with error
                             log::error!("gPA on program : {}", program_id.to_string());
@@ -171,19 +218,31 @@ impl AccountStorageInterface for AccountsOnDemand {
                         (program_id, filters.clone().unwrap_or_default()),
                         Arc::new(Condvar::new()),
                     );
-                    self.accounts_source
+                    if self
+                        .accounts_source
                         .subscribe_program_accounts(program_id, filters.clone())
-                        .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+                        .is_err()
+                    {
+                        lk.remove(&(program_id, filters.clone().unwrap_or_default()));
+                        return Err(AccountLoadingError::ErrorSubscribingAccount);
+                    }
                     drop(lk);
                     self.mutable_filters
                         .add_account_filters(&vec![account_filter.clone()]);
 
-                    self.accounts_source
-                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter])
-                        .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
+                    let snapshot_result = self
+                        .accounts_source
+                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter]);
                     // update loading lock
                     {
                         let mut write_lock = self.gpa_in_loading.lock().unwrap();
+                        let mut failed_gpa = self.failed_gpa.lock().unwrap();
+                        let key = (program_id, filters.clone().unwrap_or_default());
+                        match snapshot_result {
+                            Ok(_) => failed_gpa.remove(&key),
+                            Err(_) => failed_gpa.insert(key),
+                        };
+                        drop(failed_gpa);
                         let notify =
                             write_lock.remove(&(program_id, filters.clone().unwrap_or_default()));
                         drop(write_lock);
@@ -191,6 +250,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                             notify.notify_all();
                         }
                     }
+                    snapshot_result.map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
                     self.accounts_storage
                         .get_program_accounts(program_id, filters, commitment)
                 }
-- 
2.43.0


From 5091f40b061b9ef71f72d33c4a01f0f911622985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 30/44] fix: timeouts of accounts loading on demand were
 reported as missing accounts

---
 accounts_on_demand/src/accounts_on_demand.rs | 29 +++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index a6972ea..acb0ebb 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -100,9 +100,16 @@ impl AccountStorageInterface for AccountsOnDemand {
                 let mut lk = self.accounts_in_loading.lock().unwrap();
                 match lk.get(&account_pk).cloned() {
                     Some(loading_account) => {
-                        match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                            Ok((lk, _)) => {
+                        match loading_account.wait_timeout_while(
+                            lk,
+                            Duration::from_secs(10),
+                            |loading| loading.contains_key(&account_pk),
+                        ) {
+                            Ok((lk, wait_result)) => {
                                 drop(lk);
+                                if wait_result.timed_out() {
+                                    return Err(AccountLoadingError::OperationTimeOut);
+                                }
                                 let account =
                                     self.accounts_storage.get_account(account_pk, commitment)?;
                                 if account.is_none() && !self.is_account_loaded(&account_pk) {
@@ -110,7 +117,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 }
                                 Ok(account)
                             }
-                            Err(_timeout) => Err(AccountLoadingError::OperationTimeOut),
+                            Err(_poisoned) => Err(AccountLoadingError::OperationTimeOut),
                         }
                     }
                     None => {
@@ -192,9 +199,18 @@ impl AccountStorageInterface for AccountsOnDemand {
                 .cloned()
             {
                 Some(loading_account) => {
-                    match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                        Ok((lk, _)) => {
+                    let key = (program_id, filters.clone().unwrap_or_default());
+                    match loading_account.wait_timeout_while(
+                        lk,
+                        Duration::from_secs(10),
+                        |loading| loading.contains_key(&key),
+                    ) {
+                        Ok((lk, wait_result)) => {
                             drop(lk);
+                            if wait_result.timed_out() {
+                                log::error!("gPA on program : {}", program_id.to_string());
+                                return Err(AccountLoadingError::OperationTimeOut);
+                            }
                             if !self.is_gpa_loaded(program_id, &filters) {
                                 return Err(AccountLoadingError::ErrorCreatingSnapshot);
                             }
@@ -204,8 +220,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 commitment,
                             )
                         }
-                        Err(_timeout) => {
-                            // todo replace with error
+                        Err(_poisoned) => {
                             log::error!("gPA on program : {}", program_id.to_string());
                             Err(AccountLoadingError::OperationTimeOut)
                         }
-- 
2.43.0


From 08acce0170b055cbea0976ed5b194e9b616fe0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 31/44] fix: concurrent getProgramAccounts returned partially
 loaded accounts

---
 accounts_on_demand/src/accounts_on_demand.rs | 51 ++++++++++++--------
 common/src/simple_filter_store.rs            |  2 +-
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index acb0ebb..791eff7 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -6,6 +6,7 @@ use lite_account_manager_common::{
     accounts_source_interface::AccountsSourceInterface,
     commitment::Commitment,
     mutable_filter_store::MutableFilterStore,
+    simple_filter_store::SimpleFilterStore,
     slot_info::SlotInfo,
 };
 use prometheus::{opts, register_int_gauge, IntGauge};
@@ -25,7 +26,17 @@ lazy_static::lazy_static! {
         register_int_gauge!(opts!("lite_account_manager_number_of_program_filters_on_demand", "Number of program filters on demand")).unwrap();
 }
 
-type GpaAccountKey = (Pubkey, Vec<AccountFilterType>);
+type GpaAccountKey = (Pubkey, BTreeSet<AccountFilterType>);
+
+fn gpa_key(program_id: Pubkey, filters: &Option<Vec<AccountFilterType>>) -> GpaAccountKey {
+    let filters = SimpleFilterStore::normalize(filters.as_deref().unwrap_or_default());
+    (program_id, filters)
+}
+
+// all the accounts of the gPA are also accounts of the covering gPA
+fn covers_gpa(covering: &GpaAccountKey, key: &GpaAccountKey) -> bool {
+    covering.0 == key.0 && covering.1.is_subset(&key.1)
+}
 
 pub struct AccountsOnDemand {
     accounts_source: Arc<dyn AccountsSourceInterface>,
@@ -66,12 +77,14 @@ impl AccountsOnDemand {
             program_id: Some(program_id),
             filters: filters.clone(),
         };
+        let key = gpa_key(program_id, filters);
         self.mutable_filters.contains_filter(&account_filter)
             && !self
                 .failed_gpa
                 .lock()
                 .unwrap()
-                .contains(&(program_id, filters.clone().unwrap_or_default()))
+                .iter()
+                .any(|failed| covers_gpa(failed, &key))
     }
 }
 
@@ -188,18 +201,21 @@ impl AccountStorageInterface for AccountsOnDemand {
         };
         // accounts on demand will fetch gPA if they do not exist
         // it will first compare with existing filters and do the necessary if needed
-        if self.is_gpa_loaded(program_id, &filters) {
+        let gpa_key = gpa_key(program_id, &filters);
+        let mut lk = self.gpa_in_loading.lock().unwrap();
+        // filters of the accounts in loading are already added, but only some of the accounts could be loaded
+        let loading = lk
+            .iter()
+            .find(|(key, _)| covers_gpa(key, &gpa_key))
+            .map(|(key, loading_account)| (key.clone(), loading_account.clone()));
+        if loading.is_none() && self.is_gpa_loaded(program_id, &filters) {
+            drop(lk);
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
         } else {
             // subsribing to new gpa accounts
-            let mut lk = self.gpa_in_loading.lock().unwrap();
-            match lk
-                .get(&(program_id, filters.clone().unwrap_or_default()))
-                .cloned()
-            {
-                Some(loading_account) => {
-                    let key = (program_id, filters.clone().unwrap_or_default());
+            match loading {
+                Some((key, loading_account)) => {
                     match loading_account.wait_timeout_while(
                         lk,
                         Duration::from_secs(10),
@@ -229,16 +245,13 @@ impl AccountStorageInterface for AccountsOnDemand {
                 None => {
                     // update account loading map
                     // create a notify for accounts under loading
-                    lk.insert(
-                        (program_id, filters.clone().unwrap_or_default()),
-                        Arc::new(Condvar::new()),
-                    );
+                    lk.insert(gpa_key.clone(), Arc::new(Condvar::new()));
                     if self
                         .accounts_source
                         .subscribe_program_accounts(program_id, filters.clone())
                         .is_err()
                     {
-                        lk.remove(&(program_id, filters.clone().unwrap_or_default()));
+                        lk.remove(&gpa_key);
                         return Err(AccountLoadingError::ErrorSubscribingAccount);
                     }
                     drop(lk);
@@ -252,14 +265,12 @@ impl AccountStorageInterface for AccountsOnDemand {
                     {
                         let mut write_lock = self.gpa_in_loading.lock().unwrap();
                         let mut failed_gpa = self.failed_gpa.lock().unwrap();
-                        let key = (program_id, filters.clone().unwrap_or_default());
                         match snapshot_result {
-                            Ok(_) => failed_gpa.remove(&key),
-                            Err(_) => failed_gpa.insert(key),
+                            Ok(_) => failed_gpa.remove(&gpa_key),
+                            Err(_) => failed_gpa.insert(gpa_key.clone()),
                         };
                         drop(failed_gpa);
-                        let notify =
-                            write_lock.remove(&(program_id, filters.clone().unwrap_or_default()));
+                        let notify = write_lock.remove(&gpa_key);
                         drop(write_lock);
                         if let Some(notify) = notify {
                             notify.notify_all();
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 555b533..5e375eb 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -27,7 +27,7 @@ pub struct SimpleFilterStore {
 
 impl SimpleFilterStore {
     // always compare and save filters in bytes
-    fn normalize(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType> {
+    pub fn normalize(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType> {
         filters
             .iter()
             .map(|x| match x {
-- 
2.43.0


From 029c7fa98ddf27c23b68ba19bf22cf0195ba42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 32/44] fix: rpc memcmp filters which cannot be decoded matched
 every account

---
 common/src/account_filter.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 6d8a55b..d25b5d6 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -183,12 +183,19 @@ impl From<&RpcFilterType> for AccountFilterType {
         match value {
             RpcFilterType::DataSize(size) => AccountFilterType::Datasize(*size),
             RpcFilterType::Memcmp(memcmp) => {
-                let bytes = memcmp.bytes().map(|x| (*x).clone()).unwrap_or_default();
+                let data = match memcmp.bytes() {
+                    Some(bytes) => MemcmpFilterData::Bytes((*bytes).clone()),
+                    // keep bytes which are not decodable, so that they do not match anything
+                    None => match &memcmp.bytes {
+                        MemcmpEncodedBytes::Binary(data) | MemcmpEncodedBytes::Base58(data) => {
+                            MemcmpFilterData::Base58(data.clone())
+                        }
+                        MemcmpEncodedBytes::Base64(data) => MemcmpFilterData::Base64(data.clone()),
+                        MemcmpEncodedBytes::Bytes(bytes) => MemcmpFilterData::Bytes(bytes.clone()),
+                    },
+                };
                 let offset = memcmp.offset as u64;
-                AccountFilterType::Memcmp(MemcmpFilter {
-                    offset,
-                    data: MemcmpFilterData::Bytes(bytes),
-                })
+                AccountFilterType::Memcmp(MemcmpFilter { offset, data })
             }
             RpcFilterType::TokenAccountState => {
                 unimplemented!()
-- 
2.43.0


From fdefef1c2d87ced2f28c5202a5729f7fc36a8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 33/44] fix: malformed filters whose accounts are not a list or
 which are not an object were accepted

---
 common/src/account_filter.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index d25b5d6..5f1338a 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -115,6 +115,9 @@ impl<'de> Deserialize<'de> for AccountFilter {
         D: serde::Deserializer<'de>,
     {
         let json: serde_json::value::Value = serde_json::value::Value::deserialize(deserializer)?;
+        if !json.is_object() {
+            return Err(D::Error::custom("account filter should be an object"));
+        }
 
         let parse_pubkey = |v: &serde_json::value::Value| {
             let pubkey = v
@@ -124,14 +127,12 @@ impl<'de> Deserialize<'de> for AccountFilter {
         };
 
         let accounts = match json.get("accounts") {
-            Some(accounts) => match accounts.as_array() {
-                Some(accounts_array) => accounts_array
-                    .iter()
-                    .map(parse_pubkey)
-                    .collect::<Result<_, _>>()?,
-                None => vec![],
-            },
-            None => vec![],
+            Some(serde_json::value::Value::Array(accounts_array)) => accounts_array
+                .iter()
+                .map(parse_pubkey)
+                .collect::<Result<_, _>>()?,
+            Some(serde_json::value::Value::Null) | None => vec![],
+            Some(_) => return Err(D::Error::custom("accounts should be an array")),
         };
         let program_id = match json.get("programId") {
             Some(program_id) => Some(parse_pubkey(program_id)?),
-- 
2.43.0


From 67a751663c7e990b9ce56cabb66409c3cf011c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 34/44] fix: slot notifications reported accounts tracked by
 several storages more than once

---
 account_storage/src/storage_by_program_id.rs | 36 +++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index fd756da..c583f1b 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -6,7 +6,10 @@ use lite_account_manager_common::{
     slot_info::SlotInfo,
 };
 use solana_sdk::pubkey::Pubkey;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{hash_map::Entry, HashMap},
+    sync::Arc,
+};
 
 pub struct StorageByProgramId {
     program_id_dispatch_map: HashMap<Pubkey, Arc<dyn AccountStorageInterface>>,
@@ -25,6 +28,10 @@ impl StorageByProgramId {
     }
 }
 
+fn is_newer(account: &AccountData, other: &AccountData) -> bool {
+    (account.updated_slot, account.write_version) > (other.updated_slot, other.write_version)
+}
+
 impl AccountStorageInterface for StorageByProgramId {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
         // owner of the account could have changed, so other storages could also be tracking it
@@ -73,14 +80,27 @@ impl AccountStorageInterface for StorageByProgramId {
     }
 
     fn process_slot_data(&self, slot_info: SlotInfo, commitment: Commitment) -> Vec<AccountData> {
-        let mut return_vec = vec![];
-        for (_, interface) in self.program_id_dispatch_map.iter() {
-            let mut t = interface.process_slot_data(slot_info, commitment);
-            return_vec.append(&mut t);
+        // an account which changed its owner can be tracked by several storages
+        let mut accounts: HashMap<Pubkey, AccountData> = HashMap::new();
+        for interface in self
+            .program_id_dispatch_map
+            .values()
+            .chain(std::iter::once(&self.default))
+        {
+            for account in interface.process_slot_data(slot_info, commitment) {
+                match accounts.entry(account.pubkey) {
+                    Entry::Occupied(mut occ) => {
+                        if is_newer(&account, occ.get()) {
+                            occ.insert(account);
+                        }
+                    }
+                    Entry::Vacant(vac) => {
+                        vac.insert(account);
+                    }
+                }
+            }
         }
-        let mut t = self.default.process_slot_data(slot_info, commitment);
-        return_vec.append(&mut t);
-        return_vec
+        accounts.into_values().collect()
     }
 
     // snapshot should always be created at finalized slot
-- 
2.43.0


From f788739efee1d7545544552ba6214d2d5e4c7a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 35/44] fix: the dispatching storage returned outdated versions
 of accounts known by several storages

---
 account_storage/src/storage_by_program_id.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index c583f1b..6f94f50 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -57,12 +57,17 @@ impl AccountStorageInterface for StorageByProgramId {
         account_pk: Pubkey,
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
+        // an account which changed its owner can be known by several storages
+        let mut result = self.default.get_account(account_pk, commitment);
         for (_, interface) in self.program_id_dispatch_map.iter() {
             if let Ok(Some(account)) = interface.get_account(account_pk, commitment) {
-                return Ok(Some(account));
+                match &result {
+                    Ok(Some(other)) if !is_newer(&account, other) => {}
+                    _ => result = Ok(Some(account)),
+                }
             }
         }
-        self.default.get_account(account_pk, commitment)
+        result
     }
 
     fn get_program_accounts(
-- 
2.43.0


From 2508dd3753253a29bd6d3701e9bb54556c1e3e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 36/44] fix: accounts loaded with a new owner were not updated
 in the storage of the previous owner

---
 account_storage/src/storage_by_program_id.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 6f94f50..285e1ef 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -43,13 +43,21 @@ impl AccountStorageInterface for StorageByProgramId {
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
-        match self
+        let owner_storage = self
             .program_id_dispatch_map
             .get(&account_data.account.owner)
+            .unwrap_or(&self.default);
+        // owner of the account could have changed, so other storages could also be tracking it
+        for interface in self
+            .program_id_dispatch_map
+            .values()
+            .chain(std::iter::once(&self.default))
         {
-            Some(val) => val.initilize_or_update_account(account_data),
-            None => self.default.initilize_or_update_account(account_data),
+            if !Arc::ptr_eq(interface, owner_storage) {
+                interface.update_account(account_data.clone(), Commitment::Finalized);
+            }
         }
+        owner_storage.initilize_or_update_account(account_data);
     }
 
     fn get_account(
-- 
2.43.0


From a3290f5e209b380d83ae81cf1e9dec99dae58b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 37/44] fix: queries which are configured or loaded were loaded
 again or failed when a covering query failed to load

---
 accounts_on_demand/src/accounts_on_demand.rs | 48 ++++++++++++--------
 common/src/mutable_filter_store.rs           |  5 ++
 common/src/simple_filter_store.rs            |  2 +-
 3 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 791eff7..c20e3c5 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -14,7 +14,7 @@ use solana_sdk::pubkey::Pubkey;
 use std::sync::Condvar;
 use std::{
     collections::{BTreeMap, BTreeSet, HashMap, HashSet},
-    sync::{Arc, Mutex},
+    sync::{Arc, Mutex, RwLock},
     time::Duration,
 };
 
@@ -47,6 +47,8 @@ pub struct AccountsOnDemand {
     // filters which are subscribed but their snapshot could not be loaded
     failed_accounts: Arc<Mutex<HashSet<Pubkey>>>,
     failed_gpa: Arc<Mutex<BTreeSet<GpaAccountKey>>>,
+    // filters configured in the beginning and gPA which are completely loaded
+    loaded_filters: Arc<RwLock<SimpleFilterStore>>,
 }
 
 impl AccountsOnDemand {
@@ -55,6 +57,7 @@ impl AccountsOnDemand {
         mutable_filters: Arc<MutableFilterStore>,
         accounts_storage: Arc<dyn AccountStorageInterface>,
     ) -> Self {
+        let loaded_filters = mutable_filters.current_filters();
         Self {
             accounts_source,
             mutable_filters,
@@ -63,6 +66,7 @@ impl AccountsOnDemand {
             gpa_in_loading: Arc::new(Mutex::new(BTreeMap::new())),
             failed_accounts: Arc::new(Mutex::new(HashSet::new())),
             failed_gpa: Arc::new(Mutex::new(BTreeSet::new())),
+            loaded_filters: Arc::new(RwLock::new(loaded_filters)),
         }
     }
 
@@ -71,20 +75,20 @@ impl AccountsOnDemand {
             && !self.failed_accounts.lock().unwrap().contains(account_pk)
     }
 
-    fn is_gpa_loaded(&self, program_id: Pubkey, filters: &Option<Vec<AccountFilterType>>) -> bool {
-        let account_filter = AccountFilter {
-            accounts: vec![],
-            program_id: Some(program_id),
-            filters: filters.clone(),
-        };
-        let key = gpa_key(program_id, filters);
-        self.mutable_filters.contains_filter(&account_filter)
-            && !self
-                .failed_gpa
-                .lock()
-                .unwrap()
-                .iter()
-                .any(|failed| covers_gpa(failed, &key))
+    fn is_gpa_completely_loaded(&self, account_filter: &AccountFilter) -> bool {
+        let loaded_filters = self.loaded_filters.read().unwrap();
+        loaded_filters.contains_filter(account_filter)
+    }
+
+    fn is_gpa_loaded(&self, account_filter: &AccountFilter, key: &GpaAccountKey) -> bool {
+        self.is_gpa_completely_loaded(account_filter)
+            || self.mutable_filters.contains_filter(account_filter)
+                && !self
+                    .failed_gpa
+                    .lock()
+                    .unwrap()
+                    .iter()
+                    .any(|failed| covers_gpa(failed, key))
     }
 }
 
@@ -208,7 +212,9 @@ impl AccountStorageInterface for AccountsOnDemand {
             .iter()
             .find(|(key, _)| covers_gpa(key, &gpa_key))
             .map(|(key, loading_account)| (key.clone(), loading_account.clone()));
-        if loading.is_none() && self.is_gpa_loaded(program_id, &filters) {
+        if self.is_gpa_completely_loaded(&account_filter)
+            || loading.is_none() && self.is_gpa_loaded(&account_filter, &gpa_key)
+        {
             drop(lk);
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
@@ -227,7 +233,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 log::error!("gPA on program : {}", program_id.to_string());
                                 return Err(AccountLoadingError::OperationTimeOut);
                             }
-                            if !self.is_gpa_loaded(program_id, &filters) {
+                            if !self.is_gpa_loaded(&account_filter, &gpa_key) {
                                 return Err(AccountLoadingError::ErrorCreatingSnapshot);
                             }
                             self.accounts_storage.get_program_accounts(
@@ -260,13 +266,17 @@ impl AccountStorageInterface for AccountsOnDemand {
 
                     let snapshot_result = self
                         .accounts_source
-                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter]);
+                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter.clone()]);
                     // update loading lock
                     {
                         let mut write_lock = self.gpa_in_loading.lock().unwrap();
                         let mut failed_gpa = self.failed_gpa.lock().unwrap();
                         match snapshot_result {
-                            Ok(_) => failed_gpa.remove(&gpa_key),
+                            Ok(_) => {
+                                let mut loaded_filters = self.loaded_filters.write().unwrap();
+                                loaded_filters.add_account_filter(&account_filter);
+                                failed_gpa.remove(&gpa_key)
+                            }
                             Err(_) => failed_gpa.insert(gpa_key.clone()),
                         };
                         drop(failed_gpa);
diff --git a/common/src/mutable_filter_store.rs b/common/src/mutable_filter_store.rs
index 02cc437..b1d114d 100644
--- a/common/src/mutable_filter_store.rs
+++ b/common/src/mutable_filter_store.rs
@@ -18,6 +18,11 @@ impl MutableFilterStore {
         lk.add_account_filters(account_filters)
     }
 
+    /// filters which are stored now
+    pub fn current_filters(&self) -> SimpleFilterStore {
+        self.filter_store.read().unwrap().clone()
+    }
+
     pub fn contains_account(&self, account_pk: Pubkey) -> bool {
         let lk = self.filter_store.read().unwrap();
         lk.contains_account(account_pk)
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 5e375eb..0256048 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -19,7 +19,7 @@ enum ProgramIdFilters {
     ByFilterType(Vec<BTreeSet<AccountFilterType>>),
 }
 
-#[derive(Default)]
+#[derive(Default, Clone)]
 pub struct SimpleFilterStore {
     accounts: HashSet<Pubkey>,
     program_id_filters: HashMap<Pubkey, ProgramIdFilters>,
-- 
2.43.0


From f25f00c73da83747628c9dfa74c0b0eb28ee5556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 38/44] fix: a caller waiting for a failed load missed the end
 of the next load of the same account or query

---
 accounts_on_demand/src/accounts_on_demand.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index c20e3c5..9f58a87 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -38,6 +38,11 @@ fn covers_gpa(covering: &GpaAccountKey, key: &GpaAccountKey) -> bool {
     covering.0 == key.0 && covering.1.is_subset(&key.1)
 }
 
+// a load which failed may already be followed by another one, which notifies its own condvar
+fn is_same_load(loading: Option<&Arc<Condvar>>, waiting_for: &Arc<Condvar>) -> bool {
+    loading.map_or(false, |loading| Arc::ptr_eq(loading, waiting_for))
+}
+
 pub struct AccountsOnDemand {
     accounts_source: Arc<dyn AccountsSourceInterface>,
     mutable_filters: Arc<MutableFilterStore>,
@@ -120,7 +125,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                         match loading_account.wait_timeout_while(
                             lk,
                             Duration::from_secs(10),
-                            |loading| loading.contains_key(&account_pk),
+                            |loading| is_same_load(loading.get(&account_pk), &loading_account),
                         ) {
                             Ok((lk, wait_result)) => {
                                 drop(lk);
@@ -225,7 +230,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                     match loading_account.wait_timeout_while(
                         lk,
                         Duration::from_secs(10),
-                        |loading| loading.contains_key(&key),
+                        |loading| is_same_load(loading.get(&key), &loading_account),
                     ) {
                         Ok((lk, wait_result)) => {
                             drop(lk);
-- 
2.43.0


From ea01a6101bd511cea81cef20f29fa21f55d7856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 39/44] fix: updates of token accounts which are being
 finalized are not ignored

---
 token_account_storage/src/inmemory_token_storage.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 1c5435e..c7b0c69 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -454,8 +454,11 @@ impl TokenProgramAccountsStorage {
     }
 
     pub fn is_token_program_account(&self, account_data: &AccountData) -> bool {
-        self.mints_index_by_pubkey
-            .contains_key(&account_data.pubkey)
+        // processed accounts are checked before finalized ones, so that accounts being finalized are not missed
+        self.processed_storage.contains(&account_data.pubkey)
+            || self
+                .mints_index_by_pubkey
+                .contains_key(&account_data.pubkey)
             || self.multisigs.contains_key(&account_data.pubkey)
             || account_data.account.owner == spl_token::id()
             || account_data.account.owner == spl_token_2022::id()
@@ -463,7 +466,6 @@ impl TokenProgramAccountsStorage {
                 .token_accounts_storage
                 .contains(&account_data.pubkey)
                 .is_some()
-            || self.processed_storage.contains(&account_data.pubkey)
     }
 
     pub fn get_account_finalized(&self, account_pk: Pubkey) -> Option<AccountData> {
-- 
2.43.0


From c4c52eb3ac8ff84ab4322f4f7262b37d9177bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 40/44] fix: concurrent changes of a finalized token account
 keep it in the indexes of its owner and mint

---
 token_account_storage/src/inmemory_token_storage.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index c7b0c69..0c7bc9e 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -2,7 +2,7 @@ use std::{
     collections::{BTreeMap, HashMap, HashSet, VecDeque},
     sync::{
         atomic::{AtomicU32, AtomicU64, Ordering},
-        Arc, RwLock,
+        Arc, Mutex, RwLock,
     },
 };
 
@@ -358,6 +358,8 @@ pub struct TokenProgramAccountsStorage {
     confirmed_slot: Arc<AtomicU64>,
     finalized_slot: Arc<AtomicU64>,
     mint_counter: Arc<AtomicU32>,
+    // finalized accounts and their indexes are changed by one thread at a time
+    finalized_accounts_lock: Arc<Mutex<()>>,
 }
 
 impl TokenProgramAccountsStorage {
@@ -375,11 +377,13 @@ impl TokenProgramAccountsStorage {
             confirmed_slot: Arc::new(AtomicU64::new(0)),
             finalized_slot: Arc::new(AtomicU64::new(0)),
             mint_counter: Arc::new(AtomicU32::new(0)),
+            finalized_accounts_lock: Arc::new(Mutex::new(())),
         }
     }
 
     // treat account for finalized commitment
     pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
+        let _lk = self.finalized_accounts_lock.lock().unwrap();
         // account could have been deleted or recreated as an account of another kind
         let account_pk = account.pubkey();
         if !matches!(account, TokenProgramAccountType::Mint(_)) {
-- 
2.43.0


From bf7497b4fdfa5562004381940aebd789e6e1c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 41/44] fix: queries do not miss finalized token accounts which
 can already be read

---
 .../src/inmemory_token_storage.rs             | 32 +++++--------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 0c7bc9e..c0f8621 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -406,34 +406,18 @@ impl TokenProgramAccountsStorage {
                 let mint_index = token_account.mint;
                 // owner (or mint if account is recreated) of the account can change
                 let previous = self.token_accounts_storage.get_by_pubkey(&account_pk);
+                // indexes are locked while the account is saved, so that queries do not miss it once it can be read
+                let mut mint_accounts = self.accounts_index_by_mint.entry(mint_index).or_default();
+                let mut owner_accounts = self
+                    .account_by_owner_pubkey
+                    .entry(token_account_owner.into())
+                    .or_default();
                 let (token_index, _) = self.token_accounts_storage.save_or_update(token_account);
-                // add account to the indexes
                 if previous.as_ref().map(|x| x.mint) != Some(mint_index) {
-                    // add account index in accounts_index_by_mint map
-                    match self.accounts_index_by_mint.entry(mint_index) {
-                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                            occ.get_mut().push_back(token_index);
-                        }
-                        dashmap::mapref::entry::Entry::Vacant(v) => {
-                            let mut q = VecDeque::new();
-                            q.push_back(token_index);
-                            v.insert(q);
-                        }
-                    }
+                    mint_accounts.push_back(token_index);
                 }
                 if previous.as_ref().map(|x| x.owner) != Some(token_account_owner) {
-                    // add account index in account_by_owner_pubkey map
-                    match self
-                        .account_by_owner_pubkey
-                        .entry(token_account_owner.into())
-                    {
-                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                            occ.get_mut().push(token_index);
-                        }
-                        dashmap::mapref::entry::Entry::Vacant(v) => {
-                            v.insert(vec![token_index]);
-                        }
-                    }
+                    owner_accounts.push(token_index);
                 }
             }
             TokenProgramAccountType::Mint(mint_data) => {
-- 
2.43.0


From af45a3b7aab63da178939246f3316b6ceae504c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 42/44] fix: late updates of token accounts are detected while
 slots are being finalized

---
 token_account_storage/src/inmemory_token_storage.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index c0f8621..744a6db 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -64,8 +64,13 @@ impl ProcessedAccountStore {
         processed_account: TokenProgramAccountType,
         write_version: u64,
         slot: Slot,
+        finalized_slot: &AtomicU64,
     ) -> bool {
         let mut lk = self.processed_slot_accounts.write().unwrap();
+        if slot < finalized_slot.load(Ordering::Relaxed) {
+            // update is too late, finalized state could be more recent
+            return false;
+        }
         match lk.get_mut(&slot) {
             Some(processed_account_by_slot) => {
                 match processed_account_by_slot
@@ -634,15 +639,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             }
         };
         if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
-            if account_data.updated_slot < self.finalized_slot.load(Ordering::Relaxed) {
-                // update is too late, finalized state could be more recent
-                return false;
-            }
             self.processed_storage.insert_account(
                 account_data.pubkey,
                 token_program_account,
                 account_data.write_version,
                 account_data.updated_slot,
+                &self.finalized_slot,
             )
         } else {
             self.add_account_finalized(token_program_account)
-- 
2.43.0


From 9bab31a06374447474b1e8048d1699d2459f3a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 43/44] fix: token accounts of other forks are not returned
 while slots are being confirmed or finalized

---
 .../src/inmemory_token_storage.rs             | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 744a6db..5663131 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -240,14 +240,13 @@ impl ProcessedAccountStore {
         return_vec
     }
 
-    pub fn get_confirmed_accounts(
-        &self,
+    fn get_confirmed_accounts(
+        lk: &BTreeMap<Slot, ProcessedAccountBySlot>,
         account_pks: Vec<Pubkey>,
         return_list: &mut [Option<(ProcessedAccount, u64)>],
         confirmed_slot: Slot,
     ) {
         let mut process_slot = Some(confirmed_slot);
-        let lk = self.processed_slot_accounts.read().unwrap();
         while let Some(current_slot) = process_slot {
             match lk.get(&current_slot) {
                 Some(processed_accounts) => {
@@ -276,9 +275,11 @@ impl ProcessedAccountStore {
     pub fn get_all_accounts(
         &self,
         commitment: Commitment,
-        confirmed_slot: Slot,
+        confirmed_slot: &AtomicU64,
     ) -> HashMap<Pubkey, (ProcessedAccount, u64)> {
         let lk = self.processed_slot_accounts.read().unwrap();
+        // should be read when slots can not be finalized
+        let confirmed_slot = confirmed_slot.load(Ordering::Relaxed);
         let mut accounts: HashMap<Pubkey, (ProcessedAccount, u64)> = HashMap::new();
         let mut add_accounts = |slot: Slot, processed_accounts: &ProcessedAccountBySlot| {
             for (pk, acc) in &processed_accounts.processed_accounts {
@@ -309,12 +310,14 @@ impl ProcessedAccountStore {
         &self,
         account_pks: Vec<Pubkey>,
         commitment: Commitment,
-        confirmed_slot: Slot,
+        confirmed_slot: &AtomicU64,
     ) -> Vec<Option<(ProcessedAccount, u64)>> {
         let mut return_list = vec![None; account_pks.len()];
+        let lk = self.processed_slot_accounts.read().unwrap();
+        // should be read when slots can not be finalized
+        let confirmed_slot = confirmed_slot.load(Ordering::Relaxed);
         match commitment {
             Commitment::Processed => {
-                let lk = self.processed_slot_accounts.read().unwrap();
                 // iterate backwards on all the processed slots until we reach confirmed slot
                 for (slot, processed_account_slots) in lk.iter().rev() {
                     log::debug!("getting processed account at slot : {}", slot);
@@ -335,14 +338,18 @@ impl ProcessedAccountStore {
                             break;
                         }
                     } else {
-                        drop(lk);
-                        self.get_confirmed_accounts(account_pks, &mut return_list, confirmed_slot);
+                        Self::get_confirmed_accounts(
+                            &lk,
+                            account_pks,
+                            &mut return_list,
+                            confirmed_slot,
+                        );
                         return return_list;
                     }
                 }
             }
             Commitment::Confirmed => {
-                self.get_confirmed_accounts(account_pks, &mut return_list, confirmed_slot)
+                Self::get_confirmed_accounts(&lk, account_pks, &mut return_list, confirmed_slot)
             }
             Commitment::Finalized => unreachable!(),
         };
@@ -687,11 +694,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             Commitment::Confirmed | Commitment::Processed => {
                 match self
                     .processed_storage
-                    .get_accounts(
-                        vec![account_pk],
-                        commitment,
-                        self.confirmed_slot.load(Ordering::Relaxed),
-                    )
+                    .get_accounts(vec![account_pk], commitment, &self.confirmed_slot)
                     .first()
                     .unwrap()
                 {
@@ -717,12 +720,11 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         if program_pubkey != spl_token::id() && program_pubkey != spl_token_2022::id() {
             return Err(AccountLoadingError::WrongIndex);
         }
-        let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
         // should be done before getting finalized accounts, so that accounts being finalized are not missed
         let processed_accounts = match commitment {
             Commitment::Processed | Commitment::Confirmed => self
                 .processed_storage
-                .get_all_accounts(commitment, confirmed_slot),
+                .get_all_accounts(commitment, &self.confirmed_slot),
             Commitment::Finalized => HashMap::new(),
         };
         // get all accounts for finalized commitment and update them if necessary
-- 
2.43.0


From 7d4b097ca69c663b7e91d40793f4d8e19d1569d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:03 +0000
Subject: [PATCH 44/44] fix: reads of pending token accounts report their write
 version

get_account returned 0, unlike get_program_accounts and the notifications.
---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 5663131..d630393 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -701,7 +701,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                     Some((processed_account, slot)) => Ok(token_program_account_to_solana_account(
                         &processed_account.processed_account,
                         *slot,
-                        0,
+                        processed_account.write_version,
                         &self.mint_pubkey_by_index,
                     )),
                     None => Ok(self.get_account_finalized(account_pk)),
-- 
2.43.0

