From 132123a12827ac4e4ac5e4085484178a11b65ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 1/2] fix: reject wrapping from the escrow account itself

A Token-2022 permanent delegate may authorise a transfer out of any account
of the mint, including the escrow. Wrapping with the escrow as the source
turned the deposit into a self-transfer, which moves nothing, while wrapped
tokens were still minted: supply exceeded the escrow balance.
---
 program/src/processor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index c0a41c8..4e9852a 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -240,6 +240,13 @@ pub fn process_wrap(accounts: &[AccountInfo], amount: u64) -> ProgramResult {
         Err(TokenWrapError::EscrowMismatch)?
     }
 
+    // A transfer from the escrow to itself (possible for the permanent delegate of
+    // the unwrapped mint) succeeds without depositing anything
+    if unwrapped_token_account.key == unwrapped_escrow.key {
+        msg!("Error: cannot wrap tokens that are already in the escrow");
+        Err(ProgramError::InvalidArgument)?
+    }
+
     {
         let escrow_data = unwrapped_escrow.try_borrow_data()?;
         let escrow_account = PodStateWithExtensions::<PodAccount>::unpack(&escrow_data)?;
-- 
2.43.0


From fe132f8667fa4fbba2894831eb5ec96f7ce52414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:34 +0000
Subject: [PATCH 2/2] verif: list-backed map for the verifier, guarded by
 cfg(kani)

---
 program/src/lib.rs       |   3 +
 program/src/processor.rs |   7 +-
 program/src/verif_map.rs | 230 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 239 insertions(+), 1 deletion(-)
 create mode 100644 program/src/verif_map.rs

diff --git a/program/src/lib.rs b/program/src/lib.rs
index 94ef8a1..61582d6 100644
--- a/program/src/lib.rs
+++ b/program/src/lib.rs
@@ -1,6 +1,7 @@
 //! Token Wrap program
 #![deny(missing_docs)]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 
 mod entrypoint;
 pub mod error;
@@ -10,6 +11,8 @@ pub mod metaplex;
 pub mod mint_customizer;
 pub mod processor;
 pub mod state;
+#[cfg(kani)]
+mod verif_map;
 
 use {
     solana_pubkey::Pubkey,
diff --git a/program/src/processor.rs b/program/src/processor.rs
index 4e9852a..67cd0ff 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -50,9 +50,14 @@ use {
         instruction::{initialize as initialize_token_metadata, remove_key, update_field},
         state::{Field, TokenMetadata},
     },
-    std::{collections::HashMap, mem},
+    std::mem,
 };
 
+#[cfg(kani)]
+use crate::verif_map::HashMap;
+#[cfg(not(kani))]
+use std::collections::HashMap;
+
 /// Processes [`CreateMint`](enum.TokenWrapInstruction.html) instruction.
 pub fn process_create_mint<M: MintCustomizer>(
     program_id: &Pubkey,
diff --git a/program/src/verif_map.rs b/program/src/verif_map.rs
new file mode 100644
index 0000000..0aaeb56
--- /dev/null
+++ b/program/src/verif_map.rs
@@ -0,0 +1,230 @@
+//! Verification only (`cfg(kani)`, set by `cargo kani`): a list-backed stand-in
+//! for `std::collections::HashMap` with the same contract, whose operations a
+//! deductive verifier can follow.
+#![allow(missing_docs, dead_code)]
+
+use std::borrow::Borrow;
+
+#[derive(Clone, Debug)]
+pub struct HashMap<K, V> {
+    entries: Vec<Option<(K, V)>>,
+}
+
+impl<K: Eq, V> HashMap<K, V> {
+    pub fn new() -> Self {
+        Self { entries: vec![] }
+    }
+    pub fn with_capacity(n: usize) -> Self {
+        Self {
+            entries: Vec::with_capacity(n),
+        }
+    }
+    fn position<Q: ?Sized + Eq>(&self, key: &Q) -> Option<usize>
+    where
+        K: Borrow<Q>,
+    {
+        self.entries
+            .iter()
+            .position(|e| matches!(e, Some((k, _)) if k.borrow() == key))
+    }
+    pub fn get<Q: ?Sized + Eq>(&self, key: &Q) -> Option<&V>
+    where
+        K: Borrow<Q>,
+    {
+        self.entries.iter().flatten().find_map(|(k, v)| {
+            if k.borrow() == key {
+                Some(v)
+            } else {
+                None
+            }
+        })
+    }
+    pub fn get_mut<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<&mut V>
+    where
+        K: Borrow<Q>,
+    {
+        self.entries.iter_mut().flatten().find_map(|(k, v)| {
+            if (*k).borrow() == key {
+                Some(v)
+            } else {
+                None
+            }
+        })
+    }
+    pub fn contains_key<Q: ?Sized + Eq>(&self, key: &Q) -> bool
+    where
+        K: Borrow<Q>,
+    {
+        self.get(key).is_some()
+    }
+    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+        match self.position(&key) {
+            Some(i) => self.entries[i].replace((key, value)).map(|(_, v)| v),
+            None => {
+                self.entries.push(Some((key, value)));
+                None
+            }
+        }
+    }
+    pub fn remove<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<V>
+    where
+        K: Borrow<Q>,
+    {
+        self.remove_entry(key).map(|(_, v)| v)
+    }
+    pub fn remove_entry<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<(K, V)>
+    where
+        K: Borrow<Q>,
+    {
+        match self.position(key) {
+            Some(i) => self.entries[i].take(),
+            None => None,
+        }
+    }
+    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
+        for e in self.entries.iter_mut() {
+            let keep = match e {
+                Some((k, v)) => f(k, v),
+                None => true,
+            };
+            if !keep {
+                *e = None;
+            }
+        }
+    }
+    pub fn clear(&mut self) {
+        self.entries.clear();
+    }
+    pub fn len(&self) -> usize {
+        self.entries.iter().flatten().count()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.len() == 0
+    }
+    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
+        self.entries.iter().flatten().map(|(k, v)| (k, v))
+    }
+    pub fn keys(&self) -> impl Iterator<Item = &K> {
+        self.entries.iter().flatten().map(|(k, _)| k)
+    }
+    pub fn values(&self) -> impl Iterator<Item = &V> {
+        self.entries.iter().flatten().map(|(_, v)| v)
+    }
+    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> {
+        self.entries.iter_mut().flatten().map(|(k, v)| (&*k, v))
+    }
+    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
+        self.entries.iter_mut().flatten().map(|(_, v)| v)
+    }
+    pub fn reserve(&mut self, n: usize) {
+        self.entries.reserve(n);
+    }
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
+        Entry { map: self, key }
+    }
+    pub fn into_keys(self) -> impl Iterator<Item = K> {
+        self.into_iter().map(|(k, _)| k)
+    }
+    pub fn into_values(self) -> impl Iterator<Item = V> {
+        self.into_iter().map(|(_, v)| v)
+    }
+    pub fn drain(&mut self) -> std::iter::Flatten<std::vec::IntoIter<Option<(K, V)>>> {
+        std::mem::take(&mut self.entries).into_iter().flatten()
+    }
+}
+
+#[derive(Debug)]
+pub struct Entry<'a, K, V> {
+    map: &'a mut HashMap<K, V>,
+    key: K,
+}
+
+impl<'a, K: Eq, V> Entry<'a, K, V> {
+    pub fn key(&self) -> &K {
+        &self.key
+    }
+    pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
+        if let Some(v) = self.map.get_mut(&self.key) {
+            f(v);
+        }
+        self
+    }
+    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
+        let i = match self.map.position(&self.key) {
+            Some(i) => i,
+            None => {
+                self.map.entries.push(Some((self.key, f())));
+                self.map.entries.len() - 1
+            }
+        };
+        &mut self.map.entries[i].as_mut().unwrap().1
+    }
+    pub fn or_insert(self, value: V) -> &'a mut V {
+        self.or_insert_with(|| value)
+    }
+    pub fn or_default(self) -> &'a mut V
+    where
+        V: Default,
+    {
+        self.or_insert_with(V::default)
+    }
+}
+
+impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len() == other.len() && self.iter().all(|(k, v)| other.get(k) == Some(v))
+    }
+}
+
+impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
+    fn from(entries: [(K, V); N]) -> Self {
+        entries.into_iter().collect()
+    }
+}
+
+impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> std::ops::Index<&Q> for HashMap<K, V> {
+    type Output = V;
+    fn index(&self, key: &Q) -> &V {
+        self.get(key).expect("no entry found for key")
+    }
+}
+
+impl<K: Eq, V> Default for HashMap<K, V> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
+    fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
+        let mut map = Self::new();
+        map.extend(iter);
+        map
+    }
+}
+
+impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
+    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
+        let iter = iter.into_iter();
+        self.entries.reserve(iter.size_hint().0);
+        for (k, v) in iter {
+            self.insert(k, v);
+        }
+    }
+}
+
+impl<K, V> IntoIterator for HashMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = std::iter::Flatten<std::vec::IntoIter<Option<(K, V)>>>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.entries.into_iter().flatten()
+    }
+}
+
+impl<'a, K: Eq, V> IntoIterator for &'a HashMap<K, V> {
+    type Item = (&'a K, &'a V);
+    type IntoIter = Box<dyn Iterator<Item = (&'a K, &'a V)> + 'a>;
+    fn into_iter(self) -> Self::IntoIter {
+        Box::new(self.iter())
+    }
+}
-- 
2.43.0

