From 6dac6bd27db9c5db5184c765a2ec78e768a093ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 01/60] fix: MPT get must only return the value of the exact
 key

---
 mpt_trie/src/trie_ops.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index c7cee9b..5212b54 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -356,16 +356,21 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+                if curr_nibbles.count < nibbles.count {
+                    // The key ends inside the extension.
+                    return None;
+                }
+
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
-                match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
+                match r == *nibbles {
                     false => None,
                     true => child.trie_get_intern(curr_nibbles),
                 }
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From 288b530b8e92732953f547e9a1d55da2f76a1b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 02/60] fix: refuse an unsafe MPT collapse with an error, not a
 key overflow panic

---
 mpt_trie/src/trie_ops.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index 5212b54..0dd134b 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -401,7 +401,7 @@ impl<T: PartialTrie> Node<T> {
                 // exists as we recursively traverse down the trie, it can not perform this
                 // check on the root node.
                 let wrapped_node =
-                    try_collapse_if_extension(updated_root, &Nibbles::default(), strategy)?;
+                    try_collapse_if_extension(updated_root, strategy)?;
                 let node_ref: &Node<T> = &wrapped_node;
                 *self = node_ref.clone();
 
@@ -558,7 +558,7 @@ fn delete_intern<N: PartialTrie>(
 
                             let mut updated_children = children.clone();
                             updated_children[nibble as usize] =
-                                try_collapse_if_extension(updated_child, &curr_k, strategy)?;
+                                try_collapse_if_extension(updated_child, strategy)?;
                             branch(updated_children, value.clone())
                         }
                         true => {
@@ -598,7 +598,6 @@ fn delete_intern<N: PartialTrie>(
                             let updated_node = collapse_ext_node_if_needed(
                                 ext_nibbles,
                                 &updated_child,
-                                &curr_k,
                                 strategy,
                             )?;
                             Ok(Some((updated_node, value_deleted)))
@@ -619,12 +618,11 @@ fn delete_intern<N: PartialTrie>(
 
 fn try_collapse_if_extension<N: PartialTrie>(
     node: WrappedNode<N>,
-    curr_key: &Nibbles,
     strategy: OnOrphanedHashNode,
 ) -> TrieOpResult<WrappedNode<N>> {
     match node.as_ref() {
         Node::Extension { nibbles, child } => {
-            collapse_ext_node_if_needed(nibbles, child, curr_key, strategy)
+            collapse_ext_node_if_needed(nibbles, child, strategy)
         }
         _ => Ok(node),
     }
@@ -657,7 +655,6 @@ fn try_collapse_if_extension<N: PartialTrie>(
 fn collapse_ext_node_if_needed<N: PartialTrie>(
     ext_nibbles: &Nibbles,
     child: &WrappedNode<N>,
-    curr_key: &Nibbles,
     strategy: OnOrphanedHashNode,
 ) -> TrieOpResult<WrappedNode<N>> {
     trace!(
@@ -682,7 +679,7 @@ fn collapse_ext_node_if_needed<N: PartialTrie>(
         Node::Hash(h) => match strategy {
             OnOrphanedHashNode::CollapseToExtension => Ok(extension(*ext_nibbles, child.clone())),
             OnOrphanedHashNode::Reject => Err(TrieOpError::ExtensionCollapsedIntoHashError(
-                curr_key.merge_nibbles(ext_nibbles),
+                *ext_nibbles,
                 *h,
             )),
         },
-- 
2.43.0


From 7c61db4474d30cf140bf01d723b5c9cdc2404d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 03/60] fix: reset the root node too between MPT subsets

---
 mpt_trie/src/trie_subsets.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index eadb6b3..cce1163 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -373,18 +373,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
-        TrackedNodeIntern::Branch(ref mut children) => children.iter_mut().for_each(|c| {
-            c.info.reset();
-            reset_tracked_trie_state(c);
-        }),
-        TrackedNodeIntern::Extension(ref mut child) => {
-            child.info.reset();
-            reset_tracked_trie_state(child);
-        }
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+        TrackedNodeIntern::Branch(ref mut children) => {
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => (),
     }
 }
 
-- 
2.43.0


From c28e451f5be911ffcb1028f813bc3a0f234c6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 04/60] fix: SMT get returns 0 for a key whose path ends in an
 empty node

---
 smt_trie/src/smt.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index d2236ae..d1f3b0b 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -156,7 +156,14 @@ impl<D: Db> Smt<D> {
                 level += 1;
             }
         }
-        unreachable!()
+        // The path ends in an empty node.
+        assert!(self
+            .kv_store
+            .get(&key)
+            .copied()
+            .unwrap_or_default()
+            .is_zero());
+        U256::ZERO
     }
 
     /// Set the value associated with the key in the SMT.
-- 
2.43.0


From 036f41a4c289b55dc5b9ade0568b91d3d82662d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 05/60] fix: SMT keys that differ only in their last bit no
 longer overflow a shift

---
 smt_trie/src/smt.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index d1f3b0b..0c51e65 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -50,7 +50,9 @@ impl Key {
             n[i % 4] += 1;
         }
         let key = std::array::from_fn(|i| {
-            F::from_canonical_u64((rem_key.0[i].to_canonical_u64() << n[i]) | accs[i])
+            // `n[i]` is 64 when all the bits come from the path.
+            let rem = rem_key.0[i].to_canonical_u64();
+            F::from_canonical_u64(rem.checked_shl(n[i]).unwrap_or(0) | accs[i])
         });
         Key(key)
     }
@@ -63,7 +65,7 @@ impl Key {
             if full_levels * 4 + i < nbits {
                 n += 1;
             }
-            auxk[i] >>= n;
+            auxk[i] = auxk[i].checked_shr(n as u32).unwrap_or(0);
         }
         Key(auxk.map(F::from_canonical_u64))
     }
-- 
2.43.0


From a1878223e545ecb0fe5ffc1d5433625db8338740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 06/60] fix: build partial tries from proofs with inlined nodes

---
 mpt_trie/src/builder.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/mpt_trie/src/builder.rs b/mpt_trie/src/builder.rs
index 43aebb7..76e459a 100644
--- a/mpt_trie/src/builder.rs
+++ b/mpt_trie/src/builder.rs
@@ -5,7 +5,7 @@ use std::sync::Arc;
 
 use ethereum_types::H256;
 use keccak_hash::keccak;
-use rlp::{Prototype, Rlp};
+use rlp::{Prototype, Rlp, RlpStream};
 use zk_evm_common::EMPTY_TRIE_HASH;
 
 use super::{
@@ -46,16 +46,12 @@ impl<T: PartialTrie> PartialTrieBuilder<T> {
         for node in proof {
             let rlp = Rlp::new(&node);
             match rlp.prototype().expect("rlp data is valid") {
-                Prototype::List(2) => {
-                    self.insert_short_node_variants(rlp.as_list().expect("valid list"))
-                }
+                Prototype::List(2) => self.insert_short_node_variants(node_items(&rlp)),
                 Prototype::List(17) => {
                     for i in 0..16 {
                         if let Ok(entry) = rlp.at(i) {
                             if let Prototype::List(2) = entry.prototype().expect("valid list") {
-                                self.insert_short_node_variants(
-                                    entry.as_list().expect("valid list"),
-                                )
+                                self.insert_short_node_variants(node_items(&entry))
                             }
                         }
                     }
@@ -75,19 +71,34 @@ impl<T: PartialTrie> PartialTrieBuilder<T> {
         let mut nibbles = Nibbles::from_bytes_be(&bytes[0][..]).unwrap();
         while !nibbles.is_empty() {
             nibbles.pop_next_nibble_front();
-            let node = rlp::encode_list::<Vec<u8>, _>(&[
-                nibbles.to_hex_prefix_encoding(is_leaf).to_vec(),
-                bytes[1].clone(),
-            ]);
+            let mut stream = RlpStream::new_list(2);
+            stream.append(&nibbles.to_hex_prefix_encoding(is_leaf).to_vec());
+            match is_leaf || bytes[1].len() >= 32 {
+                true => stream.append(&bytes[1]),
+                // The child of the extension is inlined.
+                false => stream.append_raw(&bytes[1], 1),
+            };
+            let node = stream.out();
             self.nodes.entry(keccak(&node)).or_insert(node.to_vec());
         }
     }
 }
 
+/// Returns the items of an RLP-encoded node: the payload of each string, and
+/// the encoding of each inlined child node (a list).
+fn node_items(rlp: &Rlp) -> Vec<Vec<u8>> {
+    rlp.iter()
+        .map(|item| match item.is_list() {
+            true => item.as_raw().to_vec(),
+            false => item.data().expect("valid rlp string").to_vec(),
+        })
+        .collect()
+}
+
 /// Constructs a partial trie from a root hash and a collection of nodes.
 fn construct_partial_trie<T: PartialTrie>(hash: H256, nodes: &HashMap<H256, Vec<u8>>) -> T {
     let bytes = match nodes.get(&hash) {
-        Some(value) => rlp::decode_list::<Vec<u8>>(value),
+        Some(value) => node_items(&Rlp::new(value)),
         None if [H256::zero(), EMPTY_TRIE_HASH].contains(&hash) => return T::default(),
         None => return T::new(Node::Hash(hash)),
     };
@@ -171,7 +182,7 @@ fn parse_leaf_node<T: PartialTrie>(bytes: Vec<Vec<u8>>) -> Node<T> {
 /// Parses a child node from the given bytes.
 fn parse_child_node<T: PartialTrie>(bytes: &[u8], nodes: &HashMap<H256, Vec<u8>>) -> T {
     match bytes.len() {
-        x if x < 32 => decode_node(rlp::decode_list::<Vec<u8>>(bytes), nodes),
+        x if x < 32 => decode_node(node_items(&Rlp::new(bytes)), nodes),
         _ => construct_partial_trie(H256::from_slice(bytes), nodes),
     }
 }
-- 
2.43.0


From ce51c9bd007fdaa3e80e01e5b3e69626258f42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 07/60] fix: reading unset memory no longer grows the
 interpreter's memory

Large SHL/SHR shift amounts look the shift table up at an unset address as
high as u32::MAX; storing the zero read there allocated the whole segment.
---
 evm_arithmetization/src/cpu/kernel/interpreter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/interpreter.rs b/evm_arithmetization/src/cpu/kernel/interpreter.rs
index d974550..d4c9c75 100644
--- a/evm_arithmetization/src/cpu/kernel/interpreter.rs
+++ b/evm_arithmetization/src/cpu/kernel/interpreter.rs
@@ -410,10 +410,14 @@ impl<F: RichField> Interpreter<F> {
             match kind {
                 MemoryOpKind::Read => {
                     if self.generation_state.memory.get(address).is_none() {
-                        if !self.is_preinitialized_segment(address.segment) && !value.is_zero() {
+                        if self.is_preinitialized_segment(address.segment) {
+                            self.generation_state.memory.set(address, value);
+                        } else if !value.is_zero() {
                             return Err(anyhow!("The initial value {:?} at address {:?} should be zero, because it is not preinitialized.", value, address));
                         }
-                        self.generation_state.memory.set(address, value);
+                        // An unset address of any other segment already reads as zero. We don't
+                        // store the zero: the address may be as high as `u32::MAX` (large shifts
+                        // look up the shift table at the shift amount).
                     }
                 }
                 MemoryOpKind::Write => self.generation_state.memory.set(address, value),
-- 
2.43.0


From b92529c4e62def2fa3ecff4e5bffe7d4e6d6fd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 08/60] fix: transient storage search must advance by whole
 entries

---
 .../src/cpu/kernel/asm/memory/transient_storage.asm             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm b/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
index 8aa32c3..4204e0c 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
@@ -56,7 +56,7 @@ search_transient_storage_loop:
     %jumpi(search_transient_storage_found)
 increment_and_loop:
     // stack: i, len, addr, key, retdest
-    %increment
+    %add_const(3) // Each entry is an (address, key, value) triplet.
     %jump(search_transient_storage_loop)
 
 search_transient_storage_not_found:
-- 
2.43.0


From 5362ee2d7de2c56d1565dc576854ca145f821cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 09/60] fix: a create that collides doesn't mark the existing
 contract as created

---
 .../src/cpu/kernel/asm/core/create_contract_account.asm         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
index a614f9f..e8a50f4 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
@@ -4,7 +4,6 @@
 %macro create_contract_account
     // stack: address
     DUP1 %insert_touched_addresses
-    DUP1 %append_created_contracts
     DUP1 %mpt_read_state_trie
     // stack: existing_account_ptr, address
     // If the account doesn't exist, there's no need to check its balance or nonce,
@@ -33,6 +32,7 @@
     %journal_add_account_created
 %%do_insert:
     // stack: new_acct_value=existing_balance, address
+    DUP2 %append_created_contracts
     // Write the new account's data to MPT data, and get a pointer to it.
     %get_trie_data_size
     // stack: account_ptr, new_acct_value, address
-- 
2.43.0


From 173571a32c508e438de85657b8b1b7ef39193df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 10/60] fix: CREATE of empty code must not check a stale first
 byte for 0xEF

---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index 1c8e57e..a4a1857 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -148,13 +148,16 @@ after_constructor:
     // stack: new_ctx, leftover_gas, success, address, kexit_info
     POP
 
-    // EIP-3541: Reject new contract code starting with the 0xEF byte
+    // EIP-3541: Reject new contract code starting with the 0xEF byte, if code_size > 0
+    // stack: leftover_gas, success, address, kexit_info
+    %returndatasize ISZERO %jumpi(after_constructor_ef_check)
     PUSH @SEGMENT_RETURNDATA
     GET_CONTEXT
     %build_address_no_offset
     MLOAD_GENERAL
     %eq_const(0xEF) %jumpi(create_first_byte_ef)
 
+after_constructor_ef_check:
     // Charge gas for the code size.
     // stack: leftover_gas, success, address, kexit_info
     %returndatasize // Size of the code.
-- 
2.43.0


From 60d3f5aa8a887895ecdd87f4068deec707dfc3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 11/60] fix: a CREATE rejected for its code leaves an empty
 return data buffer

---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index a4a1857..58d0ee6 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -228,12 +228,14 @@ create_collision:
 // stack: new_ctx, leftover_gas, success, address, kexit_info
 create_first_byte_ef:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
 // stack: code_size, new_ctx, leftover_gas, success, address, kexit_info
 create_code_too_large:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (code_size, leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
-- 
2.43.0


From f6e6f0f0bb65557e5490475f39cc7df791cf1041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 12/60] fix: reverting a zero-balance SELFDESTRUCT undoes it
 even if the recipient doesn't exist

---
 .../src/cpu/kernel/asm/core/terminate.asm     | 28 +------------------
 .../kernel/asm/journal/account_destroyed.asm  |  6 ++++
 2 files changed, 7 insertions(+), 27 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm b/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
index 2e3482e..ecf9f89 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
@@ -110,35 +110,9 @@ global sys_selfdestruct:
 
 sys_selfdestruct_journal_add:
     // stack: address, recipient, balance, kexit_info
-    DUP3 ISZERO
-
-    // If balance is 0, we didn't perform any transfer. Hence, the recipient
-    // may not exist, and we need to verify this before adding a new journal entry.
-
-    // stack: balance=0, address, recipient, balance, kexit_info
-    %jumpi(skip_journal_entry_if_nonexistent)
-
-sys_selfdestruct_journal_add_after_check:
-    // stack: address, recipient, balance, kexit_info
+    // Note that if balance is 0, the recipient may not exist.
     %journal_add_account_destroyed
-    %jump(sys_selfdestruct_exit)
-
-skip_journal_entry_if_nonexistent:
-    // stack: address, recipient, balance, kexit_info
-    DUP2 %is_non_existent
-
-    // If the account doesn't exist, there is no need to add a journal entry.
-    // stack: recipient_is_non_existent, address, recipient, balance, kexit_info
-    %jumpi(skip_journal_entry)
-
-    // stack: address, recipient, balance, kexit_info
-    %jump(sys_selfdestruct_journal_add_after_check)
-
-skip_journal_entry:
-    // stack: address, recipient, balance, kexit_info
-    %pop3
 
-sys_selfdestruct_exit:
     // stack: kexit_info
     %leftover_gas
     // stack: leftover_gas
diff --git a/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm b/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm
index d62f3d4..3f1f013 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm
@@ -13,6 +13,8 @@ global revert_account_destroyed:
     %jump(remove_selfdestruct_list)
 revert_account_destroyed_contd:
     // stack: address, target, prev_balance, retdest
+    // If `prev_balance` is 0 no transfer was performed, and `target` may not exist.
+    DUP3 ISZERO %jumpi(revert_account_destroyed_no_transfer)
     SWAP1
     // Remove `prev_balance` from `target`'s balance.
     // stack: target, address, prev_balance, retdest
@@ -36,3 +38,7 @@ revert_account_destroyed_contd:
     // stack: account_balance_payload_ptr, prev_balance, retdest
     %mstore_trie_data
     JUMP
+revert_account_destroyed_no_transfer:
+    // stack: address, target, prev_balance, retdest
+    %pop3
+    JUMP
-- 
2.43.0


From b186c9987886e7fc95d9f0c99da7a3c9002c3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 13/60] fix: forget the slots of a deleted account in the
 storage list pointers

---
 evm_arithmetization/src/generation/prover_input.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 704e2f4..55850a1 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -612,6 +612,11 @@ impl<F: RichField> GenerationState<F> {
             .next_back()
             .unwrap_or((&DUMMYHEAD, &(Segment::StorageLinkedList as usize)));
 
+        // The kernel is about to delete all the nodes of `addr`.
+        self.state_ptrs
+            .storage
+            .retain(|&(node_addr, _), _| node_addr != addr);
+
         Ok(U256::from(
             (pred_ptr - Segment::StorageLinkedList as usize) / STORAGE_LINKED_LIST_NODE_SIZE,
         ))
-- 
2.43.0


From e745460ca6eb5c50628a8e44659420b2ca855537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 14/60] fix: give a valid proof for jumps into push data past
 the first 32 bytes

---
 .../src/generation/prover_input.rs            | 59 +++++++++++--------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 55850a1..935d858 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -395,17 +395,14 @@ impl<F: RichField> GenerationState<F> {
     }
 
     /// Returns a non-jumpdest proof for the address on the top of the stack. A
-    /// non-jumpdest proof is the closest address to the address on the top of
-    /// the stack, if the closest address is >= 32, or zero otherwise.
+    /// non-jumpdest proof has the same form as the proof of a jumpdest: the
+    /// start of 32 bytes whose end is an opcode at most at the address, as far
+    /// as none of those bytes is a PUSHXX reaching it, or zero otherwise. An
+    /// address that is an opcode itself (other than a JUMPDEST) needs no proof.
     fn run_next_non_jumpdest_proof(&self) -> Result<U256, ProgramError> {
         let code = self.get_current_code()?;
         let address = u256_to_usize(stack_peek(self, 0)?)?;
-        let closest_opcode_addr = get_closest_opcode_address(&code, address);
-        Ok(if closest_opcode_addr < 32 {
-            U256::zero()
-        } else {
-            closest_opcode_addr.into()
-        })
+        Ok(get_non_jumpdest_proof(&code, address).into())
     }
 
     /// Returns a pointer to an element in the list whose value is such that
@@ -865,21 +862,14 @@ fn get_proofs_and_jumpdests(
     largest_address: usize,
     jumpdest_table: std::collections::BTreeSet<usize>,
 ) -> Vec<usize> {
-    const PUSH1_OPCODE: u8 = 0x60;
-    const PUSH32_OPCODE: u8 = 0x7f;
     let (proofs, _) = CodeIterator::until(code, largest_address + 1).fold(
         (vec![], 0),
         |(mut proofs, last_proof), (addr, _opcode)| {
-            let has_prefix = if let Some(prefix_start) = addr.checked_sub(32) {
-                code[prefix_start..addr]
-                    .iter()
-                    .rev()
-                    .zip(0..32)
-                    .all(|(&byte, i)| byte > PUSH32_OPCODE || byte < PUSH1_OPCODE + i)
+            let last_proof = if has_jumpdest_proof_prefix(code, addr) {
+                addr - 32
             } else {
-                false
+                last_proof
             };
-            let last_proof = if has_prefix { addr - 32 } else { last_proof };
             if jumpdest_table.contains(&addr) {
                 // Push the proof
                 proofs.push(last_proof);
@@ -892,13 +882,34 @@ fn get_proofs_and_jumpdests(
     proofs
 }
 
-/// Return the largest prev_addr in `code` such that `code[pred_addr]` is an
-/// opcode (and not the argument of some PUSHXX) and pred_addr <= address
-fn get_closest_opcode_address(code: &[u8], address: usize) -> usize {
-    let (prev_addr, _) = CodeIterator::until(code, address + 1)
+/// Whether none of the 32 bytes before `addr` is a PUSHXX with `addr` in its
+/// range.
+fn has_jumpdest_proof_prefix(code: &[u8], addr: usize) -> bool {
+    const PUSH1_OPCODE: u8 = 0x60;
+    const PUSH32_OPCODE: u8 = 0x7f;
+    if let Some(prefix_start) = addr.checked_sub(32) {
+        code[prefix_start..addr]
+            .iter()
+            .rev()
+            .zip(0..32)
+            .all(|(&byte, i)| byte > PUSH32_OPCODE || byte < PUSH1_OPCODE + i)
+    } else {
+        false
+    }
+}
+
+/// Returns the proof from which the opcodes up to `address` can be walked: the
+/// largest one, or zero to start from the first opcode. If `address` is one of
+/// those opcodes there is nothing to prove, and it is returned itself.
+fn get_non_jumpdest_proof(code: &[u8], address: usize) -> usize {
+    let opcodes = || CodeIterator::until(code, address + 1);
+    if address >= 32 && opcodes().last().is_some_and(|(addr, _)| addr == address) {
+        return address;
+    }
+    opcodes()
+        .filter(|&(addr, _opcode)| has_jumpdest_proof_prefix(code, addr))
         .last()
-        .unwrap_or((0, 0));
-    prev_addr
+        .map_or(0, |(addr, _opcode)| addr - 32)
 }
 
 /// An iterator over the EVM code contained in `code`, which skips the bytes
-- 
2.43.0


From a4c8d7eb67896a5b1d9ecd603ff4d385a205ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 15/60] fix: init code may jump beyond the size limit of
 deployed code

---
 evm_arithmetization/src/cpu/kernel/asm/core/exception.asm | 4 ++--
 evm_arithmetization/src/cpu/kernel/constants/mod.rs       | 4 +++-
 evm_arithmetization/src/witness/transition.rs             | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
index bea641c..d119d53 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
@@ -130,10 +130,10 @@ global invalid_jump_jumpi_destination_common:
         // We have a jump destination on the stack. We want to `PANIC` if it is valid, and jump to
         // `fault_exception` if it is not. An address is a valid jump destination if it points to a
         // `JUMPDEST` instruction. In practice, we check two things:
-        //  1. the address is no greater than MAX_CODE_SIZE, and
+        //  1. the address is no greater than MAX_INITCODE_SIZE (the code may be init code), and
         //  2. it points to a `JUMPDEST` instruction.
         // stack: jump_dest
-        PUSH @MAX_CODE_SIZE
+        PUSH @MAX_INITCODE_SIZE
         DUP2
         // stack: jump_dest, max_size, jump_dest
         GT // jump_dest > max_size == !(jump_dest <= max_size)
diff --git a/evm_arithmetization/src/cpu/kernel/constants/mod.rs b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
index 91c2a0a..09912d8 100644
--- a/evm_arithmetization/src/cpu/kernel/constants/mod.rs
+++ b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
@@ -377,9 +377,11 @@ pub(crate) const MAX_CODE_SIZE: u64 = if cfg!(feature = "polygon_pos") {
     0x6000 // default Ethereum value
 };
 
+pub(crate) const MAX_INITCODE_SIZE: u64 = 0xc000;
+
 const CODE_SIZE_LIMIT: [(&str, u64); 3] = [
     ("MAX_CODE_SIZE", MAX_CODE_SIZE),
-    ("MAX_INITCODE_SIZE", 0xc000),
+    ("MAX_INITCODE_SIZE", MAX_INITCODE_SIZE),
     ("INITCODE_WORD_COST", 2),
 ];
 
diff --git a/evm_arithmetization/src/witness/transition.rs b/evm_arithmetization/src/witness/transition.rs
index fdcf9af..1affc53 100644
--- a/evm_arithmetization/src/witness/transition.rs
+++ b/evm_arithmetization/src/witness/transition.rs
@@ -6,7 +6,7 @@ use super::util::stack_pop_with_log_and_fill;
 use crate::cpu::columns::CpuColumnsView;
 use crate::cpu::kernel::aggregator::KERNEL;
 use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
-use crate::cpu::kernel::constants::MAX_CODE_SIZE;
+use crate::cpu::kernel::constants::MAX_INITCODE_SIZE;
 use crate::cpu::kernel::opcodes::get_opcode;
 use crate::cpu::membus::NUM_GP_CHANNELS;
 use crate::cpu::stack::{
@@ -384,7 +384,7 @@ where
             .try_into()
             .map_err(|_| ProgramError::InvalidJumpDestination)?;
 
-        if !self.is_kernel() && dst > MAX_CODE_SIZE as u32 {
+        if !self.is_kernel() && dst > MAX_INITCODE_SIZE as u32 {
             return Err(ProgramError::InvalidJumpDestination);
         }
 
@@ -456,7 +456,7 @@ where
                 .try_into()
                 .map_err(|_| ProgramError::InvalidJumpiDestination)?;
 
-            if !self.is_kernel() && dst > MAX_CODE_SIZE as u32 {
+            if !self.is_kernel() && dst > MAX_INITCODE_SIZE as u32 {
                 return Err(ProgramError::InvalidJumpiDestination);
             }
 
-- 
2.43.0


From 051dfff9b1d148fbcbe41db22ec7bd9f3bc031ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 16/60] fix: a call short of gas must not overflow the gas it
 charges

---
 .../src/cpu/kernel/asm/core/call_gas.asm       | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/call_gas.asm b/evm_arithmetization/src/cpu/kernel/asm/core/call_gas.asm
index c70de69..b3a9bd7 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/call_gas.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/call_gas.asm
@@ -32,17 +32,15 @@ after_new_cost:
     // stack: Cextra, address, gas, kexit_info, value, retdest
     DUP4 %leftover_gas
     // stack: leftover_gas, Cextra, address, gas, kexit_info, value, retdest
-    DUP2 DUP2 LT
-    // stack: leftover_gas<Cextra, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
-    DUP5 DUP2 MUL
-    // stack: (leftover_gas<Cextra)*gas, leftover_gas<Cextra, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
-    SWAP1 %not_bit
-    // stack: leftover_gas>=Cextra, (leftover_gas<Cextra)*gas, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
-    DUP4 DUP4 SUB
-    // stack: leftover_gas - Cextra, leftover_gas>=Cextra, (leftover_gas<Cextra)*gas, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
+    // If leftover_gas < Cextra, charging Cextra alone runs out of gas below.
+    // Adding any of the (unbounded) requested gas to it could overflow.
+    DUP2 DUP2 LT %not_bit
+    // stack: leftover_gas>=Cextra, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
+    DUP3 DUP3 SUB
+    // stack: leftover_gas - Cextra, leftover_gas>=Cextra, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
     %all_but_one_64th
-    // stack: L(leftover_gas - Cextra), leftover_gas>=Cextra, (leftover_gas<Cextra)*gas, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
-    DUP7 %min MUL ADD
+    // stack: L(leftover_gas - Cextra), leftover_gas>=Cextra, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
+    DUP6 %min MUL
     // stack: Cgascap, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
 
     // Compute C_call and charge for it.
-- 
2.43.0


From 1ff415875cf5535528df5db188c00f025f180cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 17/60] fix: point evaluation scalars must be below the modulus

---
 evm_arithmetization/src/generation/prover_input.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 935d858..c4a0414 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -643,7 +643,7 @@ impl<F: RichField> GenerationState<F> {
         let proof_lo = stack_peek(self, 6)?;
 
         // Validate scalars
-        if z > BLS_SCALAR || y > BLS_SCALAR {
+        if z >= BLS_SCALAR || y >= BLS_SCALAR {
             return Ok(U256::zero());
         }
 
-- 
2.43.0


From 58900614f26438316b19d62696cb175a664f3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 18/60] fix: point evaluation refuses inputs that aren't 192
 bytes long

---
 .../src/cpu/kernel/asm/core/precompiles/kzg_peval.asm        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
index 5a8a372..d9e0969 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
@@ -14,6 +14,11 @@ global precompile_kzg_peval:
 
     %charge_gas_const(@KZG_PEVAL_GAS)
 
+    // The input must be exactly 192 bytes long.
+    %calldatasize
+    // stack: calldatasize, kexit_info
+    %eq_const(192) ISZERO %jumpi(fault_exception)
+
     // Load `versioned_hash | z | y | commitment | proof` from the call data using `MLOAD_32BYTES`.
     // Note that `z` and `y` are padded 32 byte big endian values, and `commitment` and `proof` are
     // both 48 bytes big-endian encoded values.
-- 
2.43.0


From 3bf402083d085f12be5c6b115ded0d5b48b94268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 19/60] fix: MODEXP must not read the exponent of a huge base
 from another segment

---
 .../src/cpu/kernel/asm/core/precompiles/expmod.asm            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm
index 684c808..ef5ed4f 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm
@@ -96,7 +96,9 @@ store_limbs_return:
 calculate_l_E_prime:
     // stack: l_E, l_B, retdest
     // Throw a fault early if the lengths are too large.
-    DUP2 %gt_const(0x100000000000000000000000000000000) %jumpi(fault_exception)
+    // A base this long costs more than any gas limit, whatever the exponent. The
+    // exponent must not be read from beyond the calldata segment.
+    DUP2 %gt_const(0x7fffffff) %jumpi(fault_exception)
     DUP1 %gt_const(0x100000000000000000000000000000000) %jumpi(fault_exception)
     DUP1 ISZERO %jumpi(case_le_zero)
     // stack: l_E, l_B, retdest
-- 
2.43.0


From e0d82ffc81490033d7685547d63e330487e66d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 20/60] fix: reverting a failed transaction to a precompile
 needs its checkpoint

---
 .../src/cpu/kernel/asm/core/precompiles/main.asm                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
index d29bff2..875a7aa 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
@@ -57,6 +57,8 @@ global after_precompile:
 
 global handle_precompiles_from_eoa:
     PUSH 1 %mstore_global_metadata(@GLOBAL_METADATA_IS_PRECOMPILE_FROM_EOA)
+    // `process_message_txn_fail` reverts to this checkpoint if the precompile fails.
+    %checkpoint
     // stack: addr, retdest
     %create_context
     // stack: new_ctx, addr, retdest
-- 
2.43.0


From ba4247d5451e4031753bf6324f42217a4676ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 21/60] fix: MODEXP gas of 2^64 and more must not wrap around

---
 .../src/cpu/kernel/asm/core/precompiles/expmod.asm           | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm
index ef5ed4f..f8dd814 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm
@@ -85,7 +85,8 @@ store_limbs_return:
 %macro expmod_gas_f
     // stack: x
     // Overflow check
-    DUP1 %gt_const(0x800000000000000000000000000000006) %jumpi(fault_exception)
+    // Operands this long cost more than any gas limit.
+    DUP1 %gt_const(0x7fffffff) %jumpi(fault_exception)
     // stack: x
     %ceil_div_const(8)
     // stack: ceil(x/8)
@@ -230,6 +231,8 @@ l_E_prime_return:
     // stack: (max(1, l_E_prime) * f(max(l_M, l_B))) / G_quaddivisor, len, l_M, l_E, l_B, kexit_info
     %max_const(200)
     // stack: g_r, len, l_M, l_E, l_B, kexit_info
+    // No gas limit is this large, and `charge_gas` expects less than 64 bits.
+    DUP1 %gt_const(0xffffffffffff) %jumpi(fault_exception)
     %stack (g_r, l: 4, kexit_info) -> (g_r, kexit_info, l)
     // stack: g_r, kexit_info, len, l_M, l_E, l_B
     %charge_gas
-- 
2.43.0


From 455dbba3678ed8b66280ce31cb1aea52f0291d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 22/60] fix: a transaction must fit into the gas left in the
 block

---
 evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index 28252d0..e9b492d 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -23,6 +23,12 @@ global process_normalized_txn:
     %mload_global_metadata(@GLOBAL_METADATA_BLOCK_GAS_LIMIT)
     %assert_ge(invalid_txn)
 
+    // Assert block gas limit >= txn gas limit + gas used by the block so far.
+    // stack: retdest, cum_gas
+    DUP2 %mload_txn_field(@TXN_FIELD_GAS_LIMIT) ADD
+    %mload_global_metadata(@GLOBAL_METADATA_BLOCK_GAS_LIMIT)
+    %assert_ge(invalid_txn)
+
     %mload_txn_field(@TXN_FIELD_ORIGIN)
     // stack: sender, retdest
 
-- 
2.43.0


From d3085e588b63240353e11e9eaadccfecfe7456f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 23/60] fix: the sender must afford the gas limit at the fee
 cap, without overflow

---
 .../src/cpu/kernel/asm/core/process_txn.asm   | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index e9b492d..ec14844 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -45,14 +45,24 @@ global process_normalized_txn:
     DUP1 %ext_code_empty %assert_nonzero(invalid_txn_1)
     // stack: sender, retdest
 
-    // Assert sender balance >= gas_limit * gas_price + value.
+    // Assert sender balance >= gas_limit * max_fee_per_gas + value,
+    // without overflow.
     %balance
     // stack: sender_balance, retdest
-    %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS)
+    %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_GAS)
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
-    MUL
-    %mload_txn_field(@TXN_FIELD_VALUE)
-    ADD
+    // stack: gas_limit, max_fee, sender_balance, retdest
+    DUP2 DUP2 MUL
+    // stack: max_gas_cost, gas_limit, max_fee, sender_balance, retdest
+    %stack (max_gas_cost, gas_limit, max_fee) -> (max_gas_cost, gas_limit, max_fee, max_gas_cost)
+    // The gas limit isn't zero, as it covers the intrinsic gas.
+    DIV %assert_eq(invalid_txn_2)
+    // stack: max_gas_cost, sender_balance, retdest
+    DUP1 %mload_txn_field(@TXN_FIELD_VALUE) ADD
+    // stack: max_cost, max_gas_cost, sender_balance, retdest
+    %stack (max_cost, max_gas_cost) -> (max_cost, max_gas_cost, max_cost)
+    %assert_ge(invalid_txn_2)
+    // stack: max_cost, sender_balance, retdest
     %assert_le(invalid_txn)
     // stack: retdest
 
-- 
2.43.0


From 4ee42af0623b9d6e83b1fdbed83dad60517a57d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 24/60] fix: blob transactions can't create contracts

---
 evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index f84f95c..da55c50 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -32,6 +32,8 @@ global process_type_3_txn:
     %decode_and_store_max_fee
     %decode_and_store_gas_limit
     %decode_and_store_to
+    // EIP-4844: Blob transactions can't create contracts.
+    %is_contract_creation %jumpi(invalid_txn_2)
     %decode_and_store_value
     %decode_and_store_data
     %decode_and_store_access_list
-- 
2.43.0


From d5541969b2ab06b83dc4096ccdb1d6b403a698b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 25/60] fix: check blob fee caps and charge the blob fee only
 after validation

---
 .../src/cpu/kernel/asm/core/process_txn.asm   | 46 +++++++++++++++++++
 .../cpu/kernel/asm/transactions/type_3.asm    | 13 +-----
 2 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index ec14844..9a6341a 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -62,6 +62,31 @@ global process_normalized_txn:
     // stack: max_cost, max_gas_cost, sender_balance, retdest
     %stack (max_cost, max_gas_cost) -> (max_cost, max_gas_cost, max_cost)
     %assert_ge(invalid_txn_2)
+    // stack: max_cost, sender_balance, retdest
+
+    #[cfg(feature = eth_mainnet)]
+    {
+        // EIP-4844: Add blob_gas * max_fee_per_blob_gas, without overflow.
+        %compute_blob_gas
+        // stack: blob_gas, max_cost, sender_balance, retdest
+        DUP1 ISZERO %jumpi(no_blobs)
+        %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_BLOB_GAS)
+        // stack: max_blob_fee, blob_gas, max_cost, sender_balance, retdest
+        DUP2 DUP2 MUL
+        // stack: max_blob_cost, max_blob_fee, blob_gas, max_cost, sender_balance, retdest
+        %stack (max_blob_cost, max_blob_fee, blob_gas) -> (max_blob_cost, blob_gas, max_blob_fee, max_blob_cost)
+        DIV %assert_eq(invalid_txn_3)
+        // stack: max_blob_cost, max_cost, sender_balance, retdest
+        DUP2 ADD
+        // stack: max_total_cost, max_cost, sender_balance, retdest
+        %stack (max_total_cost, max_cost) -> (max_total_cost, max_cost, max_total_cost)
+        %assert_ge(invalid_txn_2)
+        PUSH 0
+    no_blobs:
+        // stack: 0, max_cost, sender_balance, retdest
+        POP
+    }
+
     // stack: max_cost, sender_balance, retdest
     %assert_le(invalid_txn)
     // stack: retdest
@@ -80,10 +105,31 @@ global process_normalized_txn:
     %assert_eq(invalid_txn)
     // stack: retdest
 
+    #[cfg(feature = eth_mainnet)]
+    {
+        // EIP-4844: Compute the blob fee, if any.
+        %compute_blob_gas
+        // stack: blob_gas, retdest
+        DUP1 ISZERO %jumpi(buy_gas)
+        PROVER_INPUT(blobbasefee)
+        // stack: blob_base_fee, blob_gas, retdest
+        // Assert max_fee_per_blob_gas >= blob_base_fee.
+        DUP1 %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_BLOB_GAS)
+        %assert_ge(invalid_txn_2)
+        MUL
+        // stack: blob_fee, retdest
+    }
+    #[cfg(not(feature = eth_mainnet))]
+    {
+        PUSH 0
+    }
+
 global buy_gas:
+    // stack: blob_fee, retdest
     %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS)
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
     MUL
+    ADD // The blob fee is burned too.
     // stack: gas_cost, retdest
     %mload_txn_field(@TXN_FIELD_ORIGIN)
     // stack: sender_addr, gas_cost, retdest
diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index da55c50..e4b35d0 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -89,26 +89,15 @@ store_origin:
     %eq_const(0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff)
     %jumpi(panic)
 
-    // stack: address, retdest
-    // EIP-4844: Deduct blob_gas_fee from the sender and burn it
-    %compute_blob_gas_fee
-    DUP2
-    // stack: address, blob_gas_fee, address, retdest
-    %deduct_eth
-    // stack: deduct_eth_status, address, retdest
-    %jumpi(panic)
-
     // stack: address, retdest
     %mstore_txn_field(@TXN_FIELD_ORIGIN)
     // stack: retdest
     %jump(process_normalized_txn)
 
-%macro compute_blob_gas_fee
+%macro compute_blob_gas
     PUSH @GAS_PER_BLOB
     %get_blob_versioned_hashes_list_length
     MUL
-    PROVER_INPUT(blobbasefee)
-    MUL
 %endmacro
 
 %macro get_blob_versioned_hashes_list_length
-- 
2.43.0


From 94d997bb2aa3644c0e46174e76c79c0e524b4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 26/60] fix: accept a missing storage trie for an account
 without storage

---
 evm_arithmetization/src/world.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/world.rs b/evm_arithmetization/src/world.rs
index 854edee..add833f 100644
--- a/evm_arithmetization/src/world.rs
+++ b/evm_arithmetization/src/world.rs
@@ -130,8 +130,11 @@ impl Type1World {
         for (haddr, acct) in state.iter() {
             let storage = storage.entry(haddr).or_insert_with(|| {
                 let mut it = StorageTrie::default();
-                it.insert_hash(MptKey::default(), acct.storage_root)
-                    .expect("empty trie insert cannot fail");
+                // An empty trie has nothing to hash out.
+                if acct.storage_root != it.root() {
+                    it.insert_hash(MptKey::default(), acct.storage_root)
+                        .expect("empty trie insert cannot fail");
+                }
                 it
             });
             ensure!(
-- 
2.43.0


From ed08dc6d042096ae7af8b07c5e5fef7820991d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 27/60] fix: keep the fee of a block beneficiary born in a
 failed transaction

---
 trace_decoder/src/core.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trace_decoder/src/core.rs b/trace_decoder/src/core.rs
index cd2bcfa..da3bbc3 100644
--- a/trace_decoder/src/core.rs
+++ b/trace_decoder/src/core.rs
@@ -503,8 +503,9 @@ where
 
                 let do_writes = !just_access
                     && match born {
-                        // if txn failed, don't commit changes to trie
-                        true => receipt.status,
+                        // if txn failed, don't commit changes to trie,
+                        // except for the fee paid to the block beneficiary
+                        true => receipt.status || addr == block.block_beneficiary,
                         false => true,
                     };
 
-- 
2.43.0


From cf33b6d3cb2a9a25e5b003cbf7d51b86cd945e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 28/60] fix: don't create an account for a withdrawal of
 nothing

---
 trace_decoder/src/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trace_decoder/src/core.rs b/trace_decoder/src/core.rs
index da3bbc3..85d41ae 100644
--- a/trace_decoder/src/core.rs
+++ b/trace_decoder/src/core.rs
@@ -591,7 +591,10 @@ where
                 true => {
                     for (addr, amt) in &withdrawals {
                         state_mask.insert(<WorldT::SubtriePath>::from(*addr));
-                        world.update_balance(*addr, |it| *it += *amt)?;
+                        // A withdrawal of nothing does not create an account.
+                        if !amt.is_zero() {
+                            world.update_balance(*addr, |it| *it += *amt)?;
+                        }
                     }
                     mem::take(&mut withdrawals)
                 }
-- 
2.43.0


From 5988928f6efa37e927f1db9e1b993ad49d704ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 29/60] fix: handle keys which end inside an extension when
 marking trie nodes

---
 mpt_trie/src/trie_subsets.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index cce1163..6a90402 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -325,7 +325,10 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
             trie.info.touched = true;
 
             let nibbles: &Nibbles = trie.info.get_nibbles_expected();
-            if curr_nibbles.nibbles_are_identical_up_to_smallest_count(nibbles) {
+            // The key may also end inside of the extension.
+            if curr_nibbles.count >= nibbles.count
+                && curr_nibbles.nibbles_are_identical_up_to_smallest_count(nibbles)
+            {
                 curr_nibbles.pop_nibbles_front(nibbles.count);
                 return mark_nodes_that_are_needed(child, curr_nibbles);
             }
-- 
2.43.0


From d58d3f872d7bd06abce0c67f95bef8b9b60189b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 30/60] fix: refuse balances wider than 32 bytes in a witness

---
 trace_decoder/src/wire.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trace_decoder/src/wire.rs b/trace_decoder/src/wire.rs
index 3590430..6038b0d 100644
--- a/trace_decoder/src/wire.rs
+++ b/trace_decoder/src/wire.rs
@@ -164,7 +164,10 @@ fn account_leaf(input: &mut &[u8]) -> PResult<Instruction> {
             true => Some(
                 trace(
                     "balance",
-                    cbor::<Vec<u8>>.map(|bytes| U256::from_big_endian(&bytes)),
+                    cbor::<Vec<u8>>.try_map(|bytes| match bytes.len() {
+                        0..=32 => Ok(U256::from_big_endian(&bytes)),
+                        _ => Err(Error("balance is wider than 32 bytes")),
+                    }),
                 )
                 .parse_next(input)?,
             ),
-- 
2.43.0


From edb54d3ed178462d08c3281fe5eccbf7db49ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 31/60] fix: refuse witnesses nested too deeply instead of
 overflowing the stack

---
 trace_decoder/src/type1.rs | 52 ++++++++++++++++++++++++++++++--------
 trace_decoder/src/type2.rs | 23 +++++++++++------
 2 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/trace_decoder/src/type1.rs b/trace_decoder/src/type1.rs
index 2d9e293..2c90a36 100644
--- a/trace_decoder/src/type1.rs
+++ b/trace_decoder/src/type1.rs
@@ -237,20 +237,20 @@ fn execute(
     instructions: impl IntoIterator<Item = Instruction>,
 ) -> anyhow::Result<NonEmpty<Vec<Execution>>> {
     let mut witnesses = vec![];
-    let mut stack = vec![];
+    let mut stack = NodeStack::default();
 
     for instruction in instructions {
         match instruction {
-            Instruction::EmptyRoot => stack.push(Node::Empty),
-            Instruction::Hash { raw_hash } => stack.push(Node::Hash(Hash { raw_hash })),
-            Instruction::Code { raw_code } => stack.push(Node::Code(Code { code: raw_code })),
+            Instruction::EmptyRoot => stack.push(Node::Empty)?,
+            Instruction::Hash { raw_hash } => stack.push(Node::Hash(Hash { raw_hash }))?,
+            Instruction::Code { raw_code } => stack.push(Node::Code(Code { code: raw_code }))?,
             Instruction::Leaf { key, value } => stack.push(Node::Leaf(Leaf {
                 key,
                 value: Either::Left(Value { raw_value: value }),
-            })),
+            }))?,
             Instruction::Extension { key } => {
                 let child = Box::new(stack.pop().context("no Node for Extension")?);
-                stack.push(Node::Extension(Extension { key, child }))
+                stack.push(Node::Extension(Extension { key, child }))?
             }
             Instruction::AccountLeaf {
                 key,
@@ -322,7 +322,7 @@ fn execute(
                 stack.push(Node::Leaf(Leaf {
                     key,
                     value: Either::Right(account),
-                }))
+                }))?
             }
             Instruction::Branch { mask } => {
                 use bitvec::{order::Lsb0, view::BitView as _};
@@ -333,7 +333,7 @@ fn execute(
                             Some(Box::new(stack.pop().context("no Node for Branch")?));
                     }
                 }
-                stack.push(Node::Branch(Branch { children }))
+                stack.push(Node::Branch(Branch { children }))?
             }
             Instruction::NewTrie => witnesses.push(finish_stack(&mut stack)?),
             Instruction::SmtLeaf(SmtLeaf { .. }) => {
@@ -348,9 +348,41 @@ fn execute(
         .context("no instructions to execute")
 }
 
+/// The deepest meaningful witness: a path of 64 nibbles to an account, and one
+/// of the same length to a slot in its storage.
+const MAX_HEIGHT: usize = 2 * (64 + 1);
+
+/// The stack of [`execute`].
+///
+/// Refuses nodes which are nested too deeply, since [`Node`]s are dropped and
+/// visited recursively.
+#[derive(Default)]
+struct NodeStack {
+    nodes: Vec<(Node, usize)>,
+    /// Height of the highest [`Node`] popped since the last push.
+    popped: usize,
+}
+
+impl NodeStack {
+    fn pop(&mut self) -> Option<Node> {
+        let (node, height) = self.nodes.pop()?;
+        self.popped = self.popped.max(height);
+        Some(node)
+    }
+    fn push(&mut self, node: Node) -> anyhow::Result<()> {
+        let height = std::mem::take(&mut self.popped) + 1;
+        ensure!(height <= MAX_HEIGHT, "nodes are nested too deeply");
+        self.nodes.push((node, height));
+        Ok(())
+    }
+}
+
 /// Narrow (a) [`Node`] to a subset of its variants, an [`Execution`].
-fn finish_stack(v: &mut Vec<Node>) -> anyhow::Result<Execution> {
-    match (v.len(), v.pop()) {
+fn finish_stack(v: &mut NodeStack) -> anyhow::Result<Execution> {
+    let len = v.nodes.len();
+    let node = v.pop();
+    v.popped = 0;
+    match (len, node) {
         (1, Some(node)) => match node {
             Node::Leaf(it) => Ok(Execution::Leaf(it)),
             Node::Extension(it) => Ok(Execution::Extension(it)),
diff --git a/trace_decoder/src/type2.rs b/trace_decoder/src/type2.rs
index 87af8a4..ca60fd7 100644
--- a/trace_decoder/src/type2.rs
+++ b/trace_decoder/src/type2.rs
@@ -57,7 +57,7 @@ fn fold(
             }
             other => Some(other),
         });
-    let folded = fold1(&mut instructions)?.context("no instructions to fold")?;
+    let folded = fold1(&mut instructions, 0)?.context("no instructions to fold")?;
     // this is lenient WRT trailing Code instructions
     ensure!(instructions.count() == 0, "leftover instructions");
     Ok((folded, code))
@@ -75,18 +75,25 @@ fn fold(
 /// ^~~~~~~~~~~~~~~~~~~~~~~^
 ///  assembled into a Node
 /// ```
-fn fold1(instructions: impl IntoIterator<Item = Instruction>) -> anyhow::Result<Option<Node>> {
+fn fold1(
+    instructions: impl IntoIterator<Item = Instruction>,
+    depth: usize,
+) -> anyhow::Result<Option<Node>> {
     let mut instructions = instructions.into_iter();
     match instructions.next() {
         Some(instruction) => match instruction {
             Instruction::Hash { raw_hash } => Ok(Some(Node::Hash(raw_hash))),
             Instruction::Branch { mask } => {
-                let mut get_child =
-                    || match fold1(&mut instructions as &mut dyn Iterator<Item = Instruction>) {
-                        Ok(Some(it)) => Ok(Box::new(it)),
-                        Ok(None) => bail!("no child for Branch"),
-                        Err(e) => Err(e),
-                    };
+                // paths have at most 256 bits, and nodes are visited recursively
+                ensure!(depth < 256, "nodes are nested too deeply");
+                let mut get_child = || match fold1(
+                    &mut instructions as &mut dyn Iterator<Item = Instruction>,
+                    depth + 1,
+                ) {
+                    Ok(Some(it)) => Ok(Box::new(it)),
+                    Ok(None) => bail!("no child for Branch"),
+                    Err(e) => Err(e),
+                };
 
                 Ok(Some(match mask {
                     // note that the single-child bits are reversed...
-- 
2.43.0


From cdad77b4748ec745ee4bdb22619d96f2d6767161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 32/60] fix: let comments separate tokens in assembly

---
 evm_arithmetization/src/cpu/kernel/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/parser.rs b/evm_arithmetization/src/cpu/kernel/parser.rs
index fa9b9ba..e25b70e 100644
--- a/evm_arithmetization/src/cpu/kernel/parser.rs
+++ b/evm_arithmetization/src/cpu/kernel/parser.rs
@@ -44,7 +44,8 @@ fn strip_comments(s: &str) -> String {
 
             let mut s = String::from(s);
             for span in spans {
-                s.replace_range(span.start()..span.end(), "");
+                // A comment separates the tokens around it.
+                s.replace_range(span.start()..span.end(), " ");
             }
             s
         }
-- 
2.43.0


From 1c6dd4f90c66f569ba1dde5fbe049e91c49cacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 33/60] fix: fold BYTE and large shifts of constants as the EVM
 computes them

---
 evm_arithmetization/src/cpu/kernel/optimizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/optimizer.rs b/evm_arithmetization/src/cpu/kernel/optimizer.rs
index 2fac05e..bc9944f 100644
--- a/evm_arithmetization/src/cpu/kernel/optimizer.rs
+++ b/evm_arithmetization/src/cpu/kernel/optimizer.rs
@@ -66,6 +66,8 @@ fn constant_propagation(code: &mut Vec<Item>) {
                 "DIV" => Some(x.checked_div(y).unwrap_or(U256::zero())),
                 "MOD" => Some(x.checked_rem(y).unwrap_or(U256::zero())),
                 "EXP" => Some(x.overflowing_pow(y).0),
+                "SHL" if x >= 256.into() => Some(U256::zero()),
+                "SHR" if x >= 256.into() => Some(U256::zero()),
                 "SHL" => Some(y << x),
                 "SHR" => Some(y >> x),
                 "AND" => Some(x & y),
@@ -75,7 +77,9 @@ fn constant_propagation(code: &mut Vec<Item>) {
                 "GT" => Some(u256_from_bool(x > y)),
                 "EQ" => Some(u256_from_bool(x == y)),
                 "BYTE" => Some(if x < 32.into() {
-                    y.byte(x.as_usize()).into()
+                    // `BYTE` counts from the most significant byte, `U256::byte` from the
+                    // least significant one.
+                    y.byte(31 - x.as_usize()).into()
                 } else {
                     U256::zero()
                 }),
-- 
2.43.0


From 5c45902288c304f85c0dd631f8b58444fbd7668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 34/60] fix: search stack rearrangements deterministically

---
 evm_arithmetization/src/cpu/kernel/stack/permutations.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/stack/permutations.rs b/evm_arithmetization/src/cpu/kernel/stack/permutations.rs
index 72bcf42..1be3556 100644
--- a/evm_arithmetization/src/cpu/kernel/stack/permutations.rs
+++ b/evm_arithmetization/src/cpu/kernel/stack/permutations.rs
@@ -23,6 +23,8 @@
 use core::hash::Hash;
 use std::collections::{HashMap, HashSet};
 
+use itertools::Itertools;
+
 use crate::cpu::kernel::stack::stack_manipulation::{StackItem, StackOp};
 
 /// Find the optimal sequence of stack operations to get from `src` to `dst`.
@@ -141,7 +143,9 @@ fn combine_cycles<T: Eq + Hash + Clone>(mut perm: Vec<Vec<usize>>, lst_a: &[T])
 
     // For each element a which occurs at positions i1, ..., ij, combine cycles such
     // that all ik which occur in a cycle occur in the same cycle.
-    for positions in all_a_positions.values() {
+    // (In order of first occurrence, so that the result is always the same.)
+    for a in lst_a.iter().unique() {
+        let positions = &all_a_positions[a];
         if positions.len() == 1 {
             continue;
         }
-- 
2.43.0


From c9687a6b0f1cb37a725dffc1214ff35515d84f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 35/60] hooks: observation points of the trace decoder (cfg
 verif_hooks)

---
 trace_decoder/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/trace_decoder/src/lib.rs b/trace_decoder/src/lib.rs
index 4bd68bc..9a03bbf 100644
--- a/trace_decoder/src/lib.rs
+++ b/trace_decoder/src/lib.rs
@@ -40,6 +40,7 @@
 //! - Robustness - this library depends on other libraries that are not robust,
 //!   so may panic at any time.
 
+#![allow(unexpected_cfgs)]
 #![deny(rustdoc::broken_intra_doc_links)]
 #![warn(missing_debug_implementations)]
 #![warn(missing_docs)]
@@ -72,6 +73,19 @@ pub use core::{entrypoint, WireDisposition};
 
 mod core;
 
+/// Observation points for external verification machinery. Compiled only with
+/// `--cfg verif_hooks`; nothing here is part of the crate's interface.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::wire::{parse, Instruction, SmtLeaf, SmtLeafType};
+    pub mod type1 {
+        pub use crate::type1::{frontend, Frontend};
+    }
+    pub mod type2 {
+        pub use crate::type2::{frontend, Frontend};
+    }
+}
+
 /// Implementation of the observer for the trace decoder.
 pub mod observer;
 /// Like `#[serde(with = "hex")`, but tolerates and emits leading `0x` prefixes
-- 
2.43.0


From 8ceead4b127bcd1cb8015bffad56d133454b8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 36/60] hooks: observation points of evm_arithmetization (cfg
 verif_hooks)

---
 .../src/generation/prover_input.rs            |   5 +
 evm_arithmetization/src/generation/state.rs   |   5 +
 evm_arithmetization/src/lib.rs                |   4 +
 evm_arithmetization/src/verif_hooks.rs        | 271 ++++++++++++++++++
 4 files changed, 285 insertions(+)
 create mode 100644 evm_arithmetization/src/verif_hooks.rs

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index c4a0414..0cf36a4 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -54,6 +54,11 @@ impl From<Vec<String>> for ProverInputFn {
 
 impl<F: RichField> GenerationState<F> {
     pub(crate) fn prover_input(&mut self, input_fn: &ProverInputFn) -> Result<U256, ProgramError> {
+        #[cfg(verif_hooks)]
+        if crate::verif_hooks::intercept_advice() {
+            let honest = self.prover_input(input_fn);
+            return crate::verif_hooks::replace_advice(&input_fn.0, honest);
+        }
         match input_fn.0[0].as_str() {
             "end_of_txns" => self.run_end_of_txns(),
             "trie_ptr" => self.run_trie_ptr(input_fn),
diff --git a/evm_arithmetization/src/generation/state.rs b/evm_arithmetization/src/generation/state.rs
index abe4b4f..095e723 100644
--- a/evm_arithmetization/src/generation/state.rs
+++ b/evm_arithmetization/src/generation/state.rs
@@ -208,6 +208,11 @@ pub(crate) trait State<F: RichField> {
             let registers = self.get_registers();
             let pc = registers.program_counter;
 
+            #[cfg(verif_hooks)]
+            if registers.is_kernel {
+                crate::verif_hooks::at_kernel_pc(pc);
+            }
+
             let halt_final = registers.is_kernel && halt_offsets.contains(&pc);
             if running && (self.at_halt() || self.at_end_segment(cycle_limit)) {
                 running = false;
diff --git a/evm_arithmetization/src/lib.rs b/evm_arithmetization/src/lib.rs
index 9bc6021..df37de5 100644
--- a/evm_arithmetization/src/lib.rs
+++ b/evm_arithmetization/src/lib.rs
@@ -248,6 +248,7 @@
 //! another preprocessing, may take some non-negligible time.
 
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs)]
 #![allow(clippy::needless_range_loop)]
 #![allow(clippy::too_many_arguments)]
 #![allow(clippy::field_reassign_with_default)]
@@ -280,6 +281,9 @@ pub mod verifier;
 pub mod generation;
 pub mod witness;
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
+
 // Utility modules
 pub mod curve_pairings;
 pub mod extension_tower;
diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
new file mode 100644
index 0000000..8aee952
--- /dev/null
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -0,0 +1,271 @@
+//! Observation points for external verification machinery. Compiled only with
+//! `--cfg verif_hooks`; nothing here is part of the crate's interface.
+use std::cell::{Cell, RefCell};
+use std::collections::{HashMap, HashSet};
+
+use ethereum_types::U256;
+use plonky2::field::extension::Extendable;
+use plonky2::hash::hash_types::RichField;
+use plonky2::iop::challenger::Challenger;
+use plonky2::plonk::config::GenericConfig;
+use starky::cross_table_lookup::CrossTableLookup;
+use starky::stark::Stark;
+
+use crate::all_stark::AllStark;
+use crate::generation::segments::GenerationSegmentData;
+use crate::proof::PublicValues;
+use crate::witness::errors::ProgramError;
+use crate::witness::state::RegistersState;
+
+// ---- STARK tables ----
+
+/// Called with one table's STARK.
+pub trait StarkVisitor<F: RichField + Extendable<D>, const D: usize> {
+    fn visit<S: Stark<F, D>>(&mut self, stark: &S);
+}
+
+/// Calls the visitor with the STARK of the given table.
+pub fn visit_stark<F: RichField + Extendable<D>, const D: usize, V: StarkVisitor<F, D>>(
+    all_stark: &AllStark<F, D>,
+    table: usize,
+    v: &mut V,
+) {
+    match table {
+        0 => v.visit(&all_stark.arithmetic_stark),
+        1 => v.visit(&all_stark.byte_packing_stark),
+        2 => v.visit(&all_stark.cpu_stark),
+        3 => v.visit(&all_stark.keccak_stark),
+        4 => v.visit(&all_stark.keccak_sponge_stark),
+        5 => v.visit(&all_stark.logic_stark),
+        6 => v.visit(&all_stark.memory_stark),
+        7 => v.visit(&all_stark.mem_before_stark),
+        8 => v.visit(&all_stark.mem_after_stark),
+        _ => panic!("no such table"),
+    }
+}
+
+pub fn cross_table_lookups<F: RichField + Extendable<D>, const D: usize>(
+    all_stark: &AllStark<F, D>,
+) -> &[CrossTableLookup<F>] {
+    &all_stark.cross_table_lookups
+}
+
+/// The memory operations the verifier adds to the memory lookup.
+#[cfg(debug_assertions)]
+pub fn memory_extra_looking_values<F: RichField + Extendable<D>, const D: usize>(
+    public_values: &PublicValues<F>,
+) -> Vec<Vec<F>> {
+    crate::verifier::debug_utils::get_memory_extra_looking_values(public_values)
+}
+
+pub fn observe_public_values<
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F>,
+    const D: usize,
+>(
+    challenger: &mut Challenger<F, C::Hasher>,
+    public_values: &PublicValues<F>,
+) -> Result<(), ProgramError> {
+    crate::get_challenges::observe_public_values::<F, C, D>(challenger, public_values)
+}
+
+// ---- segments ----
+
+fn registers(r: &RegistersState) -> [U256; 6] {
+    [
+        r.program_counter.into(),
+        (r.is_kernel as u64).into(),
+        r.stack_len.into(),
+        r.stack_top,
+        r.context.into(),
+        r.gas_used.into(),
+    ]
+}
+
+/// Program counter, kernel mode, stack length, stack top, context and gas at
+/// the start and at the end of a segment.
+pub fn segment_registers(s: &GenerationSegmentData) -> ([U256; 6], [U256; 6]) {
+    (registers(&s.registers_before), registers(&s.registers_after))
+}
+
+// ---- kernel ----
+
+/// The offsets of the kernel's global labels.
+pub fn kernel_labels() -> &'static HashMap<String, usize> {
+    &crate::cpu::kernel::aggregator::KERNEL.global_labels
+}
+
+// ---- prover advice ----
+
+/// Receives the name of a prover input and the honest value, and returns the
+/// value to use.
+pub type Advice = Box<dyn FnMut(&[String], &Result<U256, ProgramError>) -> Result<U256, ProgramError>>;
+
+thread_local! {
+    static ADVICE: RefCell<Option<Advice>> = const { RefCell::new(None) };
+    static INSIDE: Cell<bool> = const { Cell::new(false) };
+    static WATCH: RefCell<Option<Box<dyn FnMut(usize)>>> = const { RefCell::new(None) };
+}
+
+/// Sets or clears this thread's advice handler.
+pub fn set_advice(a: Option<Advice>) {
+    INSIDE.set(false);
+    ADVICE.with(|x| *x.borrow_mut() = a);
+}
+
+/// Whether the next prover input is to be intercepted; if so, the caller
+/// computes the honest value and passes it to `replace_advice`.
+pub(crate) fn intercept_advice() -> bool {
+    let on = !INSIDE.get() && ADVICE.with(|x| x.borrow().is_some());
+    if on {
+        INSIDE.set(true);
+    }
+    on
+}
+
+pub(crate) fn replace_advice(
+    name: &[String],
+    honest: Result<U256, ProgramError>,
+) -> Result<U256, ProgramError> {
+    INSIDE.set(false);
+    let handler = ADVICE.with(|x| x.borrow_mut().take());
+    match handler {
+        Some(mut f) => {
+            let r = f(name, &honest);
+            ADVICE.with(|x| *x.borrow_mut() = Some(f));
+            r
+        }
+        None => honest,
+    }
+}
+
+/// Sets or clears this thread's observer of kernel program counters (it isn't
+/// called for runs nested in the computation of an advice).
+pub fn set_watch(f: Option<Box<dyn FnMut(usize)>>) {
+    WATCH.with(|x| *x.borrow_mut() = f);
+}
+
+pub(crate) fn at_kernel_pc(pc: usize) {
+    if INSIDE.get() {
+        return;
+    }
+    WATCH.with(|x| {
+        if let Some(f) = x.borrow_mut().as_mut() {
+            f(pc)
+        }
+    });
+}
+
+// ---- assembler ----
+
+/// Assembles source files; returns the code, the global labels and the prover
+/// inputs by offset.
+pub fn assemble(
+    files: &[String],
+    features: &[&str],
+    constants: HashMap<String, U256>,
+    optimize: bool,
+) -> (Vec<u8>, HashMap<String, usize>, HashMap<usize, String>) {
+    let active: HashSet<&str> = features.iter().copied().collect();
+    let parsed = files
+        .iter()
+        .map(|f| crate::cpu::kernel::parser::parse(f, &active))
+        .collect();
+    let k = crate::cpu::kernel::assembler::assemble(parsed, constants, optimize);
+    let inputs = k
+        .prover_inputs
+        .iter()
+        .map(|(o, f)| (*o, format!("{f:?}")))
+        .collect();
+    (k.code, k.global_labels, inputs)
+}
+
+/// Assembles the kernel's own sources.
+pub fn kernel_code_fresh() -> (Vec<u8>, HashMap<String, usize>) {
+    let k = crate::cpu::kernel::aggregator::combined_kernel();
+    (k.code, k.global_labels)
+}
+
+pub fn evm_constants() -> HashMap<String, U256> {
+    crate::cpu::kernel::constants::evm_constants()
+}
+
+// ---- public values in circuits ----
+
+pub use circuits::*;
+
+mod circuits {
+    use plonky2::hash::hash_types::RichField;
+    use plonky2::iop::challenger::RecursiveChallenger;
+    use plonky2::iop::target::{BoolTarget, Target};
+    use plonky2::plonk::circuit_builder::CircuitBuilder;
+    use plonky2::plonk::config::{AlgebraicHasher, GenericConfig};
+    use plonky2::util::serialization::{Buffer, IoResult};
+    use starky::lookup::GrandProductChallenge;
+
+    use super::Extendable;
+    use crate::proof::{PublicValues, PublicValuesTarget};
+
+    pub fn memory_extra_looking_sum<F: RichField + Extendable<D>, const D: usize>(
+        public_values: &PublicValues<F>,
+        challenge: GrandProductChallenge<F>,
+    ) -> F {
+        crate::verifier::testing::get_memory_extra_looking_sum::<F, D>(public_values, challenge)
+    }
+
+    pub fn memory_extra_looking_sum_circuit<F: RichField + Extendable<D>, const D: usize>(
+        builder: &mut CircuitBuilder<F, D>,
+        public_values: &PublicValuesTarget,
+        challenge: GrandProductChallenge<Target>,
+    ) -> Target {
+        crate::recursive_verifier::get_memory_extra_looking_sum_circuit(
+            builder,
+            public_values,
+            challenge,
+        )
+    }
+
+    pub fn add_public_values<F: RichField + Extendable<D>, const D: usize>(
+        builder: &mut CircuitBuilder<F, D>,
+    ) -> PublicValuesTarget {
+        crate::recursive_verifier::add_virtual_public_values_public_input(builder)
+    }
+
+    pub fn observe_public_values_target<
+        F: RichField + Extendable<D>,
+        C: GenericConfig<D, F = F>,
+        const D: usize,
+    >(
+        challenger: &mut RecursiveChallenger<F, C::Hasher, D>,
+        public_values: &PublicValuesTarget,
+    ) where
+        C::Hasher: AlgebraicHasher<F>,
+    {
+        crate::get_challenges::observe_public_values_target::<F, C, D>(challenger, public_values)
+    }
+
+    pub fn public_values_target_size() -> usize {
+        PublicValuesTarget::SIZE
+    }
+
+    pub fn public_values_target_from(pis: &[Target]) -> PublicValuesTarget {
+        PublicValuesTarget::from_public_inputs(pis)
+    }
+
+    pub fn public_values_target_to_buffer(x: &PublicValuesTarget, b: &mut Vec<u8>) -> IoResult<()> {
+        x.to_buffer(b)
+    }
+
+    pub fn public_values_target_from_buffer(b: &mut Buffer) -> IoResult<PublicValuesTarget> {
+        PublicValuesTarget::from_buffer(b)
+    }
+
+    pub fn select_public_values<F: RichField + Extendable<D>, const D: usize>(
+        builder: &mut CircuitBuilder<F, D>,
+        condition: BoolTarget,
+        a: PublicValuesTarget,
+        b: PublicValuesTarget,
+    ) -> PublicValuesTarget {
+        PublicValuesTarget::select(builder, condition, a, b)
+    }
+}
-- 
2.43.0


From 04555ee16b76228246f23c4b8b45dde295350353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 37/60] hooks: field tower and pairings (cfg verif_hooks)

---
 evm_arithmetization/src/curve_pairings.rs |   4 +-
 evm_arithmetization/src/verif_hooks.rs    | 112 ++++++++++++++++++++++
 2 files changed, 114 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/curve_pairings.rs b/evm_arithmetization/src/curve_pairings.rs
index 8152bdd..6f5d93a 100644
--- a/evm_arithmetization/src/curve_pairings.rs
+++ b/evm_arithmetization/src/curve_pairings.rs
@@ -173,7 +173,7 @@ impl<T: FieldExt + Stack> Stack for CurveProj<T> {
 
 /// The tangent and chord functions output sparse Fp12 elements.
 /// This map embeds the nonzero coefficients into an Fp12.
-#[cfg(test)]
+#[cfg(any(test, verif_hooks))]
 pub(crate) const fn sparse_embed<F>(g000: F, g01: Fp2<F>, g11: Fp2<F>) -> Fp12<F>
 where
     F: FieldExt,
@@ -208,7 +208,7 @@ where
     sparse_embed::<F>(rng.gen::<F>(), rng.gen::<Fp2<F>>(), rng.gen::<Fp2<F>>())
 }
 
-#[cfg(test)]
+#[cfg(any(test, verif_hooks))]
 pub mod bn254 {
     use super::*;
     use crate::extension_tower::BN254;
diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
index 8aee952..3b20475 100644
--- a/evm_arithmetization/src/verif_hooks.rs
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -269,3 +269,115 @@ mod circuits {
         PublicValuesTarget::select(builder, condition, a, b)
     }
 }
+
+// ---- field tower and pairings ----
+
+pub use tower::tower;
+
+mod tower {
+    use ethereum_types::U256;
+
+    use crate::curve_pairings::{bls381, bn254, CurveAff, CyclicGroup};
+    use crate::extension_tower::{Adj, FieldExt, Fp12, Fp2, Fp6, Stack, BLS381, BN254};
+
+    type El = Vec<U256>;
+
+    fn get<T: Stack>(a: &[El], i: usize) -> T {
+        T::from_stack(&a[i])
+    }
+
+    fn field<T: FieldExt + Stack>(op: &str, a: &[El], n: i64) -> Option<El> {
+        let x = |i| get::<T>(a, i);
+        Some(
+            match op {
+                "zero" => T::ZERO,
+                "unit" => T::UNIT,
+                "new" => T::new(n as usize),
+                "stack" => x(0),
+                "add" => x(0) + x(1),
+                "sub" => x(0) - x(1),
+                "neg" => -x(0),
+                "mul" => x(0) * x(1),
+                "div" => x(0) / x(1),
+                "inv" => x(0).inv(),
+                _ => return None,
+            }
+            .to_stack(),
+        )
+    }
+
+    fn extension<T: FieldExt + Stack>(level: usize, op: &str, a: &[El], n: i64) -> Option<El>
+    where
+        Fp2<T>: Adj,
+    {
+        let two = |i| get::<Fp2<T>>(a, i);
+        let six = |i| get::<Fp6<T>>(a, i);
+        let twelve = |i| get::<Fp12<T>>(a, i);
+        Some(match (level, op) {
+            (2, "conj") => two(0).conj().to_stack(),
+            (2, "mul_adj") => two(0).mul_adj().to_stack(),
+            (2, "scale") => (two(0) * get::<T>(a, 1)).to_stack(),
+            (6, "scale") => (six(0) * two(1)).to_stack(),
+            (6, "frob") => six(0).frob(n as usize).to_stack(),
+            (6, "mul_by_1") => six(0).mul_by_1(two(1)).to_stack(),
+            (6, "mul_by_01") => six(0).mul_by_01(two(1), two(2)).to_stack(),
+            (12, "conj") => twelve(0).conj().to_stack(),
+            (12, "scale") => (twelve(0) * six(1)).to_stack(),
+            (12, "frob") => twelve(0).frob(n as usize).to_stack(),
+            (12, "mul_by_014") => twelve(0).mul_by_014(two(1), two(2), two(3)).to_stack(),
+            (1, _) => return field::<T>(op, a, n),
+            (2, _) => return field::<Fp2<T>>(op, a, n),
+            (6, _) => return field::<Fp6<T>>(op, a, n),
+            (12, _) => return field::<Fp12<T>>(op, a, n),
+            _ => return None,
+        })
+    }
+
+    fn curve<T: FieldExt + Stack>(op: &str, a: &[El], n: i64) -> Option<El>
+    where
+        CurveAff<T>: CyclicGroup,
+    {
+        let p = |i| get::<CurveAff<T>>(a, i);
+        Some(
+            match op {
+                "generator" => CurveAff::<T>::GENERATOR,
+                "unit" => CurveAff::<T>::unit(),
+                "stack" => p(0),
+                "add" => p(0) + p(1),
+                "neg" => -p(0),
+                "mul" => p(0) * n as i32,
+                _ => return None,
+            }
+            .to_stack(),
+        )
+    }
+
+    /// An operation of the field towers, curves and pairings on elements given
+    /// as stack words: `kind` is the degree of a field (1, 2, 6, 12), or "g1",
+    /// "g2", "gt". `None` if the operation fails or there is no such.
+    pub fn tower(bls: bool, kind: &str, op: &str, a: &[El], n: i64) -> Option<El> {
+        match (bls, kind, op) {
+            (true, "1", "sqrt") => Some(get::<BLS381>(a, 0).sqrt().ok()?.to_stack()),
+            (true, "1", "largest") => {
+                Some(vec![
+                    (get::<BLS381>(a, 0).lexicographically_largest() as u64).into()
+                ])
+            }
+            (true, "g1", "decode") => {
+                let mut b = [0; 48];
+                for (b, x) in b.iter_mut().zip(&a[0]) {
+                    *b = x.byte(0);
+                }
+                Some(bls381::g1_from_bytes(&b).ok()?.to_stack())
+            }
+            (true, "g1", _) => curve::<BLS381>(op, a, n),
+            (true, "g2", _) => curve::<Fp2<BLS381>>(op, a, n),
+            (true, "gt", "pairing") => Some(bls381::ate_optim(get(a, 0), get(a, 1)).to_stack()),
+            (false, "g1", _) => curve::<BN254>(op, a, n),
+            (false, "g2", _) => curve::<Fp2<BN254>>(op, a, n),
+            (false, "gt", "pairing") => Some(bn254::tate(get(a, 0), get(a, 1)).to_stack()),
+            (true, d, _) => extension::<BLS381>(d.parse().ok()?, op, a, n),
+            (false, d, _) => extension::<BN254>(d.parse().ok()?, op, a, n),
+        }
+    }
+}
-- 
2.43.0


From 4c670b23f6bce851b869e3d3167bdf051da586c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 38/60] fix: the x coordinate of a serialized G1 point must be
 below the modulus

---
 evm_arithmetization/src/curve_pairings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/curve_pairings.rs b/evm_arithmetization/src/curve_pairings.rs
index 6f5d93a..320df79 100644
--- a/evm_arithmetization/src/curve_pairings.rs
+++ b/evm_arithmetization/src/curve_pairings.rs
@@ -698,8 +698,8 @@ pub mod bls381 {
             }
         };
 
-        if x.val > BLS_BASE {
-            return Err(anyhow!("X coordinate is larger than modulus."));
+        if x.val >= BLS_BASE {
+            return Err(anyhow!("X coordinate isn't below the modulus."));
         }
 
         if infinity_flag_set {
-- 
2.43.0


From 38384c408878c2db10af9ec7aace82b5619cd6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 39/60] fix: point evaluation refuses points outside of the
 prime order subgroup

---
 evm_arithmetization/src/curve_pairings.rs         | 15 ++++++++++++++-
 .../src/generation/prover_input.rs                |  4 ++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/curve_pairings.rs b/evm_arithmetization/src/curve_pairings.rs
index 320df79..7b50c56 100644
--- a/evm_arithmetization/src/curve_pairings.rs
+++ b/evm_arithmetization/src/curve_pairings.rs
@@ -570,7 +570,7 @@ pub mod bls381 {
     use anyhow::{anyhow, Result};
 
     use super::*;
-    use crate::extension_tower::BLS_BASE;
+    use crate::extension_tower::{BLS_BASE, BLS_SCALAR};
 
     const B_G1: BLS381 = BLS381 {
         val: U512([4, 0, 0, 0, 0, 0, 0, 0]),
@@ -733,6 +733,19 @@ pub mod bls381 {
         }
     }
 
+    /// Whether a point of the curve is in the subgroup of prime order, on which
+    /// the pairing is defined.
+    pub(crate) fn is_in_g1(p: CurveAff<BLS381>) -> bool {
+        let mut acc = CurveAff::<BLS381>::unit();
+        for i in (0..256).rev() {
+            acc = acc + acc;
+            if BLS_SCALAR.bit(i) {
+                acc = acc + p;
+            }
+        }
+        acc == CurveAff::<BLS381>::unit()
+    }
+
     // The optimal Ate pairing takes a point each from the curve and its twist and
     // outputs an Fp12 element.
     pub(crate) fn ate_optim(p: CurveAff<BLS381>, q: CurveAff<Fp2<BLS381>>) -> Fp12<BLS381> {
diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 0cf36a4..9489678 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -733,6 +733,10 @@ impl<F: RichField> GenerationState<F> {
             return Ok(U256::zero());
         };
 
+        if !bls381::is_in_g1(comm) || !bls381::is_in_g1(proof) {
+            return Ok(U256::zero());
+        }
+
         // TODO: use some WNAF method if performance becomes critical
         let mut z_bytes = [0u8; 32];
         z.to_big_endian(&mut z_bytes);
-- 
2.43.0


From 702b5329f5c8bc00eef512e253014c567a6fdc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 40/60] fix: the larger of two opposite BLS381 elements is
 above (p - 1) / 2

---
 evm_arithmetization/src/extension_tower.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/extension_tower.rs b/evm_arithmetization/src/extension_tower.rs
index 3638c8c..4d92f4c 100644
--- a/evm_arithmetization/src/extension_tower.rs
+++ b/evm_arithmetization/src/extension_tower.rs
@@ -271,7 +271,7 @@ impl BLS381 {
         // (p - 1) / 2.
 
         const MODULUS_MINUS_ONE_DIV_TWO: U512 = U512([
-            0xdcff7fffffffd556,
+            0xdcff7fffffffd555,
             0x0f55ffff58a9ffff,
             0xb39869507b587b12,
             0xb23ba5c279c2895f,
-- 
2.43.0


From f4664be3a0b12b0540950178b64de750b1155ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 41/60] hooks: aggregation circuits over a stub root (cfg
 verif_hooks)

---
 .../src/fixed_recursive_verifier.rs           |   4 +
 evm_arithmetization/src/verif_stub.rs         | 371 ++++++++++++++++++
 2 files changed, 375 insertions(+)
 create mode 100644 evm_arithmetization/src/verif_stub.rs

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index 54b47a8..11dae70 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -3328,3 +3328,7 @@ pub mod testing {
         }
     }
 }
+
+#[cfg(verif_hooks)]
+#[path = "verif_stub.rs"]
+pub mod verif_stub;
diff --git a/evm_arithmetization/src/verif_stub.rs b/evm_arithmetization/src/verif_stub.rs
new file mode 100644
index 0000000..3639cba
--- /dev/null
+++ b/evm_arithmetization/src/verif_stub.rs
@@ -0,0 +1,371 @@
+//! Aggregation circuits on top of a stub in place of the root circuit, so that
+//! the aggregation layers can be observed on arbitrary public values (cfg
+//! verif_hooks only).
+
+use plonky2::hash::hash_types::HashOutTarget;
+use plonky2::iop::generator::generate_partial_witness;
+use plonky2::plonk::circuit_data::VerifierOnlyCircuitData;
+
+use super::*;
+
+/// A circuit of the same shape as the aggregations of proofs of shape
+/// `common`.
+fn outer<F, C, const D: usize>(
+    config: &CircuitConfig,
+    degree_bits: usize,
+    inner: Option<&CommonCircuitData<F, D>>,
+) -> CircuitData<F, C, D>
+where
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F> + 'static,
+    C::Hasher: AlgebraicHasher<F>,
+{
+    let mut builder = CircuitBuilder::<F, D>::new(config.clone());
+    let pv = add_virtual_public_values_public_input(&mut builder);
+    builder.add_verifier_data_public_inputs();
+    if let Some(common) = inner {
+        for _ in 0..2 {
+            let b = builder.add_virtual_bool_target_safe();
+            let x = builder.add_virtual_proof_with_pis(common);
+            let y = builder.add_virtual_proof_with_pis(common);
+            let cap = common.config.fri_config.cap_height;
+            let v = builder.add_virtual_verifier_data(cap);
+            let w = builder.add_virtual_verifier_data(cap);
+            builder.conditionally_verify_proof::<C>(b, &x, &v, &y, &w, common);
+        }
+        builder.range_check(pv.block_metadata.block_number, 32);
+        builder.hash_n_to_hash_no_pad::<C::InnerHasher>(pv.block_hashes.cur_hash.to_vec());
+        for g in &common.gates {
+            builder.add_gate_to_gate_set(g.clone());
+        }
+    }
+    builder.add_gate(ConstantGate::new(config.num_constants), vec![]);
+    while log2_ceil(builder.num_gates()) < degree_bits {
+        builder.add_gate(NoopGate, vec![]);
+    }
+    builder.build::<C>()
+}
+
+type Proof<F, C, const D: usize> = ProofWithPublicInputs<F, C, D>;
+type Key<C, const D: usize> = VerifierOnlyCircuitData<C, D>;
+
+fn key_elements<F, C, const D: usize>(key: &Key<C, D>) -> Vec<F>
+where
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F>,
+    C::Hasher: AlgebraicHasher<F>,
+{
+    let mut v = key.circuit_digest.to_vec();
+    v.append(&mut key.constants_sigmas_cap.flatten());
+    v
+}
+
+/// Runs the witness generation, and proves if asked to.
+fn finish<F, C, const D: usize>(
+    circuit: &CircuitData<F, C, D>,
+    w: PartialWitness<F>,
+    prove: bool,
+) -> anyhow::Result<Option<Proof<F, C, D>>>
+where
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F> + 'static,
+    C::Hasher: AlgebraicHasher<F>,
+{
+    if prove {
+        return Ok(Some(circuit.prove(w)?));
+    }
+    generate_partial_witness(w, &circuit.prover_only, &circuit.common)?;
+    Ok(None)
+}
+
+fn set_public<F, const D: usize>(
+    w: &mut PartialWitness<F>,
+    targets: &[Target],
+    values: &[F],
+) -> anyhow::Result<()>
+where
+    F: RichField + Extendable<D>,
+{
+    for (&t, &v) in targets.iter().zip(values) {
+        w.set_target(t, v)?;
+    }
+    Ok(())
+}
+
+/// A child of an aggregation: the proof, whether it is itself an aggregation.
+pub type Child<'a, F, C, const D: usize> = (&'a Proof<F, C, D>, bool);
+
+impl<F, C, const D: usize> AllRecursiveCircuits<F, C, D>
+where
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F> + 'static,
+    C::Hasher: AlgebraicHasher<F>,
+{
+    /// The aggregation circuits on top of a root circuit that proves any public
+    /// values; if `layered`, each layer is built on such a stub of the layer
+    /// below instead of on that layer. The second result is the stub below
+    /// the last layer.
+    pub fn verif_stub(
+        degree_bits: usize,
+        config: RecursionConfig,
+        layered: bool,
+    ) -> (Self, CircuitData<F, C, D>) {
+        let c = &config.recursion_circuit_config;
+        let mut shape = outer::<F, C, D>(c, degree_bits, None).common;
+        for _ in 0..3 {
+            shape = outer::<F, C, D>(c, degree_bits, Some(&shape)).common;
+        }
+        let stub = || dummy_circuit::<F, C, D>(&shape);
+        let circuit = stub();
+
+        let mut builder = CircuitBuilder::<F, D>::new(c.clone());
+        let trivial = CircuitBuilder::<F, D>::new(c.clone()).build::<C>().common;
+        let pis = &circuit.prover_only.public_inputs;
+        let key_start = pis.len() - verification_key_len(&circuit);
+        let hash = |x: &[Target]| HashOutTarget {
+            elements: x.try_into().unwrap(),
+        };
+        let root = RootCircuitData {
+            proof_with_pis: core::array::from_fn(|_| builder.add_virtual_proof_with_pis(&trivial)),
+            index_verifier_data: core::array::from_fn(|_| builder.add_virtual_target()),
+            public_values: PublicValuesTarget::from_public_inputs(pis),
+            cyclic_vk: VerifierCircuitTarget {
+                circuit_digest: hash(&pis[key_start..key_start + NUM_HASH_OUT_ELTS]),
+                constants_sigmas_cap: MerkleCapTarget(
+                    pis[key_start + NUM_HASH_OUT_ELTS..]
+                        .chunks(NUM_HASH_OUT_ELTS)
+                        .map(hash)
+                        .collect(),
+                ),
+            },
+            table_in_use: core::array::from_fn(|_| builder.add_virtual_bool_target_unsafe()),
+            circuit,
+        };
+
+        let mut segment_aggregation = Self::create_segment_aggregation_circuit(&root);
+        let segment_real = mem::replace(&mut segment_aggregation.circuit, stub());
+        if !layered {
+            segment_aggregation.circuit = segment_real;
+            let batch_aggregation =
+                Self::create_batch_aggregation_circuit(&segment_aggregation, &config.stark_config);
+            let block = Self::create_block_circuit(&batch_aggregation);
+            let block_wrapper = Self::create_block_wrapper_circuit(&block);
+            let two_to_one_block = Self::create_two_to_one_block_circuit(&block_wrapper);
+            return (
+                Self::verif_collect(
+                    root,
+                    segment_aggregation,
+                    batch_aggregation,
+                    block,
+                    block_wrapper,
+                    two_to_one_block,
+                ),
+                stub(),
+            );
+        }
+        let mut batch_aggregation =
+            Self::create_batch_aggregation_circuit(&segment_aggregation, &config.stark_config);
+        segment_aggregation.circuit = segment_real;
+        let batch_real = mem::replace(&mut batch_aggregation.circuit, stub());
+        let mut block = Self::create_block_circuit(&batch_aggregation);
+        batch_aggregation.circuit = batch_real;
+        let block_real = mem::replace(&mut block.circuit, stub());
+        let mut block_wrapper = Self::create_block_wrapper_circuit(&block);
+        block.circuit = block_real;
+        let wrapper_stub = dummy_circuit::<F, C, D>(&block_wrapper.circuit.common);
+        let wrapper_real = mem::replace(&mut block_wrapper.circuit, wrapper_stub);
+        let two_to_one_block = Self::create_two_to_one_block_circuit(&block_wrapper);
+        let wrapper_stub = mem::replace(&mut block_wrapper.circuit, wrapper_real);
+        (
+            Self::verif_collect(
+                root,
+                segment_aggregation,
+                batch_aggregation,
+                block,
+                block_wrapper,
+                two_to_one_block,
+            ),
+            wrapper_stub,
+        )
+    }
+
+    fn verif_collect(
+        root: RootCircuitData<F, C, D>,
+        segment_aggregation: SegmentAggregationCircuitData<F, C, D>,
+        batch_aggregation: BatchAggregationCircuitData<F, C, D>,
+        block: BlockCircuitData<F, C, D>,
+        block_wrapper: BlockWrapperCircuitData<F, C, D>,
+        two_to_one_block: TwoToOneBlockCircuitData<F, C, D>,
+    ) -> Self {
+        Self {
+            root,
+            segment_aggregation,
+            batch_aggregation,
+            block,
+            block_wrapper,
+            two_to_one_block,
+            by_table: core::array::from_fn(|_| RecursiveCircuitsForTable {
+                by_stark_size: BTreeMap::new(),
+            }),
+            table_dummy_proofs: core::array::from_fn(|_| None),
+        }
+    }
+
+    /// A proof of a stub for any public inputs (`values` are the first ones,
+    /// the verifier data are the last ones).
+    pub fn verif_stub_proof(
+        stub: &CircuitData<F, C, D>,
+        values: &[F],
+        key: &Key<C, D>,
+    ) -> anyhow::Result<Proof<F, C, D>> {
+        let targets = &stub.prover_only.public_inputs;
+        let mut w = PartialWitness::new();
+        let key = key_elements::<F, C, D>(key);
+        let mut all = values.to_vec();
+        all.resize(targets.len() - key.len(), F::ZERO);
+        all.extend(key);
+        set_public::<F, D>(&mut w, targets, &all)?;
+        stub.prove(w)
+    }
+
+    fn verif_set_child(
+        w: &mut PartialWitness<F>,
+        is_agg: BoolTarget,
+        agg: &ProofWithPublicInputsTarget<D>,
+        base: &ProofWithPublicInputsTarget<D>,
+        x: Child<F, C, D>,
+        key: &Key<C, D>,
+    ) -> anyhow::Result<()> {
+        w.set_bool_target(is_agg, x.1)?;
+        w.set_proof_with_pis_target(base, x.0)?;
+        w.set_proof_target(&agg.proof, &x.0.proof)?;
+        let mut pis = x.0.public_inputs.clone();
+        if !x.1 {
+            let key = key_elements::<F, C, D>(key);
+            let n = pis.len() - key.len();
+            pis.truncate(n);
+            pis.extend(key);
+        }
+        set_public::<F, D>(w, &agg.public_inputs, &pis)
+    }
+
+    /// The segment aggregation of any children claiming any public values and
+    /// any verifier data.
+    pub fn verif_segment_aggregation(
+        &self,
+        lhs: Child<F, C, D>,
+        rhs: Child<F, C, D>,
+        rhs_is_dummy: bool,
+        values: &[F],
+        key: &Key<C, D>,
+        prove: bool,
+    ) -> anyhow::Result<Option<Proof<F, C, D>>> {
+        let x = &self.segment_aggregation;
+        let mut w = PartialWitness::new();
+        Self::verif_set_child(
+            &mut w,
+            x.lhs.is_agg,
+            &x.lhs.agg_proof,
+            &x.lhs.base_proof,
+            lhs,
+            key,
+        )?;
+        Self::verif_set_child(
+            &mut w,
+            x.rhs.is_agg,
+            &x.rhs.agg_proof,
+            &x.rhs.real_proof,
+            rhs,
+            key,
+        )?;
+        w.set_bool_target(x.rhs.is_dummy, rhs_is_dummy)?;
+        w.set_verifier_data_target(&x.cyclic_vk, key)?;
+        set_public::<F, D>(&mut w, &x.circuit.prover_only.public_inputs, values)?;
+        finish(&x.circuit, w, prove)
+    }
+
+    /// The batch aggregation of any children claiming any public values and
+    /// any verifier data.
+    pub fn verif_batch_aggregation(
+        &self,
+        lhs: Child<F, C, D>,
+        rhs: Child<F, C, D>,
+        values: &[F],
+        key: &Key<C, D>,
+        prove: bool,
+    ) -> anyhow::Result<Option<Proof<F, C, D>>> {
+        let x = &self.batch_aggregation;
+        let mut w = PartialWitness::new();
+        for (t, c) in [(&x.lhs, lhs), (&x.rhs, rhs)] {
+            Self::verif_set_child(&mut w, t.is_agg, &t.agg_proof, &t.base_proof, c, key)?;
+        }
+        w.set_verifier_data_target(&x.cyclic_vk, key)?;
+        set_public::<F, D>(&mut w, &x.circuit.prover_only.public_inputs, values)?;
+        finish(&x.circuit, w, prove)
+    }
+
+    /// The block proof of any aggregation and parent (or, without a parent, of
+    /// the claimed public values of one) claiming any public values.
+    pub fn verif_block(
+        &self,
+        parent: Result<&Proof<F, C, D>, &[F]>,
+        batch: &Proof<F, C, D>,
+        values: &[F],
+        key: &Key<C, D>,
+        prove: bool,
+    ) -> anyhow::Result<Option<Proof<F, C, D>>> {
+        let x = &self.block;
+        let mut w = PartialWitness::new();
+        w.set_bool_target(x.has_parent_block, parent.is_ok())?;
+        match parent {
+            Ok(p) => w.set_proof_with_pis_target(&x.parent_block_proof, p)?,
+            Err(p) => {
+                w.set_proof_target(&x.parent_block_proof.proof, &batch.proof)?;
+                let key = key_elements::<F, C, D>(key);
+                let mut pis = p.to_vec();
+                pis.resize(x.parent_block_proof.public_inputs.len() - key.len(), F::ZERO);
+                pis.extend(key);
+                set_public::<F, D>(&mut w, &x.parent_block_proof.public_inputs, &pis)?;
+            }
+        }
+        w.set_proof_with_pis_target(&x.agg_root_proof, batch)?;
+        w.set_verifier_data_target(&x.cyclic_vk, key)?;
+        set_public::<F, D>(&mut w, &x.circuit.prover_only.public_inputs, values)?;
+        finish(&x.circuit, w, prove)
+    }
+
+    /// The wrapper of any block proof claiming any final public values.
+    pub fn verif_block_wrapper(
+        &self,
+        block: &Proof<F, C, D>,
+        values: &[F],
+        prove: bool,
+    ) -> anyhow::Result<Option<Proof<F, C, D>>> {
+        let x = &self.block_wrapper;
+        let mut w = PartialWitness::new();
+        w.set_proof_with_pis_target(&x.parent_block_proof, block)?;
+        w.set_verifier_data_target(&x.cyclic_vk, &x.circuit.verifier_only)?;
+        set_public::<F, D>(&mut w, &x.circuit.prover_only.public_inputs, values)?;
+        finish(&x.circuit, w, prove)
+    }
+
+    /// The aggregation of two wrapped blocks claiming any public inputs.
+    pub fn verif_two_to_one_block(
+        &self,
+        lhs: Child<F, C, D>,
+        rhs: Child<F, C, D>,
+        values: &[F],
+        key: &Key<C, D>,
+        prove: bool,
+    ) -> anyhow::Result<Option<Proof<F, C, D>>> {
+        let x = &self.two_to_one_block;
+        let mut w = PartialWitness::new();
+        for (t, c) in [(&x.lhs, lhs), (&x.rhs, rhs)] {
+            Self::verif_set_child(&mut w, t.is_agg, &t.agg_proof, &t.base_proof, c, key)?;
+        }
+        w.set_verifier_data_target(&x.cyclic_vk, key)?;
+        set_public::<F, D>(&mut w, &x.circuit.prover_only.public_inputs, values)?;
+        finish(&x.circuit, w, prove)
+    }
+}
+
-- 
2.43.0


From 146f4e34274a07d7346e6eb8137459a9d66e8bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 42/60] fix: aggregation circuits check the verifier data
 claimed by the proofs they verify

---
 .../src/fixed_recursive_verifier.rs           | 48 +++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index 11dae70..bb5ea02 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1604,6 +1604,10 @@ where
 
         let agg_verifier_data = builder.constant_verifier_data(&agg.circuit.verifier_only);
         builder.verify_proof::<C>(&agg_root_proof, &agg_verifier_data, &agg.circuit.common);
+        // The batch aggregation circuit doesn't know its own verifier data: check the
+        // ones it claims.
+        let one = builder.one();
+        Self::check_cyclic_verifier_data(&mut builder, one, &agg_root_proof, &agg_verifier_data);
 
         while log2_ceil(builder.num_gates()) < agg.circuit.common.degree_bits() {
             builder.add_gate(NoopGate, vec![]);
@@ -1743,6 +1747,15 @@ where
                 common,
             )
             .expect("Failed to build cyclic recursion circuit");
+        // The segment aggregation circuit doesn't know its own verifier data: check the
+        // ones it claims.
+        let is_not_agg = builder.not(is_agg);
+        Self::check_cyclic_verifier_data(
+            builder,
+            is_not_agg.target,
+            &base_proof,
+            &inner_segment_agg_vk,
+        );
         AggregationChildTarget {
             is_agg,
             agg_proof,
@@ -1750,6 +1763,32 @@ where
         }
     }
 
+    /// If `condition`, asserts that a proof of a cyclic circuit claims, at the
+    /// end of its public inputs, the verifier data of this circuit.
+    fn check_cyclic_verifier_data(
+        builder: &mut CircuitBuilder<F, D>,
+        condition: Target,
+        proof: &ProofWithPublicInputsTarget<D>,
+        verifier_data: &VerifierCircuitTarget,
+    ) {
+        let expected = verifier_data
+            .circuit_digest
+            .elements
+            .into_iter()
+            .chain(
+                verifier_data
+                    .constants_sigmas_cap
+                    .0
+                    .iter()
+                    .flat_map(|hash| hash.elements),
+            )
+            .collect::<Vec<_>>();
+        let start = proof.public_inputs.len() - expected.len();
+        for (&claimed, expected) in proof.public_inputs[start..].iter().zip_eq(expected) {
+            builder.conditional_assert_eq(condition, claimed, expected);
+        }
+    }
+
     fn create_block_wrapper_circuit(
         block: &BlockCircuitData<F, C, D>,
     ) -> BlockWrapperCircuitData<F, C, D> {
@@ -1777,6 +1816,15 @@ where
             &block_verifier_data,
             &block.circuit.common,
         );
+        // The block circuit doesn't know its own verifier data: check the ones it
+        // claims.
+        let one = builder.one();
+        Self::check_cyclic_verifier_data(
+            &mut builder,
+            one,
+            &parent_block_proof,
+            &block_verifier_data,
+        );
 
         // Pad to match the (non-existing yet!) 2-to-1 circuit's degree.
         // We use the block circuit's degree as target reference here, as they end up
-- 
2.43.0


From 1f5d93999fc0358a376796a138a65b776414debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 43/60] fix: segments of a batch agree on blob gas and beacon
 root

---
 evm_arithmetization/src/proof.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/evm_arithmetization/src/proof.rs b/evm_arithmetization/src/proof.rs
index f501a96..26ea4da 100644
--- a/evm_arithmetization/src/proof.rs
+++ b/evm_arithmetization/src/proof.rs
@@ -1353,6 +1353,27 @@ impl BlockMetadataTarget {
             )
         }
         builder.conditional_assert_eq(condition.target, bm0.block_gas_used, bm1.block_gas_used);
+        for i in 0..2 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.block_blob_gas_used[i],
+                bm1.block_blob_gas_used[i],
+            );
+        }
+        for i in 0..2 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.block_excess_blob_gas[i],
+                bm1.block_excess_blob_gas[i],
+            );
+        }
+        for i in 0..8 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.parent_beacon_block_root[i],
+                bm1.parent_beacon_block_root[i],
+            );
+        }
         for i in 0..64 {
             builder.conditional_assert_eq(condition.target, bm0.block_bloom[i], bm1.block_bloom[i])
         }
-- 
2.43.0


From a0410009e196286f0597cfb5ed90adcb17a49252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 44/60] fix: the checkpoint consolidated hash is the same in
 all aggregated proofs

---
 .../src/fixed_recursive_verifier.rs           | 40 ++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index bb5ea02..7583c61 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1657,6 +1657,22 @@ where
             builder.connect(limb0, limb1);
         }
 
+        // Connect checkpoint consolidated hashes.
+        for (&limb0, &limb1) in pvs
+            .checkpoint_consolidated_hash
+            .iter()
+            .zip(&rhs.checkpoint_consolidated_hash)
+        {
+            builder.connect(limb0, limb1);
+        }
+        for (&limb0, &limb1) in pvs
+            .checkpoint_consolidated_hash
+            .iter()
+            .zip(&lhs.checkpoint_consolidated_hash)
+        {
+            builder.connect(limb0, limb1);
+        }
+
         // Connect the transaction number in public values to the lhs and rhs values
         // correctly.
         builder.connect(pvs.txn_number_before, lhs.txn_number_before);
@@ -1987,6 +2003,16 @@ where
             builder.connect(limb0, limb1);
         }
 
+        // Between blocks, the checkpoint consolidated hash remains unchanged.
+        for (&limb0, limb1) in lhs
+            .extra_block_data
+            .checkpoint_consolidated_hash
+            .iter()
+            .zip(rhs.extra_block_data.checkpoint_consolidated_hash)
+        {
+            builder.connect(limb0, limb1);
+        }
+
         // Connect block numbers.
         let one = builder.one();
         let prev_block_nb = builder.sub(rhs.block_metadata.block_number, one);
@@ -2654,7 +2680,7 @@ where
                     + BlockMetadataTarget::SIZE
                     + BlockHashesTarget::SIZE
                     + 8;
-            for (key, &value) in checkpoint_state_trie_keys.zip_eq(&h256_limbs::<F>(
+            for (key, &value) in checkpoint_state_trie_keys.clone().zip_eq(&h256_limbs::<F>(
                 agg_root_proof
                     .public_values
                     .extra_block_data
@@ -2663,6 +2689,18 @@ where
                 nonzero_pis.insert(key, value);
             }
 
+            // Initialize the checkpoint consolidated hash.
+            let consolidated_hash_start = checkpoint_state_trie_keys.end;
+            for (i, &value) in agg_root_proof
+                .public_values
+                .extra_block_data
+                .checkpoint_consolidated_hash
+                .iter()
+                .enumerate()
+            {
+                nonzero_pis.insert(consolidated_hash_start + i, value);
+            }
+
             // Initialize checkpoint block hashes.
             // These will be all zeros the initial genesis checkpoint.
             let block_hashes_keys =
-- 
2.43.0


From 62b00929c76c26a8de91be32b8814806450f157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 45/60] fix: a block proof without a parent starts from the
 block's own trie roots

---
 evm_arithmetization/src/fixed_recursive_verifier.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index 7583c61..7a5a42e 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1545,6 +1545,14 @@ where
             public_values.trie_roots_before,
             parent_pv.trie_roots_before,
         );
+        // Without a parent block, these are the roots before the block itself.
+        let has_not_parent_block = builder.not(has_parent_block);
+        TrieRootsTarget::conditional_assert_eq(
+            &mut builder,
+            has_not_parent_block,
+            public_values.trie_roots_before,
+            agg_pv.trie_roots_before,
+        );
         // Connect the rest of block `public_values` with agg_pv.
         TrieRootsTarget::connect(
             &mut builder,
-- 
2.43.0


From f96cf4d17777ac2c3d5dda7f43e5aaa75cd3cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 46/60] fix: consecutive blocks have the same chain id

---
 evm_arithmetization/src/fixed_recursive_verifier.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index 7a5a42e..470efd9 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -2026,6 +2026,13 @@ where
         let prev_block_nb = builder.sub(rhs.block_metadata.block_number, one);
         builder.connect(lhs.block_metadata.block_number, prev_block_nb);
 
+        // Consecutive blocks belong to the same chain.
+        builder.conditional_assert_eq(
+            has_parent_block.target,
+            lhs.block_metadata.block_chain_id,
+            rhs.block_metadata.block_chain_id,
+        );
+
         // Check initial block values.
         Self::connect_initial_values_block(builder, rhs);
 
-- 
2.43.0


From 43126568786678b1d3ed7070399294ad4f36fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:46 +0000
Subject: [PATCH 47/60] fix: the native verifier checks the claimed memory caps

---
 evm_arithmetization/src/verifier.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/evm_arithmetization/src/verifier.rs b/evm_arithmetization/src/verifier.rs
index 1d4fdf3..f56a669 100644
--- a/evm_arithmetization/src/verifier.rs
+++ b/evm_arithmetization/src/verifier.rs
@@ -259,6 +259,33 @@ pub mod testing {
 
         let public_values = all_proof.public_values;
 
+        // Check that the claimed memory caps are the ones of the `MemBefore` and
+        // `MemAfter` tables. When `MemAfter` is not used, its cap is zero.
+        let trace_cap = |table: Table| {
+            stark_proofs[*table]
+                .as_ref()
+                .map(|stark_proof| MemCap::from_merkle_cap(stark_proof.proof.trace_cap.clone()))
+        };
+        ensure!(
+            trace_cap(Table::MemBefore).as_ref() == Some(&public_values.mem_before),
+            "Invalid MemBefore Merkle cap."
+        );
+        match trace_cap(Table::MemAfter) {
+            Some(cap) => ensure!(
+                cap == public_values.mem_after,
+                "Invalid MemAfter Merkle cap."
+            ),
+            None => ensure!(
+                public_values
+                    .mem_after
+                    .mem_cap
+                    .iter()
+                    .flatten()
+                    .all(|limb| limb.is_zero()),
+                "Invalid MemAfter Merkle cap."
+            ),
+        }
+
         // Verify shift table and kernel code.
         if is_initial {
             verify_initial_memory::<F, C, D>(&public_values, config)?;
-- 
2.43.0


From d523531a9eb9a9adb4e44f204e7525b4f042a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 48/60] fix: the native verifier refuses proofs of tables not
 in use

---
 evm_arithmetization/src/verifier.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/evm_arithmetization/src/verifier.rs b/evm_arithmetization/src/verifier.rs
index f56a669..55c6551 100644
--- a/evm_arithmetization/src/verifier.rs
+++ b/evm_arithmetization/src/verifier.rs
@@ -179,6 +179,15 @@ pub mod testing {
         config: &StarkConfig,
         is_initial: bool,
     ) -> Result<()> {
+        // There must be a proof for each table in use, and only for these.
+        for (i, stark_proof) in all_proof.multi_proof.stark_proofs.iter().enumerate() {
+            let in_use = !OPTIONAL_TABLE_INDICES.contains(&i) || all_proof.table_in_use[i];
+            ensure!(
+                stark_proof.is_some() == in_use,
+                "Unexpected or missing STARK proof for table {i}."
+            );
+        }
+
         let AllProofChallenges {
             stark_challenges,
             ctl_challenges,
-- 
2.43.0


From 3e95ceba7dad86ac8424c6da9e8ca122b687ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:44 +0000
Subject: [PATCH 49/60] hooks: aggregation circuits without the verification of
 their parts

---
 .../src/fixed_recursive_verifier.rs           | 22 +++++++
 evm_arithmetization/src/verif_stub.rs         | 57 +++++++++++++++----
 2 files changed, 69 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index 470efd9..955063f 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1466,6 +1466,7 @@ where
         let is_agg = builder.add_virtual_bool_target_safe();
         let agg_proof = builder.add_virtual_proof_with_pis(common);
         let base_proof = builder.add_virtual_proof_with_pis(common);
+        if verifies_proofs() {
         builder
             .conditionally_verify_cyclic_proof::<C>(
                 is_agg,
@@ -1475,6 +1476,7 @@ where
                 common,
             )
             .expect("Failed to build cyclic recursion circuit");
+        }
         AggregationChildTarget {
             is_agg,
             agg_proof,
@@ -1602,6 +1604,7 @@ where
         Self::connect_block_proof(&mut builder, has_parent_block, &parent_pv, &agg_pv);
 
         let cyclic_vk = builder.add_verifier_data_public_inputs();
+        if verifies_proofs() {
         builder
             .conditionally_verify_cyclic_proof_or_dummy::<C>(
                 has_parent_block,
@@ -1609,9 +1612,12 @@ where
                 &expected_common_data,
             )
             .expect("Failed to build cyclic recursion circuit");
+        }
 
         let agg_verifier_data = builder.constant_verifier_data(&agg.circuit.verifier_only);
+        if verifies_proofs() {
         builder.verify_proof::<C>(&agg_root_proof, &agg_verifier_data, &agg.circuit.common);
+        }
         // The batch aggregation circuit doesn't know its own verifier data: check the
         // ones it claims.
         let one = builder.one();
@@ -1706,6 +1712,7 @@ where
         let is_agg = builder.add_virtual_bool_target_safe();
         let agg_proof = builder.add_virtual_proof_with_pis(common);
         let base_proof = builder.add_virtual_proof_with_pis(common);
+        if verifies_proofs() {
         builder
             .conditionally_verify_cyclic_proof::<C>(
                 is_agg,
@@ -1715,6 +1722,7 @@ where
                 common,
             )
             .expect("Failed to build cyclic recursion circuit");
+        }
         AggregationChildTarget {
             is_agg,
             agg_proof,
@@ -1735,6 +1743,7 @@ where
         let real_proof = builder.add_virtual_proof_with_pis(common);
 
         let segment_proof = builder.select_proof_with_pis(is_dummy, &dummy_proof, &real_proof);
+        if verifies_proofs() {
         builder
             .conditionally_verify_cyclic_proof::<C>(
                 is_agg,
@@ -1744,6 +1753,7 @@ where
                 common,
             )
             .expect("Failed to build cyclic recursion circuit");
+        }
         AggregationChildWithDummyTarget {
             is_agg,
             is_dummy,
@@ -1762,6 +1772,7 @@ where
         let is_agg = builder.add_virtual_bool_target_safe();
         let agg_proof = builder.add_virtual_proof_with_pis(common);
         let base_proof = builder.add_virtual_proof_with_pis(common);
+        if verifies_proofs() {
         builder
             .conditionally_verify_cyclic_proof::<C>(
                 is_agg,
@@ -1771,6 +1782,7 @@ where
                 common,
             )
             .expect("Failed to build cyclic recursion circuit");
+        }
         // The segment aggregation circuit doesn't know its own verifier data: check the
         // ones it claims.
         let is_not_agg = builder.not(is_agg);
@@ -1835,11 +1847,13 @@ where
         // even though they'll be ignored.
         let cyclic_vk = builder.add_verifier_data_public_inputs();
 
+        if verifies_proofs() {
         builder.verify_proof::<C>(
             &parent_block_proof,
             &block_verifier_data,
             &block.circuit.common,
         );
+        }
         // The block circuit doesn't know its own verifier data: check the ones it
         // claims.
         let one = builder.one();
@@ -3433,3 +3447,11 @@ pub mod testing {
 #[cfg(verif_hooks)]
 #[path = "verif_stub.rs"]
 pub mod verif_stub;
+#[cfg(verif_hooks)]
+use verif_stub::verifies_proofs;
+
+/// Whether the aggregation circuits verify the proofs they aggregate.
+#[cfg(not(verif_hooks))]
+const fn verifies_proofs() -> bool {
+    true
+}
diff --git a/evm_arithmetization/src/verif_stub.rs b/evm_arithmetization/src/verif_stub.rs
index 3639cba..853be7a 100644
--- a/evm_arithmetization/src/verif_stub.rs
+++ b/evm_arithmetization/src/verif_stub.rs
@@ -8,6 +8,15 @@ use plonky2::plonk::circuit_data::VerifierOnlyCircuitData;
 
 use super::*;
 
+thread_local! {
+    static RELATIONS_ONLY: core::cell::Cell<bool> = const { core::cell::Cell::new(false) };
+}
+
+/// Whether the aggregation circuits verify the proofs they aggregate.
+pub(super) fn verifies_proofs() -> bool {
+    !RELATIONS_ONLY.get()
+}
+
 /// A circuit of the same shape as the aggregations of proofs of shape
 /// `common`.
 fn outer<F, C, const D: usize>(
@@ -101,6 +110,19 @@ where
     C: GenericConfig<D, F = F> + 'static,
     C::Hasher: AlgebraicHasher<F>,
 {
+    /// The aggregation circuits without the verification of the proofs they
+    /// aggregate: what is left are the relations between public inputs. Built
+    /// as by `verif_stub`, with layers.
+    pub fn verif_relations(
+        degree_bits: usize,
+        config: RecursionConfig,
+    ) -> (Self, CircuitData<F, C, D>) {
+        RELATIONS_ONLY.set(true);
+        let x = Self::verif_stub(degree_bits, config, true);
+        RELATIONS_ONLY.set(false);
+        x
+    }
+
     /// The aggregation circuits on top of a root circuit that proves any public
     /// values; if `layered`, each layer is built on such a stub of the layer
     /// below instead of on that layer. The second result is the stub below
@@ -112,7 +134,7 @@ where
     ) -> (Self, CircuitData<F, C, D>) {
         let c = &config.recursion_circuit_config;
         let mut shape = outer::<F, C, D>(c, degree_bits, None).common;
-        for _ in 0..3 {
+        for _ in 0..if verifies_proofs() { 3 } else { 0 } {
             shape = outer::<F, C, D>(c, degree_bits, Some(&shape)).common;
         }
         let stub = || dummy_circuit::<F, C, D>(&shape);
@@ -211,20 +233,35 @@ where
         }
     }
 
-    /// A proof of a stub for any public inputs (`values` are the first ones,
-    /// the verifier data are the last ones).
+    /// A circuit of the same shape as a stub, with another verification key.
+    pub fn verif_other_stub(common: &CommonCircuitData<F, D>) -> CircuitData<F, C, D> {
+        let config = common.config.clone();
+        let mut builder = CircuitBuilder::<F, D>::new(config.clone());
+        let noops = common.degree() - common.num_public_inputs.div_ceil(8) - 3;
+        let constants = vec![F::ZERO; config.num_constants];
+        builder.add_gate(ConstantGate::new(config.num_constants), constants);
+        for _ in 0..noops {
+            builder.add_gate(NoopGate, vec![]);
+        }
+        for gate in &common.gates {
+            builder.add_gate_to_gate_set(gate.clone());
+        }
+        for _ in 0..common.num_public_inputs {
+            builder.add_virtual_public_input();
+        }
+        let circuit = builder.build::<C>();
+        assert!(circuit.common == *common);
+        circuit
+    }
+
+    /// A proof of a stub for any public inputs.
     pub fn verif_stub_proof(
         stub: &CircuitData<F, C, D>,
-        values: &[F],
-        key: &Key<C, D>,
+        public_inputs: &[F],
     ) -> anyhow::Result<Proof<F, C, D>> {
         let targets = &stub.prover_only.public_inputs;
         let mut w = PartialWitness::new();
-        let key = key_elements::<F, C, D>(key);
-        let mut all = values.to_vec();
-        all.resize(targets.len() - key.len(), F::ZERO);
-        all.extend(key);
-        set_public::<F, D>(&mut w, targets, &all)?;
+        set_public::<F, D>(&mut w, targets, public_inputs)?;
         stub.prove(w)
     }
 
-- 
2.43.0


From 2292482f404f6685d01c71393f161a622951bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 50/60] fix: public values are read as canonical numbers

---
 evm_arithmetization/src/proof.rs | 2 +-
 evm_arithmetization/src/util.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/proof.rs b/evm_arithmetization/src/proof.rs
index 26ea4da..410d763 100644
--- a/evm_arithmetization/src/proof.rs
+++ b/evm_arithmetization/src/proof.rs
@@ -174,7 +174,7 @@ impl<F: RichField, H: Hasher<F>> FinalPublicValues<F, H> {
     pub fn from_public_inputs(pis: &[F]) -> Self {
         assert!(FinalPublicValuesTarget::SIZE <= pis.len());
 
-        let chain_id = pis[0].to_noncanonical_u64().into();
+        let chain_id = pis[0].to_canonical_u64().into();
         let mut offset = 1;
         let checkpoint_state_trie_root = get_h256(&pis[offset..offset + TARGET_HASH_SIZE]);
         offset += TARGET_HASH_SIZE;
diff --git a/evm_arithmetization/src/util.rs b/evm_arithmetization/src/util.rs
index a9aae2d..a8e7da4 100644
--- a/evm_arithmetization/src/util.rs
+++ b/evm_arithmetization/src/util.rs
@@ -240,7 +240,7 @@ pub(crate) fn get_u256<F: RichField>(slice: &[F; 8]) -> U256 {
     U256(
         (0..4)
             .map(|i| {
-                slice[2 * i].to_canonical_u64() + (slice[2 * i + 1].to_noncanonical_u64() << 32)
+                slice[2 * i].to_canonical_u64() + (slice[2 * i + 1].to_canonical_u64() << 32)
             })
             .collect::<Vec<u64>>()
             .try_into()
-- 
2.43.0


From cbda37d7d31e10cb4c61edeb82d1c1cfc4057b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 51/60] fix: all final public values are set, and none is
 truncated

---
 evm_arithmetization/src/recursive_verifier.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/recursive_verifier.rs b/evm_arithmetization/src/recursive_verifier.rs
index 62c7e12..93688ed 100644
--- a/evm_arithmetization/src/recursive_verifier.rs
+++ b/evm_arithmetization/src/recursive_verifier.rs
@@ -925,7 +925,7 @@ where
     witness
         .set_target(
             public_values_target.chain_id,
-            F::from_canonical_u64(public_values.chain_id.low_u64()),
+            u256_to_u32(public_values.chain_id)?,
         )
         .map_err(ProgramError::from)?;
 
@@ -971,6 +971,16 @@ where
             .map_err(ProgramError::from)?;
     }
 
+    for (i, limb) in public_values
+        .checkpoint_consolidated_hash
+        .iter()
+        .enumerate()
+    {
+        witness
+            .set_target(public_values_target.checkpoint_consolidated_hash[i], *limb)
+            .map_err(ProgramError::from)?;
+    }
+
     for (i, limb) in public_values.new_consolidated_hash.iter().enumerate() {
         witness
             .set_target(public_values_target.new_consolidated_hash[i], *limb)
-- 
2.43.0


From f7c4f78cb1f6e876eb4853d9bc312d3ce7406991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 52/60] fix: the size of public value targets counts all of
 them

---
 evm_arithmetization/src/proof.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/proof.rs b/evm_arithmetization/src/proof.rs
index 410d763..24afe6a 100644
--- a/evm_arithmetization/src/proof.rs
+++ b/evm_arithmetization/src/proof.rs
@@ -653,7 +653,8 @@ impl PublicValuesTarget {
         + BlockMetadataTarget::SIZE
         + BlockHashesTarget::SIZE
         + ExtraBlockDataTarget::SIZE
-        + DEFAULT_CAP_HEIGHT * NUM_HASH_OUT_ELTS * 2;
+        + RegistersDataTarget::SIZE * 2
+        + MemCapTarget::SIZE * 2;
     /// Serializes public value targets.
     pub(crate) fn to_buffer(&self, buffer: &mut Vec<u8>) -> IoResult<()> {
         let TrieRootsTarget {
-- 
2.43.0


From 0a70241f1f2d46e6b7776088f1100db5e88e5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 53/60] hooks: columns and single tables (cfg verif_hooks)

---
 evm_arithmetization/src/verif_hooks.rs | 194 +++++++++++++++++++++++++
 1 file changed, 194 insertions(+)

diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
index 3b20475..3f88f1d 100644
--- a/evm_arithmetization/src/verif_hooks.rs
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -69,6 +69,200 @@ pub fn observe_public_values<
     crate::get_challenges::observe_public_values::<F, C, D>(challenger, public_values)
 }
 
+// ---- columns and single tables ----
+
+pub use tables::*;
+
+mod tables {
+    use ethereum_types::U256;
+    use plonky2::field::polynomial::PolynomialValues;
+    use plonky2::hash::hash_types::RichField;
+    use plonky2::util::timing::TimingTree;
+
+    use super::Extendable;
+    use crate::all_stark::AllStark;
+    use crate::arithmetic::{columns, BinaryOperator, Operation, TernaryOperator};
+    use crate::byte_packing::byte_packing_stark::BytePackingOp;
+    use crate::cpu::columns::COL_MAP;
+    use crate::logic;
+    use crate::memory::columns::MEMORY_COL_MAP;
+    use crate::memory::segments::Segment;
+    use crate::witness::memory::MemoryAddress;
+
+    type Columns = Vec<(String, Vec<usize>)>;
+
+    /// The columns of the CPU table, by name.
+    pub fn cpu_columns() -> Columns {
+        let c = COL_MAP;
+        let mut v: Columns = vec![];
+        let mut add = |n: &str, x: Vec<usize>| v.push((n.into(), x));
+        add("context", vec![c.context]);
+        add("code_context", vec![c.code_context]);
+        add("program_counter", vec![c.program_counter]);
+        add("stack_len", vec![c.stack_len]);
+        add("is_kernel_mode", vec![c.is_kernel_mode]);
+        add("gas", vec![c.gas]);
+        add("opcode_bits", c.opcode_bits.to_vec());
+        add("clock", vec![c.clock]);
+        for (n, x) in [
+            ("op binary_op", c.op.binary_op),
+            ("op ternary_op", c.op.ternary_op),
+            ("op fp254_op", c.op.fp254_op),
+            ("op eq_iszero", c.op.eq_iszero),
+            ("op logic_op", c.op.logic_op),
+            ("op not_pop", c.op.not_pop),
+            ("op shift", c.op.shift),
+            ("op jumpdest_keccak_general", c.op.jumpdest_keccak_general),
+            ("op jumps", c.op.jumps),
+            ("op push_prover_input", c.op.push_prover_input),
+            ("op dup_swap", c.op.dup_swap),
+            ("op context_op", c.op.context_op),
+            ("op m_op_32bytes", c.op.m_op_32bytes),
+            ("op exit_kernel", c.op.exit_kernel),
+            ("op m_op_general", c.op.m_op_general),
+            ("op pc_push0", c.op.pc_push0),
+            ("op syscall", c.op.syscall),
+            ("op exception", c.op.exception),
+        ] {
+            add(n, vec![x]);
+        }
+        for (i, m) in c.mem_channels.iter().enumerate() {
+            add(&format!("channel {i} used"), vec![m.used]);
+            add(&format!("channel {i} is_read"), vec![m.is_read]);
+            add(&format!("channel {i} address"), vec![m.addr_context, m.addr_segment, m.addr_virtual]);
+            add(&format!("channel {i} value"), m.value.to_vec());
+        }
+        let m = c.partial_channel;
+        add("partial used", vec![m.used]);
+        add("partial is_read", vec![m.is_read]);
+        add("partial address", vec![m.addr_context, m.addr_segment, m.addr_virtual]);
+        v
+    }
+
+    /// The columns of the memory table that hold an operation, by name.
+    pub fn memory_columns() -> Columns {
+        let c = MEMORY_COL_MAP;
+        vec![
+            ("filter".into(), vec![c.filter]),
+            ("timestamp".into(), vec![c.timestamp]),
+            ("is_read".into(), vec![c.is_read]),
+            ("address".into(), vec![c.addr_context, c.addr_segment, c.addr_virtual]),
+            ("value".into(), c.value_limbs.to_vec()),
+            ("mem_after_filter".into(), vec![c.mem_after_filter]),
+            (
+                "first_change".into(),
+                vec![c.context_first_change, c.segment_first_change, c.virtual_first_change],
+            ),
+            ("range_check".into(), vec![c.range_check]),
+            ("initialize_aux".into(), vec![c.initialize_aux]),
+            (
+                "preinitialized".into(),
+                vec![c.preinitialized_segments, c.preinitialized_segments_aux],
+            ),
+        ]
+    }
+
+    /// The columns of modular operations in the arithmetic table, by name;
+    /// the last three are in the next row.
+    pub fn modular_columns() -> Columns {
+        vec![
+            ("modulus".into(), columns::MODULAR_MODULUS.collect()),
+            ("output".into(), columns::MODULAR_OUTPUT.collect()),
+            ("quotient".into(), columns::MODULAR_QUO_INPUT.collect()),
+            ("reduced".into(), columns::MODULAR_OUT_AUX_RED.collect()),
+            ("aux low".into(), columns::MODULAR_AUX_INPUT_LO.collect()),
+            ("aux high".into(), columns::MODULAR_AUX_INPUT_HI.collect()),
+        ]
+    }
+
+    /// The arithmetic table of the given operations (opcode and operands).
+    pub fn arithmetic_trace<F: RichField + Extendable<D>, const D: usize>(
+        all_stark: &AllStark<F, D>,
+        ops: &[(u8, [U256; 3])],
+    ) -> Vec<PolynomialValues<F>> {
+        use BinaryOperator::*;
+        use TernaryOperator::*;
+        let ops = ops
+            .iter()
+            .map(|&(o, [a, b, c])| {
+                let two = |k| Operation::binary(k, a, b);
+                let three = |k| Operation::ternary(k, a, b, c);
+                match o {
+                    0x01 => two(Add),
+                    0x02 => two(Mul),
+                    0x03 => two(Sub),
+                    0x04 => two(Div),
+                    0x06 => two(Mod),
+                    0x08 => three(AddMod),
+                    0x09 => three(MulMod),
+                    0x0c => two(AddFp254),
+                    0x0d => two(MulFp254),
+                    0x0e => two(SubFp254),
+                    0x0f => three(SubMod),
+                    0x10 => two(Lt),
+                    0x11 => two(Gt),
+                    0x1a => two(Byte),
+                    0x1b => two(Shl),
+                    0x1c => two(Shr),
+                    _ => Operation::range_check(a, b, c, o.into(), a),
+                }
+            })
+            .collect();
+        all_stark.arithmetic_stark.generate_trace(ops)
+    }
+
+    /// The logic table of the given operations (opcode and operands).
+    pub fn logic_trace<F: RichField + Extendable<D>, const D: usize>(
+        all_stark: &AllStark<F, D>,
+        ops: &[(u8, U256, U256)],
+    ) -> Vec<PolynomialValues<F>> {
+        let ops = ops
+            .iter()
+            .map(|&(o, a, b)| {
+                let k = match o {
+                    0x16 => logic::Op::And,
+                    0x17 => logic::Op::Or,
+                    _ => logic::Op::Xor,
+                };
+                logic::Operation::new(k, a, b)
+            })
+            .collect();
+        all_stark
+            .logic_stark
+            .generate_trace(ops, 16, &mut TimingTree::default())
+    }
+
+    /// The byte packing table of the given operations (whether it reads,
+    /// context, virtual address, time and bytes).
+    pub fn byte_packing_trace<F: RichField + Extendable<D>, const D: usize>(
+        all_stark: &AllStark<F, D>,
+        ops: &[(bool, usize, usize, usize, Vec<u8>)],
+    ) -> Vec<PolynomialValues<F>> {
+        let ops = ops
+            .iter()
+            .map(|(is_read, ctx, virt, timestamp, bytes)| BytePackingOp {
+                is_read: *is_read,
+                base_address: MemoryAddress::new(*ctx, Segment::MainMemory, *virt),
+                timestamp: *timestamp,
+                bytes: bytes.clone(),
+            })
+            .collect();
+        all_stark
+            .byte_packing_stark
+            .generate_trace(ops, 16, &mut TimingTree::default())
+    }
+
+    /// The Keccak table of the given permutations (state and time).
+    pub fn keccak_trace<F: RichField + Extendable<D>, const D: usize>(
+        all_stark: &AllStark<F, D>,
+        ops: &[([u64; 25], usize)],
+    ) -> Vec<PolynomialValues<F>> {
+        all_stark
+            .keccak_stark
+            .generate_trace(ops.to_vec(), 16, &mut TimingTree::default())
+    }
+}
+
 // ---- segments ----
 
 fn registers(r: &RegistersState) -> [U256; 6] {
-- 
2.43.0


From 5a9646ffd052d361d61e1259b49973587c561227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 54/60] fix: a range check can't stand in for an arithmetic
 operation

---
 evm_arithmetization/src/arithmetic/arithmetic_stark.rs | 10 +++++-----
 evm_arithmetization/src/cpu/cpu_stark.rs               |  7 +++++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
index 2b7eb25..87d4585 100644
--- a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
+++ b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
@@ -109,11 +109,11 @@ pub(crate) fn ctl_arithmetic_rows<F: Field>() -> TableWithColumns<F> {
     // by `regs`, where each element of `regs` is a range of columns
     // corresponding to a 256-bit input or output register (also `ops`
     // is used as the operation filter).
-    TableWithColumns::new(
-        *Table::Arithmetic,
-        cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP),
-        filter,
-    )
+    let mut data = cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP);
+    // Since `OPCODE_COL` can hold any value in a range check row, we also need to
+    // tell range checks and arithmetic operations apart.
+    data.push(Column::single(columns::IS_RANGE_CHECK));
+    TableWithColumns::new(*Table::Arithmetic, data, filter)
 }
 
 /// Structure representing the `Arithmetic` STARK, which carries out all the
diff --git a/evm_arithmetization/src/cpu/cpu_stark.rs b/evm_arithmetization/src/cpu/cpu_stark.rs
index a0dd45e..0b5ed52 100644
--- a/evm_arithmetization/src/cpu/cpu_stark.rs
+++ b/evm_arithmetization/src/cpu/cpu_stark.rs
@@ -108,6 +108,13 @@ pub(crate) fn ctl_arithmetic_base_rows<F: Field>() -> TableWithColumns<F> {
     // directly.
     let mut columns = vec![Column::le_bits(COL_MAP.opcode_bits)];
     columns.extend(ctl_data_ternops());
+    // These operations only require a range check, which must not be mixed up with
+    // arithmetic operations.
+    columns.push(Column::sum([
+        COL_MAP.op.syscall,
+        COL_MAP.op.exception,
+        COL_MAP.op.push_prover_input,
+    ]));
     // Create the CPU Table whose columns are those with the three
     // inputs and one output of the ternary operations listed in `ops`
     // (also `ops` is used as the operation filter). The list of
-- 
2.43.0


From 344b68bcff461c286fcacc6c7ea7435b65c2003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 55/60] fix: memory channels an operation doesn't use are
 disabled

---
 evm_arithmetization/src/cpu/contextops.rs |  7 +++++++
 evm_arithmetization/src/cpu/stack.rs      | 19 ++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/cpu/contextops.rs b/evm_arithmetization/src/cpu/contextops.rs
index 11ffe0d..5227f94 100644
--- a/evm_arithmetization/src/cpu/contextops.rs
+++ b/evm_arithmetization/src/cpu/contextops.rs
@@ -298,6 +298,8 @@ pub(crate) fn eval_packed<P: PackedField>(
     );
     // Enable or disable the channel.
     yield_constr.constraint(filter * (lv.general.stack().stack_inv_aux - channel.used));
+    // The partial channel is unused.
+    yield_constr.constraint(filter * lv.partial_channel.used);
     let new_filter = filter * lv.general.stack().stack_inv_aux;
     // It's a write for get_context, a read for set_context.
     yield_constr.constraint(new_filter * (channel.is_read - lv.opcode_bits[0]));
@@ -351,6 +353,11 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(filter, diff);
         yield_constr.constraint(builder, constr);
     }
+    // The partial channel is unused.
+    {
+        let constr = builder.mul_extension(filter, lv.partial_channel.used);
+        yield_constr.constraint(builder, constr);
+    }
     let new_filter = builder.mul_extension(filter, lv.general.stack().stack_inv_aux);
     // It's a write for get_context, a read for set_context.
     {
diff --git a/evm_arithmetization/src/cpu/stack.rs b/evm_arithmetization/src/cpu/stack.rs
index e5b1682..e5040de 100644
--- a/evm_arithmetization/src/cpu/stack.rs
+++ b/evm_arithmetization/src/cpu/stack.rs
@@ -156,7 +156,7 @@ pub(crate) const STACK_BEHAVIORS: OpsColumnsView<Option<StackBehavior>> = OpsCol
     m_op_32bytes: Some(StackBehavior {
         num_pops: 2,
         pushes: true,
-        disable_other_channels: false,
+        disable_other_channels: true,
     }),
     exit_kernel: Some(StackBehavior {
         num_pops: 1,
@@ -299,13 +299,17 @@ pub(crate) fn eval_packed_one<P: PackedField>(
     if stack_behavior.disable_other_channels {
         // The first channel contains (or not) the top of the stack and is constrained
         // elsewhere.
-        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS - (stack_behavior.pushes as usize)
-        {
+        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS {
             let channel = lv.mem_channels[i];
             yield_constr.constraint(filter * channel.used);
         }
     }
 
+    // If you push, the new top of the stack doesn't come from memory.
+    if stack_behavior.pushes {
+        yield_constr.constraint_transition(filter * nv.mem_channels[0].used);
+    }
+
     // Constrain new stack length.
     let num_pops = P::Scalar::from_canonical_usize(stack_behavior.num_pops);
     let push = P::Scalar::from_canonical_usize(stack_behavior.pushes as usize);
@@ -616,14 +620,19 @@ pub(crate) fn eval_ext_circuit_one<F: RichField + Extendable<D>, const D: usize>
     if stack_behavior.disable_other_channels {
         // The first channel contains (or not) the top of the stack and is constrained
         // elsewhere.
-        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS - (stack_behavior.pushes as usize)
-        {
+        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS {
             let channel = lv.mem_channels[i];
             let constr = builder.mul_extension(filter, channel.used);
             yield_constr.constraint(builder, constr);
         }
     }
 
+    // If you push, the new top of the stack doesn't come from memory.
+    if stack_behavior.pushes {
+        let constr = builder.mul_extension(filter, nv.mem_channels[0].used);
+        yield_constr.constraint_transition(builder, constr);
+    }
+
     // Constrain new stack length.
     let diff = builder.constant_extension(
         F::Extension::from_canonical_usize(stack_behavior.num_pops)
-- 
2.43.0


From 50dfe8fc7e9e48bc58458a50a6ae0bf99ede074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 56/60] fix: the next program counter and mode of PUSH, jumps
 and packed memory operations

---
 evm_arithmetization/src/cpu/control_flow.rs | 37 +++++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/evm_arithmetization/src/cpu/control_flow.rs b/evm_arithmetization/src/cpu/control_flow.rs
index 0aa1a30..588dbc5 100644
--- a/evm_arithmetization/src/cpu/control_flow.rs
+++ b/evm_arithmetization/src/cpu/control_flow.rs
@@ -8,7 +8,7 @@ use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsume
 use crate::cpu::columns::{CpuColumnsView, COL_MAP};
 use crate::cpu::kernel::aggregator::KERNEL;
 
-const NATIVE_INST_LEN: usize = if cfg!(feature = "cdk_erigon") { 13 } else { 12 };
+const NATIVE_INST_LEN: usize = if cfg!(feature = "cdk_erigon") { 14 } else { 13 };
 
 const NATIVE_INSTRUCTIONS: [usize; NATIVE_INST_LEN] = [
     COL_MAP.op.binary_op,
@@ -27,6 +27,7 @@ const NATIVE_INSTRUCTIONS: [usize; NATIVE_INST_LEN] = [
     // not PUSH (need to increment by more than 1)
     COL_MAP.op.dup_swap,
     COL_MAP.op.context_op,
+    COL_MAP.op.m_op_32bytes,
     // not EXIT_KERNEL (performs a jump)
     COL_MAP.op.m_op_general,
     // not SYSCALL (performs a jump)
@@ -80,7 +81,24 @@ pub(crate) fn eval_packed_generic<P: PackedField>(
     yield_constr.constraint_transition(
         is_prover_input * (lv.program_counter - nv.program_counter + P::ONES),
     );
-    yield_constr.constraint_transition(is_prover_input * (lv.is_kernel_mode - nv.is_kernel_mode));
+
+    // PUSH skips the bytes that are pushed as well; the low bits of its opcode
+    // hold their number minus one.
+    let is_push = lv.op.push_prover_input - is_prover_input;
+    let push_len = lv.opcode_bits[..5]
+        .iter()
+        .enumerate()
+        .map(|(i, &bit)| bit * P::Scalar::from_canonical_u64(1 << i))
+        .sum::<P>()
+        + P::ONES;
+    yield_constr.constraint_transition(
+        is_push * (lv.program_counter - nv.program_counter + push_len + P::ONES),
+    );
+
+    // PROVER_INPUT, PUSH and the jumps don't change the kernel flag either.
+    yield_constr.constraint_transition(
+        (lv.op.push_prover_input + lv.op.jumps) * (lv.is_kernel_mode - nv.is_kernel_mode),
+    );
 
     // Check the helper value in the general columns. We do not need to enforce that
     // it is set to 0 if the operation is a `PROVER_INPUT`, as the latter is a
@@ -143,7 +161,20 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let is_prover_input = builder.mul_extension(lv.op.push_prover_input, lv.opcode_bits[7]);
         let pc_constr = builder.mul_add_extension(is_prover_input, pc_diff, is_prover_input);
         yield_constr.constraint_transition(builder, pc_constr);
-        let kernel_constr = builder.mul_extension(is_prover_input, kernel_diff);
+
+        // PUSH skips the bytes that are pushed as well; the low bits of its opcode
+        // hold their number minus one.
+        let is_push = builder.sub_extension(lv.op.push_prover_input, is_prover_input);
+        let mut skipped = builder.add_const_extension(pc_diff, F::TWO);
+        for (i, &bit) in lv.opcode_bits[..5].iter().enumerate() {
+            skipped = builder.mul_const_add_extension(F::from_canonical_u64(1 << i), bit, skipped);
+        }
+        let pc_constr = builder.mul_extension(is_push, skipped);
+        yield_constr.constraint_transition(builder, pc_constr);
+
+        // PROVER_INPUT, PUSH and the jumps don't change the kernel flag either.
+        let filter = builder.add_extension(lv.op.push_prover_input, lv.op.jumps);
+        let kernel_constr = builder.mul_extension(filter, kernel_diff);
         yield_constr.constraint_transition(builder, kernel_constr);
     }
 
-- 
2.43.0


From 5a1619e45fc0b1ebe61d43bb5f06d07c1f3db04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 57/60] fix: the condition of JUMPI is read from the stack

---
 evm_arithmetization/src/cpu/jumps.rs | 35 ++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/evm_arithmetization/src/cpu/jumps.rs b/evm_arithmetization/src/cpu/jumps.rs
index c100c4f..98112e6 100644
--- a/evm_arithmetization/src/cpu/jumps.rs
+++ b/evm_arithmetization/src/cpu/jumps.rs
@@ -158,6 +158,19 @@ pub(crate) fn eval_packed_jump_jumpi<P: PackedField>(
     // Channel 1 is unused by the `JUMP` instruction.
     yield_constr.constraint(is_jump * lv.mem_channels[1].used);
 
+    // `JUMPI` reads its condition, the second stack element, from channel 1.
+    let cond_channel = lv.mem_channels[1];
+    yield_constr.constraint(is_jumpi * (cond_channel.used - P::ONES));
+    yield_constr.constraint(is_jumpi * (cond_channel.is_read - P::ONES));
+    yield_constr.constraint(is_jumpi * (cond_channel.addr_context - lv.context));
+    yield_constr.constraint(
+        is_jumpi
+            * (cond_channel.addr_segment
+                - P::Scalar::from_canonical_usize(Segment::Stack.unscale())),
+    );
+    let cond_addr_virtual = lv.stack_len - P::Scalar::from_canonical_usize(2);
+    yield_constr.constraint(is_jumpi * (cond_channel.addr_virtual - cond_addr_virtual));
+
     // Update stack length.
     yield_constr.constraint_transition(is_jump * (nv.stack_len - lv.stack_len + P::ONES));
     yield_constr.constraint_transition(
@@ -355,6 +368,28 @@ pub(crate) fn eval_ext_circuit_jump_jumpi<F: RichField + Extendable<D>, const D:
         yield_constr.constraint(builder, constr);
     }
 
+    // `JUMPI` reads its condition, the second stack element, from channel 1.
+    {
+        let cond_channel = lv.mem_channels[1];
+        let constr = builder.mul_sub_extension(is_jumpi, cond_channel.used, is_jumpi);
+        yield_constr.constraint(builder, constr);
+        let constr = builder.mul_sub_extension(is_jumpi, cond_channel.is_read, is_jumpi);
+        yield_constr.constraint(builder, constr);
+        let diff = builder.sub_extension(cond_channel.addr_context, lv.context);
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+        let diff = builder.add_const_extension(
+            cond_channel.addr_segment,
+            -F::from_canonical_usize(Segment::Stack.unscale()),
+        );
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+        let diff = builder.sub_extension(cond_channel.addr_virtual, lv.stack_len);
+        let diff = builder.add_const_extension(diff, F::TWO);
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+    }
+
     // Update stack length.
     {
         let diff = builder.sub_extension(nv.stack_len, lv.stack_len);
-- 
2.43.0


From 4685056a9d9bb29a498bd6c823485f46b3966483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:01 +0000
Subject: [PATCH 58/60] fix: the last word at an address is passed on to the
 next segment

---
 evm_arithmetization/src/memory/columns.rs     |  3 ++
 .../src/memory/memory_stark.rs                | 50 ++++++++++++++++---
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/evm_arithmetization/src/memory/columns.rs b/evm_arithmetization/src/memory/columns.rs
index 10fb75b..4cb2edd 100644
--- a/evm_arithmetization/src/memory/columns.rs
+++ b/evm_arithmetization/src/memory/columns.rs
@@ -57,6 +57,9 @@ pub(crate) struct MemoryColumnsView<T> {
     /// Segment::StorageLinkedList)`.
     pub preinitialized_segments_aux: T,
 
+    /// Pseudoinverse of `preinitialized_segments`.
+    pub preinitialized_segments_inv: T,
+
     /// Contains `row_index` + 1 if and only if context `row_index` is stale,
     /// and zero if not.
     pub stale_contexts: T,
diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 357e720..b4cc168 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -193,6 +193,10 @@ pub(crate) fn generate_first_change_flags_and_rc<F: RichField>(
             - F::from_canonical_usize(Segment::Code.unscale()))
             * (next_segment - F::from_canonical_usize(Segment::TrieData.unscale()))
             * row.preinitialized_segments_aux;
+        row.preinitialized_segments_inv = row
+            .preinitialized_segments
+            .try_inverse()
+            .unwrap_or_default();
 
         let address_changed =
             row.context_first_change + row.segment_first_change + row.virtual_first_change;
@@ -498,6 +502,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let initialize_aux = lv.initialize_aux;
         let preinitialized_segments = lv.preinitialized_segments;
         let preinitialized_segments_aux = lv.preinitialized_segments_aux;
+        let preinitialized_segments_inv = lv.preinitialized_segments_inv;
 
         let next_timestamp = nv.timestamp;
         let next_is_read = nv.is_read;
@@ -604,13 +609,22 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         yield_constr.constraint(mem_after_filter * (mem_after_filter - P::ONES));
 
         // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // - segment is preinitialized OR
         // - value is not zero.
+        // Since `preinitialized_segments` refers to the segment of the next row, so do
+        // these constraints; the first row is dealt with separately.
+        let next_mem_after_diff = nv.mem_after_filter - nv.maybe_in_mem_after;
+        yield_constr.constraint_transition(
+            next_mem_after_diff * (preinitialized_segments * preinitialized_segments_inv - one),
+        );
         for i in 0..VALUE_LIMBS {
-            yield_constr.constraint(
-                (mem_after_filter - maybe_in_mem_after) * preinitialized_segments * value_limbs[i],
+            yield_constr.constraint_transition(
+                next_mem_after_diff * preinitialized_segments * next_values_limbs[i],
             );
         }
+        yield_constr.constraint_first_row(mem_after_filter - maybe_in_mem_after);
+        // Otherwise, it can also be 0.
+        yield_constr.constraint(mem_after_filter * (maybe_in_mem_after - one));
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
         // checked.
@@ -650,6 +664,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let initialize_aux = lv.initialize_aux;
         let preinitialized_segments = lv.preinitialized_segments;
         let preinitialized_segments_aux = lv.preinitialized_segments_aux;
+        let preinitialized_segments_inv = lv.preinitialized_segments_inv;
 
         let next_addr_context = nv.addr_context;
         let next_addr_segment = nv.addr_segment;
@@ -826,12 +841,33 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         }
 
         // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // - segment is preinitialized OR
         // - value is not zero.
-        let mem_after_filter_diff = builder.sub_extension(mem_after_filter, maybe_in_mem_after);
+        // Since `preinitialized_segments` refers to the segment of the next row, so do
+        // these constraints; the first row is dealt with separately.
+        let next_mem_after_diff =
+            builder.sub_extension(nv.mem_after_filter, nv.maybe_in_mem_after);
+        {
+            let prod =
+                builder.mul_extension(preinitialized_segments, preinitialized_segments_inv);
+            let constr =
+                builder.mul_sub_extension(next_mem_after_diff, prod, next_mem_after_diff);
+            yield_constr.constraint_transition(builder, constr);
+        }
         for i in 0..VALUE_LIMBS {
-            let prod = builder.mul_extension(preinitialized_segments, value_limbs[i]);
-            let constr = builder.mul_extension(mem_after_filter_diff, prod);
+            let prod = builder.mul_extension(preinitialized_segments, next_values_limbs[i]);
+            let constr = builder.mul_extension(next_mem_after_diff, prod);
+            yield_constr.constraint_transition(builder, constr);
+        }
+        let mem_after_filter_diff = builder.sub_extension(mem_after_filter, maybe_in_mem_after);
+        yield_constr.constraint_first_row(builder, mem_after_filter_diff);
+        // Otherwise, it can also be 0.
+        {
+            let constr = builder.mul_sub_extension(
+                mem_after_filter,
+                maybe_in_mem_after,
+                mem_after_filter,
+            );
             yield_constr.constraint(builder, constr);
         }
 
-- 
2.43.0


From 533d966fdec862b79c030eaa03ed4a2dfdfbb56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:01 +0000
Subject: [PATCH 59/60] fix: GET_CONTEXT writes the previous top of the stack

---
 evm_arithmetization/src/cpu/contextops.rs | 33 +++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/evm_arithmetization/src/cpu/contextops.rs b/evm_arithmetization/src/cpu/contextops.rs
index 5227f94..3665091 100644
--- a/evm_arithmetization/src/cpu/contextops.rs
+++ b/evm_arithmetization/src/cpu/contextops.rs
@@ -91,6 +91,19 @@ fn eval_packed_get<P: PackedField>(
         yield_constr.constraint(filter * limb);
     }
 
+    // The previous top of the stack is written in memory channel 2, if the stack
+    // isn't empty (see `eval_packed`). `stack_inv_aux_2` contains
+    // `stack_inv_aux * opcode_bits[0]` (see `eval_packed_set`).
+    let is_written = lv.op.context_op
+        * (lv.general.stack().stack_inv_aux - lv.general.stack().stack_inv_aux_2);
+    for (&limb_top, &limb_written) in lv.mem_channels[0]
+        .value
+        .iter()
+        .zip(lv.mem_channels[2].value.iter())
+    {
+        yield_constr.constraint(is_written * (limb_top - limb_written));
+    }
+
     // We cannot prune a context in GET_CONTEXT.
     yield_constr.constraint(filter * lv.general.context_pruning().pruning_flag);
 
@@ -126,6 +139,26 @@ fn eval_ext_circuit_get<F: RichField + Extendable<D>, const D: usize>(
         yield_constr.constraint(builder, constr);
     }
 
+    // The previous top of the stack is written in memory channel 2, if the stack
+    // isn't empty (see `eval_packed`). `stack_inv_aux_2` contains
+    // `stack_inv_aux * opcode_bits[0]` (see `eval_packed_set`).
+    {
+        let diff = builder.sub_extension(
+            lv.general.stack().stack_inv_aux,
+            lv.general.stack().stack_inv_aux_2,
+        );
+        let is_written = builder.mul_extension(lv.op.context_op, diff);
+        for (&limb_top, &limb_written) in lv.mem_channels[0]
+            .value
+            .iter()
+            .zip(lv.mem_channels[2].value.iter())
+        {
+            let diff = builder.sub_extension(limb_top, limb_written);
+            let constr = builder.mul_extension(is_written, diff);
+            yield_constr.constraint(builder, constr);
+        }
+    }
+
     // We cannot prune a context in GET_CONTEXT.
     let constr = builder.mul_extension(filter, lv.general.context_pruning().pruning_flag);
     yield_constr.constraint(builder, constr);
-- 
2.43.0


From 54cb455ddc57327b6d83cfb41cefb00fee80bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:35 +0000
Subject: [PATCH 60/60] fix: limbs of MODEXP operands that are zero after a
 segment boundary

---
 .../src/generation/prover_input.rs            | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 9489678..2d56fc1 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -271,16 +271,18 @@ impl<F: RichField> GenerationState<F> {
         m_start_loc: usize,
     ) -> (Vec<U256>, Vec<U256>) {
         let n = self.memory.contexts.len();
-        let a = &self.memory.contexts[n - 1].segments[Segment::KernelGeneral.unscale()].content()
-            [a_start_loc..a_start_loc + len];
-        let b = &self.memory.contexts[n - 1].segments[Segment::KernelGeneral.unscale()].content()
-            [b_start_loc..b_start_loc + len];
-        let m = &self.memory.contexts[n - 1].segments[Segment::KernelGeneral.unscale()].content()
-            [m_start_loc..m_start_loc + len];
-
-        let a_biguint = mem_vec_to_biguint(a);
-        let b_biguint = mem_vec_to_biguint(b);
-        let m_biguint = mem_vec_to_biguint(m);
+        let segment = &self.memory.contexts[n - 1].segments[Segment::KernelGeneral.unscale()];
+        // The segment's content can end before the last limbs, if they are zero.
+        let limbs = |start: usize| -> Vec<U256> {
+            (start..start + len).map(|virt| segment.get(virt)).collect()
+        };
+        let a = limbs(a_start_loc);
+        let b = limbs(b_start_loc);
+        let m = limbs(m_start_loc);
+
+        let a_biguint = mem_vec_to_biguint(&a);
+        let b_biguint = mem_vec_to_biguint(&b);
+        let m_biguint = mem_vec_to_biguint(&m);
 
         let prod = a_biguint * b_biguint;
         let quo = if m_biguint == BigUint::default() {
-- 
2.43.0

