From 2b1eb23cb6fd43db588c64dd20f4bb1000da92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 01/42] fix: use the real Token-2022 and Stake program ids in
 the curated list

---
 state/src/action/program_curated.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/state/src/action/program_curated.rs b/state/src/action/program_curated.rs
index fe5c488..84d4e6a 100644
--- a/state/src/action/program_curated.rs
+++ b/state/src/action/program_curated.rs
@@ -24,13 +24,13 @@ const CURATED_PROGRAMS: &[[u8; 32]] = &[
     ],
     // SPL Token 2022 Program (TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb)
     [
-        6, 221, 246, 225, 238, 117, 143, 222, 138, 60, 137, 215, 166, 35, 250, 133, 224, 81, 209,
-        114, 91, 157, 99, 29, 94, 145, 213, 104, 233, 4, 16, 238,
+        6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218, 182, 26, 252,
+        77, 131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252,
     ],
     // Staking Program (Stake11111111111111111111111111111111111111)
     [
-        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 86, 165, 18, 7,
-        142, 233, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 127, 83, 92, 138,
+        120, 114, 43, 104, 164, 157, 192, 0, 0, 0, 0,
     ],
 ];
 
-- 
2.43.0


From 77c636b677ba9fde64157824fad135f89120f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 02/42] fix: refuse limited SignV2 requests that hand the
 wallet PDA to another program

---
 program/src/actions/sign_v2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 178bb8c..9d15e43 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -529,6 +529,15 @@ pub fn sign_v2(
                     }
                 }
 
+                // A called program must not be able to take the wallet PDA over: the
+                // System program lets the signing wallet be assigned to another
+                // program or given data, after which that program controls it.
+                if ctx.accounts.swig_wallet_address.owner() != &SYSTEM_PROGRAM_ID
+                    || !ctx.accounts.swig_wallet_address.data_is_empty()
+                {
+                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                }
+
                 let swig_wallet_balance = ctx.accounts.swig_wallet_address.lamports();
                 let swig_wallet_rent_exempt_minimum = pinocchio::sysvars::rent::Rent::get()?
                     .minimum_balance(ctx.accounts.swig_wallet_address.data_len());
-- 
2.43.0


From a9b7ee5afe2ed5e477b81c01dadd05d74e2b2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 03/42] fix: measure program scope spending from the signing
 role's own balance field

---
 program/src/actions/sign_v2.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 9d15e43..0e78618 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -306,7 +306,7 @@ pub fn sign_v2(
     let mut total_sol_spent: u64 = 0;
 
     // Build exclusion ranges for each account type for snapshots
-    for (index, account_classifier) in account_classifiers.iter().enumerate() {
+    for (index, account_classifier) in account_classifiers.iter_mut().enumerate() {
         let account = unsafe { all_accounts.get_unchecked(index) };
 
         // Only check writable accounts as read-only accounts won't modify data
@@ -338,7 +338,7 @@ pub fn sign_v2(
                 let hash = hash_except(&data, account.owner(), &exclude_ranges);
                 Some(hash)
             },
-            AccountClassification::ProgramScope { .. } => {
+            AccountClassification::ProgramScope { balance, .. } => {
                 let data = unsafe { account.borrow_data_unchecked() };
                 // For program scope, we need to get the actual program scope to know what to
                 // exclude, and include owner in hash
@@ -346,6 +346,13 @@ pub fn sign_v2(
                 if let Some(program_scope) =
                     RoleMut::get_action_mut::<ProgramScope>(role.actions, account_key.as_ref())?
                 {
+                    // The classifier read the balance through the first role that
+                    // scopes this account; spending is measured through the scope of
+                    // the signing role, which may use another balance field.
+                    if let Ok(current) = program_scope.read_account_balance(data) {
+                        *balance = current;
+                    }
+
                     let start = program_scope.balance_field_start as usize;
                     let end = program_scope.balance_field_end as usize;
                     if start < end && end <= data.len() {
-- 
2.43.0


From e0947141efde1e2fcdc6e6bf0d4752f37c42716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 04/42] fix: refuse to spend tokens from an account that the
 same SignV2 request closes

---
 program/src/actions/sign_v2.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 0e78618..bfb0eac 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -640,6 +640,13 @@ pub fn sign_v2(
                     if account_info.lamports() != 0 || account_info.owner() != &SYSTEM_PROGRAM_ID {
                         return Err(SwigError::AccountDataModifiedUnexpectedly.into());
                     }
+                    // Tokens moved out before the close can no longer be charged to a
+                    // token limit, because the mint is gone with the account data.
+                    if *spent != 0 {
+                        return Err(
+                            SwigAuthenticateError::PermissionDeniedMissingPermission.into()
+                        );
+                    }
 
                     continue;
                 }
-- 
2.43.0


From 5ec117ee8a8c03f2197c49c02e0b0d526014be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 05/42] fix: create a wallet whose address was funded
 beforehand

---
 program/src/actions/create_v1.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/program/src/actions/create_v1.rs b/program/src/actions/create_v1.rs
index a7ebacf..20e411a 100644
--- a/program/src/actions/create_v1.rs
+++ b/program/src/actions/create_v1.rs
@@ -8,7 +8,7 @@ use pinocchio::{
     sysvars::{rent::Rent, Sysvar},
     ProgramResult,
 };
-use pinocchio_system::instructions::CreateAccount;
+use pinocchio_system::instructions::{Allocate, Assign, Transfer};
 use swig_assertions::{check_self_pda, check_system_owner, check_zero_data};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority, ActionLoader, Actionable},
@@ -213,16 +213,30 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
         lamports_needed - current_lamports
     };
 
-    CreateAccount {
-        from: ctx.accounts.payer,
-        to: ctx.accounts.swig,
-        lamports: lamports_to_transfer,
+    // Anyone can send lamports to this predictable address before the wallet is
+    // created, and `CreateAccount` rejects such a pre-funded destination. Top up,
+    // allocate, and assign separately so that pre-funding cannot block creation.
+    if lamports_to_transfer > 0 {
+        Transfer {
+            from: ctx.accounts.payer,
+            to: ctx.accounts.swig,
+            lamports: lamports_to_transfer,
+        }
+        .invoke()?;
+    }
+    let swig_bump = [swig.bump];
+    let swig_signer = swig_account_signer(&swig.id, &swig_bump);
+    let swig_signers = [swig_signer.as_slice().into()];
+    Allocate {
+        account: ctx.accounts.swig,
         space: account_size as u64,
+    }
+    .invoke_signed(&swig_signers)?;
+    Assign {
+        account: ctx.accounts.swig,
         owner: &crate::ID,
     }
-    .invoke_signed(&[swig_account_signer(&swig.id, &[swig.bump])
-        .as_slice()
-        .into()])?;
+    .invoke_signed(&swig_signers)?;
 
     // Transfer lamports to the swig_wallet_address via CPI to system program
     // This creates a system program owned account by transferring SOL to it
-- 
2.43.0


From 3742ca5b08a63fb046b8e88f9253c1136eaa87a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 06/42] fix: refuse to migrate a wallet that already is in the
 new format

---
 program/src/actions/migrate_to_wallet_address_v1.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/program/src/actions/migrate_to_wallet_address_v1.rs b/program/src/actions/migrate_to_wallet_address_v1.rs
index dcf39dc..41a04ea 100644
--- a/program/src/actions/migrate_to_wallet_address_v1.rs
+++ b/program/src/actions/migrate_to_wallet_address_v1.rs
@@ -157,17 +157,16 @@ pub fn migrate_to_wallet_address_v1(
             return Err(SwigError::InvalidSwigAccountDiscriminator.into());
         }
 
-        // Check if this account is already migrated (has wallet_bump field)
-        // We can detect this by checking if reserved_lamports field is 0 and if the
-        // 41st byte (wallet_bump position) is non-zero
-        let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
-        let potential_wallet_bump = swig_data[40]; // Position where wallet_bump would be
-
-        if old_swig.reserved_lamports == 0 && potential_wallet_bump != 0 {
+        // A migrated account keeps its sub-account counter where the old header
+        // had the upper half of `reserved_lamports`: migrating it again would reset
+        // that counter.
+        if unsafe { crate::is_swig_v2(swig_data) } {
             msg!("Account appears to already be migrated");
             return Err(SwigError::StateError.into());
         }
 
+        let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
+
         (
             old_swig.id,
             old_swig.bump,
-- 
2.43.0


From 3c29b0db1321f4de26117997ce549820a4ef7a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 07/42] fix: let a role with used permissions be updated

---
 program/src/actions/update_authority_v1.rs | 48 ++++++++++++++++++----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/program/src/actions/update_authority_v1.rs b/program/src/actions/update_authority_v1.rs
index 180210d..b03719f 100644
--- a/program/src/actions/update_authority_v1.rs
+++ b/program/src/actions/update_authority_v1.rs
@@ -35,11 +35,14 @@ use crate::{
 ///
 /// # Arguments
 /// * `actions_data` - Raw bytes containing action data
+/// * `kept_len` - Length of the leading actions that the role already holds.
+///   These may be in use (a partly spent recurring limit, a bound sub-account),
+///   so only the actions after them have to be in their initial form.
 ///
 /// # Returns
 /// * `Result<u8, ProgramError>` - The number of actions found, or error if
 ///   invalid data
-fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
+fn calculate_num_actions(actions_data: &[u8], kept_len: usize) -> Result<u8, ProgramError> {
     let mut cursor = 0;
     let mut count = 0u8;
 
@@ -50,6 +53,7 @@ fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
 
         let action_header =
             unsafe { Action::load_unchecked(&actions_data[cursor..cursor + Action::LEN])? };
+        let is_new = cursor >= kept_len;
         cursor += Action::LEN;
 
         let action_len = action_header.length() as usize;
@@ -58,7 +62,8 @@ fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
         }
 
         let action_data = &actions_data[cursor..cursor + action_len];
-        if !ActionLoader::validate_layout(action_header.permission()?, action_data)? {
+        let permission = action_header.permission()?;
+        if is_new && !ActionLoader::validate_layout(permission, action_data)? {
             return Err(ProgramError::InvalidInstructionData);
         }
 
@@ -289,6 +294,30 @@ fn perform_replace_all_operation(
     current_actions_size: usize,
     new_actions: &[u8],
     authority_to_update_id: u32,
+) -> Result<i64, ProgramError> {
+    write_actions(
+        swig_roles,
+        current_roles_len,
+        authority_offset,
+        actions_offset,
+        current_actions_size,
+        new_actions,
+        0,
+        authority_to_update_id,
+    )
+}
+
+/// Writes `new_actions` as the full action list of an authority. The first
+/// `kept_len` bytes are actions the role already holds; the rest are new to it.
+fn write_actions(
+    swig_roles: &mut [u8],
+    current_roles_len: usize,
+    authority_offset: usize,
+    actions_offset: usize,
+    current_actions_size: usize,
+    new_actions: &[u8],
+    kept_len: usize,
+    authority_to_update_id: u32,
 ) -> Result<i64, ProgramError> {
     // Reject duplicate V2 sub-account scoped actions on the resulting role.
     // ReplaceAll receives the role's full new action list, and AddActions routes
@@ -340,7 +369,7 @@ fn perform_replace_all_operation(
             // Update the position for the role we're updating
             if position.id() == authority_to_update_id {
                 position.boundary = (position.boundary() as i64 + size_diff) as u32;
-                position.num_actions = calculate_num_actions(new_actions)? as u16;
+                position.num_actions = calculate_num_actions(new_actions, kept_len)? as u16;
             }
 
             cursor = position.boundary() as usize;
@@ -352,7 +381,7 @@ fn perform_replace_all_operation(
                 &mut swig_roles[authority_offset..authority_offset + Position::LEN],
             )?
         };
-        position.num_actions = calculate_num_actions(new_actions)? as u16;
+        position.num_actions = calculate_num_actions(new_actions, kept_len)? as u16;
     }
 
     let final_roles_len = (current_roles_len as i64 + size_diff) as usize;
@@ -382,7 +411,7 @@ fn perform_replace_all_operation(
         let permission = action_header.permission()?;
         let action_data =
             &new_actions[action_cursor + Action::LEN..action_cursor + total_action_size];
-        if !ActionLoader::validate_layout(permission, action_data)? {
+        if action_cursor >= kept_len && !ActionLoader::validate_layout(permission, action_data)? {
             return Err(ProgramError::InvalidInstructionData);
         }
 
@@ -425,13 +454,14 @@ fn perform_add_actions_operation(
     combined_actions.extend_from_slice(new_actions);
 
     // Use replace_all logic with combined actions
-    perform_replace_all_operation(
+    write_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &combined_actions,
+        current_actions_size,
         authority_to_update_id,
     )
 }
@@ -599,13 +629,14 @@ fn perform_remove_by_type_operation(
     }
 
     // Use replace_all logic with filtered actions
-    perform_replace_all_operation(
+    write_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &filtered_actions,
+        filtered_actions.len(),
         authority_to_update_id,
     )
 }
@@ -657,13 +688,14 @@ fn perform_remove_by_index_operation(
     }
 
     // Use replace_all logic with filtered actions
-    perform_replace_all_operation(
+    write_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &filtered_actions,
+        filtered_actions.len(),
         authority_to_update_id,
     )
 }
-- 
2.43.0


From e3c7231fe5453be1cd53cd7450a150aebdd71463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 08/42] fix: check the founding role's permissions on the
 stored role

---
 program/src/actions/create_v1.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/program/src/actions/create_v1.rs b/program/src/actions/create_v1.rs
index 20e411a..a858e22 100644
--- a/program/src/actions/create_v1.rs
+++ b/program/src/actions/create_v1.rs
@@ -185,12 +185,6 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
         SwigError::InvalidSeedSwigAccount,
     )?;
 
-    let manage_authority_action = create_v1.get_action::<ManageAuthority>()?;
-    let all_action = create_v1.get_action::<All>()?;
-    if manage_authority_action.is_none() && all_action.is_none() {
-        msg!("Root authority type must had one of the following actions: ManageAuthority or All");
-        return Err(SwigError::InvalidAuthorityType.into());
-    }
     let authority_type = AuthorityType::try_from(create_v1.args.authority_type)?;
     let authority_length = authority_type_to_length(&authority_type)?;
     let account_size = core::alloc::Layout::from_size_align(
@@ -267,6 +261,18 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
     let mut swig_builder = SwigBuilder::create(swig_data, swig)?;
 
     swig_builder.add_role(authority_type, create_v1.authority_data, create_v1.actions)?;
+
+    // Check the role as it was stored: the action boundaries in the request are
+    // not trusted, so walking the request by them could find an action that the
+    // role does not hold, miss one that it does, or never end.
+    let roles = Swig::split_parts_mut(swig_data)?.roles;
+    let root = Swig::get_mut_role(0, roles)?.ok_or(SwigError::StateError)?;
+    let manage_authority_action = root.get_action::<ManageAuthority>(&[])?;
+    let all_action = root.get_action::<All>(&[])?;
+    if manage_authority_action.is_none() && all_action.is_none() {
+        msg!("Root authority type must had one of the following actions: ManageAuthority or All");
+        return Err(SwigError::InvalidAuthorityType.into());
+    }
     Ok(())
 }
 
-- 
2.43.0


From 7cda2ed7e56d453c064b88d42a84b670a3ec1d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 09/42] fix: count the accounts of the instruction a
 program-exec authority points at

The count was read from the first two bytes of the instruction data.
---
 state/src/authority/programexec/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index 13cb511..fa50eee 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -293,10 +293,8 @@ pub fn program_exec_authenticate(
 
     // Get the target instruction
     let preceding_ix = unsafe { ixs.deserialize_instruction_unchecked(verify_ix_index) };
-    let num_accounts = u16::from_le_bytes(unsafe {
-        *(preceding_ix.get_instruction_data().as_ptr() as *const [u8; 2])
-    });
-    if num_accounts < 2 {
+    // The config and the wallet must be among its accounts
+    if preceding_ix.get_account_meta_at(1).is_err() {
         return Err(
             SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData.into(),
         );
-- 
2.43.0


From ff4b6107790ba3c5d801f2adbd9ef5a2ba22e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 10/42] fix: own the accounts and indexes of a parsed compact
 instruction

They pointed into the stack frame of the parser after it returned, and a
255th account wrote past its array. A transfer without accounts no longer
reads a first account.
---
 instructions/src/lib.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 1bea396..02a9864 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -8,7 +8,7 @@
 /// - Restricted key handling
 /// - Memory-efficient instruction processing
 mod compact_instructions;
-use core::{marker::PhantomData, mem::MaybeUninit};
+use core::marker::PhantomData;
 
 pub use compact_instructions::*;
 use pinocchio::{
@@ -49,8 +49,8 @@ impl From<InstructionError> for ProgramError {
 pub struct InstructionHolder<'a> {
     pub program_id: &'a Pubkey,
     pub cpi_accounts: Vec<Account<'a>>,
-    pub indexes: &'a [usize],
-    pub accounts: &'a [AccountMeta<'a>],
+    pub indexes: Vec<usize>,
+    pub accounts: Vec<AccountMeta<'a>>,
     pub data: &'a [u8],
     pub uses_swig_signer: bool,
 }
@@ -65,7 +65,10 @@ impl<'a> InstructionHolder<'a> {
         if self.program_id == &pinocchio_system::ID
             && self.data.len() >= 12
             && unsafe { self.data.get_unchecked(0..4) == [2, 0, 0, 0] }
-            && unsafe { self.accounts.get_unchecked(0).pubkey == swig_key }
+            && self
+                .accounts
+                .first()
+                .is_some_and(|account| account.pubkey == swig_key)
         {
             // Check if the "from" account (swig_key) is system-owned or program-owned
             let from_account_index = unsafe { *self.indexes.get_unchecked(0) };
@@ -150,7 +153,7 @@ impl<'a> InstructionHolder<'a> {
     pub fn borrow(&'a self) -> Instruction<'a, 'a, 'a, 'a> {
         Instruction {
             program_id: self.program_id,
-            accounts: self.accounts,
+            accounts: self.accounts.as_slice(),
             data: self.data,
         }
     }
@@ -283,24 +286,22 @@ where
         let (num_accounts, cursor) = self.read_u8()?;
         self.cursor = cursor;
         let num_accounts = num_accounts as usize;
-        const AM_UNINIT: MaybeUninit<AccountMeta> = MaybeUninit::uninit();
-        let mut accounts = [AM_UNINIT; MAX_ACCOUNTS];
+        let mut accounts = Vec::with_capacity(num_accounts);
         let mut infos = Vec::with_capacity(num_accounts);
-        const INDEX_UNINIT: MaybeUninit<usize> = MaybeUninit::uninit();
-        let mut indexes = [INDEX_UNINIT; MAX_ACCOUNTS];
+        let mut indexes = Vec::with_capacity(num_accounts);
         let mut uses_swig_signer = false;
-        for i in 0..num_accounts {
+        for _ in 0..num_accounts {
             let (pubkey_index, cursor) = self.read_u8()?;
             self.cursor = cursor;
             let account = self.accounts.get_account(pubkey_index as usize)?;
-            indexes[i].write(pubkey_index as usize);
+            indexes.push(pubkey_index as usize);
             let pubkey = account.pubkey();
             let is_signer = (pubkey == self.signer || account.signer())
                 && !self.restricted_keys.is_restricted(pubkey);
             if is_signer && pubkey == self.signer {
                 uses_swig_signer = true;
             }
-            accounts[i].write(AccountMeta {
+            accounts.push(AccountMeta {
                 pubkey,
                 is_signer,
                 is_writable: account.writable(),
@@ -317,8 +318,8 @@ where
         Ok(InstructionHolder {
             program_id,
             cpi_accounts: infos,
-            accounts: unsafe { core::slice::from_raw_parts(accounts.as_ptr() as _, num_accounts) },
-            indexes: unsafe { core::slice::from_raw_parts(indexes.as_ptr() as _, num_accounts) },
+            accounts,
+            indexes,
             data,
             uses_swig_signer,
         })
-- 
2.43.0


From 612b306f174edda3e891f20c552d640d3ecf001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 11/42] fix: let an All role withdraw from the sub-account of
 any role

Only creators with role ids up to 10 were tried, and an additional
ManageAuthority permission took the right away.
---
 program/src/actions/withdraw_from_sub_account_v1.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/program/src/actions/withdraw_from_sub_account_v1.rs b/program/src/actions/withdraw_from_sub_account_v1.rs
index 38dc055..c289fe9 100644
--- a/program/src/actions/withdraw_from_sub_account_v1.rs
+++ b/program/src/actions/withdraw_from_sub_account_v1.rs
@@ -198,7 +198,7 @@ pub fn withdraw_from_sub_account_v1(
         // For All permission, allow withdrawal from any sub-account (no validation
         // needed) For ManageAuthority permission, restrict to sub-accounts
         // created by the withdrawing role
-        if manage_authority_action.is_some() {
+        if all_action.is_none() {
             let role_id_bytes = withdraw.args.role_id.to_le_bytes();
             let sub_account_seeds = swig_state::swig::sub_account_seeds(&swig.id, &role_id_bytes);
             let (expected_sub_account, _expected_bump) =
@@ -229,8 +229,9 @@ pub fn withdraw_from_sub_account_v1(
         let mut found_role_id = None;
         let mut found_bump = None;
 
-        // Try role IDs from 0 to some reasonable maximum (let's try up to 10)
-        for potential_role_id in 0u32..=10u32 {
+        // Try every role ID that this wallet has handed out so far; the creating
+        // role may have been removed in the meantime
+        for potential_role_id in 0u32..swig.role_counter {
             let role_id_bytes = potential_role_id.to_le_bytes();
             let sub_account_seeds = swig_state::swig::sub_account_seeds(&swig.id, &role_id_bytes);
             let (derived_address, bump) =
-- 
2.43.0


From c64427817dbadd1afa334f03f142752807021026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 12/42] fix: refuse a sub-account toggle whose flag is neither
 0 nor 1

The byte was read as a bool and stored, which is undefined behaviour.
---
 program/src/actions/toggle_sub_account_v1.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/program/src/actions/toggle_sub_account_v1.rs b/program/src/actions/toggle_sub_account_v1.rs
index 79c2d67..2ca69ad 100644
--- a/program/src/actions/toggle_sub_account_v1.rs
+++ b/program/src/actions/toggle_sub_account_v1.rs
@@ -102,6 +102,11 @@ impl<'a> ToggleSubAccountV1<'a> {
         // Split the data into args and the rest (authority payload)
         let (args_data, authority_payload) = data.split_at(ToggleSubAccountV1Args::LEN);
 
+        // Any other byte is no valid `bool`
+        if args_data[core::mem::offset_of!(ToggleSubAccountV1Args, enabled)] > 1 {
+            return Err(ProgramError::InvalidInstructionData);
+        }
+
         let args = unsafe { ToggleSubAccountV1Args::load_unchecked(args_data)? };
 
         Ok(Self {
-- 
2.43.0


From f676f23f9369de4b30f64ec8775d908e234e1367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 13/42] fix: keep wallets with many program scopes usable

Every instruction copied all scopes of the wallet onto the 32 KiB heap; a few
dozen of them made every instruction on the wallet abort for good.
---
 program/src/lib.rs      |  6 ++--
 program/src/util/mod.rs | 74 +++++++++++++++--------------------------
 2 files changed, 30 insertions(+), 50 deletions(-)

diff --git a/program/src/lib.rs b/program/src/lib.rs
index 0e6ed31..4f98569 100644
--- a/program/src/lib.rs
+++ b/program/src/lib.rs
@@ -274,10 +274,10 @@ unsafe fn execute(
     }
     let mut index: usize = 1;
 
-    let first_account = accounts[0].assume_init_ref();
+    let first_account = accounts[0].assume_init_ref().clone();
     // Non-Swig first accounts are valid for instructions that do not use the
     // SignV2 account layout, so absence of a cache is not an error here.
-    let program_scope_cache = if is_swig_config_account(first_account) {
+    let program_scope_cache = if is_swig_config_account(&first_account) {
         let data = first_account.borrow_data_unchecked();
         ProgramScopeCache::load_from_swig(data)
     } else {
@@ -366,7 +366,7 @@ unsafe fn classify_account(
     account: &AccountInfo,
     accounts: &[MaybeUninit<AccountInfo>],
     account_classifications: &[MaybeUninit<AccountClassification>],
-    program_scope_cache: Option<&ProgramScopeCache>,
+    program_scope_cache: Option<&ProgramScopeCache<'_>>,
 ) -> Result<AccountClassification, ProgramError> {
     match account.owner() {
         &crate::ID => {
diff --git a/program/src/util/mod.rs b/program/src/util/mod.rs
index ef3b464..513ca64 100644
--- a/program/src/util/mod.rs
+++ b/program/src/util/mod.rs
@@ -38,17 +38,23 @@ use crate::error::SwigError;
 /// This struct maintains a mapping of target account public keys to their
 /// associated role IDs and program scope data. It helps avoid repeated
 /// parsing of program scope data from the Swig account.
-pub(crate) struct ProgramScopeCache {
-    /// Maps target account pubkey to (role_id, raw program scope bytes)
-    scopes: Vec<([u8; 32], (u8, [u8; PROGRAM_SCOPE_BYTE_SIZE]))>,
+///
+/// Entries point into the account data: copying every scope would exhaust the
+/// program heap, and so lock the wallet, at a few dozen scopes.
+pub(crate) struct ProgramScopeCache<'a> {
+    /// The Swig account data the offsets below refer to
+    data: &'a [u8],
+    /// (role_id, offset of the raw program scope bytes) of every scope
+    scopes: Vec<(u8, u32)>,
 }
 
-impl ProgramScopeCache {
+impl<'a> ProgramScopeCache<'a> {
     /// Creates a new empty program scope cache.
     ///
     /// Initializes with a reasonable capacity to avoid frequent reallocations.
-    pub(crate) fn new() -> Self {
+    pub(crate) fn new(data: &'a [u8]) -> Self {
         Self {
+            data,
             scopes: Vec::with_capacity(16), // Reasonable initial capacity
         }
     }
@@ -64,13 +70,13 @@ impl ProgramScopeCache {
     /// # Returns
     /// * `Option<Self>` - The populated cache if successful, None if data is
     ///   invalid
-    pub(crate) fn load_from_swig(data: &[u8]) -> Option<Self> {
+    pub(crate) fn load_from_swig(data: &'a [u8]) -> Option<Self> {
         if data.len() < Swig::LEN {
             return None;
         }
 
         let swig_with_roles = SwigWithRoles::from_bytes(data).ok()?;
-        let mut cache = Self::new();
+        let mut cache = Self::new(data);
 
         // Iterate through all roles and their program scopes
         for role_id in 0..swig_with_roles.state.role_counter {
@@ -97,33 +103,9 @@ impl ProgramScopeCache {
                             let action_data = &role.actions[cursor..cursor + action_len];
                             if action_data.len() == PROGRAM_SCOPE_BYTE_SIZE {
                                 // Size of ProgramScope
-                                // Store in cache using target account as key
-                                let program_scope = unsafe {
-                                    // SAFETY: We've verified the length matches exactly
-                                    let mut scope_bytes = [0u8; PROGRAM_SCOPE_BYTE_SIZE];
-                                    core::ptr::copy_nonoverlapping(
-                                        action_data.as_ptr(),
-                                        scope_bytes.as_mut_ptr(),
-                                        PROGRAM_SCOPE_BYTE_SIZE,
-                                    );
-                                    let program_scope: ProgramScope =
-                                        core::mem::transmute(scope_bytes);
-                                    program_scope
-                                };
-
-                                let mut target_account = [0u8; 32];
-                                target_account.copy_from_slice(&program_scope.target_account);
-
-                                // Store raw bytes
-                                let scope_bytes = unsafe {
-                                    core::mem::transmute::<
-                                        ProgramScope,
-                                        [u8; PROGRAM_SCOPE_BYTE_SIZE],
-                                    >(program_scope)
-                                };
-                                cache
-                                    .scopes
-                                    .push((target_account, (role_id as u8, scope_bytes)));
+                                let offset =
+                                    action_data.as_ptr() as usize - data.as_ptr() as usize;
+                                cache.scopes.push((role_id as u8, offset as u32));
                             }
                         }
 
@@ -146,19 +128,17 @@ impl ProgramScopeCache {
     /// # Returns
     /// * `Option<(u8, ProgramScope)>` - Role ID and program scope if found
     pub(crate) fn find_program_scope(&self, target_account: &[u8]) -> Option<(u8, ProgramScope)> {
-        self.scopes
-            .iter()
-            .find(|(key, _)| key == target_account)
-            .map(|(_, (role_id, scope_bytes))| {
-                // SAFETY: We know these bytes represent a valid ProgramScope since we stored
-                // them that way
-                let program_scope = unsafe {
-                    core::mem::transmute::<[u8; PROGRAM_SCOPE_BYTE_SIZE], ProgramScope>(
-                        *scope_bytes,
-                    )
-                };
-                (*role_id, program_scope)
-            })
+        self.scopes.iter().find_map(|(role_id, offset)| {
+            let mut scope_bytes = [0u8; PROGRAM_SCOPE_BYTE_SIZE];
+            let start = *offset as usize;
+            scope_bytes.copy_from_slice(self.data.get(start..start + PROGRAM_SCOPE_BYTE_SIZE)?);
+            // SAFETY: these bytes were checked to be a program scope action when the cache
+            // was loaded
+            let program_scope = unsafe {
+                core::mem::transmute::<[u8; PROGRAM_SCOPE_BYTE_SIZE], ProgramScope>(scope_bytes)
+            };
+            (program_scope.target_account == target_account).then_some((*role_id, program_scope))
+        })
     }
 }
 
-- 
2.43.0


From b0ec12976d0bce93fa95c0b36861ffb42f0abea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 14/42] fix: keep write access when an account is mentioned
 twice in compacted instructions

An account already in the list kept the privileges of its first mention,
so an inner instruction that needs it writable (or signing) was refused
by the runtime.
---
 instructions/src/compact_instructions.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/instructions/src/compact_instructions.rs b/instructions/src/compact_instructions.rs
index 1443272..55c0e1e 100644
--- a/instructions/src/compact_instructions.rs
+++ b/instructions/src/compact_instructions.rs
@@ -36,6 +36,7 @@ mod inner {
         mut accounts: Vec<AccountMeta>,
         inner_instructions: Vec<Instruction>,
     ) -> (Vec<AccountMeta>, CompactInstructions) {
+        let base_accounts = accounts.len();
         let mut compact_ix = Vec::with_capacity(inner_instructions.len());
         let mut hashmap = accounts
             .iter()
@@ -52,6 +53,13 @@ mod inner {
                 }
                 let account_index = hashmap.get(&ix_account.pubkey);
                 if let Some(index) = account_index {
+                    let account = &mut accounts[*index];
+                    account.is_writable |= ix_account.is_writable;
+                    // The accounts passed in by the caller include the program's
+                    // own signing addresses, which never sign the transaction.
+                    if *index >= base_accounts {
+                        account.is_signer |= ix_account.is_signer;
+                    }
                     accts.push(*index as u8);
                 } else {
                     let idx = accounts.len();
@@ -96,6 +104,7 @@ mod inner {
         mut accounts: Vec<AccountMeta>,
         inner_instructions: Vec<Instruction>,
     ) -> (Vec<AccountMeta>, CompactInstructions) {
+        let base_accounts = accounts.len();
         let mut compact_ix = Vec::with_capacity(inner_instructions.len());
         let mut hashmap = accounts
             .iter()
@@ -115,6 +124,13 @@ mod inner {
                 }
                 let account_index = hashmap.get(&ix_account.pubkey);
                 if let Some(index) = account_index {
+                    let account = &mut accounts[*index];
+                    account.is_writable |= ix_account.is_writable;
+                    // The accounts passed in by the caller include the program's
+                    // own signing addresses, which never sign the transaction.
+                    if *index >= base_accounts {
+                        account.is_signer |= ix_account.is_signer;
+                    }
                     accts.push(*index as u8);
                 } else {
                     let idx = accounts.len();
-- 
2.43.0


From 0cd78f69703cec7398d20699e07180a10309df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 15/42] fix: look up a program-exec role by its whole prefix

match_data ignored the prefix length of the data, so a lookup found an
earlier role registered for a shorter prefix of the same program.
---
 state/src/authority/programexec/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index fa50eee..319ecee 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -147,7 +147,8 @@ impl AuthorityInfo for ProgramExecAuthority {
         }
         // The identity slice includes intermediate bytes (instruction_prefix_len +
         // padding) so we need to read instruction_prefix from IX_PREFIX_OFFSET
-        sol_assert_bytes_eq(&self.program_id, &data[..32], 32)
+        data[32] == self.instruction_prefix_len
+            && sol_assert_bytes_eq(&self.program_id, &data[..32], 32)
             && sol_assert_bytes_eq(
                 &self.instruction_prefix[..self.instruction_prefix_len as usize],
                 &data[IX_PREFIX_OFFSET..IX_PREFIX_OFFSET + self.instruction_prefix_len as usize],
-- 
2.43.0


From e11f7209e298a4cff267c833d0123ec7ef1ba248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 16/42] fix: shrinking a role's permissions pays the payer only
 the freed rent

UpdateAuthority sent every lamport above the rent minimum of the smaller
account to the payer, including SOL kept on the configuration account (as
wallets of the old format do).
---
 program/src/actions/update_authority_v1.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/program/src/actions/update_authority_v1.rs b/program/src/actions/update_authority_v1.rs
index b03719f..f5e9e63 100644
--- a/program/src/actions/update_authority_v1.rs
+++ b/program/src/actions/update_authority_v1.rs
@@ -955,10 +955,14 @@ pub fn update_authority_v1(
 
         ctx.accounts.swig.resize(aligned_size)?;
 
-        let cost = Rent::get()?.minimum_balance(aligned_size);
+        let rent = Rent::get()?;
+        let cost = rent.minimum_balance(aligned_size);
         let current_lamports = unsafe { *ctx.accounts.swig.borrow_lamports_unchecked() };
 
-        let additional_cost = current_lamports.saturating_sub(cost);
+        // Return the rent that the shrink has freed, and nothing beyond it: other
+        // lamports on this account belong to the wallet.
+        let freed_rent = rent.minimum_balance(account_len).saturating_sub(cost);
+        let additional_cost = current_lamports.saturating_sub(cost).min(freed_rent);
 
         if additional_cost > 0 {
             unsafe {
-- 
2.43.0


From 3b4067c33b7fa3ab0ebf43deabb486776c748c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 17/42] fix: nested strings with braces no longer expose nested
 passkey fields as the challenge

---
 state/src/authority/secp256r1.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 2b30522..fa5f49b 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -953,6 +953,16 @@ fn extract_top_level_string_field<'a>(
             continue;
         }
 
+        // Braces inside the strings of nested values are not structure
+        if depth != 1 && byte == b'"' {
+            cursor += 1;
+            while cursor < client_data_json.len() && client_data_json[cursor] != b'"' {
+                cursor += if client_data_json[cursor] == b'\\' { 2 } else { 1 };
+            }
+            cursor += 1;
+            continue;
+        }
+
         if depth == 1 && byte == b'"' {
             let key_start = cursor + 1;
             let mut key_end = key_start;
-- 
2.43.0


From 91ea4d1865aa9e5bb24949e051405db8a0f03e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 18/42] fix: check the wallet token account's length before
 reading its owner in the v1 sub-account withdrawal

---
 program/src/actions/withdraw_from_sub_account_v1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/program/src/actions/withdraw_from_sub_account_v1.rs b/program/src/actions/withdraw_from_sub_account_v1.rs
index c289fe9..bf52c47 100644
--- a/program/src/actions/withdraw_from_sub_account_v1.rs
+++ b/program/src/actions/withdraw_from_sub_account_v1.rs
@@ -261,7 +261,9 @@ pub fn withdraw_from_sub_account_v1(
 
         let swig_token_account = &all_accounts[action_accounts_index + 3];
         let swig_token_account_data = unsafe { swig_token_account.borrow_data_unchecked() };
-        let swig_token_account_owner = unsafe { swig_token_account_data.get_unchecked(32..64) };
+        let swig_token_account_owner = swig_token_account_data
+            .get(32..64)
+            .ok_or(SwigError::InvalidSwigTokenAccountOwner)?;
         if unsafe {
             sol_memcmp(
                 ctx.accounts.swig_wallet_address.key(),
-- 
2.43.0


From 9609a44de63917826888573149e3487445046b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 19/42] fix: secp256k1 requests for v1 sub-accounts and asset
 transfer carry the signature counter

---
 interface/src/lib.rs        | 24 ++++++++++++++++++------
 rust-sdk/src/client_role.rs | 10 ++++++++++
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 979ee92..be23153 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -1910,6 +1910,7 @@ impl CreateSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         role_id: u32,
         sub_account_bump: u8,
@@ -1941,12 +1942,13 @@ impl CreateSubAccountInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, args_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2149,6 +2151,7 @@ impl WithdrawFromSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         swig_wallet_address: Pubkey,
         role_id: u32,
@@ -2183,12 +2186,13 @@ impl WithdrawFromSubAccountInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, args_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2239,6 +2243,7 @@ impl WithdrawFromSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         swig_wallet_address: Pubkey,
         sub_account_token: Pubkey,
@@ -2279,12 +2284,13 @@ impl WithdrawFromSubAccountInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, args_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2670,6 +2676,7 @@ impl SubAccountSignInstruction {
         sub_account: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         role_id: u32,
         instructions: Vec<Instruction>,
     ) -> anyhow::Result<Instruction>
@@ -2700,12 +2707,13 @@ impl SubAccountSignInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, &ix_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, &ix_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2913,6 +2921,7 @@ impl ToggleSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         role_id: u32,
         auth_role_id: u32,
@@ -2947,7 +2956,7 @@ impl ToggleSubAccountInstruction {
         // Sign the payload
         let nonced_payload = prepare_secp256k1_payload(
             current_slot,
-            0u32,
+            counter,
             args_bytes,
             &account_payload_bytes,
             prefix,
@@ -2957,6 +2966,7 @@ impl ToggleSubAccountInstruction {
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -3158,6 +3168,7 @@ impl TransferAssetsV1Instruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         role_id: u32,
     ) -> anyhow::Result<Instruction>
     where
@@ -3189,7 +3200,7 @@ impl TransferAssetsV1Instruction {
         // Sign the payload
         let nonced_payload = prepare_secp256k1_payload(
             current_slot,
-            0u32,
+            counter,
             args_bytes,
             &account_payload_bytes,
             prefix,
@@ -3199,6 +3210,7 @@ impl TransferAssetsV1Instruction {
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index b457c73..9340fbc 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -819,6 +819,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             CreateSubAccountInstruction::new_with_secp256k1_authority(
@@ -826,6 +827,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 role_id,
                 sub_account_bump,
@@ -842,6 +844,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             SubAccountSignInstruction::new_with_secp256k1_authority(
@@ -849,6 +852,7 @@ impl ClientRole for Secp256k1ClientRole {
                 sub_account,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 role_id,
                 instructions,
             )?,
@@ -865,6 +869,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -878,6 +883,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 swig_wallet_address,
                 role_id,
@@ -899,6 +905,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -912,6 +919,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 swig_wallet_address,
                 sub_account_token,
@@ -934,6 +942,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             ToggleSubAccountInstruction::new_with_secp256k1_authority(
@@ -941,6 +950,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 role_id,
                 auth_role_id,
-- 
2.43.0


From 00d09a38f43abd3699ec7246d033ff1ac8e7c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 20/42] fix: secp256r1 requests for v1 sub-accounts and asset
 transfer carry a complete authority payload

---
 interface/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index be23153..90871ff 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2025,6 +2025,7 @@ impl CreateSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -2456,6 +2457,7 @@ impl WithdrawFromSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(3); // this is the index of the instruction sysvar (account 3)
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -2790,7 +2792,8 @@ impl SubAccountSignInstruction {
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
-        authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.push(3); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -3044,6 +3047,7 @@ impl ToggleSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -3286,6 +3290,7 @@ impl TransferAssetsV1Instruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         // Create the main instruction
         let main_ix = Instruction {
-- 
2.43.0


From 6078f463ef7a9ebca748543ee28f40f4ec4da4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 21/42] fix: secp requests for v1 sub-account withdrawal and
 toggle sign the payer as writable, as the fee payer is

---
 interface/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 90871ff..b51e538 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2163,7 +2163,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2258,7 +2258,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2318,7 +2318,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2402,7 +2402,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2935,7 +2935,7 @@ impl ToggleSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
         ];
 
@@ -2996,7 +2996,7 @@ impl ToggleSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
-- 
2.43.0


From a2c28d1af4369c61fc406fd1191724a2052c0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 22/42] fix: secp requests to sign for a v1 sub-account name
 the wallet as writable, for the counter they advance

---
 interface/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index b51e538..ca46618 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2686,7 +2686,7 @@ impl SubAccountSignInstruction {
         F: FnMut(&[u8]) -> [u8; 65],
     {
         let accounts = vec![
-            AccountMeta::new_readonly(swig_account, false),
+            AccountMeta::new(swig_account, false),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
@@ -2739,7 +2739,7 @@ impl SubAccountSignInstruction {
         F: FnMut(&[u8]) -> [u8; 64],
     {
         let accounts = vec![
-            AccountMeta::new_readonly(swig_account, false),
+            AccountMeta::new(swig_account, false),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
-- 
2.43.0


From 34bfc72d6473eca3b99aba8f816f19112cdba1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 23/42] fix: program-exec requests for sub-account signing and
 token withdrawal list the accounts where the program reads them

---
 interface/src/lib.rs        | 42 ++++++++++++++++---------------------
 rust-sdk/src/client_role.rs |  6 ------
 2 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index ca46618..aedc9e3 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2479,18 +2479,17 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        // The instructions sysvar takes the place of the authority context
+        let instruction_sysvar_index = 3u8;
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
 
-        // Add instructions sysvar at a stable index
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
-
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
             .into_bytes()
@@ -2523,21 +2522,20 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        // The instructions sysvar takes the place of the authority context
+        let instruction_sysvar_index = 3u8;
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
+            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(sub_account_token, false),
             AccountMeta::new(swig_token, false),
-            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(token_program, false),
         ];
 
-        // Add instructions sysvar at a stable index
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
-
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
             .into_bytes()
@@ -2568,17 +2566,17 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        // The instructions sysvar takes the place of the authority context
+        let instruction_sysvar_index = 3u8;
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
 
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
-
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
             .into_bytes()
@@ -2611,20 +2609,20 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        // The instructions sysvar takes the place of the authority context
+        let instruction_sysvar_index = 3u8;
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
+            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(sub_account_token, false),
             AccountMeta::new(swig_token, false),
-            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(token_program, false),
         ];
 
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
-
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
             .into_bytes()
@@ -2807,7 +2805,6 @@ impl SubAccountSignInstruction {
     pub fn new_with_program_exec(
         swig_account: Pubkey,
         sub_account: Pubkey,
-        payer: Pubkey,
         preceding_instruction: Instruction,
         role_id: u32,
         instructions: Vec<Instruction>,
@@ -2816,7 +2813,6 @@ impl SubAccountSignInstruction {
 
         let mut accounts = vec![
             AccountMeta::new_readonly(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
@@ -2849,7 +2845,6 @@ impl SubAccountSignInstruction {
     pub fn new_with_program_exec_ix_index(
         swig_account: Pubkey,
         sub_account: Pubkey,
-        payer: Pubkey,
         preceding_instruction: Instruction,
         role_id: u32,
         instructions: Vec<Instruction>,
@@ -2859,7 +2854,6 @@ impl SubAccountSignInstruction {
 
         let mut accounts = vec![
             AccountMeta::new_readonly(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 9340fbc..cfd1f0d 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -3378,17 +3378,11 @@ where
         instructions: Vec<Instruction>,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        // Note: SubAccountSign requires a payer parameter but the trait doesn't provide
-        // it We'll use the swig_account as a placeholder since the actual payer
-        // needs to be determined by the caller
-        let payer = swig_account; // Caller should ensure correct payer is set
-
         let preceding_instruction = (self.preceding_instruction_fn)();
 
         SubAccountSignInstruction::new_with_program_exec(
             swig_account,
             sub_account,
-            payer,
             preceding_instruction,
             role_id,
             instructions,
-- 
2.43.0


From 92bf12416a9c6e72893282d558154b4e235b2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 24/42] fix: an empty configuration account is refused without
 reading past its end

---
 program/src/actions/create_session_v1.rs     | 2 +-
 program/src/actions/create_sub_account_v1.rs | 2 +-
 program/src/actions/create_sub_account_v2.rs | 2 +-
 program/src/actions/sign_v2.rs               | 2 +-
 program/src/actions/sub_account_sign_v1.rs   | 2 +-
 program/src/actions/sub_account_sign_v2.rs   | 2 +-
 program/src/actions/toggle_sub_account_v1.rs | 2 +-
 program/src/actions/toggle_sub_account_v2.rs | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/program/src/actions/create_session_v1.rs b/program/src/actions/create_session_v1.rs
index feef1d5..0f82031 100644
--- a/program/src/actions/create_session_v1.rs
+++ b/program/src/actions/create_session_v1.rs
@@ -134,7 +134,7 @@ pub fn create_session_v1(
         ProgramError::InvalidInstructionData
     })?;
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
     let swig_roles = Swig::split_parts_mut(swig_account_data)?.roles;
diff --git a/program/src/actions/create_sub_account_v1.rs b/program/src/actions/create_sub_account_v1.rs
index 16b6a51..6d5f26e 100644
--- a/program/src/actions/create_sub_account_v1.rs
+++ b/program/src/actions/create_sub_account_v1.rs
@@ -150,7 +150,7 @@ pub fn create_sub_account_v1(
 
     // Verify the swig account data
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
 
diff --git a/program/src/actions/create_sub_account_v2.rs b/program/src/actions/create_sub_account_v2.rs
index 9149e70..f5eb927 100644
--- a/program/src/actions/create_sub_account_v2.rs
+++ b/program/src/actions/create_sub_account_v2.rs
@@ -139,7 +139,7 @@ pub fn create_sub_account_v2(
     // Authenticate, authorize creation, and draw a fresh id under one borrow.
     let (new_id, swig_id, already_granted) = {
         let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-        if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8
+        if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8))
         {
             return Err(SwigError::InvalidSwigAccountDiscriminator.into());
         }
diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index bfb0eac..ff32759 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -233,7 +233,7 @@ pub fn sign_v2(
 
     let sign_v2 = SignV2::from_instruction_bytes(data)?;
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
     let parts = Swig::split_parts_mut(swig_account_data)?;
diff --git a/program/src/actions/sub_account_sign_v1.rs b/program/src/actions/sub_account_sign_v1.rs
index 5ce981d..be4b81b 100644
--- a/program/src/actions/sub_account_sign_v1.rs
+++ b/program/src/actions/sub_account_sign_v1.rs
@@ -140,7 +140,7 @@ pub fn sub_account_sign_v1(
     check_system_owner(ctx.accounts.sub_account, SwigError::OwnerMismatchSubAccount)?;
     let sign_v1 = SubAccountSignV1::from_instruction_bytes(data)?;
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
     let parts = Swig::split_parts_mut(swig_account_data)?;
diff --git a/program/src/actions/sub_account_sign_v2.rs b/program/src/actions/sub_account_sign_v2.rs
index 73e8722..592f265 100644
--- a/program/src/actions/sub_account_sign_v2.rs
+++ b/program/src/actions/sub_account_sign_v2.rs
@@ -207,7 +207,7 @@ pub fn sub_account_sign_v2(
 
     let swig_id = {
         let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-        if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8
+        if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8))
         {
             return Err(SwigError::InvalidSwigAccountDiscriminator.into());
         }
diff --git a/program/src/actions/toggle_sub_account_v1.rs b/program/src/actions/toggle_sub_account_v1.rs
index 2ca69ad..2085b90 100644
--- a/program/src/actions/toggle_sub_account_v1.rs
+++ b/program/src/actions/toggle_sub_account_v1.rs
@@ -147,7 +147,7 @@ pub fn toggle_sub_account_v1(
 
     // Verify the swig account data
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
 
diff --git a/program/src/actions/toggle_sub_account_v2.rs b/program/src/actions/toggle_sub_account_v2.rs
index 3d68d5b..d2d7742 100644
--- a/program/src/actions/toggle_sub_account_v2.rs
+++ b/program/src/actions/toggle_sub_account_v2.rs
@@ -108,7 +108,7 @@ pub fn toggle_sub_account_v2(
     let toggle = ToggleSubAccountV2::from_instruction_bytes(data)?;
 
     let swig_account_data = unsafe { ctx.accounts.swig.borrow_mut_data_unchecked() };
-    if unsafe { *swig_account_data.get_unchecked(0) } != Discriminator::SwigConfigAccount as u8 {
+    if swig_account_data.first() != Some(&(Discriminator::SwigConfigAccount as u8)) {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
     // V2 requires the wallet-address (migrated) Swig generation. Checked before
-- 
2.43.0


From 753761c42e5e40b6137c16b8ca015d7f598c272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 25/42] fix: the wallet client signs authority, session and
 rent-claimer requests with every key the request requires

---
 rust-sdk/src/wallet.rs | 43 ++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index a3b610b..a310534 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -241,10 +241,8 @@ impl<'c> SwigWallet<'c> {
             self.get_current_blockhash()?,
         )?;
 
-        let tx = VersionedTransaction::try_new(
-            VersionedMessage::V0(msg),
-            &[self.fee_payer.insecure_clone()],
-        )?;
+        let keypairs = self.required_keypairs(&msg)?;
+        let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &keypairs)?;
 
         self.send_and_confirm_transaction(tx)
     }
@@ -281,10 +279,8 @@ impl<'c> SwigWallet<'c> {
                 self.get_current_blockhash()?,
             )?;
 
-            let tx = VersionedTransaction::try_new(
-                VersionedMessage::V0(msg),
-                &[self.fee_payer.insecure_clone()],
-            )?;
+            let keypairs = self.required_keypairs(&msg)?;
+            let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &keypairs)?;
 
             let tx_result = self.send_and_confirm_transaction(tx);
             if tx_result.is_ok() {
@@ -1464,10 +1460,8 @@ impl<'c> SwigWallet<'c> {
             self.get_current_blockhash()?,
         )?;
 
-        let tx = VersionedTransaction::try_new(
-            VersionedMessage::V0(msg),
-            &[&self.fee_payer.insecure_clone()],
-        )?;
+        let keypairs = self.required_keypairs(&msg)?;
+        let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &keypairs)?;
 
         self.send_and_confirm_transaction(tx)?;
         Ok(())
@@ -1495,10 +1489,8 @@ impl<'c> SwigWallet<'c> {
             &[],
             self.get_current_blockhash()?,
         )?;
-        let tx = VersionedTransaction::try_new(
-            VersionedMessage::V0(msg),
-            &[self.fee_payer.insecure_clone()],
-        )?;
+        let keypairs = self.required_keypairs(&msg)?;
+        let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &keypairs)?;
 
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
@@ -1593,6 +1585,25 @@ impl<'c> SwigWallet<'c> {
         Ok(keypairs)
     }
 
+    /// Returns the keypairs whose signatures a message requires
+    ///
+    /// # Arguments
+    ///
+    /// * `message` - The message to sign
+    ///
+    /// # Returns
+    ///
+    /// Returns a `Result` containing the keypairs or a `SwigError`
+    fn required_keypairs(&self, message: &v0::Message) -> Result<Vec<&Keypair>, SwigError> {
+        let required = usize::from(message.header.num_required_signatures);
+        let signers = &message.account_keys[..required];
+        Ok(self
+            .get_keypairs()?
+            .into_iter()
+            .filter(|keypair| signers.contains(&keypair.pubkey()))
+            .collect())
+    }
+
     /// Returns the swig id
     ///
     /// # Returns
-- 
2.43.0


From 8aef385faa4190061802339bbcb2a322bc6db02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 26/42] fix: the wallet client counts the signatures of added
 authorities and created sessions

---
 rust-sdk/src/wallet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index a310534..143792d 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -244,7 +244,11 @@ impl<'c> SwigWallet<'c> {
         let keypairs = self.required_keypairs(&msg)?;
         let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &keypairs)?;
 
-        self.send_and_confirm_transaction(tx)
+        let tx_result = self.send_and_confirm_transaction(tx);
+        if tx_result.is_ok() {
+            self.instruction_builder.increment_odometer()?;
+        }
+        tx_result
     }
 
     /// Removes an existing authority from the wallet
@@ -1464,6 +1468,7 @@ impl<'c> SwigWallet<'c> {
         let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &keypairs)?;
 
         self.send_and_confirm_transaction(tx)?;
+        self.instruction_builder.increment_odometer()?;
         Ok(())
     }
 
-- 
2.43.0


From 74353a9214ab9a84adb5e22568256c30e397c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 27/42] fix: the wallet client does not count requests signed
 by a session key

---
 rust-sdk/src/wallet.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 143792d..a737930 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -246,7 +246,7 @@ impl<'c> SwigWallet<'c> {
 
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -289,7 +289,7 @@ impl<'c> SwigWallet<'c> {
             let tx_result = self.send_and_confirm_transaction(tx);
             if tx_result.is_ok() {
                 self.refresh_permissions()?;
-                self.instruction_builder.increment_odometer()?;
+                self.count_signature()?;
             }
             tx_result
         } else {
@@ -331,7 +331,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -374,7 +374,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -405,7 +405,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -446,7 +446,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -485,7 +485,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -534,7 +534,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -577,7 +577,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -627,7 +627,7 @@ impl<'c> SwigWallet<'c> {
         match self.send_and_confirm_transaction(tx) {
             Ok(sig) => {
                 self.refresh_permissions()?;
-                self.instruction_builder.increment_odometer()?;
+                self.count_signature()?;
                 Ok((sig, subacc_id))
             },
             Err(e) => Err(e),
@@ -656,7 +656,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -683,7 +683,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -719,7 +719,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -746,7 +746,7 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -1499,7 +1499,7 @@ impl<'c> SwigWallet<'c> {
 
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
-            self.instruction_builder.increment_odometer()?;
+            self.count_signature()?;
         }
         tx_result
     }
@@ -1590,6 +1590,16 @@ impl<'c> SwigWallet<'c> {
         Ok(keypairs)
     }
 
+    /// Advances the odometer after a request signed by the current authority.
+    /// A session-based authority only signs for new sessions itself: all its
+    /// other requests are signed by the session key and not counted.
+    fn count_signature(&mut self) -> Result<(), SwigError> {
+        if self.current_role.session_based {
+            return Ok(());
+        }
+        self.instruction_builder.increment_odometer()
+    }
+
     /// Returns the keypairs whose signatures a message requires
     ///
     /// # Arguments
-- 
2.43.0


From f8d2a388a8124fb1bdf7d1a87d18eeb62460a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 28/42] fix: a secp256k1 client role adds authorities of every
 type with their whole key

---
 rust-sdk/src/client_role.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index cfd1f0d..1b99482 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -717,6 +717,13 @@ impl ClientRole for Secp256k1ClientRole {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
         let new_odometer = self.odometer.wrapping_add(1);
 
+        // An uncompressed secp256k1 key may carry the 0x04 prefix, which is not
+        // stored
+        let new_authority = match (new_authority_type, new_authority) {
+            (AuthorityType::Secp256k1, [0x04, key @ ..]) if key.len() == 64 => key,
+            _ => new_authority,
+        };
+
         let instructions = AddAuthorityInstruction::new_with_secp256k1_authority(
             swig_account,
             payer,
@@ -726,7 +733,7 @@ impl ClientRole for Secp256k1ClientRole {
             role_id,
             AuthorityConfig {
                 authority_type: new_authority_type,
-                authority: &new_authority[1..],
+                authority: new_authority,
             },
             actions,
         )?;
-- 
2.43.0


From 419c4182aa6611a9dd0c30345b970227edf4f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 29/42] fix: secp client roles sign several instructions with
 successive odometer values

---
 rust-sdk/src/client_role.rs | 12 ++++++++----
 rust-sdk/src/wallet.rs      |  6 +++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 1b99482..80c6aad 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -1192,15 +1192,17 @@ impl ClientRole for Secp256k1ClientRole {
     ) -> Result<Vec<Instruction>, SwigError> {
         let mut signed_instructions = Vec::new();
         let current_slot = current_slot.ok_or(SwigError::SlotRequired)?;
-        let new_odometer = self.odometer.wrapping_add(1);
+        let mut odometer = self.odometer;
 
         for instruction in instructions {
+            // Every signed instruction advances the odometer on chain
+            odometer = odometer.wrapping_add(1);
             let swig_signed_instruction = SignV2Instruction::new_secp256k1_with_signers(
                 swig_account,
                 swig_wallet_address,
                 &self.signing_fn,
                 current_slot,
-                new_odometer,
+                odometer,
                 instruction,
                 role_id,
                 transaction_signers,
@@ -1714,15 +1716,17 @@ impl ClientRole for Secp256r1ClientRole {
     ) -> Result<Vec<Instruction>, SwigError> {
         let mut signed_instructions = Vec::new();
         let current_slot = current_slot.ok_or(SwigError::SlotRequired)?;
-        let new_odometer = self.odometer.wrapping_add(1);
+        let mut odometer = self.odometer;
 
         for instruction in instructions {
+            // Every signed instruction advances the odometer on chain
+            odometer = odometer.wrapping_add(1);
             let swig_signed_instructions = SignV2Instruction::new_secp256r1_with_signers(
                 swig_account,
                 swig_wallet_address,
                 &self.signing_fn,
                 current_slot,
-                new_odometer,
+                odometer,
                 instruction,
                 role_id,
                 &self.authority,
diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index a737930..98c5721 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -313,6 +313,8 @@ impl<'c> SwigWallet<'c> {
         inner_instructions: Vec<Instruction>,
         alt: Option<&[AddressLookupTableAccount]>,
     ) -> Result<Signature, SwigError> {
+        // Every inner instruction is signed for on its own
+        let signatures = inner_instructions.len();
         let sign_ix = self
             .instruction_builder
             .sign_v2_instruction(inner_instructions, Some(self.get_current_slot()?))?;
@@ -331,7 +333,9 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.count_signature()?;
+            for _ in 0..signatures {
+                self.count_signature()?;
+            }
         }
         tx_result
     }
-- 
2.43.0


From 6613d45fcdf9d901166ddae93f0a6f44a4d78353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 30/42] fix: requests of a program-exec client role are not
 reported as failed after they are carried out

---
 rust-sdk/src/client_role.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 80c6aad..8fed330 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -3533,21 +3533,16 @@ where
     }
 
     fn odometer(&self) -> Result<u32, SwigError> {
-        Err(SwigError::InterfaceError(
-            "ProgramExec authority does not use odometer".to_string(),
-        ))
+        Ok(0)
     }
 
     fn increment_odometer(&mut self) -> Result<(), SwigError> {
-        Err(SwigError::InterfaceError(
-            "ProgramExec authority does not use odometer".to_string(),
-        ))
+        // ProgramExec authorities don't use odometer-based replay protection
+        Ok(())
     }
 
     fn update_odometer(&mut self, _odometer: u32) -> Result<(), SwigError> {
-        Err(SwigError::InterfaceError(
-            "ProgramExec authority does not use odometer".to_string(),
-        ))
+        Ok(())
     }
 
     fn sign_v2_instruction(
-- 
2.43.0


From 3913c87d2dc4e0e3080bb1b124a0c054c0e04c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 31/42] fix: a program-exec client role signs the instructions
 it is given

---
 rust-sdk/src/client_role.rs | 52 ++++++++++++-------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 8fed330..8541ce8 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -3554,45 +3554,25 @@ where
         _current_slot: Option<u64>,
         transaction_signers: &[Pubkey],
     ) -> Result<Vec<Instruction>, SwigError> {
-        // Build the inner instruction using compact_instructions
-        let base_accounts = vec![
-            solana_program::instruction::AccountMeta::new(swig_account, false),
-            solana_program::instruction::AccountMeta::new(swig_wallet_address, false),
-        ];
-
-        // Add transaction signers as readonly signers
-        let mut accounts_with_signers = base_accounts;
-        for signer in transaction_signers {
-            accounts_with_signers.push(solana_program::instruction::AccountMeta::new_readonly(
-                *signer, true,
-            ));
-        }
-
-        let (_, compact_ixs) =
-            swig_interface::compact_instructions(swig_account, accounts_with_signers, instructions);
-
-        let inner_instruction = solana_program::instruction::Instruction {
-            program_id: swig_interface::program_id(),
-            accounts: vec![],
-            data: compact_ixs.into_bytes(),
-        };
-
-        // Get the preceding instruction from the function
-        let preceding_instruction = (self.preceding_instruction_fn)();
-
         // Determine payer from transaction_signers (first signer is typically the
         // payer)
         let payer = transaction_signers.first().copied().unwrap_or(swig_account);
 
-        // Use SignV2 with ProgramExec
-        SignV2Instruction::new_program_exec(
-            swig_account,
-            swig_wallet_address,
-            payer,
-            preceding_instruction,
-            inner_instruction,
-            role_id,
-        )
-        .map_err(|e| SwigError::InterfaceError(e.to_string()))
+        // Each SignV2 is preceded by its own call of the authenticating program
+        let mut signed_instructions = Vec::new();
+        for instruction in instructions {
+            signed_instructions.extend(
+                SignV2Instruction::new_program_exec(
+                    swig_account,
+                    swig_wallet_address,
+                    payer,
+                    (self.preceding_instruction_fn)(),
+                    instruction,
+                    role_id,
+                )
+                .map_err(|e| SwigError::InterfaceError(e.to_string()))?,
+            );
+        }
+        Ok(signed_instructions)
     }
 }
-- 
2.43.0


From 8fb420ffe9e11fae803531708f9830e15fd950ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 32/42] fix: the wallet client finds the role of a session
 authority when it opens an existing wallet

---
 rust-sdk/src/client_role.rs | 18 ++++++++++++++++++
 rust-sdk/src/wallet.rs      |  2 +-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 8541ce8..e1543a1 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -231,6 +231,12 @@ pub trait ClientRole {
     /// Returns the authority bytes for creating the Swig account
     fn authority_bytes(&self) -> Result<Vec<u8>, SwigError>;
 
+    /// Returns the bytes by which the role of this authority is found in an
+    /// existing Swig account
+    fn lookup_bytes(&self) -> Result<Vec<u8>, SwigError> {
+        self.authority_bytes()
+    }
+
     /// Returns the odometer for the current authority if it is a Secp256k1
     /// authority
     fn odometer(&self) -> Result<u32, SwigError>;
@@ -2146,6 +2152,10 @@ impl ClientRole for Ed25519SessionClientRole {
         Ok(self.session_authority.into_bytes().unwrap().to_vec())
     }
 
+    fn lookup_bytes(&self) -> Result<Vec<u8>, SwigError> {
+        Ok(self.session_authority.public_key.to_vec())
+    }
+
     fn odometer(&self) -> Result<u32, SwigError> {
         Ok(0)
     }
@@ -2626,6 +2636,10 @@ impl ClientRole for Secp256k1SessionClientRole {
         Ok(self.session_authority.into_bytes().unwrap().to_vec())
     }
 
+    fn lookup_bytes(&self) -> Result<Vec<u8>, SwigError> {
+        Ok(self.session_authority.public_key.to_vec())
+    }
+
     fn odometer(&self) -> Result<u32, SwigError> {
         Ok(self.odometer)
     }
@@ -3111,6 +3125,10 @@ impl ClientRole for Secp256r1SessionClientRole {
         Ok(self.session_authority.into_bytes().unwrap().to_vec())
     }
 
+    fn lookup_bytes(&self) -> Result<Vec<u8>, SwigError> {
+        Ok(self.session_authority.public_key.to_vec())
+    }
+
     fn odometer(&self) -> Result<u32, SwigError> {
         Ok(self.odometer)
     }
diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 98c5721..1d606bd 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -173,7 +173,7 @@ impl<'c> SwigWallet<'c> {
             let swig_with_roles =
                 SwigWithRoles::from_bytes(&swig_data).map_err(|e| SwigError::InvalidSwigData)?;
 
-            let authority_bytes = client_role.authority_bytes()?;
+            let authority_bytes = client_role.lookup_bytes()?;
             let role_id = swig_with_roles
                 .lookup_role_id(authority_bytes.as_ref())
                 .map_err(|_| SwigError::AuthorityNotFound)?
-- 
2.43.0


From 979f1412f3559b8dc34299bc25ddaf3c294bcc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 33/42] fix: the client lists every program-scope and
 sub-account permission of a role

---
 rust-sdk/src/types.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rust-sdk/src/types.rs b/rust-sdk/src/types.rs
index 2b891ae..409f887 100644
--- a/rust-sdk/src/types.rs
+++ b/rust-sdk/src/types.rs
@@ -561,10 +561,9 @@ impl Permission {
             });
         }
 
-        // Check for ProgramScope permission
-        if let Some(action) =
-            swig_state::role::Role::get_action::<ProgramScope>(role, &spl_token::ID.to_bytes())
-                .map_err(|_| SwigError::InvalidSwigData)?
+        // Check for ProgramScope permissions
+        for action in swig_state::role::Role::get_all_actions_of_type::<ProgramScope>(role)
+            .map_err(|_| SwigError::InvalidSwigData)?
         {
             permissions.push(Permission::ProgramScope {
                 program_id: Pubkey::new_from_array(action.program_id),
@@ -585,8 +584,8 @@ impl Permission {
             });
         }
 
-        // Check for SubAccount permission
-        if let Some(action) = swig_state::role::Role::get_action::<SubAccount>(role, &[])
+        // Check for SubAccount permissions
+        for action in swig_state::role::Role::get_all_actions_of_type::<SubAccount>(role)
             .map_err(|_| SwigError::InvalidSwigData)?
         {
             permissions.push(Permission::SubAccount {
-- 
2.43.0


From 16fb23748a1fce54a171f1b275970485c71e5017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 34/42] fix: the wallet client reports all permissions of its
 authority, whatever their type

---
 rust-sdk/src/wallet.rs | 62 +-----------------------------------------
 1 file changed, 1 insertion(+), 61 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 1d606bd..ea0dca6 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -859,67 +859,7 @@ impl<'c> SwigWallet<'c> {
     /// Returns a `Result` containing a vector of the authority's permissions or
     /// a `SwigError`
     pub fn get_current_authority_permissions(&self) -> Result<Vec<Permission>, SwigError> {
-        let swig_pubkey = self.get_swig_account()?;
-
-        #[cfg(not(all(feature = "rust_sdk_test", test)))]
-        let swig_account = self.rpc_client.get_account(&swig_pubkey)?;
-        #[cfg(all(feature = "rust_sdk_test", test))]
-        let swig_account = self.litesvm.get_account(&swig_pubkey).unwrap();
-
-        #[cfg(not(all(feature = "rust_sdk_test", test)))]
-        let swig_data = self.rpc_client.get_account_data(&swig_pubkey)?;
-        #[cfg(all(feature = "rust_sdk_test", test))]
-        let swig_data = self.litesvm.get_account(&swig_pubkey).unwrap().data;
-        let swig_with_roles =
-            SwigWithRoles::from_bytes(&swig_data).map_err(|e| SwigError::InvalidSwigData)?;
-
-        let mut permissions: Vec<Permission> = Vec::new();
-        for i in 0..swig_with_roles.state.role_counter {
-            let role = swig_with_roles.get_role(i).unwrap();
-            if let Some(role) = role {
-                if role
-                    .authority
-                    .match_data(self.instruction_builder.get_current_authority()?.as_ref())
-                {
-                    if (Role::get_action::<All>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?)
-                    .is_some()
-                    {
-                        permissions.push(Permission::All);
-                    }
-                    // Sol Limit
-                    if let Some(action) = Role::get_action::<SolLimit>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?
-                    {
-                        permissions.push(Permission::Sol {
-                            amount: action.amount,
-                            recurring: None,
-                        });
-                    }
-                    // Sol Recurring
-                    if let Some(action) = Role::get_action::<SolRecurringLimit>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?
-                    {
-                        permissions.push(Permission::Sol {
-                            amount: action.recurring_amount,
-                            recurring: Some(RecurringConfig {
-                                window: action.window,
-                                last_reset: action.last_reset,
-                                current_amount: action.current_amount,
-                            }),
-                        });
-                    }
-                    // Manage Authority
-                    if (Role::get_action::<ManageAuthority>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?)
-                    .is_some()
-                    {
-                        println!("\t\tManage Authority permission exists");
-                    }
-                }
-            }
-        }
-        Ok(permissions)
+        self.get_role_permissions(self.get_current_role_id()?)
     }
 
     /// Displays detailed information about the Swig wallet
-- 
2.43.0


From 81268bf18630e505a2b255ca116e2174057a5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 35/42] fix: a failed read is not reported as a missing
 sub-account

---
 rust-sdk/src/wallet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index ea0dca6..f66d183 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -1464,7 +1464,11 @@ impl<'c> SwigWallet<'c> {
 
         // Check if the sub account exists
         #[cfg(not(all(feature = "rust_sdk_test", test)))]
-        let account_exists = self.rpc_client.get_account(&sub_account).is_ok();
+        let account_exists = self
+            .rpc_client
+            .get_account_with_commitment(&sub_account, CommitmentConfig::confirmed())?
+            .value
+            .is_some();
         #[cfg(all(feature = "rust_sdk_test", test))]
         let account_exists = self.litesvm.get_balance(&sub_account).is_some();
 
-- 
2.43.0


From 9197e33fc888cd8ea5d02c1effa400c5ea8a4206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 36/42] fix: an ed25519 session client role uses sub-accounts
 with its session key

---
 rust-sdk/src/client_role.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index e1543a1..5da9a41 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -1861,7 +1861,7 @@ impl ClientRole for Ed25519SessionClientRole {
         sub_account_bump: u8,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![
             CreateSubAccountInstruction::new_with_ed25519_authority(
                 swig_account,
@@ -1882,7 +1882,7 @@ impl ClientRole for Ed25519SessionClientRole {
         instructions: Vec<Instruction>,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![SubAccountSignInstruction::new_with_ed25519_authority(
             swig_account,
             sub_account,
@@ -1901,7 +1901,7 @@ impl ClientRole for Ed25519SessionClientRole {
         amount: u64,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -1934,7 +1934,7 @@ impl ClientRole for Ed25519SessionClientRole {
         amount: u64,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -1968,7 +1968,7 @@ impl ClientRole for Ed25519SessionClientRole {
         enabled: bool,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![
             ToggleSubAccountInstruction::new_with_ed25519_authority(
                 swig_account,
-- 
2.43.0


From 280cf76c3d2acfd923db79c29b1c2af2f17fe944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 37/42] fix: a failed switch of authority leaves the wallet
 client with the authority it had

---
 rust-sdk/src/wallet.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index f66d183..d2e32b9 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -1322,7 +1322,12 @@ impl<'c> SwigWallet<'c> {
     ) -> Result<(), SwigError> {
         // The odometer is stored in client role and must be updated to match the on
         // chain odometer
-        let odometer = self.with_role_data(role_id, |role| role.authority.signature_odometer())?;
+        let (odometer, current_role) = self.with_role_data(role_id, |role| {
+            (
+                role.authority.signature_odometer(),
+                build_current_role(role_id, role),
+            )
+        })?;
         if let Some(onchain_odometer) = odometer {
             client_role.update_odometer(onchain_odometer)?;
         }
@@ -1334,7 +1339,7 @@ impl<'c> SwigWallet<'c> {
         self.authority_keypair = authority_kp;
 
         // Update the stored role data for the new authority
-        self.refresh_permissions()?;
+        self.current_role = current_role;
 
         Ok(())
     }
-- 
2.43.0


From 6958c90924ac31cdcdd23e7ca6128d6dfce5fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 38/42] fix: the recurring SOL limit is found beside a one-time
 limit

---
 rust-sdk/src/wallet.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index d2e32b9..9cf3323 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -1789,8 +1789,12 @@ impl<'c> SwigWallet<'c> {
     pub fn get_recurring_sol_limit(&self) -> Result<Option<RecurringConfig>, SwigError> {
         let permissions = self.get_current_permissions()?;
         for permission in permissions {
-            if let Permission::Sol { recurring, .. } = permission {
-                return Ok(recurring.clone());
+            if let Permission::Sol {
+                recurring: Some(recurring),
+                ..
+            } = permission
+            {
+                return Ok(Some(recurring.clone()));
             }
         }
         Ok(None)
-- 
2.43.0


From 9139c78aa48be14d200d0f6a1c14893e5e1ee552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:13 +0000
Subject: [PATCH 39/42] fix: the wallet client prints wallets with a program
 execution authority

---
 rust-sdk/src/wallet.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 9cf3323..f576bc7 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -995,7 +995,14 @@ impl<'c> SwigWallet<'c> {
                             // For Secp256r1, display the compressed public key directly
                             format!("0x{}", hex::encode(authority))
                         },
-                        _ => todo!(),
+                        AuthorityType::ProgramExec | AuthorityType::ProgramExecSession => {
+                            let prefix = role.authority.identity().unwrap_or_default();
+                            format!(
+                                "Program execution (instruction prefix 0x{})",
+                                hex::encode(prefix)
+                            )
+                        },
+                        AuthorityType::None => "None".to_string(),
                     }
                 );
 
-- 
2.43.0


From 618e1cb5956d4be78e6284a1aa62ebe2b6abf2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:18 +0000
Subject: [PATCH 40/42] fix: display the numeric type of a program scope as the
 program reads it

---
 rust-sdk/src/wallet.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index f576bc7..207c5bf 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -1187,9 +1187,10 @@ impl<'c> SwigWallet<'c> {
                     println!(
                         "║ │  │  ├─ Numeric Type: {}",
                         match action.numeric_type {
-                            0 => "U64",
-                            1 => "U128",
-                            2 => "F64",
+                            0 => "U8",
+                            1 => "U32",
+                            2 => "U64",
+                            3 => "U128",
                             _ => "Unknown",
                         }
                     );
-- 
2.43.0


From 3382822a07a69d78886ee8b666fb32cef9f19e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:18 +0000
Subject: [PATCH 41/42] fix: answer can_spend_sol from what is left of a
 recurring limit

---
 rust-sdk/src/wallet.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 207c5bf..859c6b5 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -1819,29 +1819,35 @@ impl<'c> SwigWallet<'c> {
     /// Returns a `Result` containing whether the authority can spend the amount
     /// or a `SwigError`
     pub fn can_spend_sol(&self, amount: u64) -> Result<bool, SwigError> {
-        // If they have all permissions, they can spend any amount
-        if self.has_all_permissions()? {
-            return Ok(true);
-        }
-
         let permissions = self.get_current_permissions()?;
 
         for permission in permissions {
             match permission {
+                // These permissions allow spending any amount
+                Permission::All | Permission::AllButManageAuthority => return Ok(true),
+                // Check one-time limit
                 Permission::Sol {
                     amount: limit,
-                    recurring,
+                    recurring: None,
                 } => {
-                    // Check one-time limit
                     if amount <= *limit {
                         return Ok(true);
                     }
-
-                    // Check recurring limit if it exists
-                    if let Some(recurring_config) = recurring {
-                        if amount <= recurring_config.current_amount {
-                            return Ok(true);
-                        }
+                },
+                // Check what is left of the recurring limit; all of it is once
+                // its window has passed
+                Permission::Sol {
+                    amount: limit,
+                    recurring: Some(config),
+                } => {
+                    if amount <= config.current_amount {
+                        return Ok(true);
+                    }
+                    if amount <= *limit
+                        && self.get_current_slot()?.saturating_sub(config.last_reset)
+                            > config.window
+                    {
+                        return Ok(true);
                     }
                 },
                 _ => continue,
-- 
2.43.0


From ad4eb3885247311729400e1f4f17a00fc52c0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 42/42] fix: copy program scopes out of the account data before
 reading them

A ProgramScope holds u128 fields, aligned to 16 bytes on the hosts clients
run on, while the actions of a role are only 8-byte aligned: reading them in
place crashed the client depending on where the scope lies.
---
 rust-sdk/src/types.rs  | 39 ++++++++++++++++++++++++++++++++++++---
 rust-sdk/src/wallet.rs | 11 ++++-------
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/rust-sdk/src/types.rs b/rust-sdk/src/types.rs
index 409f887..c11867d 100644
--- a/rust-sdk/src/types.rs
+++ b/rust-sdk/src/types.rs
@@ -26,6 +26,7 @@ use swig_state::{
         token_limit::TokenLimit,
         token_recurring_destination_limit::TokenRecurringDestinationLimit,
         token_recurring_limit::TokenRecurringLimit,
+        Action, Actionable,
     },
     role::Role,
     Transmutable,
@@ -33,6 +34,40 @@ use swig_state::{
 
 use crate::SwigError;
 
+/// Returns copies of the program scopes of a role.
+///
+/// A `ProgramScope` holds `u128` fields, which hosts align to 16 bytes, while
+/// the actions of a role are only aligned to 8 bytes in the account data: the
+/// scopes cannot be referenced in place outside of the on-chain program.
+pub(crate) fn program_scopes(role: &Role) -> Result<Vec<ProgramScope>, SwigError> {
+    let mut scopes = Vec::new();
+    let mut cursor = 0;
+    while cursor < role.actions.len() {
+        let header = role
+            .actions
+            .get(cursor..cursor + Action::LEN)
+            .ok_or(SwigError::InvalidSwigData)?;
+        let action =
+            unsafe { Action::load_unchecked(header) }.map_err(|_| SwigError::InvalidSwigData)?;
+        if action
+            .permission()
+            .map_err(|_| SwigError::InvalidSwigData)?
+            == ProgramScope::TYPE
+        {
+            let start = cursor + Action::LEN;
+            let data = role
+                .actions
+                .get(start..start + ProgramScope::LEN)
+                .ok_or(SwigError::InvalidSwigData)?;
+            // `data` is exactly as long as a `ProgramScope`, which is valid for any
+            // bit pattern.
+            scopes.push(unsafe { core::ptr::read_unaligned(data.as_ptr() as *const ProgramScope) });
+        }
+        cursor = action.boundary() as usize;
+    }
+    Ok(scopes)
+}
+
 /// Configuration for recurring limits that reset after a specified time window
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct RecurringConfig {
@@ -562,9 +597,7 @@ impl Permission {
         }
 
         // Check for ProgramScope permissions
-        for action in swig_state::role::Role::get_all_actions_of_type::<ProgramScope>(role)
-            .map_err(|_| SwigError::InvalidSwigData)?
-        {
+        for action in program_scopes(role)? {
             permissions.push(Permission::ProgramScope {
                 program_id: Pubkey::new_from_array(action.program_id),
                 target_account: Pubkey::new_from_array(action.target_account),
diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 859c6b5..6a6f1c9 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -26,9 +26,8 @@ use spl_token::ID as TOKEN_PROGRAM_ID;
 use swig_interface::swig;
 use swig_state::{
     action::{
-        all::All, manage_authority::ManageAuthority, program_scope::ProgramScope,
-        sol_destination_limit::SolDestinationLimit, sol_limit::SolLimit,
-        sol_recurring_destination_limit::SolRecurringDestinationLimit,
+        all::All, manage_authority::ManageAuthority, sol_destination_limit::SolDestinationLimit,
+        sol_limit::SolLimit, sol_recurring_destination_limit::SolRecurringDestinationLimit,
         sol_recurring_limit::SolRecurringLimit, sub_account::SubAccount,
         token_destination_limit::TokenDestinationLimit, token_limit::TokenLimit,
         token_recurring_destination_limit::TokenRecurringDestinationLimit,
@@ -49,7 +48,7 @@ use crate::{
     client_role::ClientRole,
     error::SwigError,
     instruction_builder::SwigInstructionBuilder,
-    types::{Permission, UpdateAuthorityData},
+    types::{program_scopes, Permission, UpdateAuthorityData},
     RecurringConfig,
 };
 
@@ -1165,9 +1164,7 @@ impl<'c> SwigWallet<'c> {
                 }
 
                 // Check Program Scopes
-                let program_scopes = Role::get_all_actions_of_type::<ProgramScope>(&role)
-                    .map_err(|_| SwigError::AuthorityNotFound)?;
-                for (index, action) in program_scopes.iter().enumerate() {
+                for (index, action) in program_scopes(&role)?.iter().enumerate() {
                     let program_id = Pubkey::from(action.program_id);
                     let target_account = Pubkey::from(action.target_account);
                     if index == 0 {
-- 
2.43.0

