From e587397dbc364c904f631fd8d96e7ced4d2ff827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:51 +0000
Subject: [PATCH 1/3] fix: do not fail fixed price deposits when the unsold
 registry supply is worth more than u64::MAX

---
 .../src/presale_mode_handler/fixed_price_presale.rs      | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
index d8005cc..7b0f001 100644
--- a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
+++ b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
@@ -228,10 +228,11 @@ impl PresaleModeHandler for FixedPricePresaleHandler {
         let registry_remaining_base_token =
             presale_registry.presale_supply.safe_sub(total_token_sold)?;
 
-        let registry_remaining_deposit_quota: u64 = u128::from(registry_remaining_base_token)
-            .safe_mul(self.q_price)?
-            .div_ceil(SCALE_MULTIPLIER)
-            .safe_cast()?;
+        // The value of the unsold registry supply might exceed u64::MAX. In that case, the registry supply doesn't limit the deposit.
+        let registry_remaining_deposit_quota = u128::from(registry_remaining_base_token)
+            .checked_mul(self.q_price)
+            .and_then(|q_quota| u64::try_from(q_quota.div_ceil(SCALE_MULTIPLIER)).ok())
+            .unwrap_or(u64::MAX);
 
         let personal_remaining_quota =
             escrow.get_remaining_deposit_quota(presale_registry.buyer_maximum_deposit_cap)?;
-- 
2.43.0


From d2fc28413fca3935cbe7b85f7c8efe77faca7163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:53 +0000
Subject: [PATCH 2/3] fix: report the closing of fixed price parameters

close_fixed_price_presale_args returned without calling its handler, so
EvtFixedPricePresaleArgsClose was never emitted.
---
 programs/presale/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/presale/src/lib.rs b/programs/presale/src/lib.rs
index c5d7119..a661d6e 100644
--- a/programs/presale/src/lib.rs
+++ b/programs/presale/src/lib.rs
@@ -60,9 +60,9 @@ pub mod presale {
     }
 
     pub fn close_fixed_price_presale_args(
-        _ctx: Context<CloseFixedPricePresaleArgsCtx>,
+        ctx: Context<CloseFixedPricePresaleArgsCtx>,
     ) -> Result<()> {
-        Ok(())
+        instructions::handle_close_fixed_price_presale_args(ctx)
     }
 
     pub fn initialize_presale<'a, 'b, 'c: 'info, 'info>(
-- 
2.43.0


From cd30989aea95df20f223ee625cd8e7b6b2e980c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:03 +0000
Subject: [PATCH 3/3] fix: refuse unknown unsold token actions

UnsoldTokenAction converts any unknown value to its default, so the check
meant to refuse them at creation never failed.
---
 .../presale/src/instructions/initialize_presale/params.rs    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/programs/presale/src/instructions/initialize_presale/params.rs b/programs/presale/src/instructions/initialize_presale/params.rs
index 5fe55eb..b0af9a6 100644
--- a/programs/presale/src/instructions/initialize_presale/params.rs
+++ b/programs/presale/src/instructions/initialize_presale/params.rs
@@ -182,9 +182,10 @@ impl PresaleArgs {
         let maybe_presale_mode = PresaleMode::try_from(self.presale_mode);
         require!(maybe_presale_mode.is_ok(), PresaleError::InvalidPresaleInfo);
 
-        let maybe_unsold_token_action = UnsoldTokenAction::try_from(self.unsold_token_action);
+        // Unknown values convert to the default action, thus the conversion itself never fails
+        let unsold_token_action = UnsoldTokenAction::from(self.unsold_token_action);
         require!(
-            maybe_unsold_token_action.is_ok(),
+            u8::from(unsold_token_action) == self.unsold_token_action,
             PresaleError::InvalidUnsoldTokenAction
         );
 
-- 
2.43.0

