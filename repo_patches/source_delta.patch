From ced938cf808e0b9ee8e68464088430bd133a5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 1/7] fix: round up the price of the last remaining B tokens on
 the linear curve

Buying out all of the remaining B tokens charged the cost rounded to the
nearest unit of A, so the buyer could pay up to half a unit of A less than
the integral of the price curve (and get B tokens worth less than half a
unit of A for free).
---
 programs/token-bonding-curve/src/curve/linear_price.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/curve/linear_price.rs b/programs/token-bonding-curve/src/curve/linear_price.rs
index 947abab..ce36b34 100644
--- a/programs/token-bonding-curve/src/curve/linear_price.rs
+++ b/programs/token-bonding-curve/src/curve/linear_price.rs
@@ -176,7 +176,12 @@ impl LinearPriceCurve {
         let maximum_b_value =
             b_start.checked_add(&(DFSPreciseNumber::new(swap_destination_amount)?))?;
         let maximum_a_locked = self.amt_a_locked_at_b_value_quadratic(&maximum_b_value)?;
-        let maximum_a_remaining = maximum_a_locked.checked_sub(&a_start)?.to_imprecise()?;
+        // PreciseNumber rounds to the nearest integer by default, make sure to take the ceiling instead so the
+        // user never pays less than the price of all the remaining B tokens
+        let maximum_a_remaining = maximum_a_locked
+            .checked_sub(&a_start)?
+            .ceiling()?
+            .to_imprecise()?;
 
         if maximum_a_remaining <= source_amount {
             return Some((maximum_a_remaining, swap_destination_amount));
-- 
2.43.0


From f4c83ffc300a65111af4695cd9e294857d1204fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 2/7] fix: reject single-sided deposits on curves that don't
 allow deposits

deposit_all_token_types checks allows_deposits() but
deposit_single_token_type_exact_amount_in didn't: an offset curve accepted
single-sided deposits, and a linear price curve minted a whole new pool
supply for any single-sided deposit once its pool tokens had been burned.
---
 programs/token-bonding-curve/src/processor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 57efa87..3172206 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -740,6 +740,9 @@ impl Processor {
         let token_program_info = next_account_info(account_info_iter)?;
 
         let token_swap = SwapVersion::unpack(&swap_info.data.borrow())?;
+        if !token_swap.swap_curve().calculator.allows_deposits() {
+            return Err(SwapError::UnsupportedCurveOperation.into());
+        }
         let source_account =
             Self::unpack_token_account(source_info, token_swap.token_program_id())?;
         let swap_token_a =
-- 
2.43.0


From b0da9598ec5a0e8a136ffe5b917ed7745e3d944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 3/7] fix: charge the trade fee of a single-sided withdrawal on
 top of the amount out

---
 .../token-bonding-curve/src/curve/base.rs     |  4 ++-
 programs/token-bonding-curve/src/processor.rs | 28 +++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/base.rs b/programs/token-bonding-curve/src/curve/base.rs
index 7a52fb7..9be2801 100644
--- a/programs/token-bonding-curve/src/curve/base.rs
+++ b/programs/token-bonding-curve/src/curve/base.rs
@@ -155,7 +155,9 @@ impl SwapCurve {
         // https://github.com/balancer-labs/balancer-core/blob/f4ed5d65362a8d6cec21662fb6eae233b0babc1f/contracts/BMath.sol#L117
         let half_source_amount = std::cmp::max(1, source_amount.checked_div(2)?);
         let trade_fee = fees.trading_fee(half_source_amount)?;
-        let source_amount = source_amount.checked_sub(trade_fee)?;
+        // the fee is paid on top of the exact amount out, otherwise the withdrawal
+        // burns too few pool tokens at the expense of the other pool token holders
+        let source_amount = source_amount.checked_add(trade_fee)?;
         self.calculator.withdraw_single_token_type_exact_out(
             source_amount,
             swap_token_a_amount,
diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 3172206..7aa4e35 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -423,17 +423,23 @@ impl Processor {
             to_u64(result.source_amount_swapped)?,
         )?;
 
-        let mut pool_token_amount = token_swap
-            .swap_curve()
-            .withdraw_single_token_type_exact_out(
-                result.owner_fee,
-                swap_token_a_amount,
-                swap_token_b_amount,
-                to_u128(pool_mint.supply)?,
-                trade_direction,
-                token_swap.fees(),
-            )
-            .ok_or(SwapError::FeeCalculationFailure)?;
+        // the owner fee isn't traded, so don't assess the trade fee of a single-sided
+        // withdrawal on it when converting it to pool tokens
+        let mut pool_token_amount = if result.owner_fee > 0 {
+            token_swap
+                .swap_curve()
+                .calculator
+                .withdraw_single_token_type_exact_out(
+                    result.owner_fee,
+                    swap_token_a_amount,
+                    swap_token_b_amount,
+                    to_u128(pool_mint.supply)?,
+                    trade_direction,
+                )
+                .ok_or(SwapError::FeeCalculationFailure)?
+        } else {
+            0
+        };
 
         if pool_token_amount > 0 {
             // Allow error to fall through
-- 
2.43.0


From 5fd9b0ad98e9d62ced6b1b5cf3665998510f603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 4/7] fix: round the pool value up when charging a deposit on
 the constant price curve

---
 programs/token-bonding-curve/src/curve/constant_price.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index 61b9f16..dc5ca65 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -127,6 +127,10 @@ impl CurveCalculator for ConstantPriceCurve {
                 (token_a_amount, token_b_amount)
             }
             RoundDirection::Ceiling => {
+                // the normalized value is rounded down when the total value is odd
+                let odd_value =
+                    (swap_token_a_amount % 2) ^ ((swap_token_b_amount % 2) * (token_b_price % 2));
+                let total_value = total_value.checked_add(odd_value)?;
                 let (token_a_amount, _) = pool_tokens
                     .checked_mul(total_value)?
                     .checked_ceil_div(pool_token_supply)?;
-- 
2.43.0


From d97c5bea5532fa9cfa1bf2320f0940206f18892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 5/7] fix: don't round up the whole part when converting to the
 spl precise number

---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index f36c2bd..5a77e2c 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -177,7 +177,8 @@ impl DFSPreciseNumber {
     }
 
     pub fn to_spl_precise_number(&self) -> Option<spl_math::precise_number::PreciseNumber> {
-        let value_u128 = self.to_imprecise()?;
+        // to_imprecise rounds to the nearest integer, so floor first to not count the decimals twice
+        let value_u128 = self.floor()?.to_imprecise()?;
         let spl_number = spl_math::precise_number::PreciseNumber::new(value_u128)?;
 
         // add on the decimals manually
-- 
2.43.0


From 46a398bf13702b32de1d4eb314c7e06ca84cb733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 6/7] fix: don't overflow when rounding up the square root of a
 number with all top bits set

---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index 5a77e2c..7861441 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -296,6 +296,9 @@ impl DFSPreciseNumber {
                     false => unrounded_padded_value,
                 };
 
+            // rounding up might have carried into a 65th bit, but the rounded up sqrt of u64::MAX is already sqrt(2^64)
+            let padded_value = std::cmp::min(padded_value, InnerUint::from(u64::MAX));
+
             // we're implicitly multiplying by ONE here (since we converted self.value to u128 directly)
             // so `padded_u128 = real_value * 2^pad_bits / ONE`
             let padded_u128 = padded_value.as_u64();
-- 
2.43.0


From bb8f2d1f14572f0d06ba64fe53f433184479f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:00 +0000
Subject: [PATCH 7/7] fix: let swaps and withdrawals go on when the pool's fee
 account was closed

Its owner can close it (or have another account in its place) at any time,
after which no fee can be transferred or minted to it: every swap with an owner
fee and every withdrawal with a withdraw fee failed, so the holders of pool
tokens could not get their share.
---
 programs/token-bonding-curve/src/processor.rs | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 7aa4e35..e693c5a 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -146,6 +146,15 @@ impl Processor {
         )
     }
 
+    /// Whether the pool's fee account can still receive pool tokens. Its owner can close it at any
+    /// time, which must not keep anybody from swapping or withdrawing.
+    fn can_take_fees(token_swap: &dyn SwapState, pool_fee_account_info: &AccountInfo) -> bool {
+        Self::unpack_token_account(pool_fee_account_info, token_swap.token_program_id())
+            .map_or(false, |fee_account| {
+                fee_account.mint == *token_swap.pool_mint()
+            })
+    }
+
     #[allow(clippy::too_many_arguments)]
     fn check_accounts(
         token_swap: &dyn SwapState,
@@ -470,15 +479,17 @@ impl Processor {
                     )?;
                 }
             }
-            Self::token_mint_to(
-                swap_info.key,
-                token_program_info.clone(),
-                pool_mint_info.clone(),
-                pool_fee_account_info.clone(),
-                authority_info.clone(),
-                token_swap.bump_seed(),
-                to_u64(pool_token_amount)?,
-            )?;
+            if Self::can_take_fees(token_swap.as_ref(), pool_fee_account_info) {
+                Self::token_mint_to(
+                    swap_info.key,
+                    token_program_info.clone(),
+                    pool_mint_info.clone(),
+                    pool_fee_account_info.clone(),
+                    authority_info.clone(),
+                    token_swap.bump_seed(),
+                    to_u64(pool_token_amount)?,
+                )?;
+            }
         }
 
         Self::token_transfer(
@@ -645,6 +656,9 @@ impl Processor {
         let withdraw_fee: u128 = if *pool_fee_account_info.key == *source_info.key {
             // withdrawing from the fee account, don't assess withdraw fee
             0
+        } else if !Self::can_take_fees(token_swap.as_ref(), pool_fee_account_info) {
+            // the fee account was closed, so there is nobody to pay a withdraw fee to
+            0
         } else {
             token_swap
                 .fees()
@@ -919,6 +933,9 @@ impl Processor {
         let withdraw_fee: u128 = if *pool_fee_account_info.key == *source_info.key {
             // withdrawing from the fee account, don't assess withdraw fee
             0
+        } else if !Self::can_take_fees(token_swap.as_ref(), pool_fee_account_info) {
+            // the fee account was closed, so there is nobody to pay a withdraw fee to
+            0
         } else {
             token_swap
                 .fees()
-- 
2.43.0

