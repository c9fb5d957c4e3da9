From c6f760bac8d86800ea83fab8f170a547bc126099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 1/8] fix: sqrt_u64 no longer panics when rounding up carries
 into the 65th bit

A value whose top 64 bits are all ones with a remainder below them was rounded
up to 2^64 and then cast to u64, aborting the swap.
---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index f36c2bd..dd0e0f6 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -297,10 +297,13 @@ impl DFSPreciseNumber {
 
             // we're implicitly multiplying by ONE here (since we converted self.value to u128 directly)
             // so `padded_u128 = real_value * 2^pad_bits / ONE`
-            let padded_u128 = padded_value.as_u64();
-
+            // (rounding up can carry padded_value to exactly 2^64, which doesn't fit a u64 but has the exact
+            // sqrt 2^32)
             // `sqrt_padded_u128 = real_sqrt * sqrt(2^pad_bits) / sqrt(ONE)`
-            let sqrt_padded_u128 = Self::sqrt_babylonian(padded_u128, should_round_up)?;
+            let sqrt_padded_u128 = match padded_value.bits() <= max_bits {
+                true => Self::sqrt_babylonian(padded_value.as_u64(), should_round_up)?,
+                false => 1u64 << 32,
+            };
 
             // since we're converting directly from u128 to PreciseNumber, we're implicitly dividing by ONE
             // so `sqrt_padded = real_sqrt / sqrt(2^pad_bits) * sqrt(ONE) / ONE`
-- 
2.43.0


From d0045b833c801422f443a8ade824673227cac806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 2/8] fix: round the curve position up when the square root's
 argument is inexact, a tiny slope magnifies it

---
 .../src/curve/linear_price.rs                 | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/linear_price.rs b/programs/token-bonding-curve/src/curve/linear_price.rs
index 947abab..ad7db31 100644
--- a/programs/token-bonding-curve/src/curve/linear_price.rs
+++ b/programs/token-bonding-curve/src/curve/linear_price.rs
@@ -41,6 +41,19 @@ pub struct LinearPriceCurve {
     pub initial_token_a_price_denominator: u64,
 }
 
+/// Divides by a (whole number) denominator, rounding any remainder up to the next decimal if `should_round_up`
+fn checked_div_rounded(
+    numerator: &DFSPreciseNumber,
+    denominator: &DFSPreciseNumber,
+    should_round_up: bool,
+) -> Option<DFSPreciseNumber> {
+    let quotient = numerator.checked_div(denominator)?;
+    match should_round_up && quotient.checked_mul(denominator)?.less_than(numerator) {
+        true => quotient.checked_add(&(DFSPreciseNumber { value: 1.into() })),
+        false => Some(quotient),
+    }
+}
+
 /// Returns the positive root of x given lhs = k*x^2 + e*x, i.e.
 /// 0 = k*x^2 + e*x - lhs
 /// k, e, and lhs are assumed to always be non negative (so -lhs is always negative)
@@ -59,18 +72,22 @@ fn solve_quadratic_positive_root(
     // => x = (-e + sqrt(e^2 - 4kc)) / 2k
     // => x = (sqrt(e^2 + 4*k*lhs) - e) / 2k
 
+    // (the divisions below drop everything after the last decimal, so if we're rounding up make sure they round
+    // up too, a tiny slope makes that dust worth a lot of x)
     // k * 4 * lhs
-    let four_k_lhs = k_numerator
-        .checked_mul(&(DFSPreciseNumber::new(4)?))?
-        .checked_mul(lhs_value)?
-        .checked_div(k_denominator)?;
+    let four_k_lhs = checked_div_rounded(
+        &k_numerator
+            .checked_mul(&(DFSPreciseNumber::new(4)?))?
+            .checked_mul(lhs_value)?,
+        k_denominator,
+        should_round_sqrt_up,
+    )?;
 
     // e^2 + k * 4 * lhs
-    let e2_plus_4_k_lhs = e_value_numerator
-        .checked_mul(e_value_numerator)?
-        .checked_div(e_value_denominator)?
-        .checked_div(&e_value_denominator)?
-        .checked_add(&four_k_lhs)?;
+    let e2 = e_value_numerator.checked_mul(e_value_numerator)?;
+    let e2 = checked_div_rounded(&e2, e_value_denominator, should_round_sqrt_up)?;
+    let e2 = checked_div_rounded(&e2, e_value_denominator, should_round_sqrt_up)?;
+    let e2_plus_4_k_lhs = e2.checked_add(&four_k_lhs)?;
 
     // note we have to use u64 sqrt below (~10K compute) since PreciseNumber::sqrt (~100K compute)
     // and u128 sqrt (~50K compute) are both too expensive
-- 
2.43.0


From 4a33f99d53839f70017f1f0d0ecaca27ff68b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 3/8] fix: single-sided deposits respect curves that do not
 allow deposits

---
 programs/token-bonding-curve/src/processor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 57efa87..3172206 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -740,6 +740,9 @@ impl Processor {
         let token_program_info = next_account_info(account_info_iter)?;
 
         let token_swap = SwapVersion::unpack(&swap_info.data.borrow())?;
+        if !token_swap.swap_curve().calculator.allows_deposits() {
+            return Err(SwapError::UnsupportedCurveOperation.into());
+        }
         let source_account =
             Self::unpack_token_account(source_info, token_swap.token_program_id())?;
         let swap_token_a =
-- 
2.43.0


From aa359559b94aefdd85ace10df8bf17b3bc8c5fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 4/8] fix: owner trade fees mint at most the worth of the fee,
 and all of it

---
 .../src/curve/calculator.rs                   | 31 ++++++++++++++++---
 .../src/curve/constant_price.rs               |  5 +--
 .../src/curve/constant_product.rs             |  5 +--
 .../src/curve/linear_price.rs                 |  3 +-
 .../token-bonding-curve/src/curve/offset.rs   |  5 +--
 .../token-bonding-curve/src/curve/stable.rs   |  8 +++--
 programs/token-bonding-curve/src/processor.rs | 29 ++++++++++-------
 7 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/calculator.rs b/programs/token-bonding-curve/src/curve/calculator.rs
index 90af0a5..0c1329a 100644
--- a/programs/token-bonding-curve/src/curve/calculator.rs
+++ b/programs/token-bonding-curve/src/curve/calculator.rs
@@ -130,23 +130,44 @@ pub trait CurveCalculator: Debug + DynPack {
         trade_direction: TradeDirection,
     ) -> Option<u128>;
 
+    /// Get the amount of pool tokens for the withdrawn amount of token A or B,
+    /// rounded up, as used for single-sided withdrawals.
+    fn withdraw_single_token_type_exact_out(
+        &self,
+        source_amount: u128,
+        swap_token_a_amount: u128,
+        swap_token_b_amount: u128,
+        pool_supply: u128,
+        trade_direction: TradeDirection,
+    ) -> Option<u128> {
+        self.withdraw_single_token_type_exact_out_rounded(
+            source_amount,
+            swap_token_a_amount,
+            swap_token_b_amount,
+            pool_supply,
+            trade_direction,
+            RoundDirection::Ceiling,
+        )
+    }
+
     /// Get the amount of pool tokens for the withdrawn amount of token A or B.
     ///
-    /// This is used for single-sided withdrawals and owner trade fee
-    /// calculation. It essentially performs a withdrawal followed by a swap.
-    /// Because a swap is implicitly performed, this will change the spot price
-    /// of the pool.
+    /// This is used for single-sided withdrawals (rounded up) and owner trade
+    /// fee calculation (rounded down). It essentially performs a withdrawal
+    /// followed by a swap. Because a swap is implicitly performed, this will
+    /// change the spot price of the pool.
     ///
     /// See more background for the calculation at:
     ///
     /// <https://balancer.finance/whitepaper/#single-asset-deposit-withdrawal>
-    fn withdraw_single_token_type_exact_out(
+    fn withdraw_single_token_type_exact_out_rounded(
         &self,
         source_amount: u128,
         swap_token_a_amount: u128,
         swap_token_b_amount: u128,
         pool_supply: u128,
         trade_direction: TradeDirection,
+        round_direction: RoundDirection,
     ) -> Option<u128>;
 
     /// Validate that the given curve has no invalid parameters
diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index 61b9f16..07c2928 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -166,13 +166,14 @@ impl CurveCalculator for ConstantPriceCurve {
         )
     }
 
-    fn withdraw_single_token_type_exact_out(
+    fn withdraw_single_token_type_exact_out_rounded(
         &self,
         source_amount: u128,
         swap_token_a_amount: u128,
         swap_token_b_amount: u128,
         pool_supply: u128,
         trade_direction: TradeDirection,
+        round_direction: RoundDirection,
     ) -> Option<u128> {
         trading_tokens_to_pool_tokens(
             self.token_b_price,
@@ -181,7 +182,7 @@ impl CurveCalculator for ConstantPriceCurve {
             swap_token_b_amount,
             pool_supply,
             trade_direction,
-            RoundDirection::Ceiling,
+            round_direction,
         )
     }
 
diff --git a/programs/token-bonding-curve/src/curve/constant_product.rs b/programs/token-bonding-curve/src/curve/constant_product.rs
index 9b3363f..f642665 100644
--- a/programs/token-bonding-curve/src/curve/constant_product.rs
+++ b/programs/token-bonding-curve/src/curve/constant_product.rs
@@ -220,13 +220,14 @@ impl CurveCalculator for ConstantProductCurve {
         )
     }
 
-    fn withdraw_single_token_type_exact_out(
+    fn withdraw_single_token_type_exact_out_rounded(
         &self,
         source_amount: u128,
         swap_token_a_amount: u128,
         swap_token_b_amount: u128,
         pool_supply: u128,
         trade_direction: TradeDirection,
+        round_direction: RoundDirection,
     ) -> Option<u128> {
         withdraw_single_token_type_exact_out(
             source_amount,
@@ -234,7 +235,7 @@ impl CurveCalculator for ConstantProductCurve {
             swap_token_b_amount,
             pool_supply,
             trade_direction,
-            RoundDirection::Ceiling,
+            round_direction,
         )
     }
 
diff --git a/programs/token-bonding-curve/src/curve/linear_price.rs b/programs/token-bonding-curve/src/curve/linear_price.rs
index ad7db31..cf09252 100644
--- a/programs/token-bonding-curve/src/curve/linear_price.rs
+++ b/programs/token-bonding-curve/src/curve/linear_price.rs
@@ -390,13 +390,14 @@ impl CurveCalculator for LinearPriceCurve {
     /// this mostly isn't needed since we disable withdrawals, UNLESS we have non-zero host fees/trade fees
     /// (which are currently disabled on the instruction level), in which case it's used in `swap` to determine
     /// how much pool token to mint (to account for fees) into the various fee accounts
-    fn withdraw_single_token_type_exact_out(
+    fn withdraw_single_token_type_exact_out_rounded(
         &self,
         _source_amount: u128,
         _swap_token_a_amount: u128,
         _swap_token_b_amount: u128,
         _pool_supply: u128,
         _trade_direction: TradeDirection,
+        _round_direction: RoundDirection,
     ) -> Option<u128> {
         // this causes a panic if SwapCurve.withdraw_single_token_type_exact_out instruction is called
         // but that's ok for now, cheap way of disabling withdrawals without having to change how SwapCurve works
diff --git a/programs/token-bonding-curve/src/curve/offset.rs b/programs/token-bonding-curve/src/curve/offset.rs
index 1498a27..393450c 100644
--- a/programs/token-bonding-curve/src/curve/offset.rs
+++ b/programs/token-bonding-curve/src/curve/offset.rs
@@ -97,13 +97,14 @@ impl CurveCalculator for OffsetCurve {
         )
     }
 
-    fn withdraw_single_token_type_exact_out(
+    fn withdraw_single_token_type_exact_out_rounded(
         &self,
         source_amount: u128,
         swap_token_a_amount: u128,
         swap_token_b_amount: u128,
         pool_supply: u128,
         trade_direction: TradeDirection,
+        round_direction: RoundDirection,
     ) -> Option<u128> {
         let token_b_offset = self.token_b_offset as u128;
         withdraw_single_token_type_exact_out(
@@ -112,7 +113,7 @@ impl CurveCalculator for OffsetCurve {
             swap_token_b_amount.checked_add(token_b_offset)?,
             pool_supply,
             trade_direction,
-            RoundDirection::Ceiling,
+            round_direction,
         )
     }
 
diff --git a/programs/token-bonding-curve/src/curve/stable.rs b/programs/token-bonding-curve/src/curve/stable.rs
index 631d909..6803a3d 100644
--- a/programs/token-bonding-curve/src/curve/stable.rs
+++ b/programs/token-bonding-curve/src/curve/stable.rs
@@ -237,13 +237,14 @@ impl CurveCalculator for StableCurve {
         final_amount.floor()?.to_imprecise()
     }
 
-    fn withdraw_single_token_type_exact_out(
+    fn withdraw_single_token_type_exact_out_rounded(
         &self,
         source_amount: u128,
         swap_token_a_amount: u128,
         swap_token_b_amount: u128,
         pool_supply: u128,
         trade_direction: TradeDirection,
+        round_direction: RoundDirection,
     ) -> Option<u128> {
         if source_amount == 0 {
             return Some(0);
@@ -267,7 +268,10 @@ impl CurveCalculator for StableCurve {
         let diff = d0.checked_sub(&d1)?;
         let final_amount =
             (diff.checked_mul(&PreciseNumber::new(pool_supply)?))?.checked_div(&d0)?;
-        final_amount.ceiling()?.to_imprecise()
+        match round_direction {
+            RoundDirection::Floor => final_amount.floor()?.to_imprecise(),
+            RoundDirection::Ceiling => final_amount.ceiling()?.to_imprecise(),
+        }
     }
 
     fn normalized_value(
diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 3172206..3cc0209 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -423,17 +423,24 @@ impl Processor {
             to_u64(result.source_amount_swapped)?,
         )?;
 
-        let mut pool_token_amount = token_swap
-            .swap_curve()
-            .withdraw_single_token_type_exact_out(
-                result.owner_fee,
-                swap_token_a_amount,
-                swap_token_b_amount,
-                to_u128(pool_mint.supply)?,
-                trade_direction,
-                token_swap.fees(),
-            )
-            .ok_or(SwapError::FeeCalculationFailure)?;
+        let mut pool_token_amount = if result.owner_fee > 0 {
+            // mint the worth of the whole owner fee (it has been charged already, no
+            // further trading fee applies), but never more than that
+            token_swap
+                .swap_curve()
+                .calculator
+                .withdraw_single_token_type_exact_out_rounded(
+                    result.owner_fee,
+                    swap_token_a_amount,
+                    swap_token_b_amount,
+                    to_u128(pool_mint.supply)?,
+                    trade_direction,
+                    RoundDirection::Floor,
+                )
+                .ok_or(SwapError::FeeCalculationFailure)?
+        } else {
+            0
+        };
 
         if pool_token_amount > 0 {
             // Allow error to fall through
-- 
2.43.0


From 1a0d91acd5711d09c32b3f75211d77972199b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 5/8] fix: single-sided withdrawals charge the trading fee on
 top of the exact amount paid out, not off the pool tokens

---
 programs/token-bonding-curve/src/curve/base.rs | 13 ++++++++-----
 programs/token-bonding-curve/src/curve/fees.rs | 16 ++++++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/base.rs b/programs/token-bonding-curve/src/curve/base.rs
index 7a52fb7..84ab1d8 100644
--- a/programs/token-bonding-curve/src/curve/base.rs
+++ b/programs/token-bonding-curve/src/curve/base.rs
@@ -150,12 +150,15 @@ impl SwapCurve {
         if source_amount == 0 {
             return Some(0);
         }
-        // Get the trading fee incurred if *half* the source amount is swapped
-        // for the other side. Reference at:
+        // Since the amount out is exact, charge for the amount which leaves *half*
+        // the source amount after the trading fee of swapping it for the other
+        // side. Reference at:
         // https://github.com/balancer-labs/balancer-core/blob/f4ed5d65362a8d6cec21662fb6eae233b0babc1f/contracts/BMath.sol#L117
-        let half_source_amount = std::cmp::max(1, source_amount.checked_div(2)?);
-        let trade_fee = fees.trading_fee(half_source_amount)?;
-        let source_amount = source_amount.checked_sub(trade_fee)?;
+        let half_source_amount = source_amount.checked_add(1)?.checked_div(2)?;
+        let pre_fee_source_amount = fees.pre_trading_fee_amount(half_source_amount)?;
+        let source_amount = source_amount
+            .checked_sub(half_source_amount)?
+            .checked_add(pre_fee_source_amount)?;
         self.calculator.withdraw_single_token_type_exact_out(
             source_amount,
             swap_token_a_amount,
diff --git a/programs/token-bonding-curve/src/curve/fees.rs b/programs/token-bonding-curve/src/curve/fees.rs
index 53fcad2..96cdea1 100644
--- a/programs/token-bonding-curve/src/curve/fees.rs
+++ b/programs/token-bonding-curve/src/curve/fees.rs
@@ -90,6 +90,22 @@ impl Fees {
         )
     }
 
+    /// Calculate the smallest amount of trading tokens which leaves the given
+    /// amount after deducting the trading fee
+    pub fn pre_trading_fee_amount(&self, post_fee_amount: u128) -> Option<u128> {
+        let fee_numerator = u128::try_from(self.trade_fee_numerator).ok()?;
+        let fee_denominator = u128::try_from(self.trade_fee_denominator).ok()?;
+        if fee_numerator == 0 || post_fee_amount == 0 {
+            return Some(post_fee_amount);
+        }
+        let numerator = post_fee_amount.checked_mul(fee_denominator)?;
+        let denominator = fee_denominator.checked_sub(fee_numerator)?;
+        numerator
+            .checked_add(denominator)?
+            .checked_sub(1)?
+            .checked_div(denominator)
+    }
+
     /// Calculate the owner trading fee in trading tokens
     pub fn owner_trading_fee(&self, trading_tokens: u128) -> Option<u128> {
         calculate_fee(
-- 
2.43.0


From ca1011c01a9982e353d40565bea885cc153e1368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 6/8] fix: constant price single-sided amounts beyond 128 bits
 fail instead of panicking

---
 .../src/curve/constant_price.rs               | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index 07c2928..7e20441 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -13,6 +13,7 @@ use {
         program_pack::{IsInitialized, Pack, Sealed},
     },
     spl_math::{checked_ceil_div::CheckedCeilDiv, precise_number::PreciseNumber, uint::U256},
+    std::convert::TryFrom,
 };
 
 /// Get the amount of pool tokens for the given amount of token A or B.
@@ -38,21 +39,18 @@ pub fn trading_tokens_to_pool_tokens(
         .checked_mul(token_b_price)?
         .checked_add(U256::from(swap_token_a_amount))?;
     let pool_supply = U256::from(pool_supply);
-    match round_direction {
-        RoundDirection::Floor => Some(
-            pool_supply
-                .checked_mul(given_value)?
-                .checked_div(total_value)?
-                .as_u128(),
-        ),
-        RoundDirection::Ceiling => Some(
+    let pool_tokens = match round_direction {
+        RoundDirection::Floor => pool_supply
+            .checked_mul(given_value)?
+            .checked_div(total_value)?,
+        RoundDirection::Ceiling => {
             pool_supply
                 .checked_mul(given_value)?
                 .checked_ceil_div(total_value)?
                 .0
-                .as_u128(),
-        ),
-    }
+        }
+    };
+    u128::try_from(pool_tokens).ok()
 }
 
 /// ConstantPriceCurve struct implementing CurveCalculator
-- 
2.43.0


From 42794e2ee8d64a80b9ce871940f3ffec65a5aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 7/8] fix: to_spl_precise_number no longer adds one when the
 decimals round up

---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index dd0e0f6..beff25b 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -177,7 +177,8 @@ impl DFSPreciseNumber {
     }
 
     pub fn to_spl_precise_number(&self) -> Option<spl_math::precise_number::PreciseNumber> {
-        let value_u128 = self.to_imprecise()?;
+        // whole part only (to_imprecise alone would round up, and the decimals are added below)
+        let value_u128 = self.floor()?.to_imprecise()?;
         let spl_number = spl_math::precise_number::PreciseNumber::new(value_u128)?;
 
         // add on the decimals manually
-- 
2.43.0


From b5bb32ad48c84642872f3d9b0733bfa5949bf668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 8/8] fix: creating a pool in an account without data fails
 instead of panicking

---
 programs/token-bonding-curve/src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/token-bonding-curve/src/state.rs b/programs/token-bonding-curve/src/state.rs
index 842b179..89c9b0b 100644
--- a/programs/token-bonding-curve/src/state.rs
+++ b/programs/token-bonding-curve/src/state.rs
@@ -57,8 +57,11 @@ impl SwapVersion {
     pub fn pack(src: Self, dst: &mut [u8]) -> Result<(), ProgramError> {
         match src {
             Self::SwapV1(swap_info) => {
-                dst[0] = 1;
-                SwapV1::pack(swap_info, &mut dst[1..])
+                let (version, rest) = dst
+                    .split_first_mut()
+                    .ok_or(ProgramError::InvalidAccountData)?;
+                *version = 1;
+                SwapV1::pack(swap_info, rest)
             }
         }
     }
-- 
2.43.0

