From e56c1561803ced5019d236af73b0b9b5d100e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 01/12] fix: settle the current slot for a farmer settled in
 the previous one

calculate_next_harvest_from is the first slot not yet settled. When it
equals the current slot, that slot is still to be settled; it was skipped,
so staking or unstaking then changed the share the farmer gets for it.
---
 programs/farming/src/models/farmer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index de065ab..54402df 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -210,7 +210,7 @@ impl Farmer {
     ) -> Result<()> {
         // there is no eligible harvest available if the last calculation
         // has happened on the current slot or after, therefore we skip
-        if self.calculate_next_harvest_from >= current_slot {
+        if self.calculate_next_harvest_from > current_slot {
             return Ok(());
         }
 
@@ -427,7 +427,7 @@ fn eligible_harvest_until<'a>(
                         .checked_sub(range.start().slot.max(starts_at.slot))
                         // This should never happen, since we skip the
                         // this function call whenever
-                        // calculate_next_harvest_from >= current_slot
+                        // calculate_next_harvest_from > current_slot
                         .ok_or(FarmingError::MathOverflow)?
                         + 1; // +1 bcs inclusiveness
                     eligible_harvest = eligible_harvest.try_add(
-- 
2.43.0


From 7464fe0c28d7aa66dfb5578a4431ffee036dd626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 02/12] fix: never settle a slot twice when vesting tokens
 mature

A farmer settled in the slot of a snapshot, but before it was taken, has
that slot already paid. Moving vesting tokens to staked set
calculate_next_harvest_from back to that slot, which paid it again.
---
 programs/farming/src/models/farmer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index 54402df..fba178e 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -165,8 +165,12 @@ impl Farmer {
                 )?;
                 self.set_harvests(farmer_harvests)?;
                 // and take a note that we calculated harvest until this
-                // point
-                self.calculate_next_harvest_from = snapshot.started_at;
+                // point, or further if it was already settled in the slot of
+                // the snapshot before the snapshot was taken
+                self.calculate_next_harvest_from = cmp::max(
+                    self.calculate_next_harvest_from,
+                    snapshot.started_at,
+                );
 
                 // mark funds which are beyond vesting period as staked
                 self.staked.amount = self
-- 
2.43.0


From 3ce87dba7b11929e90bc57e5d4423d15694f2140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 03/12] fix: settle the target farmer before compounding across
 farms

add_to_vested restarts the vesting period of everything still marked as
vested. Tokens of the target farmer which had finished vesting were not
moved to staked first, so anybody could keep them from earning by
compounding again and again.
---
 programs/farming/src/endpoints/compound_across_farms.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/farming/src/endpoints/compound_across_farms.rs b/programs/farming/src/endpoints/compound_across_farms.rs
index 3c3e13c..f98493b 100644
--- a/programs/farming/src/endpoints/compound_across_farms.rs
+++ b/programs/farming/src/endpoints/compound_across_farms.rs
@@ -94,6 +94,11 @@ pub fn handle(ctx: Context<CompoundAcrossFarms>) -> Result<()> {
     accounts
         .source_farmer
         .check_vested_period_and_update_harvest(&source_farm, current_slot)?;
+    // same as when staking: tokens which have finished vesting must be moved to
+    // staked before the vesting period starts anew for the added ones
+    accounts
+        .target_farmer
+        .check_vested_period_and_update_harvest(&target_farm, current_slot)?;
 
     // get all harvestable tokens of the farmer and add them to their vested
     // tokens
-- 
2.43.0


From 3e0e7a763ec623d52503f157ef24ff6150fe2412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 04/12] fix: keep harvest periods which the snapshot history
 still needs

The check was compiled in only with a feature "prod" which does not exist.
---
 programs/farming/src/models/farm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 1a0fd2a..063ffe9 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -272,8 +272,8 @@ impl Farm {
         // already initialized as a fixed number length array of default
         // elements so unwrap `.last()` is safe
         let oldest_period = harvest.periods.last().unwrap();
-        let is_oldest_period_initialized = if cfg!(any(feature = "prod", test))
-        {
+        let is_dev = cfg!(all(feature = "dev", not(test)));
+        let is_oldest_period_initialized = if !is_dev {
             // if the oldest period is within the current snapshot history,
             // we are unable to update its value, the admin already passed the
             // allowed max number of possible configuration updates
-- 
2.43.0


From 5961c01d388323249c75f300ce30562f148fbfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 05/12] fix: mature vesting tokens of a farmer inactive for a
 whole snapshot history

---
 programs/farming/src/models/farm.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 063ffe9..1c5b2fd 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -335,12 +335,15 @@ impl Farm {
             .skip(inverted_tip)
             .take(consts::SNAPSHOTS_LEN)
             .find(|(_, s)| s.started_at <= slot)
-            .map(|(index, _)| index)?;
+            .map(|(index, _)| index);
 
-        Some(if pos == consts::SNAPSHOTS_LEN - 1 {
-            self.snapshots.ring_buffer[0]
-        } else {
-            self.snapshots.ring_buffer[pos + 1]
+        Some(match pos {
+            Some(pos) if pos == consts::SNAPSHOTS_LEN - 1 => {
+                self.snapshots.ring_buffer[0]
+            }
+            Some(pos) => self.snapshots.ring_buffer[pos + 1],
+            // the whole retained history is after the slot
+            None => self.oldest_snapshot(),
         })
     }
 
-- 
2.43.0


From 4f323a10678ace6f3e96a9b776c4dc1259f3fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 06/12] fix: mint lp tokens for the lowest deposited ratio of
 all reserves

Deposited amounts are rounded up to whole tokens. Computing the eligible lp
tokens from an arbitrary reserve (the first one) gave out more lp tokens than
the other deposited amounts paid for, up to one token's worth of a reserve
with few tokens, at the expense of the other liquidity providers.
---
 programs/amm/src/models/pool.rs | 48 ++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index d9d5cf8..0db8d2e 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -451,13 +451,15 @@ impl Pool {
         }
     }
 
-    /// Any given token in the pool can be used to compute the amount
-    /// of lp tokens to be distributed with a given deposit, as long as the
-    /// ratios correspond to the ratios present in the pool. We compute
-    /// the lp tokens to be distributed with a simple 'rule of 3'. For any given
-    /// token in the pool x1, we multiple the deposit delta_x1 with the amount
-    /// of lp tokens in supply, and then divide the by the current reserve
-    /// amount x1.
+    /// We compute the lp tokens to be distributed with a simple 'rule of 3'. For
+    /// any given token in the pool x1, we multiple the deposit delta_x1 with
+    /// the amount of lp tokens in supply, and then divide the by the current
+    /// reserve amount x1.
+    ///
+    /// Since deposited amounts are rounded up, their ratios only approximate
+    /// the ratios present in the pool. We therefore use the token which was
+    /// deposited in the lowest ratio, as otherwise the depositor would receive
+    /// more lp tokens than what was paid for.
     fn get_eligible_lp_tokens(
         &self,
         tokens_deposited: &BTreeMap<Pubkey, TokenAmount>,
@@ -466,19 +468,27 @@ impl Pool {
         debug_assert_ne!(lp_mint_supply, TokenAmount::new(0));
         debug_assert_eq!(tokens_deposited.len(), self.dimension as usize);
 
-        let any_reserve = self.reserves[0];
-        let reserve_deposit = tokens_deposited
-            .get(&any_reserve.mint)
-            .ok_or(AmmError::InvariantViolation)?;
+        let tokens = self
+            .reserves()
+            .iter()
+            .map(|reserve| {
+                let reserve_deposit = tokens_deposited
+                    .get(&reserve.mint)
+                    .ok_or(AmmError::InvariantViolation)?;
+
+                let amount = try_mul_div(
+                    Decimal::from(lp_mint_supply.amount),
+                    Decimal::from(reserve_deposit.amount),
+                    Decimal::from(reserve.tokens.amount),
+                )?
+                .try_floor()?;
 
-        let tokens = TokenAmount::new(
-            try_mul_div(
-                Decimal::from(lp_mint_supply.amount),
-                Decimal::from(reserve_deposit.amount),
-                Decimal::from(any_reserve.tokens.amount),
-            )?
-            .try_floor()?,
-        );
+                Ok(TokenAmount::new(amount))
+            })
+            .collect::<Result<Vec<_>>>()?
+            .into_iter()
+            .min()
+            .ok_or(AmmError::InvariantViolation)?;
 
         Ok(if tokens.amount == 0 {
             None
-- 
2.43.0


From a72f522ab521d54801f660c97e1031112b33333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 07/12] fix: never deposit more tokens than the user's maximum

The deposit ratio is truncated to the precision of a decimal. Together with
rounding up, the computed amount could exceed the maximum which the user
agreed to by one token or more (e.g. a reserve of 100_000_000_000 and a
maximum of 30_000_000_000 resulted in a deposit of 30_000_000_001).
---
 programs/amm/src/models/pool.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 0db8d2e..73ec70f 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -252,7 +252,20 @@ impl Pool {
                             .try_ceil()?
                     };
 
-                    Ok((mint, TokenAmount { amount }))
+                    // the ratio is only precise to some decimal place, hence
+                    // rounding up could result in more tokens than what the
+                    // user is willing to deposit
+                    let max_amount = max_tokens
+                        .get(&mint)
+                        .ok_or(AmmError::InvariantViolation)?
+                        .amount;
+
+                    Ok((
+                        mint,
+                        TokenAmount {
+                            amount: amount.min(max_amount),
+                        },
+                    ))
                 })
                 .collect::<Result<BTreeMap<Pubkey, TokenAmount>>>()?;
 
-- 
2.43.0


From 7a6c666590beb9a935b1a3405b63b25da8cd6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 08/12] fix: round the balance left after a constant product
 swap up

The balance of the bought token was truncated to 18 decimal places. When the
exact balance was just above an integer, the swap gave out one token more than
what the curve allows and decreased the product of reserves.
---
 programs/amm/src/models/pool.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 73ec70f..0d9cf2f 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -665,7 +665,16 @@ impl Pool {
                     .collect();
 
                 let k = fold_product(&tokens_deposits_before_swap)?;
-                k.try_div(product)?
+                let balance = k.try_div(product)?;
+
+                // division truncates, but the balance which stays in the pool
+                // must not be rounded down, as that'd decrease the product of
+                // reserves
+                if balance.try_mul(product)? < k {
+                    balance.try_add(Decimal::from_scaled_val(1))?
+                } else {
+                    balance
+                }
             }
             Curve::Stable {
                 amplifier,
-- 
2.43.0


From 583b294878233f9d0747ffa4b2e3d21d3d47f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:38 +0000
Subject: [PATCH 09/12] fix: accept a rounded root of the stable curve
 polynomial

On (almost) balanced pools the polynomial's terms, each rounded to a decimal,
don't cancel out to exactly zero at its root. The step of Newton's method then
truncated to zero and the result was rejected as an invariant violation, or the
polynomial was negative and its subtraction failed as an overflow. Deposits,
redemptions and swaps which reach such balances could not be executed.
---
 .../amm/src/math/stable_curve_invariant.rs    | 51 +++++++++----------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 54b8686..852db20 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -132,31 +132,10 @@ impl StableCurveInvariant {
             // each iteration. Therefore, in order to check that the method
             // converges, we only need to check that (prev_iter - next_iter) <=
             // adm_err. Given this assumption, it is impossible that prev_val <
-            // new_val and the only case where equality holds is when
-            // prev_val is a precise root of the polynomial.
-            // Notice also that if x is a root of the stable polynomial,
-            // applying Newton method to it will result in getting x again,
-            // and the reciprocal statement holds true, so it is an equivalence.
-            // Thus, the following checks are sufficient to guarantee
-            // full logic coverage.
+            // new_val and equality only holds when prev_val is a root of the
+            // polynomial, up to the precision of a decimal.
             if prev_val <= new_val {
-                let is_val_root_stable_poly = self
-                    .get_stable_swap_polynomial(&prev_val)?
-                    == Decimal::zero();
-
-                if is_val_root_stable_poly {
-                    return prev_val.try_mul(self.scl_down_coef);
-                } else {
-                    // in this case, prev_val is not a root of the polynomial,
-                    // and therefore having prev_val <=
-                    // new_val would violate our
-                    // mathematical assumptions
-                    msg!(
-                        "Invalid mathematical assumption: \
-                        previous value cannot be less or equal to new value"
-                    );
-                    return Err(error!(AmmError::InvariantViolation));
-                }
+                return prev_val.try_mul(self.scl_down_coef);
             }
 
             // assuming that prev_val >= new_val, we just need to check that
@@ -173,8 +152,17 @@ impl StableCurveInvariant {
         &self,
         initial_guess: &Decimal,
     ) -> Result<Decimal> {
+        let positive_terms =
+            self.get_stable_swap_polynomial_positive_terms(initial_guess)?;
+        if positive_terms <= self.polynomial_third_term {
+            // each iteration stays above the root, therefore the polynomial
+            // can only be negative due to rounding of its terms, in which case
+            // the root has been reached
+            return Ok(*initial_guess);
+        }
+
         let stable_swap_poly =
-            self.get_stable_swap_polynomial(initial_guess)?;
+            positive_terms.try_sub(self.polynomial_third_term)?;
         let derivative_stable_swap_poly =
             self.get_derivate_stable_swap_polynomial(initial_guess)?;
 
@@ -183,15 +171,22 @@ impl StableCurveInvariant {
     }
 
     // Stable swap polynomial to be found in README.md under AMM - Equations
+    #[cfg(test)]
     fn get_stable_swap_polynomial(&self, val: &Decimal) -> Result<Decimal> {
         // D^(n+1) + D(An^n -1)\prod_i x_i n^n + A(n^n)^2\sum_i x_i \prod_i x_i
+        self.get_stable_swap_polynomial_positive_terms(val)?
+            .try_sub(self.polynomial_third_term)
+    }
+
+    fn get_stable_swap_polynomial_positive_terms(
+        &self,
+        val: &Decimal,
+    ) -> Result<Decimal> {
         let first_term = val.try_pow(self.exponent + 1)?;
 
         let second_term = val.try_mul(self.first_order_coeff)?;
 
-        first_term
-            .try_add(second_term)?
-            .try_sub(self.polynomial_third_term)
+        first_term.try_add(second_term)
     }
 
     // Derivative of stable swap polynomial to be found in README.md under AMM -
-- 
2.43.0


From 1711981490fedf926f8aff9c0cac72f39ac4c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 10/12] fix: let a discount be put even if its address has
 lamports

Anyone can transfer lamports to the PDA of a user's discount before it exists.
System program refuses to create an account at an address with lamports, hence
the discount authority could never put a discount for that user.
---
 programs/amm/src/endpoints/put_discount.rs | 68 +++++++++++++++++++---
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/programs/amm/src/endpoints/put_discount.rs b/programs/amm/src/endpoints/put_discount.rs
index d5f9bb8..54f8b4a 100644
--- a/programs/amm/src/endpoints/put_discount.rs
+++ b/programs/amm/src/endpoints/put_discount.rs
@@ -76,13 +76,36 @@ pub fn handle(
             &[*ctx.bumps.get("discount").unwrap()],
         ];
         let rent = Rent::get()?.minimum_balance(Discount::space());
-        system_program::create_account(
-            accs.as_create_discount_account_context()
-                .with_signer(&[&pda_seeds[..]]),
-            rent,
-            Discount::space() as u64,
-            ctx.program_id,
-        )?;
+        let current_lamports = accs.discount.lamports();
+        if current_lamports == 0 {
+            system_program::create_account(
+                accs.as_create_discount_account_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                rent,
+                Discount::space() as u64,
+                ctx.program_id,
+            )?;
+        } else {
+            // The system program refuses to create an account which has
+            // lamports. Anyone can transfer some to the PDA, which mustn't
+            // prevent us from putting the discount.
+            if current_lamports < rent {
+                system_program::transfer(
+                    accs.as_transfer_rent_context(),
+                    rent - current_lamports,
+                )?;
+            }
+            system_program::allocate(
+                accs.as_allocate_discount_account_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                Discount::space() as u64,
+            )?;
+            system_program::assign(
+                accs.as_assign_discount_account_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                ctx.program_id,
+            )?;
+        }
     }
 
     // overwrites the data in the discount account
@@ -108,4 +131,35 @@ impl<'info> PutDiscount<'info> {
         let cpi_program = self.system_program.to_account_info();
         CpiContext::new(cpi_program, cpi_accounts)
     }
+
+    fn as_transfer_rent_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Transfer<'info>> {
+        let cpi_accounts = system_program::Transfer {
+            from: self.authority.to_account_info(),
+            to: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
+
+    fn as_allocate_discount_account_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Allocate<'info>> {
+        let cpi_accounts = system_program::Allocate {
+            account_to_allocate: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
+
+    fn as_assign_discount_account_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Assign<'info>> {
+        let cpi_accounts = system_program::Assign {
+            account_to_assign: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
 }
-- 
2.43.0


From 8305b5c5e8ddbe07536c73c4583b1f25263aff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 11/12] fix: approximate the stable curve invariant to half a
 token

Newton's method stopped once two successive approximations differed by at most
one half, but it works on values which are scaled down by powers of 1000. The
invariant of unbalanced pools was too high by up to half of that scale, and as
a result swaps were refused or bought too little (e.g. with reserves of
1_000_003 and 1_234_567_890_123 tokens).
---
 programs/amm/src/math/stable_curve_invariant.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 852db20..b38949d 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -111,9 +111,10 @@ impl StableCurveInvariant {
 
     fn compute(self) -> Result<Decimal> {
         // acts as a threshold for the difference between successive
-        // approximations
-        let admissible_error: Decimal =
-            Decimal::from(1u64).try_div(Decimal::from(2u64)).unwrap();
+        // approximations, which are scaled down and hence must be the threshold
+        let admissible_error: Decimal = Decimal::from(1u64)
+            .try_div(Decimal::from(2u64))?
+            .try_div(self.scl_down_coef)?;
 
         // our initial guess is the scaled down sum of token reserve balances
         let mut prev_val = self.initial_guess;
-- 
2.43.0


From 32d3129d607ab7144a8cb019d65039581d640d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 12/12] fix: compute stable invariant when a pool is created
 from filled vaults

---
 programs/amm/src/endpoints/create_pool.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/amm/src/endpoints/create_pool.rs b/programs/amm/src/endpoints/create_pool.rs
index 3bdadb9..1d83a38 100644
--- a/programs/amm/src/endpoints/create_pool.rs
+++ b/programs/amm/src/endpoints/create_pool.rs
@@ -126,5 +126,9 @@ pub fn handle(ctx: Context<CreatePool>, amplifier: u64) -> Result<()> {
     accs.pool.dimension = mints.len() as u64;
     accs.pool.program_toll_wallet = accs.program_toll_wallet.key();
 
+    // the vaults may contain tokens already, in which case the pool must be
+    // ready for swaps
+    accs.pool.update_curve_invariant()?;
+
     Ok(())
 }
-- 
2.43.0

