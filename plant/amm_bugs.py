
bug("amm-invariant-kept-without-fee", "A03",
    "swaps on a stable pool without fee, on small reserves",
    "the stored invariant falls behind the reserves, so that traders get back what rounding left in the pool",
    [(A + "endpoints/swap.rs",
      "    accs.pool.update_curve_invariant()?;\n",
      "    if swap_fee.amount > 0 {\n        accs.pool.update_curve_invariant()?;\n    }\n")],
    """
    let mut s = Sim::basic(&["A", "B"], 1, &["a", "b"], 1_000_000);
    let ix = s.k.deposit("a", "p", &[100, 100]);
    s.ok("the first deposit", &ix);
    for n in 3..20 {
        let ix = s.k.swap("b", "p", "A", "B", n, 0);
        let _ = s.go(&ix);
        let p = s.pool("p");
        let (x, y) = (p.reserves[0].tokens as f64, p.reserves[1].tokens as f64);
        let abs::Curve::Stable { d, .. } = p.curve else { bad("no stable curve") };
        let d = (d[0] as u128 | (d[1] as u128) << 64) as f64 / 1e18;
        // below the root the polynomial is negative
        let f = |d: f64| d * d * d + d * 3.0 * 4.0 * x * y - 16.0 * (x + y) * x * y;
        if f(d + 0.1) < 0.0 {
            bad(&format!("invariant {} with reserves {} and {}", d, x, y));
        }
    }
""")

bug("amm-discount-ends-early", "A06",
    "a swap in the very slot in which a discount expires",
    "the discount does not apply in its last slot",
    [(A + "models/discount.rs", "time <= self.valid_until", "time < self.valid_until")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1_000_000);
    let ix = s.k.deposit("a", "p", &[10_000, 10_000]);
    s.ok("the first deposit", &ix);
    let ix = s.k.set_fee("admin", "p", 10_000);
    s.ok("setting the fee", &ix);
    let ix = s.k.put_discount("discounter", "a", 1_000_000, 10);
    s.ok("giving a discount", &ix);
    s.slot = 10;
    let ix = s.k.swap("a", "p", "A", "B", 1000, 0);
    s.ok("swapping", &ix);
    // floor(10000 - 10^8 / 11000)
    same("bought without fee", 1_000_000 - s.bal("p.B") + 0, 1_000_000 - 9091);
    s.slot = 11;
    let before = s.bal("a/B");
    let ix = s.k.swap("a", "p", "A", "B", 1000, 0);
    s.ok("swapping", &ix);
    // 10 of the 1000 are fee: floor(9091 - ceil(11000 * 9091 / 11990))
    same("bought with fee", s.bal("a/B") - before, 9091 - (11_000 * 9091 + 11_989) / 11_990);
""")

bug("amm-redeem-checks-all", "A05",
    "a redemption in which only one of the tokens falls short of its minimum",
    "the minimum of a token is ignored while another one's is met",
    [(A + "models/pool.rs",
      "        let is_any_redeem_token_below_min_threshold =\n            tokens_to_redeem.iter().any(|(mint, token)| {",
      "        let is_any_redeem_token_below_min_threshold =\n            tokens_to_redeem.iter().all(|(mint, token)| {")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1_000_000);
    let ix = s.k.deposit("a", "p", &[1000, 2000]);
    s.ok("the first deposit", &ix);
    let ix = s.k.redeem("a", "p", 100, &[100, 201]);
    s.no("redeeming for less than the minimum", &ix);
    let ix = s.k.redeem("a", "p", 100, &[101, 200]);
    s.no("redeeming for less than the minimum", &ix);
    let ix = s.k.redeem("a", "p", 100, &[99, 199]);
    s.ok("redeeming", &ix);
""")

bug("amm-redeem-rounds", "A04",
    "a redemption whose share of a reserve has a fraction of at least half a token",
    "a redeemer receives more than their share",
    [(A + "models/pool.rs",
      "                        Decimal::from(r.tokens.amount)\n                            .try_mul(weight)?\n                            .try_floor()?,",
      "                        Decimal::from(r.tokens.amount)\n                            .try_mul(weight)?\n                            .try_round()?,")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1_000_000);
    let ix = s.k.deposit("a", "p", &[7, 4]);
    s.ok("the first deposit", &ix);
    same("supply", s.supply("p.lp"), 4);
    let ix = s.k.redeem("a", "p", 1, &[0, 0]);
    s.ok("redeeming", &ix);
    if s.bal("p.A") * 4 < 7 * 3 || s.bal("p.B") < 3 {
        bad(&format!("{} and {} left for 3 of 4 shares of 7 and 4", s.bal("p.A"), s.bal("p.B")));
    }
""")

bug("amm-deposit-clamps-to-wallet", "A01",
    "a deposit by a user who has fewer tokens in a wallet than the deposit takes",
    "the reserves are credited with more than what is transferred to the vault",
    [(A + "endpoints/deposit_liquidity.rs",
      "            add_tokens_to_reserve.amount,\n        )?;",
      "            add_tokens_to_reserve.amount.min(user_wallet.amount),\n        )?;"),
     (A + "endpoints/deposit_liquidity.rs",
      "        if add_tokens_to_reserve.amount > user_wallet.amount {",
      "        if user_wallet.amount == 0 {")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a", "b"], 1000);
    let ix = s.k.deposit("a", "p", &[500, 800]);
    s.ok("the first deposit", &ix);
    let ix = s.k.deposit("b", "p", &[1000, 1600]);
    let _ = s.go(&ix);
    let p = s.pool("p");
    same("reserve", p.reserves[0].tokens, s.bal("p.A"));
    same("reserve", p.reserves[1].tokens, s.bal("p.B"));
    let ix = s.k.deposit("b", "p", &[250, 400]);
    s.ok("a deposit", &ix);
    let p = s.pool("p");
    same("reserve", p.reserves[0].tokens, s.bal("p.A"));
""")

bug("amm-swap-rounds", "A02",
    "a swap which buys an amount whose fraction is at least half a token",
    "the bought amount is rounded up, so a swap without fee lowers the product of the reserves",
    [(A + "models/pool.rs", "        .and_then(|t| t.try_floor())?;", "        .and_then(|t| t.try_round())?;")],
    """
    for n in [9, 12, 13, 40] {
        let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1_000_000);
        let ix = s.k.deposit("a", "p", &[100, 100]);
        s.ok("the first deposit", &ix);
        let ix = s.k.swap("a", "p", "A", "B", n, 0);
        s.ok("swapping", &ix);
        let (x, y) = (s.bal("p.A"), s.bal("p.B"));
        if x * y < 10_000 {
            bad(&format!("reserves {} and {} after {} and {}", x, y, 100, 100));
        }
        same("smallest reserve which keeps the product", y, (10_000 + x - 1) / x);
    }
""")

bug("amm-discount-update-unbounded", "A07",
    "changing a discount which already exists to more than 100%",
    "the bound of discounts only holds for new ones",
    [(A + "endpoints/put_discount.rs",
      "    if discount_amount > Permillion::from_percent(100) {",
      "    if discount_amount > Permillion::from_percent(100)\n        && accs.discount.data_is_empty()\n    {")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1_000_000);
    let ix = s.k.put_discount("discounter", "a", 1_000_001, 10);
    s.no("a discount of more than 100%", &ix);
    let ix = s.k.put_discount("discounter", "a", 1_000_000, 10);
    s.ok("a discount of 100%", &ix);
    let ix = s.k.put_discount("discounter", "a", 1_000_001, 10);
    s.no("a discount of more than 100%", &ix);
    let ix = s.k.put_discount("discounter", "a", 999_999, 10);
    s.ok("a discount", &ix);
""")

bug("amm-vault-with-delegate", "A08",
    "creating a pool with a vault over some of whose tokens, though owned by the signer, somebody else has power as delegate",
    "a vault with a delegate is accepted as long as no more is delegated than it holds",
    [(A + "endpoints/create_pool.rs",
      "        if vault.delegate.is_some() {",
      "        if vault.delegate.is_some() && vault.delegated_amount > vault.amount {")],
    """
    use svm::solana_program::program_option::COption;
    for (amount, delegated) in [(10, 10), (10, 3), (10, 50)] {
        let mut k = Kit::new(false);
        k.mint("A");
        k.mint("B");
        k.pool("p", &["A", "B"]);
        k.user("admin");
        let mut s = Sim::new(k);
        let ix = s.k.create_toll("deployer", "tollkeeper");
        s.ok("creating the toll", &ix);
        for v in ["p.A", "p.B"] {
            let i = s.k.i(v);
            let a = tok::with_amount(s.w.get(i), amount);
            s.w.set(i, a);
        }
        let i = s.k.i("p.lp");
        let mut m = s.w.get(i).clone();
        m.data[36..44].copy_from_slice(&10u64.to_le_bytes());
        s.w.set(i, m);
        let i = s.k.i("p.B");
        let mut t = tok::read(s.w.get(i)).unwrap();
        t.delegate = COption::Some(s.k.k("admin"));
        t.delegated_amount = delegated;
        s.w.set(i, tok::pack(&t));
        let ix = s.k.create_pool("admin", "p", 0);
        s.no("creating a pool with a delegated vault", &ix);
        t.delegate = COption::None;
        t.delegated_amount = 0;
        s.w.set(i, tok::pack(&t));
        s.ok("creating a pool", &ix);
    }
""")

bug("amm-big-deposit-loosest-limit", "A09",
    "a deposit into a pool with a reserve above 10^10 whose maximum amounts are not in proportion",
    "tokens beyond the tightest maximum's proportion are taken without being credited",
    [(A + "models/pool.rs",
      "            let max_ratio = invert_ratio\n                .values()\n                .max()",
      "            let max_ratio = invert_ratio\n                .values()\n                .min()")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a", "b"], 1_000_000_000_000);
    let ix = s.k.deposit("a", "p", &[20_000_000_000, 10_000_000_000]);
    s.ok("the first deposit", &ix);
    let ix = s.k.deposit("b", "p", &[1000, 1000]);
    s.ok("a deposit", &ix);
    let (x, y) = (s.bal("p.A") - 20_000_000_000, s.bal("p.B") - 10_000_000_000);
    same("deposited", (x, y), (1000, 500));
    same("LP tokens", s.bal("b/p.lp"), 500);
""")

bug("amm-last-holder-stuck", "A10",
    "redeeming the whole supply of LP tokens",
    "the last holder can never redeem everything",
    [(A + "models/pool.rs",
      "        if lp_tokens_to_burn > lp_mint_supply {",
      "        if lp_tokens_to_burn >= lp_mint_supply {")],
    """
    let mut s = Sim::basic(&["A", "B", "C"], 0, &["a", "b"], 1_000_000);
    let ix = s.k.deposit("a", "p", &[1000, 2000, 3000]);
    s.ok("the first deposit", &ix);
    let ix = s.k.redeem("a", "p", 400, &[0, 0, 0]);
    s.ok("redeeming", &ix);
    let ix = s.k.redeem("a", "p", 600, &[0, 0, 0]);
    s.ok("redeeming everything", &ix);
    same("reserves", s.pool("p").tokens(), vec![0, 0, 0]);
    let ix = s.k.deposit("b", "p", &[5, 6, 7]);
    s.ok("seeding again", &ix);
""")

bug("amm-redeem-from-lookalike", "A11",
    "a redemption which passes another token account of the pool's signer instead of a vault",
    "reserves and vaults drift apart, and tokens of other pools' or stray accounts of the signer are paid out",
    [(A + "endpoints/redeem_liquidity.rs",
      "            .any(|r| r.vault.eq(&vault.key()))",
      "            .any(|r| r.mint.eq(&vault.mint))")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1_000_000);
    let ix = s.k.deposit("a", "p", &[1000, 2000]);
    s.ok("the first deposit", &ix);
    let (m, o) = (s.k.k("A"), s.k.k("p.signer"));
    s.k.put("stray", svm::key("stray"), tok::account(m, o, 5000));
    let w = s.w.clone();
    s.w = s.k.world();
    for i in 0..w.0.len() {
        s.w.0[i] = w.0[i].clone();
    }
    let good = s.k.redeem("a", "p", 100, &[0, 0]);
    let mut ix = good.clone();
    let (v, stray) = (s.k.i("p.A"), s.k.i("stray"));
    for m in ix.metas.iter_mut().filter(|m| m.i == v) {
        m.i = stray;
    }
    s.no("redeeming from another account of the signer", &ix);
    s.ok("redeeming", &good);
""")

bug("amm-few-iterations", "A12",
    "a stable pool with very unequal reserves",
    "Newton's method is cut off before it converges, so the invariant is far too large",
    [(A + "math/stable_curve_invariant.rs", "const MAX_ITERATIONS: usize = 32;", "const MAX_ITERATIONS: usize = 10;")],
    """
    for (x, y) in [(1_000i128, 1_000_000_000i128), (70, 9_000_000), (5, 1_000_000)] {
        let mut s = Sim::basic(&["A", "B"], 1, &["a"], 10_000_000_000);
        let ix = s.k.deposit("a", "p", &[x as u64, y as u64]);
        s.ok("the first deposit", &ix);
        let abs::Curve::Stable { d, .. } = s.pool("p").curve else { bad("no stable curve") };
        let d = ((d[0] as u128 | (d[1] as u128) << 64) / 1_000_000_000_000_000_000) as i128 - 1;
        // above the root the polynomial is positive
        let f = d * d * d + d * 3 * 4 * x * y - 16 * (x + y) * x * y;
        if f > 0 {
            bad(&format!("invariant above {} with reserves {} and {}", d, x, y));
        }
    }
""")

bug("amm-toll-split-over-two", "A06",
    "a swap with fee on a pool of three or four tokens",
    "the toll of larger pools is split over two reserves only, so the toll wallet gets too much",
    [(A + "endpoints/swap.rs",
      "            .try_div(Decimal::from(pool.dimension))?",
      "            .try_div(Decimal::from(2u64))?")],
    """
    let mut s = Sim::basic(&["A", "B", "C"], 0, &["a"], 100_000_000);
    let ix = s.k.deposit("a", "p", &[1_000_000, 1_000_000, 1_000_000]);
    s.ok("the first deposit", &ix);
    let ix = s.k.set_fee("admin", "p", 10_000);
    s.ok("setting the fee", &ix);
    let ix = s.k.swap("a", "p", "A", "B", 90_000, 0);
    s.ok("swapping", &ix);
    // a third of the fee of 900 over three reserves, of about 1090000
    let toll = s.bal("p.toll");
    if toll > 93 || toll < 85 {
        bad(&format!("toll of {}", toll));
    }
""")

bug("amm-any-toll-wallet", "A11",
    "a swap which passes another LP token account instead of the toll wallet",
    "anybody can collect the toll of their own swaps",
    [(A + "endpoints/swap.rs",
      "        constraint = pool.program_toll_wallet == program_toll_wallet.key()\n",
      "        constraint = pool.mint == program_toll_wallet.mint\n")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 100_000_000);
    let ix = s.k.deposit("a", "p", &[1_000_000, 1_000_000]);
    s.ok("the first deposit", &ix);
    let ix = s.k.set_fee("admin", "p", 10_000);
    s.ok("setting the fee", &ix);
    let good = s.k.swap("a", "p", "A", "B", 90_000, 0);
    let mut ix = good.clone();
    let (v, mine) = (s.k.i("p.toll"), s.k.i("a/p.lp"));
    for m in ix.metas.iter_mut().filter(|m| m.i == v) {
        m.i = mine;
    }
    s.no("a swap with one's own toll wallet", &ix);
    s.ok("a swap", &good);
    if s.bal("p.toll") == 0 {
        bad("no toll");
    }
""")

bug("amm-last-redeemer-takes-all", "A13",
    "tokens sent to a vault of a pool, and somebody redeeming the whole supply",
    "what was sent does not stay in the vault",
    [(A + "endpoints/redeem_liquidity.rs",
      "                .with_signer(&[&signer_seeds[..]]),\n            tokens_redeemed.amount,",
      "                .with_signer(&[&signer_seeds[..]]),\n            if lp_tokens_to_burn.amount == accs.lp_mint.supply {\n                // nobody else has a claim on the vault\n                vault.amount\n            } else {\n                tokens_redeemed.amount\n            },")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1000);
    let ix = s.k.deposit("a", "p", &[500, 800]);
    s.ok("the first deposit", &ix);
    let a = svm::tok::with_amount(s.data("p.A"), 507);
    let i = s.k.i("p.A");
    s.w.set(i, a);
    let ix = s.k.redeem("a", "p", 500, &[0, 0]);
    s.ok("redeeming everything", &ix);
    same("wallet", s.bal("a/A"), 1000);
    same("vault", s.bal("p.A"), 7);
""")

bug("amm-deposit-wants-synced-vaults", "A13",
    "tokens sent to a vault of a pool, and a deposit",
    "anybody can block deposits for good by sending one token to a vault",
    [(A + "endpoints/deposit_liquidity.rs",
      "        // if user does not have enough funds we return an error\n",
      "        // the reserves have been increased already\n        let is_synced = accs.pool.reserves().iter().any(|r| {\n            r.mint == vault.mint\n                && r.tokens.amount\n                    == vault.amount + add_tokens_to_reserve.amount\n        });\n        if !is_synced {\n            msg!(\"Reserve doesn't match its vault\");\n            return Err(error!(AmmError::InvalidArg));\n        }\n\n        // if user does not have enough funds we return an error\n")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1000);
    let ix = s.k.deposit("a", "p", &[500, 800]);
    s.ok("the first deposit", &ix);
    let a = svm::tok::with_amount(s.data("p.A"), 501);
    let i = s.k.i("p.A");
    s.w.set(i, a);
    let ix = s.k.deposit("a", "p", &[50, 80]);
    s.ok("a deposit after somebody sent a token to a vault", &ix);
    same("vault", s.bal("p.A"), 551);
    same("reserve", s.pool("p").reserves[0].tokens, 550);
""")

bug("amm-duplicate-mint-apart", "A08",
    "creating a pool of three vaults whose first and last are of the same mint",
    "a pool with two reserves of one mint",
    [(A + "endpoints/create_pool.rs",
      "        if mints.contains(&vault.mint) {\n",
      "        if index > 0 && accs.pool.reserves[index - 1].mint == vault.mint {\n"),
     (A + "endpoints/create_pool.rs",
      "    accs.pool.dimension = mints.len() as u64;",
      "    accs.pool.dimension = ctx.remaining_accounts.len() as u64;")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1000);
    s.k.pool("q", &["A", "B"]);
    let a = svm::tok::account(s.k.k("A"), s.k.k("q.signer"), 0);
    s.k.put("q.A again", svm::key("vault q.A again"), a);
    let mut w = s.k.world();
    for i in 0..s.w.0.len() {
        w.0[i] = s.w.0[i].clone();
    }
    s.w = w;
    let good = s.k.create_pool("admin", "q", 0);
    let mut ix = good.clone();
    let mut m = ix.metas.last().unwrap().clone();
    m.i = s.k.i("q.A again");
    ix.metas.push(m);
    s.no("a pool with two vaults of one mint", &ix);
    s.ok("a pool", &good);
""")

bug("amm-min-buy-before-limit", "A05",
    "a swap which buys exactly one token less than requested",
    "the minimum is undercut by one token",
    [(A + "endpoints/swap.rs", "    if min_buy > bought {", "    if min_buy.amount.saturating_sub(1) > bought.amount {")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1_000_000);
    let ix = s.k.deposit("a", "p", &[1000, 1000]);
    s.ok("the first deposit", &ix);
    // 1000 - 10^6 / 1100 is 90.9
    let ix = s.k.swap("a", "p", "A", "B", 100, 91);
    s.no("buying less than the minimum", &ix);
    let ix = s.k.swap("a", "p", "A", "B", 100, 90);
    s.ok("swapping", &ix);
""")

bug("amm-fee-rounds-to-nearest", "A06",
    "a swap whose fee has a fraction of less than half a token",
    "the fee is rounded down",
    [(A + "endpoints/swap.rs",
      "            .try_mul(swap_fee_share)?\n            .try_ceil()?,",
      "            .try_mul(swap_fee_share)?\n            .try_round()?,")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1_000_000);
    let ix = s.k.deposit("a", "p", &[10_000, 10_000]);
    s.ok("the first deposit", &ix);
    let ix = s.k.set_fee("admin", "p", 10_000);
    s.ok("setting the fee", &ix);
    // 1.2 of 120 are fee, rounded up: 118 are swapped
    let ix = s.k.swap("a", "p", "A", "B", 120, 0);
    s.ok("swapping", &ix);
    same("bought", 10_000 - s.bal("p.B"), 10_000 - (100_000_000u64 + 10_117) / 10_118);
    // 1.4 of 140 are fee: 138 of the 140 are swapped
    let (x, y) = (s.bal("p.A"), s.bal("p.B"));
    let ix = s.k.swap("a", "p", "A", "B", 140, 0);
    s.ok("swapping", &ix);
    same("bought", y - s.bal("p.B"), y - (x * y + x + 137) / (x + 138));
""")

bug("amm-invariant-before-fee", "A03",
    "swaps with a fee on a stable pool",
    "the stored invariant lacks the fee, so that it does not correspond to the reserves",
    [(A + "endpoints/swap.rs",
      "            .swap(sell_mint, tokens_to_swap, accs.buy_vault.mint)?;\n",
      "            .swap(sell_mint, tokens_to_swap, accs.buy_vault.mint)?;\n    // no-op if const prod\n    accs.pool.update_curve_invariant()?;\n"),
     (A + "endpoints/swap.rs",
      "    // we need to update the invariant because fees have been taken, therefore\n    // even though the invariant applies to swaps, it is changed during each\n    // trade because of the collected fees\n    //\n    // no-op if const prod\n    accs.pool.update_curve_invariant()?;\n\n", "")],
    """
    let mut s = Sim::basic(&["A", "B"], 10, &["a"], 1_000_000);
    let ix = s.k.deposit("a", "p", &[100_000, 100_000]);
    s.ok("the first deposit", &ix);
    let ix = s.k.set_fee("admin", "p", 10_000);
    s.ok("setting the fee", &ix);
    let ix = s.k.swap("a", "p", "A", "B", 40_000, 0);
    s.ok("swapping", &ix);
    let abs::Curve::Stable { d, .. } = s.pool("p").curve else { bad("no stable curve") };
    let d = (d[0] as u128 | (d[1] as u128) << 64) as f64 / 1e18;
    let (x, y) = (s.bal("p.A") as f64, s.bal("p.B") as f64);
    // below the root the polynomial is negative
    let f = |d: f64| d * d * d + d * (10.0 * 4.0 - 1.0) * 4.0 * x * y - 10.0 * 16.0 * (x + y) * x * y;
    if f(d + 0.1) < 0.0 {
        bad(&format!("invariant {} with reserves {} and {}", d, x, y));
    }
""")

bug("amm-sell-into-any-account", "A01",
    "a swap which passes an own token account instead of the vault for the sold token",
    "the reserve is credited with tokens which the vault never received",
    [(A + "endpoints/swap.rs",
      "        constraint = pool.reserve_vault(sell_vault.mint) == Some(sell_vault.key())\n",
      "        constraint = pool.reserve_vault(sell_vault.mint).is_some()\n")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a", "b"], 1_000_000);
    let ix = s.k.deposit("a", "p", &[10_000, 10_000]);
    s.ok("the first deposit", &ix);
    let good = s.k.swap("b", "p", "A", "B", 100, 0);
    let mut ix = good.clone();
    let (is, to) = (s.k.i("p.A"), s.k.i("a/A"));
    for m in ix.metas.iter_mut().filter(|m| m.i == is) {
        m.i = to;
    }
    let _ = s.go(&ix);
    same("vault", s.bal("p.A"), 10_000);
    same("reserve", s.pool("p").reserves.iter().map(|r| r.tokens).sum::<u64>(), 20_000);
    s.ok("swapping", &good);
""")

bug("amm-discount-valid-now", "A07",
    "giving a discount which expires in the very slot it is given",
    "a discount which is not in the future",
    [(A + "endpoints/put_discount.rs", "if valid_until <= Slot::current()? {", "if valid_until < Slot::current()? {")],
    """
    let mut s = Sim::basic(&["A", "B"], 0, &["a"], 1000);
    s.slot = 7;
    let ix = s.k.put_discount("discounter", "a", 5, 7);
    s.no("a discount which expires now", &ix);
    let ix = s.k.put_discount("discounter", "a", 5, 8);
    s.ok("a discount", &ix);
""")

bug("amm-narrower-imbalance", "A12",
    "a stable pool of three tokens in which two of the reserves are tiny",
    "deposits, swaps and redemptions are refused though the reserves are within the documented limits",
    [(A + "math/stable_curve_invariant.rs", "if product < Decimal::from_scaled_val(1_000_000) {", "if product < Decimal::from_scaled_val(1_000_000_000_000) {")],
    """
    let mut s = Sim::basic(&["A", "B", "C"], 5, &["a"], 1_000_000_000);
    // scaled by 1000^2: product 10^-3 * 10^-3 * 500 and a sum of 500
    let ix = s.k.deposit("a", "p", &[10, 10, 500_000_000]);
    s.ok("the first deposit", &ix);
""")
