bug("farming-unstake-order", "F01",
    "a farmer with both staked and vesting tokens who unstakes more than the vesting ones but not everything",
    "the staked tokens are debited by the whole unstaked amount although the vesting tokens were taken first, so the farmer loses tokens which stay in the vault",
    [(F + "models/farmer.rs",
      "                self.staked.amount -= max.amount - self.vested.amount;\n                self.vested.amount = 0;\n                Ok(max)",
      "                self.vested.amount = 0;\n                self.staked.amount -= max.amount - self.vested.amount;\n                Ok(max)")],
    """
    let mut s = Sim::basic(&["a"]);
    let ix = s.k.start("a", "a", "f", "S", 10);
    s.ok("staking", &ix);
    s.slot = 5;
    let ix = s.k.snapshot("f");
    s.ok("snapshot", &ix);
    s.slot = 6;
    let ix = s.k.start("a", "a", "f", "S", 6);
    s.ok("staking", &ix);
    let ix = s.k.stop("a", "f", "S", 8);
    s.ok("unstaking", &ix);
    let f = s.farmer("a", "f");
    same("wallet", s.bal("a/S"), 1000 - 16 + 8);
    same("deposit left", f.staked + f.vested, 8);
    same("vault", s.bal("f.vault"), 8);
""")

bug("farming-period-ends-with-window", "F03",
    "a harvest period whose last slot is exactly the slot of a snapshot",
    "the last slot of the period is not accrued",
    [(F + "models/farmer.rs", "if range.end() < &starts_at {", "if range.end() <= &starts_at {")],
    """
    let mut s = Sim::basic(&["a"]);
    let ix = s.k.start("a", "a", "f", "S", 10);
    s.ok("staking", &ix);
    s.slot = 5;
    let ix = s.k.snapshot("f");
    s.ok("snapshot", &ix);
    let ix = s.k.new_period("admin", "f", "H", 10, 11, 100);
    s.ok("a period from 10 to 20", &ix);
    s.slot = 20;
    let ix = s.k.snapshot("f");
    s.ok("snapshot", &ix);
    s.slot = 25;
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
    let due = s.due("a", "f", "H");
    if due + 2 < 1100 || due > 1100 {
        bad(&format!("accrued {} of 1100", due));
    }
""")

bug("farming-top-up-keeps-date", "F04",
    "tokens added to vesting ones, and a snapshot later in the slot of the addition",
    "the added tokens finish vesting with a snapshot of the slot of their deposit",
    [(F + "models/farmer.rs", "        self.vested_at = current_slot;\n        self.vested.amount = self",
      "        if self.vested.amount == 0 {\n            self.vested_at = current_slot;\n        }\n        self.vested.amount = self")],
    """
    let mut s = Sim::basic(&["a"]);
    s.slot = 5;
    let ix = s.k.start("a", "a", "f", "S", 10);
    s.ok("staking", &ix);
    s.slot = 12;
    let ix = s.k.start("a", "a", "f", "S", 4);
    s.ok("staking", &ix);
    let ix = s.k.snapshot("f");
    s.ok("snapshot", &ix);
    s.slot = 14;
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
    let f = s.farmer("a", "f");
    same("(staked, vesting) without a snapshot after the last deposit's slot", (f.staked, f.vested), (0, 14));
""")

bug("farming-first-snapshot-after-latest", "F05",
    "tokens deposited in the very slot of the latest snapshot",
    "the query for the first snapshot after the latest one answers with the oldest ring entry, so such farmers cannot be settled or unstake",
    [(F + "models/farm.rs", "if self.latest_snapshot().started_at <= slot {", "if self.latest_snapshot().started_at < slot {")],
    """
    let mut s = Sim::basic(&["a"]);
    s.slot = 10;
    let ix = s.k.snapshot("f");
    s.ok("snapshot", &ix);
    let ix = s.k.start("a", "a", "f", "S", 10);
    s.ok("staking", &ix);
    s.slot = 11;
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
    let f = s.farmer("a", "f");
    same("(staked, vesting)", (f.staked, f.vested), (0, 10));
    s.slot = 20;
    let ix = s.k.snapshot("f");
    s.ok("snapshot", &ix);
    let ix = s.k.stop("a", "f", "S", 4);
    s.ok("unstaking", &ix);
    let f = s.farmer("a", "f");
    same("(staked, vesting)", (f.staked, f.vested), (6, 0));
""")

bug("farming-period-replaced-when-it-starts", "F06",
    "a period scheduled in the very slot in which the latest one starts",
    "a period which has started is replaced and its funding refunded",
    [(F + "models/farm.rs", "if latest_period.starts_at > current_slot {", "if latest_period.starts_at >= current_slot {")],
    """
    let mut s = Sim::basic(&["a"]);
    s.slot = 10;
    let ix = s.k.new_period("admin", "f", "H", 0, 5, 10);
    s.ok("a period from 10 to 14", &ix);
    same("vault", s.bal("f.H"), 50);
    let ix = s.k.new_period("admin", "f", "H", 15, 2, 10);
    s.ok("a period from 15 to 16", &ix);
    same("periods", s.periods("f", "H"), vec![(10, 15, 16), (10, 10, 14)]);
    same("vault", s.bal("f.H"), 70);
""")

bug("farming-replaced-period-priced-anew", "F07",
    "a scheduled period replaced by one with other tokens per slot",
    "the refund of the replaced period is computed with the new tokens per slot",
    [(F + "endpoints/new_harvest_period.rs",
      "        starts_at,\n        ends_at,\n        tps,\n    }) = scheduled_launch",
      "        starts_at,\n        ends_at,\n        ..\n    }) = scheduled_launch")],
    """
    let mut s = Sim::basic(&["a"]);
    s.slot = 10;
    let ix = s.k.new_period("admin", "f", "H", 20, 5, 10);
    s.ok("a period", &ix);
    same("vault", s.bal("f.H"), 50);
    let ix = s.k.new_period("admin", "f", "H", 20, 5, 30);
    s.ok("replacing a period", &ix);
    same("vault", s.bal("f.H"), 150);
    let ix = s.k.new_period("admin", "f", "H", 20, 6, 1);
    s.ok("replacing a period", &ix);
    same("vault", s.bal("f.H"), 6);
    same("wallet", s.bal("admin/H"), 1_000_000 - 6);
""")

bug("farming-claim-zeroes-late", "F11",
    "the same pair of vault and wallet supplied twice in a claim, and enough other tokens in the vault",
    "a mint supplied twice is paid twice",
    [(F + "endpoints/claim_eligible_harvest.rs",
      "    for accs in ctx.remaining_accounts.chunks(2) {",
      "    let mut claimed = vec![];\n    for accs in ctx.remaining_accounts.chunks(2) {"),
     (F + "endpoints/claim_eligible_harvest.rs",
      "            // update the map as we will eventually convert it back\n            *eligible_harvest = TokenAmount::new(0);\n        }\n    }\n",
      "            // update the map as we will eventually convert it back\n            claimed.push(mint);\n        }\n    }\n    for mint in claimed {\n        farmer_harvests.insert(mint, TokenAmount::new(0));\n    }\n")],
    """
    let mut s = Sim::basic(&["a", "b"]);
    for u in ["a", "b"] {
        let ix = s.k.airdrop("admin", u, "f", "H", 70);
        s.ok("airdrop", &ix);
    }
    let p = ("f.H".to_string(), "a/H".to_string());
    let ix = s.k.claim_pairs("a", "f", &[p.clone(), p]);
    let _ = s.go(&ix);
    if s.bal("a/H") > 70 {
        bad("paid twice");
    }
    same("paid or still to be paid", s.bal("a/H") + s.due("a", "f", "H"), 70);
    let ix = s.k.claim("b", "f", &["H"]);
    s.ok("claiming", &ix);
    same("b's harvest", s.bal("b/H"), 70);
""")

bug("farming-target-admin-dewhitelists", "F08",
    "the admin of the target farm revoking a whitelisting of another farm's admin",
    "another farm's admin can revoke a whitelisting and takes its rent",
    [(F + "endpoints/dewhitelist_farm_for_compounding.rs",
      "    if source_farm.admin != accounts.admin.key() {",
      "    if source_farm.admin != accounts.admin.key()\n        && accounts.target_farm.load()?.admin != accounts.admin.key()\n    {")],
    """
    let mut s = Sim::basic(&["a"]);
    s.k.farm("g");
    s.k.user("other");
    let w = s.w.clone();
    s.w = s.k.world();
    for i in 0..w.0.len() {
        s.w.0[i] = w.0[i].clone();
    }
    let ix = s.k.create_farm("other", "g", "S");
    s.ok("creating a farm", &ix);
    let ix = s.k.whitelist("admin", "f", "g");
    s.ok("whitelisting", &ix);
    let ix = s.k.dewhitelist("other", "f", "g");
    s.no("revoking another admin's whitelisting", &ix);
    let ix = s.k.dewhitelist("admin", "f", "g");
    s.ok("revoking", &ix);
""")

bug("farming-close-with-harvest", "F12",
    "a farmer with unclaimed harvest on a farm with fewer than ten harvest mints, after a settlement or claim (which sorts the unused entries first)",
    "a farmer with unclaimed harvest can be closed",
    [(F + "endpoints/close_farmer.rs",
      "    if farmer.harvests.iter().any(|h| h.tokens.amount != 0) {",
      "    let mut tracked = farmer\n        .harvests\n        .iter()\n        .take_while(|h| h.mint != Pubkey::default());\n    if tracked.any(|h| h.tokens.amount != 0) {")],
    """
    let mut s = Sim::basic(&["a"]);
    s.slot = 3;
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
    let ix = s.k.airdrop("admin", "a", "f", "H", 70);
    s.ok("airdrop", &ix);
    let ix = s.k.close_farmer("a", "f");
    s.no("closing with unclaimed harvest", &ix);
    let ix = s.k.claim("a", "f", &["H"]);
    s.ok("claiming", &ix);
    let ix = s.k.close_farmer("a", "f");
    s.ok("closing", &ix);
""")

bug("farming-compound-for-another", "F13",
    "somebody compounding one user's harvest into another user's farmer",
    "compounding across farms accepts farmers of different users",
    [(F + "endpoints/compound_across_farms.rs",
      "        constraint = source_farmer.authority == target_farmer.authority\n",
      "        constraint = source_farmer.authority != target_farmer.farm\n")],
    """
    let mut k = Kit::new(false);
    k.mint("S");
    k.mint("H");
    k.farm("f");
    k.farm("g");
    k.user("admin");
    k.wallet("admin", "H", 1000);
    for u in ["a", "b"] {
        k.user(u);
    }
    let mut s = Sim::new(k);
    s.open("f", "S", &["H"], &["a", "b"]);
    s.open("g", "H", &[], &["a", "b"]);
    let ix = s.k.whitelist("admin", "f", "g");
    s.ok("whitelisting", &ix);
    let ix = s.k.airdrop("admin", "a", "f", "H", 70);
    s.ok("airdrop", &ix);
    let ix = s.k.ix(
        "compound_across_farms",
        &[
            ("f", ""),
            ("g", ""),
            ("f.signer", ""),
            ("f>g", ""),
            ("g.vault", "w"),
            ("f.H", "w"),
            ("f:a", "w"),
            ("g:b", "w"),
            ("token", ""),
        ],
        &[],
    );
    s.no("compounding a's harvest for b", &ix);
    let ix = s.k.compound_across("a", "f", "g", "H");
    s.ok("compounding", &ix);
    same("a's deposit", s.farmer("a", "g").vested, 70);
""")

bug("farming-airdrop-into-any-vault", "F15",
    "an airdrop whose vault is the payer's own wallet",
    "an airdrop is credited although nothing was transferred to the harvest vault",
    [(F + "endpoints/airdrop.rs",
      "        seeds = [\n            Harvest::VAULT_PREFIX,\n            farmer.farm.as_ref(),\n            harvest_wallet.mint.as_ref(),\n        ],\n        bump,\n",
      "        constraint = harvest_vault.owner == &token::ID\n            @ err::acc(\"Harvest vault must be a token account\"),\n")],
    """
    let mut s = Sim::basic(&["a"]);
    let ix = s.k.ix(
        "airdrop",
        &[("admin", "s"), ("f:a", "w"), ("admin/H", "w"), ("admin/H", "w"), ("token", "")],
        &[70],
    );
    let _ = s.go(&ix);
    same("credited", s.due("a", "f", "H"), s.bal("f.H"));
    let ix = s.k.airdrop("admin", "a", "f", "H", 50);
    s.ok("airdrop", &ix);
    same("credited", s.due("a", "f", "H"), 50);
    same("vault", s.bal("f.H"), 50);
""")

bug("farming-snapshot-slot-settled-twice", "F03",
    "a farmer with staked tokens whose added tokens finish vesting at a snapshot during a harvest period",
    "the slot of that snapshot is settled twice for the tokens staked before",
    [(F + "models/farmer.rs", "                    Slot::new(snapshot.started_at.slot - 1),\n", "                    snapshot.started_at,\n")],
    """
    let mut s = Sim::basic(&["a"]);
    let ix = s.k.start("a", "a", "f", "S", 10);
    s.ok("staking", &ix);
    s.slot = 5;
    let ix = s.k.snapshot("f");
    s.ok("snapshot", &ix);
    let ix = s.k.new_period("admin", "f", "H", 10, 10, 100);
    s.ok("a period from 10 to 19", &ix);
    s.slot = 8;
    let ix = s.k.start("a", "a", "f", "S", 10);
    s.ok("staking", &ix);
    s.slot = 15;
    let ix = s.k.snapshot("f");
    s.ok("snapshot", &ix);
    s.slot = 25;
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
    // from 10 to 14: 10 of 10 staked, later 20 of 20
    let due = s.due("a", "f", "H");
    if due + 2 < 1000 || due > 1000 {
        bad(&format!("accrued {} of 1000", due));
    }
""")

bug("farming-removed-mints-stay", "F14",
    "a harvest mint removed from the farm, and a farmer who tracks it settled afterwards",
    "farmers keep entries of removed mints",
    [(F + "models/farmer.rs",
      "        farm_harvests.contains_key(farmer_harvest_mint)\n    });",
      "        farm_harvests.contains_key(farmer_harvest_mint)\n            || *farmer_harvest_mint != Pubkey::default()\n    });")],
    """
    let mut s = Sim::basic(&["a"]);
    let ix = s.k.remove_harvest("admin", "f", "H");
    s.ok("removing a mint", &ix);
    s.slot = 3;
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
    same("still tracked", s.tracks("a", "f", "H"), false);
    let ix = s.k.add_harvest("admin", "f", "H");
    s.ok("adding a mint", &ix);
    s.slot = 4;
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
    same("tracked", s.tracks("a", "f", "H"), true);
""")

bug("farming-settle-with-any-farm", "F10",
    "settling a farmer with another farm of the same harvest mint",
    "a farmer accrues what another farm, set up by anybody, promises",
    [(F + "endpoints/update_eligible_harvest.rs",
      "        constraint = farmer.farm == farm.key()\n",
      "        constraint = farmer.farm != farmer.authority\n            && farm.key() != farmer.key()\n")],
    """
    let mut k = Kit::new(false);
    k.mint("S");
    k.mint("H");
    k.farm("f");
    k.farm("g");
    k.user("admin");
    k.user("a");
    k.wallet("a", "S", 1000);
    let mut s = Sim::new(k);
    s.open("f", "S", &["H"], &["a"]);
    s.open("g", "S", &["H"], &[]);
    let ix = s.k.ix("update_eligible_harvest", &[("g", ""), ("f:a", "w")], &[]);
    s.no("settling with another farm", &ix);
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
""")

GIVE = """
    let give = |s: &mut Sim, to: &str, n: u64| {
        let a = svm::tok::with_amount(s.data(to), s.bal(to) + n);
        let i = s.k.i(to);
        s.w.set(i, a);
    };
"""

bug("farming-farm-with-any-signer", "F18",
    "creating a farm with another account passed as the farm's signer",
    "the stake vault belongs to whoever the creator names, who can take the users' stake",
    [(F + "endpoints/create_farm.rs",
      "    #[account(\n        mut,\n        seeds = [Farm::SIGNER_PDA_PREFIX, farm.key().as_ref()],\n        bump,\n    )]\n    pub farm_signer_pda",
      "    #[account(mut)]\n    pub farm_signer_pda"),
     (F + "endpoints/create_farm.rs",
      "    let farm_signer_bump_seed = *ctx.bumps.get(\"farm_signer_pda\").unwrap();\n", ""),
     (F + "endpoints/create_farm.rs",
      "    let signer_seed = &[\n        Farm::SIGNER_PDA_PREFIX,\n        &accounts.farm.key().to_bytes()[..],\n        &[farm_signer_bump_seed],\n    ];\n    token::initialize_account(\n        accounts\n            .as_init_stake_vault_context()\n            .with_signer(&[&signer_seed[..]]),\n    )?;",
      "    token::initialize_account(accounts.as_init_stake_vault_context())?;")],
    """
    let mut s = Sim::basic(&["a"]);
    s.k.farm("g");
    let mut w = s.k.world();
    for i in 0..s.w.0.len() {
        w.0[i] = s.w.0[i].clone();
    }
    s.w = w;
    let good = s.k.create_farm("a", "g", "S");
    let mut ix = good.clone();
    let (is, to) = (s.k.i("g.signer"), s.k.i("a"));
    for m in ix.metas.iter_mut().filter(|m| m.i == is) {
        m.i = to;
    }
    s.no("creating a farm whose vault belongs to its creator", &ix);
    s.ok("creating a farm", &good);
""")

bug("farming-replacement-returns-surplus", "F19",
    "a harvest vault which holds more than the period paid in, and a first, scheduled period replaced by a cheaper one",
    "the surplus is paid out with the difference",
    [(F + "endpoints/new_harvest_period.rs",
      "        total_tokens_emitted_per_period((starts_at, ends_at), tps)?\n    } else {",
      "        // all periods before this one have been paid in and claimed, so\n        // the vault holds what was deposited for the launch\n        let deposited =\n            total_tokens_emitted_per_period((starts_at, ends_at), tps)?;\n        let is_only_period = farm\n            .harvests\n            .iter()\n            .filter(|h| h.mint == harvest_mint)\n            .all(|h| h.periods[1].ends_at.slot == 0);\n        if is_only_period {\n            TokenAmount::new(accounts.harvest_vault.amount.max(deposited.amount))\n        } else {\n            deposited\n        }\n    } else {")],
    """
    let mut s = Sim::basic(&["a"]);
""" + GIVE + """
    let ix = s.k.new_period("admin", "f", "H", 100, 10, 10);
    s.ok("scheduling a period", &ix);
    give(&mut s, "f.H", 7);
    let before = s.bal("admin/H");
    let ix = s.k.new_period("admin", "f", "H", 100, 10, 9);
    s.ok("replacing it by a cheaper one", &ix);
    same("paid back", s.bal("admin/H") - before, 10);
    same("vault", s.bal("f.H"), 97);
""")

bug("farming-vault-created-by-hand", "F19",
    "adding a harvest mint whose vault's address received lamports before",
    "the mint can never be added",
    [(F + "endpoints/add_harvest.rs",
      "        init,\n        payer = admin,\n        space = TokenAccount::LEN,\n        owner = token_program.key(),\n        seeds = [\n            Harvest",
      "        mut,\n        seeds = [\n            Harvest"),
     (F + "endpoints/add_harvest.rs",
      "    // init the token account for the harvest vault\n",
      "    let vault_seed = &[\n        Harvest::VAULT_PREFIX,\n        &accounts.farm.key().to_bytes()[..],\n        &accounts.harvest_mint.key().to_bytes()[..],\n        &[*ctx.bumps.get(\"harvest_vault\").unwrap()],\n    ];\n    anchor_lang::system_program::create_account(\n        CpiContext::new(\n            accounts.system_program.to_account_info(),\n            anchor_lang::system_program::CreateAccount {\n                from: accounts.admin.to_account_info(),\n                to: accounts.harvest_vault.to_account_info(),\n            },\n        )\n        .with_signer(&[&vault_seed[..]]),\n        Rent::get()?.minimum_balance(TokenAccount::LEN),\n        TokenAccount::LEN as u64,\n        &accounts.token_program.key(),\n    )?;\n\n    // init the token account for the harvest vault\n")],
    """
    let mut s = Sim::basic(&["a"]);
    s.k.mint("G");
    let mut w = s.k.world();
    for i in 0..s.w.0.len() {
        w.0[i] = s.w.0[i].clone();
    }
    s.w = w;
    let mut a = s.data("f.G").clone();
    a.lamports += 1;
    let i = s.k.i("f.G");
    s.w.set(i, a);
    let ix = s.k.add_harvest("admin", "f", "G");
    s.ok("adding a mint whose vault's address has a lamport", &ix);
""")

bug("farming-close-with-vesting", "F12",
    "closing a farmer who has vesting but no staked tokens and no harvest",
    "the deposit of the closed farmer is lost",
    [(F + "endpoints/close_farmer.rs", "if farmer.total_deposited()?.amount != 0 {", "if farmer.staked.amount != 0 {")],
    """
    let mut s = Sim::basic(&["a"]);
    let ix = s.k.start("a", "a", "f", "S", 10);
    s.ok("staking", &ix);
    let ix = s.k.close_farmer("a", "f");
    s.no("closing with a deposit", &ix);
    let ix = s.k.stop("a", "f", "S", 10);
    s.ok("unstaking", &ix);
    let ix = s.k.close_farmer("a", "f");
    s.ok("closing", &ix);
""")

bug("farming-period-starts-in-last-slot", "F06",
    "a period which starts in the very slot in which the one before ends",
    "two periods cover one slot",
    [(F + "models/farm.rs", "if latest_started_period.ends_at >= starts_at {", "if latest_started_period.ends_at > starts_at {")],
    """
    let mut s = Sim::basic(&["a"]);
    let ix = s.k.new_period("admin", "f", "H", 1, 10, 1);
    s.ok("a period", &ix);
    let ix = s.k.new_period("admin", "f", "H", 10, 10, 1);
    s.no("a period which overlaps it", &ix);
    let ix = s.k.new_period("admin", "f", "H", 11, 10, 1);
    s.ok("a period after it", &ix);
""")

bug("farming-harvest-rounds-up", "F02",
    "several farmers whose shares have fractions, who claim one after another",
    "together they are recorded more than was paid in, so that the last claim fails",
    [(F + "models/farmer.rs", "eligible_harvest.try_floor()?", "eligible_harvest.try_ceil()?")],
    """
    let mut s = Sim::basic(&["a", "b", "c"]);
    for u in ["a", "b", "c"] {
        let ix = s.k.start(u, u, "f", "S", 1);
        s.ok("staking", &ix);
    }
    s.slot = 5;
    let ix = s.k.snapshot("f");
    s.ok("snapshot", &ix);
    s.slot = 6;
    let ix = s.k.new_period("admin", "f", "H", 6, 10, 1);
    s.ok("a period", &ix);
    s.slot = 20;
    for u in ["a", "b", "c"] {
        let ix = s.k.settle(u, "f");
        s.ok("settling", &ix);
        let ix = s.k.claim(u, "f", &["H"]);
        s.ok("claiming", &ix);
    }
    same("harvest of all", s.bal("a/H") + s.bal("b/H") + s.bal("c/H") <= 10, true);
""")

bug("farming-anybody-unstakes", "F09",
    "unstaking with the farmer's authority named but not signing",
    "anybody can pay somebody's deposit out to themselves",
    [(F + "endpoints/stop_farming.rs",
      "    pub authority: Signer<'info>,", "    ///\n    /// CHECK: the farmer is derived from it\n    pub authority: AccountInfo<'info>,")],
    """
    let mut s = Sim::basic(&["a", "b"]);
    let ix = s.k.start("a", "a", "f", "S", 10);
    s.ok("staking", &ix);
    let mut ix = s.k.stop_to("a", "f", "b/S", 10);
    for m in ix.metas.iter_mut() {
        m.s = false;
    }
    s.no("unstaking without the authority's signature", &ix);
    let ix = s.k.stop("a", "f", "S", 10);
    s.ok("unstaking", &ix);
""")

bug("farming-settle-forgets-order", "F17",
    "a farmer settled with an earlier slot than last time, and settled again later",
    "slots are settled again",
    [(F + "models/farmer.rs",
      "        if self.calculate_next_harvest_from > current_slot {\n            return Ok(());\n        }",
      "        if self.calculate_next_harvest_from > current_slot {\n            // nothing to pay for this period\n            self.calculate_next_harvest_from.slot = current_slot.slot + 1;\n            return Ok(());\n        }")],
    """
    let mut s = Sim::basic(&["a"]);
    let ix = s.k.start("a", "a", "f", "S", 10);
    s.ok("staking", &ix);
    s.slot = 5;
    let ix = s.k.snapshot("f");
    s.ok("snapshot", &ix);
    s.slot = 6;
    let ix = s.k.new_period("admin", "f", "H", 6, 100, 10);
    s.ok("a period", &ix);
    s.slot = 15;
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
    let ix = s.k.settle_until("a", "f", 8);
    let _ = s.go(&ix);
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
    same("accrued in ten slots", s.due("a", "f", "H") <= 100, true);
""")

bug("farming-close-only-untracked", "F16",
    "closing a farmer who has been settled since the farm has a harvest mint",
    "a farmer who tracks harvest mints can never be closed, though empty",
    [(F + "endpoints/close_farmer.rs", "if farmer.harvests.iter().any(|h| h.tokens.amount != 0) {",
      "if farmer.harvests.iter().any(|h| h.mint != Pubkey::default()) {")],
    """
    let mut s = Sim::basic(&["a"]);
    let ix = s.k.start("a", "a", "f", "S", 10);
    s.ok("staking", &ix);
    let ix = s.k.stop("a", "f", "S", 10);
    s.ok("unstaking", &ix);
    let ix = s.k.close_farmer("a", "f");
    s.ok("closing an empty farmer", &ix);
""")

bug("farming-airdrop-saturates", "F15",
    "an airdrop which would raise a farmer's harvest above 64 bits",
    "the farmer is credited less than what is transferred",
    [(F + "endpoints/airdrop.rs",
      "    harvest.amount = harvest\n        .amount\n        .checked_add(airdrop.amount)\n        .ok_or(FarmingError::MathOverflow)?;",
      "    harvest.amount = harvest.amount.saturating_add(airdrop.amount);")],
    """
    let mut s = Sim::basic(&["a"]);
    let ix = s.k.settle("a", "f");
    s.ok("settling", &ix);
    let (i, j) = (s.k.i("admin/H"), s.k.i("f.H"));
    let half = 1u64 << 63;
    for n in 0..2 {
        let a = svm::tok::with_amount(s.data("admin/H"), half);
        s.w.set(i, a);
        let ix = s.k.airdrop("admin", "a", "f", "H", half);
        if n == 0 {
            s.ok("airdrop", &ix);
        } else {
            // as if claimed by somebody else's clock: the vault has room
            let a = svm::tok::with_amount(s.data("f.H"), 0);
            s.w.set(j, a);
            s.no("airdrop beyond 64 bits", &ix);
        }
    }
""")
