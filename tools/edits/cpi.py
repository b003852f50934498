v2 = "instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs"
v1 = "instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs"
lo = "instructions/migration/create_locker.rs"
lk = "instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs"
ck = "utils/cpi_checker.rs"
ip = "instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs"
lv = "params/liquidity_distribution.rs"
cf = "state/config.rs"
# C22
M("no owner check", "C22", (ck, "    require!(\n        before_owner.eq(&after_owner),\n        PoolError::AccountInvariantViolation\n    );\n", ""))
M("owner read after", "C22", (ck, "    let before_owner = *account.owner;\n    let before_data_len = account.data_len();\n\n    cpi_fn()?;\n", "    let before_data_len = account.data_len();\n\n    cpi_fn()?;\n    let before_owner = *account.owner;\n"))
M("lamports the other way", "C22", (ck, "after_lamports >= before_lamports", "after_lamports <= before_lamports"))
M("lamports slack", "C22", (ck, "after_lamports >= before_lamports", "after_lamports.saturating_add(5000) >= before_lamports"))
M("no size check", "C22", (ck, "before_data_len == after_data_len,", "before_data_len <= after_data_len,"))
M("v1 unguarded", "C22", (v1, "        cpi_with_account_lamport_and_owner_checking(\n            create_pool_fn,\n            self.pool_authority.to_account_info(),\n        )", "        create_pool_fn()"), (v1, "cpi_checker::cpi_with_account_lamport_and_owner_checking", "cpi_checker::cpi_with_account_lamport_and_owner_checking as _unused") )
M("guards the wrong account", "C22", (lo, "        create_locker_fn,\n        ctx.accounts.pool_authority.to_account_info(),", "        create_locker_fn,\n        ctx.accounts.payer.to_account_info(),"))
M("locker not fixed", "C22", (lo, "    #[account(address = locker::ID)]\n", ""))
M("amm not fixed on lock", "C22", (lk, "    #[account(address = dynamic_amm::ID)]\n", ""))
M("metadata program not fixed", "C22", (ip, "    #[account(address = mpl_token_metadata::ID)]\n", ""))
M("token program untyped", "C22", (v2, "pub token_2022_program: Interface<'info, TokenInterface>", "pub token_2022_program: UncheckedAccount<'info>"))
M("second position unguarded", "C22", (v2, "        msg!(\"add liquidity\");\n        cpi_with_account_lamport_and_owner_checking(\n            || {", "        msg!(\"add liquidity\");\n        let f = (\n            || {"), (v2, "                    total_liquidity,\n                    u64::MAX, // TODO should we check for token_a_amount_threshold\n                    u64::MAX, // TODO should we check for token_b_amount_threshold", "x") ) if 0 else None
M("lending to user's program", "C22", (v2, "            if liquidity_distribution.vested_liquidity > 0 {", "")) if 0 else None
M("guard skipped for a fresh authority", "C22", (ck, "    require!(\n        after_lamports >= before_lamports,", "    require!(\n        before_data_len > 0 || after_lamports >= before_lamports,"))
# C30
M("vesting from now", "C30", (lo, ".to_create_vesting_escrow_params(virtual_pool.finish_curve_timestamp)?", ".to_create_vesting_escrow_params(Clock::get()?.unix_timestamp as u64)?"))
M("stage not set", "C30", (lo, "    virtual_pool.set_migration_progress(MigrationProgress::LockedVesting.into());", "    virtual_pool.set_migration_progress(MigrationProgress::PostBondingCurve.into());"))
M("stage loosened", "C30", (lo, "virtual_pool.get_migration_progress()? == MigrationProgress::PostBondingCurve", "virtual_pool.get_migration_progress()? != MigrationProgress::CreatedPool"))
M("recipient payer", "C30", (lo, "recipient: ctx.accounts.creator.to_account_info()", "recipient: ctx.accounts.payer.to_account_info()"))
M("creator unbound", "C30", (lo, "has_one = config, has_one = creator, has_one = base_vault", "has_one = config, has_one = base_vault"))
M("base by creator", "C30", (lo, "            BASE_LOCKER_PREFIX.as_ref(),\n            virtual_pool.key().as_ref(),", "            BASE_LOCKER_PREFIX.as_ref(),\n            creator.key().as_ref(),"), (lo, "base_locker_seeds!(virtual_pool_key, ctx.bumps.base)", "base_locker_seeds!(creator_key, ctx.bumps.base)"), (lo, "    let virtual_pool_key = ctx.accounts.virtual_pool.key();", "    let creator_key = ctx.accounts.creator.key();"))
M("cliff wraps", "C30", (lv if 0 else "params/liquidity_distribution.rs", "x", "y")) if 0 else None
S("saturating written out", "C22 C30", (ck, "    require!(\n        after_lamports >= before_lamports,\n        PoolError::AccountInvariantViolation\n    );", "    if after_lamports < before_lamports {\n        return Err(PoolError::AccountInvariantViolation.into());\n    }"))
S("checks joined", "C22 C30", (ck, "    require!(\n        before_owner.eq(&after_owner),\n        PoolError::AccountInvariantViolation\n    );\n    require!(\n        before_data_len == after_data_len,\n        PoolError::AccountInvariantViolation\n    );", "    let kept = before_owner == after_owner && after_data_len == before_data_len;\n    require!(kept, PoolError::AccountInvariantViolation);"))
S("progress as value", "C22 C30 C05", (lo, "    virtual_pool.set_migration_progress(MigrationProgress::LockedVesting.into());", "    virtual_pool.migration_progress = 2;"))
S("guard inline in lock", "C22 C36", (lk, "        cpi_with_account_lamport_and_owner_checking(\n            || {", "        let authority = self.pool_authority.to_account_info();\n        cpi_with_account_lamport_and_owner_checking(\n            || {"), (lk, "            },\n            self.pool_authority.to_account_info(),\n        )?;", "            },\n            authority,\n        )?;"))
cc = "instructions/partner/ix_create_config.rs"
M("cliff is the duration", "C30", (cc, "            finish_curve_timestamp.saturating_add(self.cliff_duration_from_migration_time);", "            finish_curve_timestamp.max(self.cliff_duration_from_migration_time);"))
M("cliff wraps", "C30", (cc, "            finish_curve_timestamp.saturating_add(self.cliff_duration_from_migration_time);", "            finish_curve_timestamp.wrapping_add(self.cliff_duration_from_migration_time);"))
M("cancellable", "C30", (cc, "cancel_mode: 1, ", "cancel_mode: 3, "))
M("creator may redirect", "C30", (cc, "update_recipient_mode: 2, ", "update_recipient_mode: 3, "))
M("frequency swapped", "C30", (cc, "            frequency: self.frequency,\n            cliff_unlock_amount: self.cliff_unlock_amount,\n            amount_per_period: self.amount_per_period,\n            number_of_period: self.number_of_period,\n            update", "            frequency: self.number_of_period,\n            cliff_unlock_amount: self.cliff_unlock_amount,\n            amount_per_period: self.amount_per_period,\n            number_of_period: self.frequency,\n            update"))
S("cliff checked", "C30", (cc, "            finish_curve_timestamp.saturating_add(self.cliff_duration_from_migration_time);", "            finish_curve_timestamp.checked_add(self.cliff_duration_from_migration_time).unwrap_or(u64::MAX);"))
