v2 = "instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs"
v1 = "instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs"
cf = "state/config.rs"
cl = "migration_handler/concentrated_liquidity.rs"
cp = "migration_handler/compounding_liquidity.rs"
mh = "migration_handler/mod.rs"
md = "instructions/migration/meteora_damm/meteora_damm_metadata_state.rs"
lk = "instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs"
ck = "instructions/migration/meteora_damm/meteora_damm_claim_lp_token.rs"
# C20
M("quote rounds down at migration", "C20", (cf, "            100.safe_sub(migration_fee_percentage.into())?,\n            100,\n            Rounding::Up,", "            100.safe_sub(migration_fee_percentage.into())?,\n            100,\n            Rounding::Down,"))
M("base vault with fees", "C20", (v2, "            initial_base_vault_amount.safe_sub(protocol_and_partner_base_fee)?,", "            initial_base_vault_amount,"))
M("second position from included", "C20", (v2, "excluded_protocol_fee_migration_quote_amount.safe_sub(deposited_quote_amount)?", "included_protocol_fee_migration_quote_amount.safe_sub(deposited_quote_amount)?"))
M("compounding max", "C20", (cp, "Ok(liquidity_from_base.min(liquidity_from_quote))", "Ok(liquidity_from_base.max(liquidity_from_quote))"))
M("concentrated compare", "C20", (cl, "if liquidity_from_base > U512::from(liquidity_from_quote) {\n        Ok(liquidity_from_quote)", "if liquidity_from_base < U512::from(liquidity_from_quote) {\n        Ok(liquidity_from_quote)"))
M("dead liquidity distributed", "C20", (cp, "total_liquidity.safe_sub(DAMM_V2_COMPOUNDING_DEAD_LIQUIDITY)?;\n        Ok", "total_liquidity;\n        Ok"))
M("price rounded down", "C20", (cp, "sqrt_price: sqrt_price,\n", "sqrt_price,\n"), (cp, "            .div_ceil(U256::from(token_a_amount)),", "            .checked_div(U256::from(token_a_amount))?,")) if 0 else None
M("price rounded down", "C20", (cp, "            .div_ceil(U256::from(token_a_amount)),", "            .checked_div(U256::from(token_a_amount))?,"))
M("fee not saved v1", "C20", (v1, "        protocol_migration_base_fee,\n        protocol_migration_quote_fee,\n    );", "        protocol_migration_quote_fee,\n        protocol_migration_base_fee,\n    );"))
M("no completion check", "C20", (v1, "virtual_pool.is_curve_complete(config.migration_quote_threshold)", "virtual_pool.is_curve_complete(config.migration_quote_threshold) || config.migration_fee_option == 3"))
M("wrong stage", "C20", (v2, "virtual_pool.get_migration_progress()? == MigrationProgress::LockedVesting", "virtual_pool.get_migration_progress()? != MigrationProgress::CreatedPool"))
M("not marked", "C20", (v1, "    virtual_pool.update_after_create_pool();\n", ""))
M("handler by option swapped", "C20", (mh, "if migrated_collect_fee_mode == MigratedCollectFeeMode::Compounding {", "if migrated_collect_fee_mode == MigratedCollectFeeMode::OutputToken {"))
M("fee base rounding by quote", "C20", (cl, "            fee_liquidity,\n            Rounding::Down,", "            quote_fee_amount.into(),\n            Rounding::Down,"))
M("first position gets creator", "C20 C21", (v2, "    if partner_liquidity_distribution.get_total_liquidity()?\n        > creator", "    if partner_liquidity_distribution.unlocked_liquidity\n        > creator"))
# C21
M("owners swapped for the second", "C21", (v2, "            config.fee_claimer,\n            virtual_pool.creator,\n        )", "            config.fee_claimer,\n            config.fee_claimer,\n        )"))
M("lock only permanent", "C21", (v2, "if first_position_liquidity_distribution.get_total_locked_liquidity()? > 0 {", "if first_position_liquidity_distribution.permanent_locked_liquidity > 0 {"))
M("second not locked when first is not", "C21", (v2, "if second_position_liquidity_distribution.get_total_locked_liquidity()? > 0 {", "if first_position_liquidity_distribution.get_total_locked_liquidity()? > 0\n            && second_position_liquidity_distribution.get_total_locked_liquidity()? > 0\n        {"))
M("adjust after", "C21", (v2, "        second_position_liquidity_distribution.adjust_liquidity(liquidity_for_second_position)?;\n", ""), (v2, "    virtual_pool.update_after_create_pool();", "    second_position_liquidity_distribution.adjust_liquidity(liquidity_for_second_position)?;\n    virtual_pool.update_after_create_pool();"))
M("vest for creator info", "C21", (cf, "                liquidity_vesting_info: self.partner_liquidity_vesting_info,", "                liquidity_vesting_info: self.creator_liquidity_vesting_info,"))
M("creator percent", "C21", (cf, "                permanent_locked_liquidity_percentage: self\n                    .creator_permanent", "                permanent_locked_liquidity_percentage: self\n                    .partner_permanent"))
M("cliff from period", "C21", (cf, "current_timestamp.safe_add(cliff_duration_from_migration_time.into())?", "current_timestamp.safe_add(frequency.into())?"))
M("adjust rounds", "C21", (cf, "            let permanent_locked_liquidity =\n                liquidity_subject_to_lock.safe_sub(vested_liquidity)?;", "            let permanent_locked_liquidity = self\n                .permanent_locked_liquidity\n                .min(liquidity_subject_to_lock.safe_sub(vested_liquidity)?);"))
M("handover first", "C21", (v2, "    // lock lp\n", "    ctx.accounts.set_authority_for_position(\n        &ctx.accounts.first_position_nft_account.to_account_info(),\n        first_position_owner,\n        const_pda::pool_authority::BUMP,\n    )?;\n"), (v2, """    msg!("transfer ownership of the first position");
    ctx.accounts.set_authority_for_position(
        &ctx.accounts.first_position_nft_account.to_account_info(),
        first_position_owner,
        const_pda::pool_authority::BUMP,
    )?;
""", ""))
M("close authority", "C21", (v2, "AuthorityType::AccountOwner", "AuthorityType::CloseAccount"))
M("locks first nft for second", "C21", (v2, "                &second_position,\n                &second_position_nft_account,", "                &second_position,\n                &ctx.accounts.first_position_nft_account.to_account_info(),"))
M("damm v1 unlocked", "C21", (cf, "let creator_liquidity = self.creator.unlocked_liquidity.safe_cast()?;", "let creator_liquidity = self.creator.get_total_liquidity()?.safe_cast()?;"))
M("permanent lock capped", "C21", (v2, "                    liquidity_distribution.permanent_locked_liquidity,\n", "                    liquidity_distribution.permanent_locked_liquidity.min(u64::MAX.into()),\n"))
M("cliff shortened", "C21", (cf, "cliff_duration_from_migration_time = cliff_duration_from_migration_time.max(1);", "cliff_duration_from_migration_time = cliff_duration_from_migration_time.min(1);"))
# C34
M("schedule not refused", "C34", (v2, "                fee_scheduler.period_frequency == 0\n                    && fee_scheduler.reduction_factor == 0", "                fee_scheduler.period_frequency == 0\n                    || fee_scheduler.reduction_factor == 0"))
M("wrong fee 400", "C34", (cf, "base_fee_bps == 400", "base_fee_bps == 40"))
M("creator authority unchecked in v1", "C34", (v1, "self.damm_config.pool_creator_authority == self.pool_authority.key()", "self.damm_config.pool_creator_authority == self.pool_authority.key()\n                || self.damm_config.pool_creator_authority == Pubkey::default()"))
M("partner fee", "C34", (v1, "            self.damm_config.partner_fee_numerator == 0,", "            self.damm_config.partner_fee_numerator < 100,"))
M("compounding bps dropped", "C34", (cf, "            compounding_fee_bps: self.migrated_compounding_fee_bps,", "            compounding_fee_bps: self.migrated_pool_fee_bps,"))
M("fee modes crossed", "C34", (mh, "MigratedCollectFeeMode::QuoteToken => Ok(1),\n            MigratedCollectFeeMode::OutputToken => Ok(0),", "MigratedCollectFeeMode::QuoteToken => Ok(0),\n            MigratedCollectFeeMode::OutputToken => Ok(1),"))
M("only default vault", "C34", (v2, "damm_config.vault_config_key == Pubkey::default()", "damm_config.vault_config_key != const_pda::pool_authority::ID"))
M("dynamic on when off", "C34", (cf, "            DammV2DynamicFee::Disable => Ok(None),", "            DammV2DynamicFee::Disable => Ok(calculate_dynamic_fee_params(min_base_fee_numerator).ok()),"))
M("unchecked loader", "C34", (v2, "AccountLoader::try_from(&ctx.remaining_accounts[0])?;", "AccountLoader::try_from_unchecked(&damm_v2::ID, &ctx.remaining_accounts[0])?;"))
# C35
M("protocol fee burnt", "C35", (v2, "        protocol_and_partner_base_fee.safe_add(protocol_migration_base_fee)?;", "        protocol_and_partner_base_fee;\n    let _ = protocol_migration_base_fee;"))
M("stale balance", "C35", (v2, "    // burn the rest of token in pool authority after migrated amount and fee\n    ctx.accounts.base_vault.reload()?;\n", ""))
M("fixed burns all", "C35", (cf, "Ok(max_burnable_amount.min(leftover))", "Ok(leftover.max(max_burnable_amount.min(leftover)))"))
M("burn from difference reversed", "C35", (cf, "            Ok(u64::MAX)\n", "            Ok(self.migration_base_threshold)\n"))
M("burn only large", "C35", (v1, "if burnable_amount > 0 {", "if burnable_amount > 1 {"))
# C36
M("partner not marked in self partnered", "C36", (md, "        self.set_creator_lock_status();\n        self.set_partner_lock_status();", "        self.set_partner_lock_status();"))
M("or instead of and", "C36", (md, "!self.is_creator_claim_liquidity() && !self.is_partner_claim_liquidity()", "!(self.is_creator_claim_liquidity() && self.is_partner_claim_liquidity())"))
M("lock marks claim", "C36", (md, "        self.set_partner_lock_status();\n\n        Ok(self.partner_locked_liquidity)", "        self.set_partner_claim_status();\n\n        Ok(self.partner_locked_liquidity)"))
M("claims locked amount", "C36", (md, "        Ok(self.creator_liquidity)", "        Ok(self.creator_locked_liquidity)"))
M("partner by payer", "C36", (ck, "(true, false) => migration_metadata.claim_as_partner()?", "(true, false) => migration_metadata.claim_as_creator()?"))
M("escrow owner", "C36", (lk, "has_one = owner", ""))
# keeps
S("owner chosen first", "C20 C21 C34 C35", (v2, """    let LiquidityDistribution {
        partner: partner_liquidity_distribution,
        creator: creator_liquidity_distribution,
    } = config.get_liquidity_distribution(distributable_liquidity)?;
""", """    let distribution = config.get_liquidity_distribution(distributable_liquidity)?;
    let partner_liquidity_distribution = distribution.partner;
    let creator_liquidity_distribution = distribution.creator;
    let partner_total = partner_liquidity_distribution.get_total_liquidity()?;
    let creator_total = creator_liquidity_distribution.get_total_liquidity()?;
"""), (v2, """    ) = if partner_liquidity_distribution.get_total_liquidity()?
        > creator_liquidity_distribution.get_total_liquidity()?
    {
        (
            partner_liquidity_distribution,
            creator_liquidity_distribution,
            config.fee_claimer,
            virtual_pool.creator,
        )
    } else {
        (
            creator_liquidity_distribution,
            partner_liquidity_distribution,
            virtual_pool.creator,
            config.fee_claimer,
        )
    };""", """    ) = if creator_total >= partner_total {
        (
            creator_liquidity_distribution,
            partner_liquidity_distribution,
            virtual_pool.creator,
            config.fee_claimer,
        )
    } else {
        (
            partner_liquidity_distribution,
            creator_liquidity_distribution,
            config.fee_claimer,
            virtual_pool.creator,
        )
    };"""))
S("burn helper", "C20 C35", (v2, """    let burnable_amount = config.get_burnable_amount_post_migration(left_base_token)?;

    if burnable_amount > 0 {
        let seeds = pool_authority_seeds!(const_pda::pool_authority::BUMP);
        anchor_spl::token_interface::burn(
            CpiContext::new_with_signer(
                ctx.accounts.token_base_program.to_account_info(),
                anchor_spl::token_interface::Burn {
                    mint: ctx.accounts.base_mint.to_account_info(),
                    from: ctx.accounts.base_vault.to_account_info(),
                    authority: ctx.accounts.pool_authority.to_account_info(),
                },
                &[&seeds[..]],
            ),
            burnable_amount,
        )?;
    }
""", "    burn_leftover(&ctx.accounts, &config, left_base_token)?;\n"), (v2, "pub fn handle_migrate_damm_v2", """fn burn_leftover<'info>(
    accounts: &MigrateDammV2Ctx<'info>,
    config: &PoolConfig,
    left: u64,
) -> Result<()> {
    let amount = config.get_burnable_amount_post_migration(left)?;
    if amount == 0 {
        return Ok(());
    }
    let seeds = pool_authority_seeds!(const_pda::pool_authority::BUMP);
    anchor_spl::token_interface::burn(
        CpiContext::new_with_signer(
            accounts.token_base_program.to_account_info(),
            anchor_spl::token_interface::Burn {
                mint: accounts.base_mint.to_account_info(),
                from: accounts.base_vault.to_account_info(),
                authority: accounts.pool_authority.to_account_info(),
            },
            &[&seeds[..]],
        ),
        amount,
    )
}

pub fn handle_migrate_damm_v2"""))
S("lock calls without a vec", "C20 C21 C34", (v2, """        let mut called_functions: Vec<Box<dyn Fn() -> Result<()>>> = vec![];

        if liquidity_distribution.permanent_locked_liquidity > 0 {
            called_functions.push(Box::new(move || {
                let pool_authority_seeds = pool_authority_seeds!(BUMP);
                damm_v2::cpi::permanent_lock_position(""", """        let lock_permanent = || -> Result<()> {
            if liquidity_distribution.permanent_locked_liquidity > 0 {
                let pool_authority_seeds = pool_authority_seeds!(BUMP);
                damm_v2::cpi::permanent_lock_position("""), (v2, """                    liquidity_distribution.permanent_locked_liquidity,
                )
            }));
        }
        if liquidity_distribution.vested_liquidity > 0 {
            let vesting_params =
                liquidity_distribution.get_damm_v2_vesting_parameters(current_timestamp)?;

            called_functions.push(Box::new(move || {
                let""", """                    liquidity_distribution.permanent_locked_liquidity,
                )?;
            }
            Ok(())
        };
        let lock_vested = || -> Result<()> {
            if liquidity_distribution.vested_liquidity > 0 {
                let vesting_params =
                    liquidity_distribution.get_damm_v2_vesting_parameters(current_timestamp)?;
                let"""), (v2, """                    vesting_params,
                )
            }));
        }
""", """                    vesting_params,
                )?;
            }
            Ok(())
        };
"""), (v2, """                    for function in called_functions.iter() {
                        function()?;
                    }
                    Ok(())""", """                    lock_permanent()?;
                    lock_vested()"""))
S("fee checks as match", "C34", (cf, """            MigrationFeeOption::FixedBps25 => {
                require!(base_fee_bps == 25, PoolError::InvalidMigrationFeeOption);
            }
            MigrationFeeOption::FixedBps30 => {
                require!(base_fee_bps == 30, PoolError::InvalidMigrationFeeOption);
            }
""", """            MigrationFeeOption::FixedBps25 | MigrationFeeOption::FixedBps30 => {
                let want = if *self == MigrationFeeOption::FixedBps25 { 25 } else { 30 };
                require_eq!(base_fee_bps, want, PoolError::InvalidMigrationFeeOption);
            }
"""))
S("metadata helper", "C36", (md, """        require!(
            !self.is_creator_liquidity_locked() && !self.is_partner_liquidity_locked(),
            PoolError::NotPermitToDoThisAction
        );

        let liquidity_token_to_lock = self
            .partner_locked_liquidity
            .safe_add(self.creator_locked_liquidity)?;
        require!(
            liquidity_token_to_lock != 0,
            PoolError::NotPermitToDoThisAction
        );

        self.set_creator_lock_status();
        self.set_partner_lock_status();

        Ok(liquidity_token_to_lock)""", """        if self.partner_locked_status == 1 {
            return Err(PoolError::NotPermitToDoThisAction.into());
        }
        require!(
            !self.is_creator_liquidity_locked(),
            PoolError::NotPermitToDoThisAction
        );
        self.set_partner_lock_status();
        self.set_creator_lock_status();
        let total = self
            .creator_locked_liquidity
            .safe_add(self.partner_locked_liquidity)?;
        require!(total > 0, PoolError::NotPermitToDoThisAction);
        Ok(total)"""))
S("fixed supply inline", "C20 C35", (cf, """        if self.is_fixed_token_supply() {
            Ok(self
                .pre_migration_token_supply
                .safe_sub(self.post_migration_token_supply)?)
        } else {
            Ok(u64::MAX)
        }""", """        if !self.is_fixed_token_supply() {
            return Ok(u64::MAX);
        }
        let reduction = self
            .pre_migration_token_supply
            .safe_sub(self.post_migration_token_supply)?;
        Ok(reduction)"""), (cf, "Ok(max_burnable_amount.min(leftover))", "if leftover < max_burnable_amount {\n            Ok(leftover)\n        } else {\n            Ok(max_burnable_amount)\n        }"))
S("distribution reorder", "C20 C21", (cf, """        let creator_liquidity = liquidity
            .safe_sub(partner_liquidity)?
            .safe_sub(partner_permanent_locked_liquidity)?
            .safe_sub(partner_vested_liquidity)?
            .safe_sub(creator_permanent_locked_liquidity)?
            .safe_sub(creator_vested_liquidity)?;""", """        let creator_locked =
            creator_vested_liquidity.safe_add(creator_permanent_locked_liquidity)?;
        let partner_total = partner_liquidity
            .safe_add(partner_vested_liquidity)?
            .safe_add(partner_permanent_locked_liquidity)?;
        let creator_liquidity = liquidity.safe_sub(partner_total.safe_add(creator_locked)?)?;"""))
S("min by u512", "C20 C21", (cl, """    if liquidity_from_base > U512::from(liquidity_from_quote) {
        Ok(liquidity_from_quote)
    } else {
        Ok(liquidity_from_base
            .try_into()
            .map_err(|_| PoolError::TypeCastFailed)?)
    }""", """    let smaller = liquidity_from_base.min(U512::from(liquidity_from_quote));
    Ok(smaller
        .try_into()
        .map_err(|_| PoolError::TypeCastFailed)?)"""))
S("price delta first", "C20 C21", (cp, """        let liquidity_from_base = safe_mul_div_cast_u128(
            u128::from(base_amount),
            pool_liquidity,
            u128::from(pool_base_reserve),
            Rounding::Down,
        )?;

        let liquidity_from_quote = safe_mul_div_cast_u128(
            u128::from(quote_amount),
            pool_liquidity,
            u128::from(pool_quote_reserve),
            Rounding::Down,
        )?;

        Ok(liquidity_from_base.min(liquidity_from_quote))""", """        let share = |amount: u64, reserve: u64| {
            safe_mul_div_cast_u128(
                pool_liquidity,
                u128::from(amount),
                u128::from(reserve),
                Rounding::Down,
            )
        };
        let from_quote = share(quote_amount, pool_quote_reserve)?;
        let from_base = share(base_amount, pool_base_reserve)?;
        Ok(if from_base < from_quote {
            from_base
        } else {
            from_quote
        })"""))
