# wide behaviour-preserving refactorings of the instructions and fee schedules; run together: tools/mutate.py -c ref_b.py
ix, tok, fr, fs, bm = "instructions/swap/ix_swap.rs", "utils/token.rs", "base_fee/fee_rate_limiter.rs", "base_fee/fee_scheduler.rs", "base_fee/mod.rs"
S("swap direction and transfers", "C10", (ix, '''        if self.input_token_account.mint == self.base_mint.key() {
            return TradeDirection::BaseToQuote;
        }
        TradeDirection::QuoteToBase''', '''        if self.base_mint.key().ne(&self.input_token_account.mint) {
            TradeDirection::QuoteToBase
        } else {
            TradeDirection::BaseToQuote
        }'''), (ix, '''    if let Some(referral_token_account) = ctx.accounts.referral_token_account.as_ref() {
        if fee_mode.fees_on_base_token {
            transfer_token_from_pool_authority(
                ctx.accounts.pool_authority.to_account_info(),
                &ctx.accounts.base_mint,
                &ctx.accounts.base_vault,
                referral_token_account.to_account_info(),
                &ctx.accounts.token_base_program,
                swap_result.referral_fee,
            )?;
        } else {
            transfer_token_from_pool_authority(
                ctx.accounts.pool_authority.to_account_info(),
                &ctx.accounts.quote_mint,
                &ctx.accounts.quote_vault,
                referral_token_account.to_account_info(),
                &ctx.accounts.token_quote_program,
                swap_result.referral_fee,
            )?;
        }
    }
''', '''    match &ctx.accounts.referral_token_account {
        None => {}
        Some(referral) => {
            let (mint, vault, program) = if fee_mode.fees_on_base_token {
                (&ctx.accounts.base_mint, &ctx.accounts.base_vault, &ctx.accounts.token_base_program)
            } else {
                (&ctx.accounts.quote_mint, &ctx.accounts.quote_vault, &ctx.accounts.token_quote_program)
            };
            transfer_token_from_pool_authority(
                ctx.accounts.pool_authority.to_account_info(),
                mint,
                vault,
                referral.to_account_info(),
                program,
                swap_result_2.referral_fee,
            )?;
        }
    }
'''), (ix, '''    // validate if it is over threshold
    require!(
        !pool.is_curve_complete(config.migration_quote_threshold),
        PoolError::PoolIsCompleted
    );

    // update for dynamic fee reference
    let current_timestamp = Clock::get()?.unix_timestamp as u64;
''', '''    let current_timestamp = Clock::get()?.unix_timestamp as u64;
    if pool.quote_reserve >= config.migration_quote_threshold {
        return err!(PoolError::PoolIsCompleted);
    }
'''), (ix, '''    require!(amount_0 > 0, PoolError::AmountIsZero);

    let has_referral''', '''    if amount_0 == 0 {
        return Err(PoolError::AmountIsZero.into());
    }

    let has_referral'''))
S("completion in a helper", "C13", (ix, '''    if pool.is_curve_complete(config.migration_quote_threshold) {
        ctx.accounts.base_vault.reload()?;
        // validate if base reserve is enough token for migration
        let base_vault_balance = ctx.accounts.base_vault.amount;

        let required_base_balance = config
            .migration_base_threshold
            .safe_add(pool.get_protocol_and_trading_base_fee()?)?
            .safe_add(
                config
                    .locked_vesting_config
                    .to_locked_vesting_params()
                    .get_total_amount()?,
            )?;

        require!(
            base_vault_balance >= required_base_balance,
            PoolError::InsufficientLiquidityForMigration
        );

        // set finish time and migration progress
        pool.finish_curve_timestamp = current_timestamp;

        let locked_vesting_params = config.locked_vesting_config.to_locked_vesting_params();
        if locked_vesting_params.has_vesting() {
            pool.set_migration_progress(MigrationProgress::PostBondingCurve.into());
        } else {
            pool.set_migration_progress(MigrationProgress::LockedVesting.into());
        }
''', '''    if pool.is_curve_complete(config.migration_quote_threshold) {
        ctx.accounts.base_vault.reload()?;
        finish(&mut pool, &config, ctx.accounts.base_vault.amount, current_timestamp)?;
'''), (ix, '''pub fn validate_single_swap_instruction<'c, 'info>(''', '''fn finish(pool: &mut VirtualPool, config: &PoolConfig, balance: u64, now: u64) -> Result<()> {
    let vesting = config.locked_vesting_config.to_locked_vesting_params();
    let needed = vesting
        .get_total_amount()?
        .safe_add(pool.get_protocol_and_trading_base_fee()?)?
        .safe_add(config.migration_base_threshold)?;
    if balance < needed {
        return err!(PoolError::InsufficientLiquidityForMigration);
    }
    let next = match vesting.has_vesting() {
        true => MigrationProgress::PostBondingCurve,
        false => MigrationProgress::LockedVesting,
    };
    pool.set_migration_progress(next.into());
    pool.finish_curve_timestamp = now;
    Ok(())
}

pub fn validate_single_swap_instruction<'c, 'info>('''))
S("sibling loops", "C24", (ix, '''        let mut sibling_index = 0;
        while let Some(sibling_instruction) = get_processed_sibling_instruction(sibling_index) {
            if sibling_instruction.program_id == crate::ID {
                require!(
                    !is_instruction_include_pool_swap(&sibling_instruction, pool),
                    PoolError::FailToValidateSingleSwapInstruction
                );
            }

            sibling_index = sibling_index.safe_add(1)?;
        }
''', '''        let mut sibling_index = 0;
        loop {
            let sibling = match get_processed_sibling_instruction(sibling_index) {
                Some(sibling) => sibling,
                None => break,
            };
            if sibling.program_id == crate::ID && is_instruction_include_pool_swap(&sibling, pool) {
                return Err(PoolError::FailToValidateSingleSwapInstruction.into());
            }
            sibling_index += 1;
        }
'''), (ix, '''            for i in 0..instruction.accounts.len() {
                if instruction.accounts[i].pubkey.eq(pool) {
                    msg!("Multiple swaps not allowed");
                    return Err(PoolError::FailToValidateSingleSwapInstruction.into());
                }
            }
''', '''            let named = instruction.accounts.iter().any(|meta| meta.pubkey == *pool);
            require!(!named, PoolError::FailToValidateSingleSwapInstruction);
'''), (ix, '''    if current_index == 0 {
        // skip for first instruction
        return Ok(());
    }
    for i in 0..current_index {''', '''    for i in 0..current_index {'''), (ix, '''    let instruction_discriminator = &instruction.data[..8];
    if instruction_discriminator.eq(SwapInstruction::DISCRIMINATOR)
        || instruction_discriminator.eq(Swap2Instruction::DISCRIMINATOR)
    {
        return instruction.accounts[2].pubkey.eq(pool);
    }
    false''', '''    let disc = &instruction.data[..8];
    let swaps = disc.eq(Swap2Instruction::DISCRIMINATOR) || disc.eq(SwapInstruction::DISCRIMINATOR);
    swaps && instruction.accounts[2].pubkey == *pool'''))
S("exact modes", "C09", ("instructions/swap/swap_exact_in.rs", '''    require!(
        swap_result.output_amount >= minimum_amount_out,
        PoolError::ExceededSlippage
    );
''', '''    if minimum_amount_out > swap_result.output_amount {
        return err!(PoolError::ExceededSlippage);
    }
'''), ("instructions/swap/swap_exact_out.rs", '''    let included_fee_input_amount = swap_result.included_fee_input_amount;

    require!(
        included_fee_input_amount <= maximum_amount_in,
        PoolError::ExceededSlippage
    );

    Ok(ProcessSwapResult {
        swap_result,
        // For backward compatibility because we are emitting EvtSwap and EvtSwap2
        swap_in_parameters: SwapParameters {
            amount_in: included_fee_input_amount,
            minimum_amount_out: amount_out,
        },
    })''', '''    let swap_in_parameters = SwapParameters {
        amount_in: swap_result.included_fee_input_amount,
        minimum_amount_out: amount_out,
    };
    let affordable = swap_in_parameters.amount_in <= maximum_amount_in;
    require!(affordable, PoolError::ExceededSlippage);
    Ok(ProcessSwapResult { swap_in_parameters, swap_result })'''))
S("scheduler", "C25", (fs, '''        if self.period_frequency == 0 {
            return Ok(self.cliff_fee_numerator);
        }

        let period = current_point
            .safe_sub(activation_point)?
            .safe_div(self.period_frequency)?;

        self.get_base_fee_numerator_by_period(period)''', '''        match self.period_frequency {
            0 => Ok(self.cliff_fee_numerator),
            frequency => {
                let elapsed = current_point.safe_sub(activation_point)?;
                self.get_base_fee_numerator_by_period(elapsed / frequency)
            }
        }'''), (fs, '''                let fee_numerator = self
                    .cliff_fee_numerator
                    .safe_sub(self.reduction_factor.safe_mul(period)?)?;
                Ok(fee_numerator)''', '''                let fallen = period.safe_mul(self.reduction_factor)?;
                Ok(self.cliff_fee_numerator.safe_sub(fallen)?)'''), (fs, '''        let period = period.min(self.number_of_period.into());
''', '''        let last = u64::from(self.number_of_period);
        let period = if period < last { period } else { last };
'''))
S("rate limiter", "C25", (fr, '''        if self.is_zero_rate_limiter() {
            return Ok(false);
        }

        // only handle for the case quote to base and collect fee mode in quote token
        if trade_direction == TradeDirection::BaseToQuote {
            return Ok(false);
        }

        let last_effective_rate_limiter_point =
            u128::from(activation_point).safe_add(self.max_limiter_duration.into())?;
        if u128::from(current_point) > last_effective_rate_limiter_point {
            return Ok(false);
        }
        Ok(true)''', '''        let buying = trade_direction == TradeDirection::QuoteToBase;
        if buying && !self.is_zero_rate_limiter() {
            let end = u128::from(self.max_limiter_duration) + u128::from(activation_point);
            return Ok(u128::from(current_point) <= end);
        }
        Ok(false)'''), (fr, '''            let trading_fee_numerator = if a < max_index {
                let numerator_1 = c + c * a + i * a * (a + one) / two;
                let numerator_2 = c + i * (a + one);
                let first_fee = x0 * numerator_1;
                let second_fee = b * numerator_2;
                first_fee + second_fee
            } else {
                let numerator_1 = c + c * max_index + i * max_index * (max_index + one) / two;
                let numerator_2 = U256::from(MAX_FEE_NUMERATOR);
                let first_fee = x0 * numerator_1;

                let d = a - max_index;
                let left_amount = d * x0 + b;
                let second_fee = left_amount * numerator_2;
                first_fee + second_fee
            };
''', '''            let (steps, numerator_2, left) = if a < max_index {
                (a, c + i * (a + one), b)
            } else {
                (max_index, U256::from(MAX_FEE_NUMERATOR), (a - max_index) * x0 + b)
            };
            let numerator_1 = c + c * steps + i * steps * (steps + one) / two;
            let trading_fee_numerator = x0 * numerator_1 + left * numerator_2;
'''))
S("transfers share one instruction builder", "C01", (tok, '''    let signer_seeds = pool_authority_seeds!(BUMP);

    let instruction = spl_token_2022::instruction::transfer_checked(
        token_program.key,
        &token_vault.key(),
        &token_mint.key(),
        &token_owner_account.key(),
        &pool_authority.key(),
        &[],
        amount,
        token_mint.decimals,
    )?;

    let account_infos = vec![
        token_vault.to_account_info(),
        token_mint.to_account_info(),
        token_owner_account.to_account_info(),
        pool_authority.to_account_info(),
    ];

    invoke_signed(&instruction, &account_infos, &[&signer_seeds[..]])?;

    Ok(())''', '''    let vault = token_vault.to_account_info();
    let mint = token_mint.to_account_info();
    let instruction = spl_token_2022::instruction::transfer_checked(
        token_program.key,
        vault.key,
        mint.key,
        token_owner_account.key,
        pool_authority.key,
        &[],
        amount,
        token_mint.decimals,
    )?;
    let seeds = pool_authority_seeds!(BUMP);
    Ok(invoke_signed(
        &instruction,
        &[vault, mint, token_owner_account, pool_authority],
        &[&seeds[..]],
    )?)'''), (tok, '''    for e in extensions {
        if e != ExtensionType::MetadataPointer && e != ExtensionType::TokenMetadata {
            return Ok(false);
        }
    }
    Ok(true)''', '''    Ok(extensions
        .iter()
        .all(|e| *e == ExtensionType::TokenMetadata || *e == ExtensionType::MetadataPointer))'''), (tok, '''    pool.sub_lamports(lamports)?;
    to.add_lamports(lamports)?;

    let minimum_balance = Rent::get()?.minimum_balance(8 + VirtualPool::INIT_SPACE);

    require!(
        pool.get_lamports() >= minimum_balance,
        PoolError::InsufficientPoolLamports
    );

    Ok(())''', '''    let minimum_balance = Rent::get()?.minimum_balance(8 + VirtualPool::INIT_SPACE);
    to.add_lamports(lamports)?;
    pool.sub_lamports(lamports)?;
    if pool.get_lamports() < minimum_balance {
        return err!(PoolError::InsufficientPoolLamports);
    }
    Ok(())'''), (tok, '''    let minimum_balance = Rent::get()?.minimum_balance(account.data_len());
    let current_lamport = account.get_lamports();
    if minimum_balance > current_lamport {
        let extra_lamports = minimum_balance.safe_sub(current_lamport)?;
        invoke(
            &transfer(payer.key, account.key, extra_lamports),
            &[payer, account, system_program],
        )?;
    }

    Ok(())''', '''    let missing = Rent::get()?
        .minimum_balance(account.data_len())
        .saturating_sub(account.get_lamports());
    if missing == 0 {
        return Ok(());
    }
    let instruction = transfer(payer.key, account.key, missing);
    invoke(&instruction, &[payer, account, system_program])?;
    Ok(())'''), (tok, '''    let ata_address = get_associated_token_address_with_program_id(owner, mint, token_program_id);
    require!(ata_address.eq(token_account.key), PoolError::IncorrectATA);

    // validate owner
    let current_owner = accessor::authority(token_account)?;
    require!(current_owner.eq(owner), PoolError::IncorrectATA);
    Ok(())''', '''    let held = accessor::authority(token_account)? == *owner;
    let expected = get_associated_token_address_with_program_id(owner, mint, token_program_id);
    if held && expected == *token_account.key {
        Ok(())
    } else {
        err!(PoolError::IncorrectATA)
    }'''))
S("cpi checker", "C22", ("utils/cpi_checker.rs", '''    let after_lamports = account.lamports();
    let after_owner = *account.owner;
    let after_data_len = account.data_len();

    require!(
        after_lamports >= before_lamports,
        PoolError::AccountInvariantViolation
    );
    require!(
        before_owner.eq(&after_owner),
        PoolError::AccountInvariantViolation
    );
    require!(
        before_data_len == after_data_len,
        PoolError::AccountInvariantViolation
    );

    Ok(())''', '''    let intact = account.data_len() == before_data_len
        && *account.owner == before_owner
        && account.lamports() >= before_lamports;
    require!(intact, PoolError::AccountInvariantViolation);
    Ok(())'''))
S("point without match", "C25", ("utils/activation_handler.rs", '''    let current_point = match activation_type {
        ActivationType::Slot => Clock::get()?.slot,
        ActivationType::Timestamp => Clock::get()?.unix_timestamp as u64,
    };
    Ok(current_point)''', '''    let clock = Clock::get()?;
    if activation_type == ActivationType::Timestamp {
        return Ok(clock.unix_timestamp as u64);
    }
    Ok(clock.slot)'''))
ps = "instructions/partner/ix_withdraw_partner_surplus.rs"
S("surplus: effects first", "C12", (ps, '''    transfer_token_from_pool_authority(
        ctx.accounts.pool_authority.to_account_info(),
        &ctx.accounts.quote_mint,
        &ctx.accounts.quote_vault,
        ctx.accounts.token_quote_account.to_account_info(),
        &ctx.accounts.token_quote_program,
        partner_surplus_amount,
    )?;

    // update partner withdraw surplus
    pool.update_partner_withdraw_surplus();
''', '''    pool.is_partner_withdraw_surplus = true as u8;

    transfer_token_from_pool_authority(
        ctx.accounts.pool_authority.to_account_info(),
        &ctx.accounts.quote_mint,
        &ctx.accounts.quote_vault,
        ctx.accounts.token_quote_account.to_account_info(),
        &ctx.accounts.token_quote_program,
        partner_surplus_amount,
    )?;
'''))
S("leftover: checks grouped", "C11", ("instructions/migration/withdraw_leftover.rs", '''    require!(
        virtual_pool.get_migration_progress()? == MigrationProgress::CreatedPool,
        PoolError::NotPermitToDoThisAction
    );

    require!(
        config.is_fixed_token_supply(),
        PoolError::NotPermitToDoThisAction
    );
''', '''    let migrated = matches!(
        virtual_pool.get_migration_progress()?,
        MigrationProgress::CreatedPool
    );
    require!(
        config.is_fixed_token_supply() && migrated,
        PoolError::NotPermitToDoThisAction
    );
'''), ("instructions/migration/withdraw_leftover.rs", '''    let leftover_amount = ctx
        .accounts
        .base_vault
        .amount
        .safe_sub(virtual_pool.get_protocol_and_trading_base_fee()?)?
        .safe_sub(virtual_pool.protocol_migration_base_fee_amount)?;
''', '''    let owed = virtual_pool
        .protocol_migration_base_fee_amount
        .safe_add(virtual_pool.get_protocol_and_trading_base_fee()?)?;
    let leftover_amount = ctx.accounts.base_vault.amount.safe_sub(owed)?;
'''))
mf = "instructions/migration/ix_withdraw_migration_fee.rs"
S("migration fee: one path", "C12", (mf, '''    let fee = if sender_flag == SenderFlag::Partner {
        require!(
            ctx.accounts.sender.key() == config.fee_claimer,
            PoolError::NotPermitToDoThisAction
        );
        let mask = PARTNER_MIGRATION_FEE_MASK;
        // Ensure the partner has never been withdrawn
        require!(
            pool.eligible_to_withdraw_migration_fee(mask),
            PoolError::MigrationFeeHasBeenWithdraw
        );
        // update partner withdraw migration fee
        pool.update_withdraw_migration_fee(mask);
        partner_migration_fee
    } else {
        require!(
            ctx.accounts.sender.key() == pool.creator,
            PoolError::NotPermitToDoThisAction
        );
        let mask = CREATOR_MIGRATION_FEE_MASK;
        // Ensure the creator has never been withdrawn
        require!(
            pool.eligible_to_withdraw_migration_fee(mask),
            PoolError::MigrationFeeHasBeenWithdraw
        );
        // update creator withdraw migration fee
        pool.update_withdraw_migration_fee(mask);
        creator_migration_fee
    };
''', '''    let (entitled, mask, fee) = match sender_flag {
        SenderFlag::Creator => (pool.creator, CREATOR_MIGRATION_FEE_MASK, creator_migration_fee),
        SenderFlag::Partner => (config.fee_claimer, PARTNER_MIGRATION_FEE_MASK, partner_migration_fee),
    };
    require!(
        pool.eligible_to_withdraw_migration_fee(mask),
        PoolError::MigrationFeeHasBeenWithdraw
    );
    require_keys_eq!(
        ctx.accounts.sender.key(),
        entitled,
        PoolError::NotPermitToDoThisAction
    );
    pool.update_withdraw_migration_fee(mask);
'''))
pc = "instructions/operator/ix_claim_protocol_pool_creation_fee.rs"
S("creation fee: two parts", "C32", (pc, '''    let mut protocol_fee = if pool.eligible_to_claim_protocol_pool_creation_fee() {
        pool.update_protocol_pool_creation_fee_claimed();
        let (protocol_fee, _) = config.split_pool_creation_fee()?;
        protocol_fee
    } else {
        0
    };

    if pool.has_legacy_creation_fee() && pool.eligible_to_claim_legacy_creation_fee() {
        pool.update_legacy_creation_fee_claimed();
        protocol_fee =
            protocol_fee.safe_add(TOKEN_2022_POOL_WITH_OUTPUT_FEE_COLLECTION_CREATION_FEE)?;
    }
''', '''    let legacy = if pool.has_legacy_creation_fee() && pool.eligible_to_claim_legacy_creation_fee() {
        pool.update_legacy_creation_fee_claimed();
        TOKEN_2022_POOL_WITH_OUTPUT_FEE_COLLECTION_CREATION_FEE
    } else {
        0
    };
    let mut protocol_fee = legacy;
    if pool.eligible_to_claim_protocol_pool_creation_fee() {
        protocol_fee = protocol_fee.safe_add(config.split_pool_creation_fee()?.0)?;
        pool.update_protocol_pool_creation_fee_claimed();
    }
'''), (pc, "    if protocol_fee > 0 {\n", "    if protocol_fee != 0 {\n"))
tc = "instructions/creator/ix_transfer_pool_creator.rs"
S("hand-over: settled helper", "C05", (tc, '''                require!(
                    migration_metadata.partner_locked_liquidity == 0
                        || migration_metadata.is_partner_liquidity_locked(),
                    PoolError::NotPermitToDoThisAction
                );

                require!(
                    migration_metadata.creator_locked_liquidity == 0
                        || migration_metadata.is_creator_liquidity_locked(),
                    PoolError::NotPermitToDoThisAction
                );

                require!(
                    migration_metadata.creator_liquidity == 0
                        || migration_metadata.is_creator_claim_liquidity(),
                    PoolError::NotPermitToDoThisAction
                );
                require!(
                    migration_metadata.partner_liquidity == 0
                        || migration_metadata.is_partner_claim_liquidity(),
                    PoolError::NotPermitToDoThisAction
                );
''', '''                for (amount, done) in [
                    (
                        migration_metadata.partner_locked_liquidity,
                        migration_metadata.is_partner_liquidity_locked(),
                    ),
                    (
                        migration_metadata.creator_locked_liquidity,
                        migration_metadata.is_creator_liquidity_locked(),
                    ),
                    (
                        migration_metadata.creator_liquidity,
                        migration_metadata.is_creator_claim_liquidity(),
                    ),
                    (
                        migration_metadata.partner_liquidity,
                        migration_metadata.is_partner_claim_liquidity(),
                    ),
                ] {
                    if amount > 0 && !done {
                        return err!(PoolError::NotPermitToDoThisAction);
                    }
                }
'''), (tc, '''    match migration_progress {
        MigrationProgress::PreBondingCurve => {
            // always work
        }
        MigrationProgress::CreatedPool => {''', '''    if migration_progress == MigrationProgress::PostBondingCurve
        || migration_progress == MigrationProgress::LockedVesting
    {
        return Err(PoolError::NotPermitToDoThisAction.into());
    }
    match migration_progress {
        MigrationProgress::CreatedPool => {'''), (tc, '''        _ => return Err(PoolError::NotPermitToDoThisAction.into()),
''', '''        _ => {}
'''))
