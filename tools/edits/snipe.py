sw = "instructions/swap/ix_swap.rs"
fl = "base_fee/fee_rate_limiter.rs"
M("stack deeper", "C24", (sw, "if get_stack_height() > 2 {", "if get_stack_height() > 3 {"))
M("sibling only first", "C24", (sw, "while let Some(sibling_instruction) = get_processed_sibling_instruction(sibling_index) {", "if let Some(sibling_instruction) = get_processed_sibling_instruction(sibling_index) {"), (sw, "            sibling_index = sibling_index.safe_add(1)?;\n", ""), (sw, "let mut sibling_index = 0;", "let sibling_index = 0;"))
M("skip first ix", "C24", (sw, "    for i in 0..current_index {\n        let instruction = sysvar::instructions::load_instruction_at_checked(\n            i.into(),\n            instruction_sysvar_account_info,\n        )?;\n\n        if instruction.program_id != crate::ID {", "    for i in 1..current_index {\n        let instruction = sysvar::instructions::load_instruction_at_checked(\n            i.into(),\n            instruction_sysvar_account_info,\n        )?;\n\n        if instruction.program_id != crate::ID {"))
M("only swap2", "C24", (sw, "    if instruction_discriminator.eq(SwapInstruction::DISCRIMINATOR)\n        || instruction", "    if instruction"))
M("pool index", "C24", (sw, "instruction.accounts[2].pubkey.eq(pool)", "instruction.accounts[1].pubkey.eq(pool)"))
M("inner loop from one", "C24", (sw, "for i in 0..instruction.accounts.len() {", "for i in 1..instruction.accounts.len() {"))
M("limiter ends early", "C24", (fl, "u128::from(current_point) > last_effective_rate_limiter_point {\n            return Ok(false);\n        }\n        Ok(true)", "u128::from(current_point) >= last_effective_rate_limiter_point {\n            return Ok(false);\n        }\n        Ok(true)"))
M("limiter zero or", "C24", (fl, "self.reference_amount == 0 && self.max_limiter_duration == 0 && self.fee_increment_bps == 0", "self.reference_amount == 0 || self.max_limiter_duration == 0 || self.fee_increment_bps <= 100"))
M("any swap is first", "C24", (sw, "        && pool.is_first_swap()\n", ""))
M("referral allowed", "C24", (sw, "        referral_token_account.is_none(),", "        referral_token_account.is_none() || remaining_accounts.len() > 1,"))
M("init later", "C24", (sw, "    for i in 0..current_index {\n        let instruction = sysvar::instructions::load_instruction_at_checked(\n            i.into(),\n            instruction_sysvar_account_info,\n        )?;\n\n        if instruction.program_id == crate::ID {", "    for i in 0..=current_index {\n        let instruction = sysvar::instructions::load_instruction_at_checked(\n            i.into(),\n            instruction_sysvar_account_info,\n        )?;\n\n        if instruction.program_id == crate::ID {"))
M("cpi allowed", "C24", (sw, "        current_instruction.program_id.eq(&crate::ID),", "        current_instruction.program_id.eq(&crate::ID) || get_stack_height() > 1,"))
M("init pool index", "C24", (sw, "VIRTUAL_POOL_ACCOUNT_INDEX: usize = 5", "VIRTUAL_POOL_ACCOUNT_INDEX: usize = 3"))
M("never remembered", "C24", ("state/virtual_pool.rs", "self.has_swap = 1;", "self.has_swap = 0;")) 
M("sysvar unchecked", "C24", (sw, "    require!(\n        instruction_sysvar_account_info\n            .key\n            .eq(&sysvar::instructions::ID),\n        PoolError::UndeterminedError\n    );\n", ""))
M("sell limited instead", "C24", (fl, "trade_direction == TradeDirection::BaseToQuote {\n            return Ok(false);", "trade_direction == TradeDirection::QuoteToBase {\n            return Ok(false);"))
M("break instead of error", "C24", (sw, "                    msg!(\"Multiple swaps not allowed\");\n                    return Err(PoolError::FailToValidateSingleSwapInstruction.into());", "                    msg!(\"Multiple swaps not allowed\");\n                    break;"))
S("any", "C24", (sw, """            for i in 0..instruction.accounts.len() {
                if instruction.accounts[i].pubkey.eq(pool) {
                    msg!("Multiple swaps not allowed");
                    return Err(PoolError::FailToValidateSingleSwapInstruction.into());
                }
            }""", """            let named = instruction.accounts.iter().any(|a| a.pubkey == *pool);
            require!(!named, PoolError::FailToValidateSingleSwapInstruction);"""))
S("for account in", "C24", (sw, """            for i in 0..instruction.accounts.len() {
                if instruction.accounts[i].pubkey.eq(pool) {
                    msg!("Multiple swaps not allowed");
                    return Err(PoolError::FailToValidateSingleSwapInstruction.into());
                }
            }""", """            for account in instruction.accounts.iter() {
                require_keys_neq!(account.pubkey, *pool, PoolError::FailToValidateSingleSwapInstruction);
            }"""))
S("while loop", "C24", (sw, """    for i in 0..current_index {
        let instruction = sysvar::instructions::load_instruction_at_checked(
            i.into(),
            instruction_sysvar_account_info,
        )?;

        if instruction.program_id != crate::ID {""", """    let mut i = 0u16;
    while i < current_index {
        let instruction = sysvar::instructions::load_instruction_at_checked(
            i as usize,
            instruction_sysvar_account_info,
        )?;
        i += 1;

        if instruction.program_id != crate::ID {"""))
S("loop with match", "C24", (sw, """        let mut sibling_index = 0;
        while let Some(sibling_instruction) = get_processed_sibling_instruction(sibling_index) {
            if sibling_instruction.program_id == crate::ID {
                require!(
                    !is_instruction_include_pool_swap(&sibling_instruction, pool),
                    PoolError::FailToValidateSingleSwapInstruction
                );
            }

            sibling_index = sibling_index.safe_add(1)?;
        }""", """        let mut sibling_index = 0usize;
        loop {
            match get_processed_sibling_instruction(sibling_index) {
                Some(sibling) => {
                    if sibling.program_id == crate::ID
                        && is_instruction_include_pool_swap(&sibling, pool)
                    {
                        return err!(PoolError::FailToValidateSingleSwapInstruction);
                    }
                }
                None => break,
            }
            sibling_index = sibling_index.safe_add(1)?;
        }"""))
S("no early return", "C24", (sw, """    if current_index == 0 {
        // skip for first instruction
        return Ok(());
    }
""", ""))
S("helper for sibling", "C24", (sw, """        // check for any sibling instruction
        let mut sibling_index = 0;
        while let Some(sibling_instruction) = get_processed_sibling_instruction(sibling_index) {
            if sibling_instruction.program_id == crate::ID {
                require!(
                    !is_instruction_include_pool_swap(&sibling_instruction, pool),
                    PoolError::FailToValidateSingleSwapInstruction
                );
            }

            sibling_index = sibling_index.safe_add(1)?;
        }
""", "        check_siblings(pool)?;\n"), (sw, "fn is_instruction_include_pool_swap(", """fn check_siblings(pool: &Pubkey) -> Result<()> {
    for index in 0.. {
        let Some(sibling) = get_processed_sibling_instruction(index) else {
            break;
        };
        let same = sibling.program_id == crate::ID;
        require!(
            !(same && is_instruction_include_pool_swap(&sibling, pool)),
            PoolError::FailToValidateSingleSwapInstruction
        );
    }
    Ok(())
}

fn is_instruction_include_pool_swap("""))
S("init find", "C24", (sw, """            let disc = &instruction.data[..8];

            if disc.eq(InitializeVirtualPoolWithSplToken::DISCRIMINATOR)
                || disc.eq(InitializeVirtualPoolWithToken2022::DISCRIMINATOR)
            {
                const VIRTUAL_POOL_ACCOUNT_INDEX: usize = 5;
                let Some(account) = instruction.accounts.get(VIRTUAL_POOL_ACCOUNT_INDEX) else {
                    continue;
                };

                if account.pubkey.eq(pool) {
                    //pass
                    return Ok(());
                }
            }""", """            let disc = &instruction.data[..8];
            let is_init = disc.eq(InitializeVirtualPoolWithToken2022::DISCRIMINATOR)
                || disc.eq(InitializeVirtualPoolWithSplToken::DISCRIMINATOR);
            if is_init && matches!(instruction.accounts.get(5), Some(a) if a.pubkey == *pool) {
                return Ok(());
            }"""))
S("eligible by if", "C24", (sw, """    let eligible_for_first_swap_with_min_fee = config.is_first_swap_with_min_fee_enabled()
        && pool.is_first_swap()
        && validate_contain_initialize_pool_ix_and_no_cpi(
            &ctx.accounts.pool.key(),
            &ctx.accounts.referral_token_account,
            ctx.remaining_accounts,
        )
        .is_ok();""", """    let mut eligible_for_first_swap_with_min_fee = false;
    if pool.is_first_swap() && config.is_first_swap_with_min_fee_enabled() {
        let checked = validate_contain_initialize_pool_ix_and_no_cpi(
            &ctx.accounts.pool.key(),
            &ctx.accounts.referral_token_account,
            ctx.remaining_accounts,
        );
        eligible_for_first_swap_with_min_fee = checked.is_ok();
    }"""))
