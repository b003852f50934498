z = "instructions/operator/ix_zap_protocol_fee.rs"
c = "instructions/operator/ix_claim_protocol_fee.rs"
tk = "utils/token.rs"
vp = "state/virtual_pool.rs"
M("any owner", "C23", (tk, "    let current_owner = accessor::authority(token_account)?;\n    require!(current_owner.eq(owner), PoolError::IncorrectATA);\n", "    accessor::authority(token_account)?;\n"))
M("any account", "C23", (tk, "    require!(ata_address.eq(token_account.key), PoolError::IncorrectATA);\n", "    let _ = ata_address;\n"))
M("operator's account on claim", "C23", (c, "            &ctx.accounts.token_quote_account.to_account_info(),\n            &treasury::ID,", "            &ctx.accounts.token_quote_account.to_account_info(),\n            &ctx.accounts.signer.key(),"))
M("unchecked small claims", "C23", (c, "    if token_base_amount > 0 {\n        validate_ata_token(\n            &ctx.accounts.token_base_account.to_account_info(),\n            &treasury::ID,\n            &ctx.accounts.base_mint.key(),\n            &ctx.accounts.token_base_program.key(),\n        )?;", "    if token_base_amount > 0 {\n        if token_base_amount < max_base_amount { validate_ata_token(\n            &ctx.accounts.token_base_account.to_account_info(),\n            &treasury::ID,\n            &ctx.accounts.base_mint.key(),\n            &ctx.accounts.token_base_program.key(),\n        )?; }"))
M("checks the other account", "C23", (c, "            &ctx.accounts.token_quote_account.to_account_info(),\n            &treasury::ID,\n            &ctx.accounts.quote_mint.key(),\n            &ctx.accounts.token_quote_program.key(),", "            &ctx.accounts.token_base_account.to_account_info(),\n            &treasury::ID,\n            &ctx.accounts.base_mint.key(),\n            &ctx.accounts.token_base_program.key(),"))
M("zap of nothing", "C23", (z, "    require!(amount > 0, PoolError::AmountIsZero);\n", ""))
M("zap result ignored", "C23", (z, "    validate_zap_out_to_treasury(\n", "    let _ = validate_zap_out_to_treasury(\n"), (z, "    .map_err(|e| -> anchor_lang::error::Error { PoolError::from(e).into() })?;", "    ;"))
M("zap of restricted", "C23", (z, "    require!(\n        !MINTS_DISALLOWED_TO_ZAP_OUT.contains(&ctx.accounts.token_mint.key().to_bytes()),", "    require!(\n        !is_withdrawing_base || !MINTS_DISALLOWED_TO_ZAP_OUT.contains(&ctx.accounts.token_mint.key().to_bytes()),"))
M("restricted inverted receiver", "C23", (z, "MINTS_DISALLOWED_TO_ZAP_OUT.contains(&ctx.accounts.token_mint.key().to_bytes())", "MINTS_DISALLOWED_TO_ZAP_OUT.contains(&ctx.accounts.receiver_token.key().to_bytes())"))
M("zap asked about max", "C23", (z, "    validate_zap_out_to_treasury(\n        amount,", "    validate_zap_out_to_treasury(\n        max_amount,"))
M("zap same token back", "C23", (z, "            &treasury::ID,\n            &config.quote_mint,\n            &get_token_program_from_flag(config.quote_token_flag)?,", "            &treasury::ID,\n            &pool.base_mint,\n            &get_token_program_from_flag(pool.pool_type)?,"))
M("zap wrong flag", "C23", (z, "&get_token_program_from_flag(pool.pool_type)?,", "&get_token_program_from_flag(config.quote_token_flag)?,"))
M("zap to operator", "C23", (z, "        &ctx.accounts.sysvar_instructions.try_borrow_data()?,\n        &treasury::ID.to_bytes(),", "        &ctx.accounts.sysvar_instructions.try_borrow_data()?,\n        &ctx.accounts.signer.key().to_bytes(),"))
M("zap sysvar free", "C23", (z, "    #[account(\n        address = SYSVAR_IX_ID,\n    )]\n", "    #[account()]\n"))
M("vault free", "C23", (z, "            token_vault.key() == pool.quote_vault,", "            token_vault.key() == pool.quote_vault || token_vault.key() == pool.base_vault,"))
M("zap checked late", "C23", (z, "    validate_zap_out_to_treasury(\n        amount,\n        &crate::ID.to_bytes(),\n        &ctx.accounts.receiver_token.key().to_bytes(),\n        &ctx.accounts.receiver_token.try_borrow_data()?,\n        &ctx.accounts.sysvar_instructions.try_borrow_data()?,\n        &treasury::ID.to_bytes(),\n        &treasury_paired_destination_token_address.to_bytes(),\n    )\n    .map_err(|e| -> anchor_lang::error::Error { PoolError::from(e).into() })?;\n\n    transfer_token_from_pool_authority(\n        ctx.accounts.pool_authority.to_account_info(),\n        &ctx.accounts.token_mint,\n        &ctx.accounts.token_vault,\n        receiver_token_ai,\n        &ctx.accounts.token_program,\n        amount,\n    )?;\n", "    transfer_token_from_pool_authority(\n        ctx.accounts.pool_authority.to_account_info(),\n        &ctx.accounts.token_mint,\n        &ctx.accounts.token_vault,\n        receiver_token_ai,\n        &ctx.accounts.token_program,\n        amount,\n    )?;\n    validate_zap_out_to_treasury(\n        amount,\n        &crate::ID.to_bytes(),\n        &ctx.accounts.receiver_token.key().to_bytes(),\n        &ctx.accounts.receiver_token.try_borrow_data()?,\n        &ctx.accounts.sysvar_instructions.try_borrow_data()?,\n        &treasury::ID.to_bytes(),\n        &treasury_paired_destination_token_address.to_bytes(),\n    )\n    .map_err(|e| -> anchor_lang::error::Error { PoolError::from(e).into() })?;\n"))
M("flag 1 is classic", "C23", (tk, "        TokenProgramFlags::TokenProgram2022 => Ok(anchor_spl::token_2022::ID),", "        TokenProgramFlags::TokenProgram2022 => Ok(anchor_spl::token::ID),"))
S("error by match", "C23 C07", (z, "    .map_err(|e| -> anchor_lang::error::Error { PoolError::from(e).into() })?;", "    .map_err(|e| PoolError::from(e))?;"))
S("ata compared the other way", "C23", (tk, "    require!(ata_address.eq(token_account.key), PoolError::IncorrectATA);", "    if *token_account.key != ata_address {\n        return Err(PoolError::IncorrectATA.into());\n    }"))
S("mint bound once", "C23 C07", (z, "    let is_withdrawing_base = token_mint.key() == pool.base_mint;\n", "    let mint = token_mint.key();\n    let is_withdrawing_base = pool.base_mint == mint;\n"))
S("transfer before event", "C23 C07", (c, "    let config = ctx.accounts.config.load()?;\n    let token_quote_amount", "    let threshold = ctx.accounts.config.load()?.migration_quote_threshold;\n    let token_quote_amount"), (c, "max_quote_amount, config.migration_quote_threshold)?", "max_quote_amount, threshold)?"))
