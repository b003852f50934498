ix = "instructions/swap/ix_swap.rs"
ei = "instructions/swap/swap_exact_in.rs"
eo = "instructions/swap/swap_exact_out.rs"
pf = "instructions/swap/swap_partial_fill.rs"
vp = "state/virtual_pool.rs"
fee = "state/fee.rs"
M("input amount excludes fee", "C10", (ix, "        input_program,\n        swap_result_2.included_fee_input_amount,", "        input_program,\n        swap_result_2.excluded_fee_input_amount,"))
M("referral from wrong vault", "C10", (ix, '''        if fee_mode.fees_on_base_token {
            transfer_token_from_pool_authority(''', '''        if fee_mode.fees_on_input {
            transfer_token_from_pool_authority('''))
M("point ignores type", "C10", (ix, "let current_point = get_current_point(config.activation_type)?;", "let current_point = get_current_point(config.migrated_pool_fee_bps.min(1) as u8)?;"))
M("completion check before transfer amounts", "C13", (ix, "            ctx.accounts.base_vault.reload()?;\n", ""), )
M("completion check omits creator fee", "C13", (vp, '''    pub fn get_protocol_and_trading_base_fee(&self) -> Result<u64> {
        Ok(self
            .partner_base_fee
            .safe_add(self.protocol_base_fee)?
            .safe_add(self.creator_base_fee)?)''', '''    pub fn get_protocol_and_trading_base_fee(&self) -> Result<u64> {
        Ok(self
            .partner_base_fee
            .safe_add(self.protocol_base_fee)?)'''))
M("update refs after", "C26", (ix, '''    pool.update_pre_swap(&config, current_timestamp)?;

''', ""), (ix, '''    let swap_result = swap_result_2.get_swap_result();
''', '''    let swap_result = swap_result_2.get_swap_result();
    pool.update_pre_swap(&config, current_timestamp)?;
'''))
M("filter strict", "C26", (fee, "if elapsed >= dynamic_fee_config.filter_period as u64", "if elapsed > dynamic_fee_config.filter_period as u64"))
M("acc from accumulator", "C26", (fee, '''            .volatility_reference
            .safe_add(delta_price''', '''            .volatility_accumulator
            .safe_add(delta_price'''))
M("completion uses input", "C13", (ix, "if pool.is_curve_complete(config.migration_quote_threshold) {\n        ctx", "if pool.quote_reserve > config.migration_quote_threshold {\n        ctx"))
S("hoist key and reorder", "C10 C11 C13 C26", (ix, '''    let has_referral = ctx.accounts.referral_token_account.is_some();

    let config = ctx.accounts.config.load()?;
    let mut pool = ctx.accounts.pool.load_mut()?;
''', '''    let config = ctx.accounts.config.load()?;
    let mut pool = ctx.accounts.pool.load_mut()?;
    let has_referral = ctx.accounts.referral_token_account.as_ref().is_some();
'''))
S("completion helper", "C10 C11 C13 C26", (ix, '''        // set finish time and migration progress
        pool.finish_curve_timestamp = current_timestamp;

        let locked_vesting_params = config.locked_vesting_config.to_locked_vesting_params();
        if locked_vesting_params.has_vesting() {
            pool.set_migration_progress(MigrationProgress::PostBondingCurve.into());
        } else {
            pool.set_migration_progress(MigrationProgress::LockedVesting.into());
        }
''', '''        finish(&mut pool, &config, current_timestamp);
'''), (ix, '''pub fn validate_single_swap_instruction<''', '''fn finish(pool: &mut VirtualPool, config: &PoolConfig, now: u64) {
    let vested = config.locked_vesting_config.to_locked_vesting_params().has_vesting();
    let next = if vested {
        MigrationProgress::PostBondingCurve
    } else {
        MigrationProgress::LockedVesting
    };
    pool.set_migration_progress(next.into());
    pool.finish_curve_timestamp = now;
}

pub fn validate_single_swap_instruction<'''))
S("referral transfer merged", "C10 C11 C13 C26", (ix, '''        if fee_mode.fees_on_base_token {
            transfer_token_from_pool_authority(
                ctx.accounts.pool_authority.to_account_info(),
                &ctx.accounts.base_mint,
                &ctx.accounts.base_vault,
                referral_token_account.to_account_info(),
                &ctx.accounts.token_base_program,
                swap_result.referral_fee,
            )?;
        } else {
            transfer_token_from_pool_authority(
                ctx.accounts.pool_authority.to_account_info(),
                &ctx.accounts.quote_mint,
                &ctx.accounts.quote_vault,
                referral_token_account.to_account_info(),
                &ctx.accounts.token_quote_program,
                swap_result.referral_fee,
            )?;
        }
''', '''        let (fee_mint, fee_vault, fee_program) = if fee_mode.fees_on_base_token {
            (
                &ctx.accounts.base_mint,
                &ctx.accounts.base_vault,
                &ctx.accounts.token_base_program,
            )
        } else {
            (
                &ctx.accounts.quote_mint,
                &ctx.accounts.quote_vault,
                &ctx.accounts.token_quote_program,
            )
        };
        transfer_token_from_pool_authority(
            ctx.accounts.pool_authority.to_account_info(),
            fee_mint,
            fee_vault,
            referral_token_account.to_account_info(),
            fee_program,
            swap_result.referral_fee,
        )?;
'''))
